// Lets ThreadSanitizer see what library calls do to shared objects: looking
// up an interpolant writes to its accelerator.  Compiled with
// -fsanitize=thread; the linker sends the calls here (--wrap).
#include <gsl/gsl_interp.h>
#include <gsl/gsl_spline.h>

static void touch(gsl_interp_accel* accel) {
  if (accel) {
    volatile size_t* cache = &accel->cache;
    *cache = *cache;
  }
}

extern "C" {

double __real_gsl_spline_eval(const gsl_spline*, double, gsl_interp_accel*);
double __wrap_gsl_spline_eval(const gsl_spline* s, double x,
                              gsl_interp_accel* a) {
  touch(a);
  return __real_gsl_spline_eval(s, x, a);
}
int __real_gsl_spline_eval_e(const gsl_spline*, double, gsl_interp_accel*,
                             double*);
int __wrap_gsl_spline_eval_e(const gsl_spline* s, double x,
                             gsl_interp_accel* a, double* y) {
  touch(a);
  return __real_gsl_spline_eval_e(s, x, a, y);
}
double __real_gsl_interp_eval(const gsl_interp*, const double*, const double*,
                              double, gsl_interp_accel*);
double __wrap_gsl_interp_eval(const gsl_interp* i, const double* xs,
                              const double* ys, double x,
                              gsl_interp_accel* a) {
  touch(a);
  return __real_gsl_interp_eval(i, xs, ys, x, a);
}

}
