// C interface to the public C++ library, for the property checks.
// Every function returns 0, or a negative number after an exception; the
// text of the last exception is kept.
#include <cstring>
#include <complex>
#include <stdexcept>
#include <string>
#include <vector>

#include "arrayops.hpp"
#include "fftlog.hpp"
#include "maths.hpp"
#include "monitor.hpp"
#include "parameters.hpp"
#include "particles.hpp"

static thread_local std::string last_error;

#define GUARD(...)                                                       \
  try {__VA_ARGS__; return 0;}                                           \
  catch (std::exception& e) {last_error = e.what(); return -1;}          \
  catch (...) {last_error = "unknown"; return -2;}

typedef trv::ParticleCatalogue Cat;

extern "C" {

const char* drv_error() {return last_error.c_str();}

void* drv_cat_new() {return new Cat(60);}
void drv_cat_free(void* h) {delete static_cast<Cat*>(h);}

int drv_cat_load(void* h, int n, const double* d) {
  GUARD({
    std::vector<double> c[6];
    for (int i = 0; i < 6; i++) {c[i].assign(d + i*n, d + (i + 1)*n);}
    static_cast<Cat*>(h)->load_particle_data(
      c[0], c[1], c[2], c[3], c[4], c[5]);
  })
}

int drv_cat_file(void* h, const char* path, const char* cols, double vol) {
  GUARD(static_cast<Cat*>(h)->load_catalogue_file(path, cols, "", vol);)
}

int drv_cat_size(void* h) {return static_cast<Cat*>(h)->ntotal;}

// rows of x, y, z, nz, ws, wc, w
void drv_cat_get(void* h, double* out) {
  Cat& c = *static_cast<Cat*>(h);
  for (int i = 0; i < c.ntotal; i++) {
    const trv::ParticleData& p = c[i];
    double row[7] = {p.pos[0], p.pos[1], p.pos[2], p.nz, p.ws, p.wc, p.w};
    std::memcpy(out + 7*i, row, sizeof(row));
  }
}

// wtotal, wstotal, min[3], max[3], span[3]
void drv_cat_attrs(void* h, double* out) {
  Cat& c = *static_cast<Cat*>(h);
  out[0] = c.wtotal; out[1] = c.wstotal;
  for (int i = 0; i < 3; i++) {
    out[2 + i] = c.pos_min[i];
    out[5 + i] = c.pos_max[i];
    out[8 + i] = c.pos_span[i];
  }
}

int drv_cat_offset(void* h, const double* d) {
  GUARD(static_cast<Cat*>(h)->offset_coords(d);)
}
int drv_cat_period(void* h, const double* box) {
  GUARD(static_cast<Cat*>(h)->offset_coords_for_periodicity(box);)
}
int drv_cat_centre(void* h, void* ref, const double* box) {
  GUARD({
    Cat& c = *static_cast<Cat*>(h);
    if (ref) {Cat::centre_in_box(c, *static_cast<Cat*>(ref), box);}
    else {Cat::centre_in_box(c, box);}
  })
}
int drv_cat_pad(void* h, void* ref, const double* box, const double* pad) {
  GUARD({
    Cat& c = *static_cast<Cat*>(h);
    if (ref) {Cat::pad_in_box(c, *static_cast<Cat*>(ref), box, pad);}
    else {Cat::pad_in_box(c, box, pad);}
  })
}
int drv_cat_padgrid(
  void* h, void* ref, const double* box, const int* ngrid, const double* pad
) {
  GUARD({
    Cat& c = *static_cast<Cat*>(h);
    if (ref) {Cat::pad_grids(c, *static_cast<Cat*>(ref), box, ngrid, pad);}
    else {Cat::pad_grids(c, box, ngrid, pad);}
  })
}

// -- mathematics ---------------------------------------------------------

int drv_wigner(const int* j, double* out) {
  GUARD(*out = trv::maths::wigner_3j(j[0], j[1], j[2], j[3], j[4], j[5]);)
}
int drv_ylm(int ell, int m, const double* pos, double* out) {
  GUARD({
    double p[3] = {pos[0], pos[1], pos[2]};
    std::complex<double> y = trv::maths::SphericalHarmonicCalculator
      ::calc_reduced_spherical_harmonic(ell, m, p);
    out[0] = y.real(); out[1] = y.imag();
  })
}
int drv_ylm_mesh(int ell, int m, const double* box, const int* ngrid,
                 int space, double* out) {
  GUARD({
    std::size_t n = (std::size_t) ngrid[0]*ngrid[1]*ngrid[2];
    std::vector< std::complex<double> > y(n);
    if (space) {
      trv::maths::SphericalHarmonicCalculator::
        store_reduced_spherical_harmonic_in_config_space(
          ell, m, box, ngrid, y);
    } else {
      trv::maths::SphericalHarmonicCalculator::
        store_reduced_spherical_harmonic_in_fourier_space(
          ell, m, box, ngrid, y);
    }
    for (std::size_t i = 0; i < n; i++) {
      out[2*i] = y[i].real(); out[2*i + 1] = y[i].imag();
    }
  })
}
int drv_sjl(int ell, int n, const double* x, double* out) {
  GUARD({
    trv::maths::SphericalBesselCalculator a(ell);
    trv::maths::SphericalBesselCalculator b(a);
    for (int i = 0; i < n; i++) {out[i] = (i % 2) ? b.eval(x[i]) : a.eval(x[i]);}
  })
}
int drv_gamma(double re, double im, double* out) {
  GUARD({
    std::complex<double> g = trv::maths::eval_gamma_lanczos(
      std::complex<double>(re, im));
    out[0] = g.real(); out[1] = g.imag();
    trv::maths::get_lngamma_parts(re, im, out[2], out[3]);
  })
}
int drv_gamma_ratio(double mu, double re, double im, double* out) {
  GUARD({
    std::complex<double> g = trv::maths::eval_gamma_lnratio(
      mu, std::complex<double>(re, im));
    out[0] = g.real(); out[1] = g.imag();
  })
}

// -- arrays ----------------------------------------------------------------

int drv_extrap(int option, int n, const double* a, int next, double lo,
               double hi, double* out) {
  GUARD({
    std::vector<double> v(a, a + n), e;
    if (option == 1) {trv::array::extrap_lin(v, next, e);}
    else if (option == 2) {trv::array::extrap_loglin(v, next, e);}
    else {trv::array::extrap_pad(v, next, lo, hi, e);}
    if ((int) e.size() != n + 2*next) {
      throw std::length_error("length " + std::to_string(e.size()));
    }
    std::memcpy(out, e.data(), e.size()*sizeof(double));
  })
}
int drv_check(int n, const double* a, int lin, int loglin, int sign) {
  std::vector<double> v(a, a + n);
  return trv::array::check_1d_array(v, lin, loglin, sign);
}
int drv_argsort(int n, const int* a, int* out) {
  GUARD({
    std::vector<int> v(a, a + n);
    std::vector<int> i = trv::array::get_sorted_indices(v);
    if ((int) i.size() != n) {throw std::length_error("length");}
    std::memcpy(out, i.data(), n*sizeof(int));
  })
}

// -- transforms ------------------------------------------------------------

// dir 0: biased transform; otherwise that of a cosmological multipole.
// The transform is applied twice with the same object.
int drv_sbt(int ell, int bias, int n, const double* pts, double pivot,
            int lowring, int extrap, double expansion, int dir, int na,
            const double* a, int nb, double* out, double* post,
            double* info) {
  GUARD({
    trv::maths::SphericalBesselTransform t(ell, bias, false);
    std::vector<double> other(n + 2);  // an earlier use of the same object
    for (int i = 0; i < n + 2; i++) {other[i] = std::exp2(i/4.);}
    t.initialise(other, 1., true, 0, 2.);
    t.initialise(std::vector<double>(pts, pts + n), pivot, (bool) lowring,
                 extrap, expansion);
    std::vector< std::complex<double> > va(na), vb(nb);
    for (int i = 0; i < na; i++) {
      va[i] = std::complex<double>(a[2*i], a[2*i + 1]);
    }
    for (int k = 0; k < 2; k++) {
      if (dir == 0) {t.biased_transform(va, vb);}
      else {t.transform_cosmological_multipole(dir, va, vb);}
    }
    if ((int) vb.size() != n) {
      throw std::length_error("length " + std::to_string(vb.size()));
    }
    for (int i = 0; i < n; i++) {
      out[2*i] = vb[i].real(); out[2*i + 1] = vb[i].imag();
      post[i] = t.post_sampts[i];
    }
    for (int i = 0; i < na; i++) {
      if (va[i] != std::complex<double>(a[2*i], a[2*i + 1])) {
        throw std::logic_error("input altered");
      }
    }
    info[0] = t.pivot; info[1] = t.logres; info[2] = t.nsamp_trans;
  })
}

// Read a parameter file, print it, print a copy of it, and print what is
// read back from the first print-out.
int drv_params(const char* in, const char* out, const char* copy,
               const char* back, int what) {
  GUARD({
    trv::ParameterSet p;
    p.read_from_file(const_cast<char*>(in));
    p.print_to_file(const_cast<char*>(out));
    if (what & 1) {p.validate();}
    trv::ParameterSet q(p);
    q.print_to_file(const_cast<char*>(copy));
    trv::ParameterSet r;
    r.read_from_file(const_cast<char*>(out));
    r.print_to_file(const_cast<char*>(back));
  })
}

// -- logs and progress bars --------------------------------------------------

// how 0: the function of the level; 1: the level; 2: the level as a number
int drv_log(int limit, int n, const int* how, const int* level,
            const char** text, const int* number) {
  GUARD({
    trv::sys::Logger logger(limit);
    logger.reset_level(limit);
    for (int i = 0; i < n; i++) {
      const char* fmt = "%s|%d";
      if (how[i] == 1) {
        logger.log(static_cast<trv::sys::LogLevel>(level[i]), fmt, text[i],
                   number[i]);
      } else
      if (how[i] == 2) {logger.log(level[i], fmt, text[i], number[i]);}
      else if (level[i] == 10) {logger.debug(fmt, text[i], number[i]);}
      else if (level[i] == 20) {logger.stat(fmt, text[i], number[i]);}
      else if (level[i] == 30) {logger.info(fmt, text[i], number[i]);}
      else if (level[i] == 40) {logger.warn(fmt, text[i], number[i]);}
      else {logger.error(fmt, text[i], number[i]);}
    }
  })
}
int drv_bar(int count, const char* name, const char* interval, int n,
            const int* index) {
  GUARD({
    trv::sys::ProgressBar bar(count, name);
    if (interval[0]) {bar.set_nodes(trv::sys::set_nodes_by_str(interval));}
    for (int i = 0; i < n; i++) {bar.update(index[i]);}
  })
}
int drv_elapsed(double t, char* out) {
  GUARD(std::strcpy(out, trv::sys::show_elapsed_time(t).c_str());)
}

}
