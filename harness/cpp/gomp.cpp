// A plain OpenMP runtime for finding data races.
//
// ThreadSanitizer does not see the synchronisation inside libgomp and would
// report races that are none.  Here every parallel region starts threads of
// its own and joins them, with nothing but POSIX calls (which it does see)
// between the threads, and work is shared through atomics it does not see,
// so that exactly the ordering OpenMP guarantees is visible to it.
// Compiled without -fsanitize=thread, and linked in place of libgomp.
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace {

struct Share {              // one work-sharing construct of a team
  int state = 0;            // 0 unused, 1 being set up, 2 ready
  long next = 0, end = 0, incr = 1, chunk = 1;
  unsigned long unext = 0;
};

const int SHARES = 1 << 14;

struct Team {
  int size;
  pthread_barrier_t barrier;
  Share* shares;
  void (*fn)(void*);
  void* data;
};

thread_local Team* team = nullptr;
thread_local int rank = 0;
thread_local int nshare = 0;
thread_local Share* cur = nullptr;
int asked = 0;
pthread_mutex_t critical = PTHREAD_MUTEX_INITIALIZER;
pthread_mutex_t atomic_ = PTHREAD_MUTEX_INITIALIZER;
pthread_mutex_t names = PTHREAD_MUTEX_INITIALIZER;

int wanted() {
  int n = __atomic_load_n(&asked, __ATOMIC_RELAXED);
  if (n < 1) {
    const char* e = getenv("OMP_NUM_THREADS");
    n = e ? atoi(e) : 0;
  }
  return n < 1 ? 2 : n > 64 ? 64 : n;
}

struct Start { Team* team; int rank; };

void enter(Team* t, int r) {
  team = t; rank = r; nshare = 0; cur = nullptr;
  t->fn(t->data);
}

void* member(void* arg) {
  Start* s = static_cast<Start*>(arg);
  enter(s->team, s->rank);
  return nullptr;
}

void region(void (*fn)(void*), void* data, unsigned n, const Share* first) {
  Team* old_team = team;
  int old_rank = rank, old_n = nshare;
  Share* old_cur = cur;
  Team t;
  t.size = old_team ? 1 : n ? int(n) : wanted();   // no nesting
  t.fn = fn; t.data = data;
  pthread_barrier_init(&t.barrier, nullptr, t.size);
  t.shares = static_cast<Share*>(calloc(SHARES, sizeof(Share)));
  if (first) { t.shares[0] = *first; t.shares[0].state = 2; }
  std::vector<pthread_t> ids(t.size);
  std::vector<Start> starts(t.size);
  for (int i = 1; i < t.size; i++) {
    starts[i] = {&t, i};
    if (pthread_create(&ids[i], nullptr, member, &starts[i])) abort();
  }
  enter(&t, 0);
  for (int i = 1; i < t.size; i++) pthread_join(ids[i], nullptr);
  pthread_barrier_destroy(&t.barrier);
  free(t.shares);
  team = old_team; rank = old_rank; nshare = old_n; cur = old_cur;
}

void barrier() {
  if (team && team->size > 1) pthread_barrier_wait(&team->barrier);
}

// Take up the next work-sharing construct; true for the first to come.
bool take_up() {
  static thread_local Share alone;
  if (!team) { alone = Share(); cur = &alone; return true; }
  if (nshare >= SHARES) abort();
  cur = &team->shares[nshare++];
  int none = 0;
  if (__atomic_compare_exchange_n(&cur->state, &none, 1, false,
                                  __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE))
    return true;
  while (__atomic_load_n(&cur->state, __ATOMIC_ACQUIRE) != 2) usleep(1);
  return false;
}

void ready() { __atomic_store_n(&cur->state, 2, __ATOMIC_RELEASE); }

bool more(long* lo, long* hi) {
  long step = cur->chunk*cur->incr;
  long at = __atomic_fetch_add(&cur->next, step, __ATOMIC_RELAXED);
  if (cur->incr > 0 ? at >= cur->end : at <= cur->end) return false;
  *lo = at; *hi = at + step;
  if (cur->incr > 0 ? *hi > cur->end : *hi < cur->end) *hi = cur->end;
  return true;
}

bool begin(long start, long end, long incr, long chunk, long* lo, long* hi) {
  if (take_up()) {
    cur->next = start; cur->end = end; cur->incr = incr;
    cur->chunk = chunk < 1 ? 1 : chunk;
    ready();
  }
  return more(lo, hi);
}

bool umore(unsigned long long* lo, unsigned long long* hi) {
  long a, b;
  if (!more(&a, &b)) return false;
  *lo = a; *hi = b;
  return true;
}

}  // namespace

extern "C" {

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) {
  region(fn, data, n, nullptr);
}
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n,
                                  unsigned) {
  region(fn, data, n, nullptr);
  return n;
}
void GOMP_barrier() { barrier(); }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
void GOMP_critical_start() { pthread_mutex_lock(&critical); }
void GOMP_critical_end() { pthread_mutex_unlock(&critical); }
void GOMP_critical_name_start(void** p) {
  pthread_mutex_lock(&names);
  if (!*p) {
    pthread_mutex_t* m = new pthread_mutex_t;
    pthread_mutex_init(m, nullptr);
    *p = m;
  }
  pthread_mutex_unlock(&names);
  pthread_mutex_lock(static_cast<pthread_mutex_t*>(*p));
}
void GOMP_critical_name_end(void** p) {
  pthread_mutex_unlock(static_cast<pthread_mutex_t*>(*p));
}
void GOMP_atomic_start() { pthread_mutex_lock(&atomic_); }
void GOMP_atomic_end() { pthread_mutex_unlock(&atomic_); }
bool GOMP_single_start() {
  bool first = take_up();
  if (first) ready();
  return first;
}
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}

#define LOOP(KIND) \
  bool GOMP_loop_##KIND##_start(long a, long b, long c, long d, long* lo, \
                                long* hi) { \
    return begin(a, b, c, d, lo, hi); } \
  bool GOMP_loop_##KIND##_next(long* lo, long* hi) { return more(lo, hi); } \
  bool GOMP_loop_ull_##KIND##_start( \
      bool up, unsigned long long a, unsigned long long b, \
      unsigned long long c, unsigned long long d, unsigned long long* lo, \
      unsigned long long* hi) { \
    long l, h; (void)up; \
    if (!begin(long(a), long(b), long(c), long(d), &l, &h)) return false; \
    *lo = l; *hi = h; return true; } \
  bool GOMP_loop_ull_##KIND##_next(unsigned long long* lo, \
                                   unsigned long long* hi) { \
    return umore(lo, hi); } \
  void GOMP_parallel_loop_##KIND(void (*fn)(void*), void* data, unsigned n, \
                                 long a, long b, long c, long d, unsigned) { \
    Share s; s.next = a; s.end = b; s.incr = c; s.chunk = d < 1 ? 1 : d; \
    region(fn, data, n, &s); }
LOOP(dynamic) LOOP(guided) LOOP(static)
LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#undef LOOP
#define LOOP(KIND) \
  bool GOMP_loop_##KIND##_start(long a, long b, long c, long* lo, long* hi) { \
    return begin(a, b, c, 1, lo, hi); } \
  bool GOMP_loop_##KIND##_next(long* lo, long* hi) { return more(lo, hi); } \
  void GOMP_parallel_loop_##KIND(void (*fn)(void*), void* data, unsigned n, \
                                 long a, long b, long c, unsigned) { \
    Share s; s.next = a; s.end = b; s.incr = c; \
    region(fn, data, n, &s); }
LOOP(runtime) LOOP(nonmonotonic_runtime) LOOP(maybe_nonmonotonic_runtime)

static bool section(unsigned* out) {
  long lo, hi;
  if (!more(&lo, &hi)) return false;
  *out = unsigned(lo);
  return true;
}
unsigned GOMP_sections_start(unsigned n) {
  if (take_up()) { cur->next = 1; cur->end = long(n) + 1; ready(); }
  unsigned i;
  return section(&i) ? i : 0;
}
unsigned GOMP_sections_next() { unsigned i; return section(&i) ? i : 0; }
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n,
                            unsigned count, unsigned) {
  Share s; s.next = 1; s.end = long(count) + 1;
  region(fn, data, n, &s);
}
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}

// Tasks are run at once, by the thread that makes them.
void GOMP_task(void (*fn)(void*), void* data, void (*copy)(void*, void*),
               long size, long align, bool, unsigned, void**, int, void*) {
  if (!copy) { fn(data); return; }
  char* raw = static_cast<char*>(malloc(size + align));
  char* at = raw + (align - reinterpret_cast<unsigned long>(raw) % align)
    % align;
  copy(at, data);
  fn(at);
  free(raw);
}
void GOMP_taskwait() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}

int omp_get_thread_num() { return team ? rank : 0; }
int omp_get_num_threads() { return team ? team->size : 1; }
int omp_get_max_threads() { return wanted(); }
int omp_get_num_procs() { return wanted(); }
int omp_get_thread_limit() { return 64; }
int omp_get_level() { return team ? 1 : 0; }
int omp_in_parallel() { return team && team->size > 1; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
int omp_get_nested() { return 0; }
void omp_set_nested(int) {}
int omp_get_max_active_levels() { return 1; }
void omp_set_max_active_levels(int) {}
void omp_set_num_threads(int n) {
  __atomic_store_n(&asked, n, __ATOMIC_RELAXED);
}
double omp_get_wtime() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9*t.tv_nsec;
}
double omp_get_wtick() { return 1e-9; }
typedef int Lock;           // as large as omp_lock_t is
static pthread_mutex_t locks[4096];
static int nlocks = 0;
void omp_init_lock(Lock* l) {
  *l = __atomic_fetch_add(&nlocks, 1, __ATOMIC_RELAXED);
  if (*l >= 4096) abort();
  pthread_mutex_init(&locks[*l], nullptr);
}
void omp_destroy_lock(Lock* l) { pthread_mutex_destroy(&locks[*l]); }
void omp_set_lock(Lock* l) { pthread_mutex_lock(&locks[*l]); }
void omp_unset_lock(Lock* l) { pthread_mutex_unlock(&locks[*l]); }
int omp_test_lock(Lock* l) { return pthread_mutex_trylock(&locks[*l]) == 0; }

}  // extern "C"
