#include <cstdarg>
#include <fcntl.h>
#include <errno.h>
#include <unistd.h>
#include <string.h>
// Link-time seams (ld --wrap): allocation, APR threads/mutexes/conditions/time/dso,
// C++ static-init guards, time(). Only references from the code linked into the
// simulator go through here.
#include "sim.hpp"
#include "internal.hpp"
#include "wraps.hpp"
#include <apr_errno.h>
#include <apr_pools.h>
#include <apr_strings.h>
#include <apr_thread_cond.h>
#include <apr_thread_mutex.h>
#include <apr_thread_proc.h>
#include <apr_portable.h>
#include <apr_dso.h>
#include <apr_time.h>
#include <cstdlib>
#include <map>
#include <pthread.h>
#include <cstring>
#include <new>
#include <time.h>

using namespace sim;

extern "C" {
// ---------------------------------------------------------------- operator new
void *__real__Znwm(size_t);
void *__real__Znam(size_t);
void *__wrap__Znwm(size_t n) {
  if (__builtin_expect(alloc_should_fail(n), 0)) throw std::bad_alloc();
  return __real__Znwm(n);
}
void *__wrap__Znam(size_t n) {
  if (__builtin_expect(alloc_should_fail(n), 0)) throw std::bad_alloc();
  return __real__Znam(n);
}

// ---------------------------------------------------------------- static guards
int __real___cxa_guard_acquire(uint64_t *g);
int __wrap___cxa_guard_acquire(uint64_t *g) {
  char *b = (char *)g;
  if (b[0]) return 0;
  if (!R.inChild) { b[1] = 1; return 1; }
  Harness h;
  while (b[1]) {
    count("probe.static_init_contention");
    block_on(g, "static-init");
    if (b[0]) return 0;
  }
  b[1] = 1;
  return 1;
}
void __wrap___cxa_guard_release(uint64_t *g) {
  ((char *)g)[0] = 1;
  ((char *)g)[1] = 0;
  if (R.inChild) { Harness h; wake_all(g); }
}
void __wrap___cxa_guard_abort(uint64_t *g) {
  ((char *)g)[1] = 0;
  if (R.inChild) { Harness h; wake_all(g); }
}

// ---------------------------------------------------------------- time
time_t __real_time(time_t *);
time_t __wrap_time(time_t *t) {
  time_t v = R.inChild ? (time_t)(wall_us() / 1000000) : (time_t)1700000000;
  if (t) *t = v;
  return v;
}
apr_time_t __wrap_apr_time_now(void) { return R.inChild ? wall_us() : 1700000000000000ll; }
void __wrap_apr_sleep(apr_interval_time_t t) {
  Harness h;
  sleep_us(t > 0 ? (uint64_t)t : 1);
}

// ---------------------------------------------------------------- mutexes
struct SimMutex { int owner = -1; int depth = 0; unsigned flags = 0; const char *where = ""; };
static apr_status_t mutexCleanup(void *p) { delete (SimMutex *)p; return APR_SUCCESS; }
apr_status_t __wrap_apr_thread_mutex_create(apr_thread_mutex_t **m, unsigned f, apr_pool_t *pool) {
  Harness h;
  SimMutex *s = new SimMutex();
  s->flags = f;
  apr_pool_cleanup_register(pool, s, mutexCleanup, apr_pool_cleanup_null);
  *m = (apr_thread_mutex_t *)s;
  return APR_SUCCESS;
}
apr_status_t __wrap_apr_thread_mutex_lock(apr_thread_mutex_t *m) {
  Harness h;
  SimMutex *s = (SimMutex *)m;
  yield();
  while (s->owner != -1) {
    if (s->owner == self() && (s->flags & APR_THREAD_MUTEX_NESTED)) { s->depth++; return APR_SUCCESS; }
    count("probe.mutex_contended");
    block_on(s, "mutex");
  }
  s->owner = self();
  s->depth = 1;
  return APR_SUCCESS;
}
apr_status_t __wrap_apr_thread_mutex_trylock(apr_thread_mutex_t *m) {
  Harness h;
  SimMutex *s = (SimMutex *)m;
  yield();
  if (s->owner != -1 && !(s->owner == self() && (s->flags & APR_THREAD_MUTEX_NESTED))) return APR_EBUSY;
  s->depth = s->owner == self() ? s->depth + 1 : 1;
  s->owner = self();
  return APR_SUCCESS;
}
apr_status_t __wrap_apr_thread_mutex_unlock(apr_thread_mutex_t *m) {
  Harness h;
  SimMutex *s = (SimMutex *)m;
  if (s->owner == -1) return APR_SUCCESS;       // unlocking an unlocked mutex: undefined, ignored
  if (--s->depth > 0) return APR_SUCCESS;
  s->owner = -1;
  wake_all(s);
  yield();
  return APR_SUCCESS;
}
apr_status_t __wrap_apr_thread_mutex_destroy(apr_thread_mutex_t *m) {
  delete (SimMutex *)m;
  return APR_SUCCESS;
}

// std::mutex and friends: simulated when used by the code under test
struct PMutex { int owner = -1; int depth = 0; };
static std::map<void *, PMutex> &pmutexes() { static auto *m = new std::map<void *, PMutex>(); return *m; }
static bool recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __real_pthread_mutex_trylock(pthread_mutex_t *m);
int __real_pthread_mutex_unlock(pthread_mutex_t *m);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!R.inChild || !in_sut()) return __real_pthread_mutex_lock(m);
  Harness h;
  PMutex &s = pmutexes()[m];
  yield();
  while (s.owner != -1) {
    if (s.owner == self() && recursive(m)) { s.depth++; return 0; }
    count("probe.mutex_contended");
    block_on(&s, "mutex");
  }
  s.owner = self();
  s.depth = 1;
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!R.inChild || !in_sut()) return __real_pthread_mutex_trylock(m);
  Harness h;
  PMutex &s = pmutexes()[m];
  yield();
  if (s.owner != -1 && !(s.owner == self() && recursive(m))) return EBUSY;
  s.depth = s.owner == self() ? s.depth + 1 : 1;
  s.owner = self();
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!R.inChild) return __real_pthread_mutex_unlock(m);
  auto it = pmutexes().find(m);
  if (it == pmutexes().end() || it->second.owner == -1) return __real_pthread_mutex_unlock(m);
  Harness h;
  PMutex &s = it->second;
  if (--s.depth > 0) return 0;
  s.owner = -1;
  wake_all(&s);
  yield();
  return 0;
}
int __real_pthread_once(pthread_once_t *o, void (*f)());
int __wrap_pthread_once(pthread_once_t *o, void (*f)()) {
  if (!R.inChild || !in_sut()) return __real_pthread_once(o, f);
  static auto *state = new std::map<void *, int>();   // 1: running, 2: done
  int *s;
  {
    Harness h;
    s = &(*state)[o];
    yield();
    while (*s == 1) block_on(s, "once");
    if (*s == 2) return 0;
    *s = 1;
  }
  int rc;
  try { rc = __real_pthread_once(o, f); }
  catch (...) { Harness h; *s = 0; wake_all(s); throw; }
  Harness h;
  *s = 2;
  wake_all(s);
  return rc;
}

// ---------------------------------------------------------------- files opened by the code under test
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *path, const char *mode) {
  if (R.inChild && in_sut() && fopen_hook) {
    Harness h;
    FILE *f = nullptr;
    if (fopen_hook(path, mode, &f)) return f;
  }
  return __real_fopen(path, mode);
}

// ---------------------------------------------------------------- library functions that write for their caller
void sim_written(const void *);
#define WRITES(ret, name, params, args, dst) \
  ret __real_##name params; \
  ret __wrap_##name params { ret r = __real_##name args; sim_written(dst); return r; }
WRITES(char *, strcpy, (char *d, const char *s), (d, s), d)
WRITES(char *, strncpy, (char *d, const char *s, size_t n), (d, s, n), d)
WRITES(char *, strcat, (char *d, const char *s), (d, s), d)
WRITES(void *, __asan_memcpy, (void *d, const void *s, size_t n), (d, s, n), d)
WRITES(void *, __asan_memmove, (void *d, const void *s, size_t n), (d, s, n), d)
WRITES(void *, __asan_memset, (void *d, int c, size_t n), (d, c, n), d)
WRITES(bool, _ZN11xercesc_3_29XMLString9transcodeEPKcPDsmPNS_13MemoryManagerE, (const char *s, char16_t *d, size_t n, void *m), (s, d, n, m), d)
WRITES(bool, _ZN11xercesc_3_29XMLString9transcodeEPKDsPcmPNS_13MemoryManagerE, (const char16_t *s, char *d, size_t n, void *m), (s, d, n, m), d)
static int vwrite(char *d, size_t n, const char *f, va_list a) { int r = vsnprintf(d, n, f, a); sim_written(d); return r; }
int __wrap_sprintf(char *d, const char *f, ...) { va_list a; va_start(a, f); int r = vsprintf(d, f, a); va_end(a); sim_written(d); return r; }
int __wrap_snprintf(char *d, size_t n, const char *f, ...) { va_list a; va_start(a, f); int r = vwrite(d, n, f, a); va_end(a); return r; }

// ---------------------------------------------------------------- conditions
struct SimCond { int waiters = 0; };
static apr_status_t condCleanup(void *p) { delete (SimCond *)p; return APR_SUCCESS; }
apr_status_t __wrap_apr_thread_cond_create(apr_thread_cond_t **c, apr_pool_t *pool) {
  Harness h;
  SimCond *s = new SimCond();
  apr_pool_cleanup_register(pool, s, condCleanup, apr_pool_cleanup_null);
  *c = (apr_thread_cond_t *)s;
  return APR_SUCCESS;
}
static apr_status_t condWait(apr_thread_cond_t *c, apr_thread_mutex_t *m, int64_t to) {
  SimMutex *s = (SimMutex *)m;
  SimCond *k = (SimCond *)c;
  int depth = s->depth;
  s->owner = -1;
  wake_all(s);
  k->waiters++;
  bool ok;
  if (chance(20)) {             // POSIX allows spurious wake-ups
    fault("spurious_wakeup");
    ok = block_on(c, "cond-wait", to < 0 ? 1000 : (to < 1000 ? to : 1000));
    if (to < 0) ok = true;
  } else
    ok = block_on(c, "cond-wait", to);
  while (s->owner != -1) block_on(s, "mutex(cond)");
  s->owner = self();
  s->depth = depth;
  return ok ? APR_SUCCESS : APR_TIMEUP;
}
apr_status_t __wrap_apr_thread_cond_wait(apr_thread_cond_t *c, apr_thread_mutex_t *m) {
  Harness h;
  return condWait(c, m, -1);
}
apr_status_t __wrap_apr_thread_cond_timedwait(apr_thread_cond_t *c, apr_thread_mutex_t *m, apr_interval_time_t t) {
  Harness h;
  return condWait(c, m, t);
}
apr_status_t __wrap_apr_thread_cond_signal(apr_thread_cond_t *c) { Harness h; wake_one(c); yield(); return APR_SUCCESS; }
apr_status_t __wrap_apr_thread_cond_broadcast(apr_thread_cond_t *c) { Harness h; wake_all(c); yield(); return APR_SUCCESS; }

// ---------------------------------------------------------------- threads
struct SimThread { int id = -1; apr_status_t rv = APR_SUCCESS; apr_pool_t *pool; };
apr_status_t __wrap_apr_thread_create(apr_thread_t **t, apr_threadattr_t *, apr_thread_start_t fn, void *data, apr_pool_t *pool) {
  Harness h;
  if (thread_create_fault && thread_create_fault()) { fault("thread_create_failure"); return APR_EGENERAL; }
  SimThread *s = new SimThread();   // leaked: thread handles may be joined late
  apr_pool_create(&s->pool, pool);
  *t = (apr_thread_t *)s;
  s->id = spawn("thread", [fn, s, data] { Sut su; fn((apr_thread_t *)s, data); });
  yield();
  return APR_SUCCESS;
}
apr_status_t __wrap_apr_thread_join(apr_status_t *rv, apr_thread_t *t) {
  Harness h;
  SimThread *s = (SimThread *)t;
  join(s->id);
  *rv = s->rv;
  return APR_SUCCESS;
}
// every thread function in the code under test returns right after this call
apr_status_t __wrap_apr_thread_exit(apr_thread_t *t, apr_status_t rv) { ((SimThread *)t)->rv = rv; return APR_SUCCESS; }
apr_status_t __wrap_apr_thread_detach(apr_thread_t *) { return APR_SUCCESS; }
apr_os_thread_t __wrap_apr_os_thread_current(void) { return (apr_os_thread_t)(uintptr_t)(self() + 1); }
apr_pool_t *__wrap_apr_thread_pool_get(const apr_thread_t *t) { return ((SimThread *)t)->pool; }

// ---------------------------------------------------------------- dso
struct SimDso { char base[64] = {0}; bool open = false; };
apr_status_t __real_apr_dso_load(apr_dso_handle_t **h, const char *path, apr_pool_t *p);
apr_status_t __real_apr_dso_unload(apr_dso_handle_t *h);
apr_status_t __real_apr_dso_sym(apr_dso_handle_sym_t *s, apr_dso_handle_t *h, const char *n);
const char *__real_apr_dso_error(apr_dso_handle_t *h, char *buf, apr_size_t n);
apr_status_t __wrap_apr_dso_load(apr_dso_handle_t **h, const char *path, apr_pool_t *) {
  Harness hs;
  const char *b = strrchr(path, '/');
  b = b ? b + 1 : path;
  char base[64];
  snprintf(base, sizeof base, "%s", b);
  char *dot = strstr(base, ".so");
  if (dot) *dot = 0;
  const char *nm = strncmp(base, "lib", 3) == 0 ? base + 3 : base;
  if (dso_load_fault && dso_load_fault(nm)) { fault("dso_load_failure"); *h = (apr_dso_handle_t *)new SimDso(); return APR_EDSOOPEN; }
  if (!dso_known(nm)) { *h = (apr_dso_handle_t *)new SimDso(); return APR_EDSOOPEN; }   // as APR: a handle with the error
  SimDso *d = new SimDso();
  d->open = true;
  snprintf(d->base, 64, "%s", nm);
  *h = (apr_dso_handle_t *)d;
  dso_opened(1);
  return APR_SUCCESS;
}
apr_status_t __wrap_apr_dso_unload(apr_dso_handle_t *h) {
  Harness hs;
  if (!h) return APR_EGENERAL;
  bool open = ((SimDso *)h)->open;
  delete (SimDso *)h;
  if (open) dso_opened(-1);
  return APR_SUCCESS;
}
apr_status_t __wrap_apr_dso_sym(apr_dso_handle_sym_t *s, apr_dso_handle_t *h, const char *n) {
  Harness hs;
  SimDso *d = (SimDso *)h;
  if (dso_sym_fault && dso_sym_fault(n)) { fault("dso_sym_failure"); return APR_ESYMNOTFOUND; }
  void *f = dso_find(d->base, n);
  if (!f) return APR_ESYMNOTFOUND;
  *s = (apr_dso_handle_sym_t)f;
  return APR_SUCCESS;
}
const char *__wrap_apr_dso_error(apr_dso_handle_t *, char *buf, apr_size_t n) {
  snprintf(buf, n, "simulated dso error");
  return buf;
}
// ---------------------------------------------------------------- temporary files: in the scratch directory
int __wrap_mkstemp(char *t) {
  Harness h;
  size_t n = strlen(t);
  if (n < 6 || strcmp(t + n - 6, "XXXXXX")) { errno = EINVAL; return -1; }
  const char *b = strrchr(t, '/');
  if (b) memmove(t, b + 1, strlen(b + 1) + 1);
  if (mkstemp_fault && mkstemp_fault()) { fault("mkstemp_failure"); errno = EMFILE; return -1; }
  n = strlen(t);
  for (int i = 0; i < 1000000; i++) {
    char num[8];
    snprintf(num, sizeof num, "%06d", i);
    memcpy(t + n - 6, num, 6);
    int fd = open(t, O_RDWR | O_CREAT | O_EXCL, 0600);
    if (fd >= 0 || errno != EEXIST) return fd;
  }
  return -1;
}
}
namespace sim { std::function<bool()> thread_create_fault; std::function<bool()> mkstemp_fault; std::function<bool(const char *, const char *, FILE **)> fopen_hook; }
