// Core of the deterministic simulator: see sim.hpp. This file is never instrumented
// for coverage, and never allocates through the fault-injecting operator new.
#include "sim.hpp"
#include "internal.hpp"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <linux/futex.h>
#include <map>
#include <memory>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" void __asan_set_error_report_callback(void (*)(const char *)) __attribute__((weak));

namespace sim {

RunState R;
Result *res = nullptr;
static Result dummyResult;
uint8_t covDummy[1 << 20];
uint8_t *cov = covDummy;
uint32_t covN = 0;
uint64_t memory_cap = 512ull << 20;
void (*process_init)() = nullptr;
std::function<bool(const char *)> dso_load_fault, dso_sym_fault;

// ------------------------------------------------------------------ choices
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t s_[4];
void seed_rng(uint64_t seed) {
  for (int i = 0; i < 4; i++) {
    seed += 0x9e3779b97f4a7c15ull;
    uint64_t z = seed;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    s_[i] = z ^ (z >> 31);
  }
}
static uint64_t rng() {
  uint64_t r = rotl(s_[1] * 5, 7) * 9, t = s_[1] << 17;
  s_[2] ^= s_[0]; s_[3] ^= s_[1]; s_[1] ^= s_[2]; s_[0] ^= s_[3];
  s_[2] ^= t; s_[3] = rotl(s_[3], 45);
  return r;
}

static uint32_t againPos = 0, againEnd = 0;
static bool again = false;
uint32_t mark() { return R.pos < MAXC ? R.pos : MAXC; }
Again::Again(uint32_t from, uint32_t to) { if (again) harness_error("nested Again"); again = true; againPos = from; againEnd = to; }
Again::~Again() { again = false; }
// draws of one task from a generator of its own, outside the recorded stream
static thread_local uint64_t *priv = nullptr;
Private::Private(uint64_t seed) : state(seed), prev(priv) { priv = &state; }
Private::~Private() { priv = prev; }
static uint32_t stream(uint32_t n);
uint32_t draw(uint32_t n) {
  if (n <= 1) return 0;
  if (priv) {
    if (!*priv) return 0;
    *priv += 0x9e3779b97f4a7c15ull;
    if (!*priv) *priv = 1;
    uint64_t z = *priv;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return (uint32_t)((z ^ (z >> 31)) % n);
  }
  return stream(n);
}
static uint32_t stream(uint32_t n) {
  if (n <= 1) return 0;
  uint32_t v;
  if (again) { v = againPos < againEnd ? res->choices[againPos] % n : 0; againPos++; return v; }
  if (R.replay) {
    v = R.pos < R.nreplay ? R.replay[R.pos] % n : 0;
  } else {
    v = R.pos < MAXC ? (uint32_t)(rng() % n) : 0;
  }
  if (R.pos < MAXC) { res->choices[R.pos] = v; res->nchoices = R.pos + 1; }
  R.pos++;
  return v;
}
bool chance(uint32_t pm) {
  if (pm == 0) return false;
  return draw(1000) >= 1000 - pm;
}
uint32_t weighted(std::initializer_list<uint32_t> w) {
  uint32_t t = 0;
  for (auto x : w) t += x;
  uint32_t v = draw(t), i = 0;
  for (auto x : w) { if (v < x) return i; v -= x; i++; }
  return 0;
}
uint32_t range(uint32_t lo, uint32_t hi) { return lo + draw(hi - lo + 1); }
uint32_t skewed(uint32_t max) {
  // pick a magnitude first, then a value below it
  uint32_t bits = 0;
  while (bits < 32 && (max >> bits)) bits++;
  uint32_t b = draw(bits + 1);
  if (b == 0) return 0;
  uint32_t lim = b >= 32 ? max : ((1u << b) - 1);
  if (lim > max) lim = max;
  return draw(lim + 1);
}
bool more(uint32_t mean) { return draw(mean + 1) != 0; }
Span::Span() {
  idx = R.nspans;
  if (R.nspans < MAXS) { res->spans[R.nspans].b = R.pos; res->spans[R.nspans].e = R.pos; res->nspans = ++R.nspans; }
}
Span::~Span() { if (idx < MAXS && idx < R.nspans) res->spans[idx].e = R.pos; }

// ------------------------------------------------------------------ log
uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
static void trace_line(const char *tag, const char *s) {
  if (R.traceFd < 0) return;
  char b[4600];
  int n = snprintf(b, sizeof b, "%s[%8llu us %s#%d] %s\n", tag, (unsigned long long)R.now, R.curName, R.cur, s);
  if (n > (int)sizeof b - 1) { n = sizeof b - 1; b[n - 1] = '\n'; }
  if (write(R.traceFd, b, n) < 0) {}
}
void ev(const char *f, ...) {
  char b[4096];
  va_list a; va_start(a, f);
  int n = vsnprintf(b, sizeof b, f, a);
  va_end(a);
  if (n >= (int)sizeof b) n = sizeof b - 1;
  R.hash = hash_bytes(b, n, R.hash ^ (uint64_t)(R.cur + 1) * 0x9e3779b97f4a7c15ull);
  R.events++;
  trace_line("  ", b);
}
void note(const char *f, ...) {
  if (R.traceFd < 0) return;
  char b[4096];
  va_list a; va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  trace_line("    . ", b);
}
std::string fmt(const char *f, ...) {
  char b[8192];
  va_list a; va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}
bool verbose() { return R.traceFd >= 0; }
void count(const char *name, uint64_t n) {
  uint32_t h = (uint32_t)(hash_bytes(name, strlen(name)) % NCOUNT);
  for (uint32_t k = 0; k < NCOUNT; k++) {
    Counter &c = res->counters[(h + k) % NCOUNT];
    if (!c.name[0]) { snprintf(c.name, sizeof c.name, "%s", name); c.n = n; return; }
    if (!strncmp(c.name, name, sizeof c.name - 1)) { c.n += n; return; }
  }
}
void fault(const char *kind) {
  char b[64];
  snprintf(b, sizeof b, "fault.%s", kind);
  count(b);
  ev("FAULT %s", kind);
  R.nontrivial = true;
}
void nontrivial() { R.nontrivial = true; }
uint64_t steps() { return R.steps; }
void set_step_budget(uint64_t n) { R.stepBudget = R.steps + n; }
void disarm() { R.disarmed = true; }
void expect_hang(const char *w) { snprintf(R.hangCtx, sizeof R.hangCtx, "%s", w); }

[[noreturn]] void finish(int status) {
  res->status = status;
  res->hash = R.hash;
  res->steps = R.steps;
  res->events = R.events;
  res->simtime = R.now;
  res->switches = R.switches;
  res->nontrivial = R.nontrivial;
  res->nchoices = R.pos < MAXC ? R.pos : MAXC;
  res->nspans = R.nspans;
  for (uint32_t i = 0; i < R.nspans; i++)
    if (res->spans[i].e <= res->spans[i].b) res->spans[i].e = res->nchoices;
  _exit(0);
}
static void setv(char *d, size_t cap, const char *f, va_list a) { vsnprintf(d, cap, f, a); }
void fail(const char *sig, const char *f, ...) {
  if (R.disarmed) finish(0);
  snprintf(res->sig, sizeof res->sig, "%s", sig);
  va_list a; va_start(a, f);
  setv(res->detail, sizeof res->detail, f, a);
  va_end(a);
  if (R.traceFd >= 0) { trace_line("!!", sig); trace_line("!!", res->detail); }
  finish(1);
}
void harness_error(const char *f, ...) {
  snprintf(res->sig, sizeof res->sig, "harness-error");
  va_list a; va_start(a, f);
  setv(res->detail, sizeof res->detail, f, a);
  va_end(a);
  if (R.traceFd >= 0) trace_line("HARNESS ERROR ", res->detail);
  finish(2);
}

// ASan (and SIGSEGV/SIGABRT/SIGFPE through ASan) report: turn it into a verdict.
static void asan_report(const char *rep) {
  if (!R.inChild) return;
  if (R.disarmed) finish(0);
  char kind[80] = "unknown";
  const char *p = strstr(rep, "AddressSanitizer: ");
  if (p) {
    p += 18;
    size_t i = 0;
    while (p[i] && p[i] != ' ' && p[i] != '\n' && i < sizeof kind - 1) { kind[i] = p[i]; i++; }
    kind[i] = 0;
    if (!strcmp(kind, "attempting")) snprintf(kind, sizeof kind, "%s", strstr(p, "double-free") ? "double-free" : "bad-free");
    if (!strncmp(kind, "SEGV", 4)) snprintf(kind, sizeof kind, "SEGV");
  }
  res->npcs = 0;
  const char *q = rep;
  const char *end = nullptr;
  // only the first stack of the report
  const char *first = strstr(rep, "    #0 ");
  if (first) {
    end = strstr(first, "\n\n");
    q = first;
    while ((q = strstr(q, " 0x")) && (!end || q < end) && res->npcs < 24) {
      res->pcs[res->npcs++] = strtoull(q + 1, nullptr, 16);
      q += 3;
      const char *nl = strchr(q, '\n');
      if (!nl) break;
      q = nl;
    }
  }
  snprintf(res->sig, sizeof res->sig, "crash:%s", kind);
  // keep the prose of the report, not the addresses of its frames
  size_t o = 0;
  for (const char *l = rep; *l && o + 2 < sizeof res->detail;) {
    const char *nl = strchr(l, '\n');
    size_t n = nl ? (size_t)(nl - l) : strlen(l);
    if (!strncmp(l, "Shadow bytes", 12)) break;
    if (n && strncmp(l, "    #", 5) && l[0] != '=' && o + n + 2 < sizeof res->detail) {
      memcpy(res->detail + o, l, n);
      o += n;
      res->detail[o++] = ';';
    } else if (const char *c = (l[0] == '=' && n > 3) ? strstr(l, "ERROR: ") : nullptr) {
      if (!nl || c < nl) {
        size_t m = (nl ? (size_t)(nl - c) : strlen(c));
        const char *pc = strstr(c, " at pc");
        if (pc && pc < c + m) m = pc - c;
        if (o + m + 2 < sizeof res->detail) { memcpy(res->detail + o, c, m); o += m; res->detail[o++] = ';'; }
      }
    }
    if (!nl) break;
    l = nl + 1;
  }
  res->detail[o] = 0;
  if (R.traceFd >= 0) trace_line("!!", res->detail);
  finish(1);
}
static void on_terminate() {
  std::string what = "unknown";
  try {
    std::exception_ptr p = std::current_exception();
    if (p) std::rethrow_exception(p);
  } catch (std::exception &e) { what = e.what(); }
  catch (...) { what = "foreign exception"; }
  fail("crash:terminate", "std::terminate called: %s", what.c_str());
}
void child_setup() {
  R.inChild = true;
  if (__asan_set_error_report_callback) __asan_set_error_report_callback(asan_report);
  std::set_terminate(on_terminate);
}

// ------------------------------------------------------------------ scheduler
struct Task {
  int id;
  char name[40];
  enum St { RUN, BLOCKED, DONE } st = RUN;
  const void *obj = nullptr;
  const char *why = "";
  int64_t wake = -1;
  bool timedOut = false;
  bool sutOn = false;
  int futex = 0;
  pthread_t th;
  Fn fn;
};
static std::vector<Task *> *T;   // leaked on purpose (process exits per run)
static volatile bool g_preempt;
static int64_t g_slice;

static void fwait(int *f) {
  while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0)
    syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(f, 0, __ATOMIC_RELEASE);
}
static void fpost(int *f) {
  __atomic_store_n(f, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
static Task *me() { return (*T)[R.cur]; }
static int64_t new_slice() {
  if (R.preemptPm == 0 || R.preempts >= R.preemptMax || T->size() < 2) return INT64_MAX;
  if (stream(1000) < 1000 - R.preemptPm) return INT64_MAX;
  // slice length: log-uniform number of basic blocks
  uint32_t b = stream(14);
  return 1 + (int64_t)stream(1u << (b + 1));
}
static void activate(Task *t) {
  R.cur = t->id;
  R.curName = t->name;
  g_preempt = t->sutOn;
}
void sched_init() {
  T = new std::vector<Task *>();
  Task *t = new Task();
  t->id = 0;
  snprintf(t->name, sizeof t->name, "main");
  T->push_back(t);
  activate(t);
  g_slice = INT64_MAX;
}
static void hang_report(const char *kind) {
  std::string s;
  for (auto t : *T)
    if (t->st != Task::DONE)
      s += fmt("%s#%d:%s(%s) ", t->name, t->id, t->st == Task::BLOCKED ? "blocked" : "runnable", t->why);
  fail(kind, "%s %s", R.hangCtx, s.c_str());
}
// pick the next task to run; current task's state is already updated
static void reschedule() {
  Task *cur = me();
  bool was = cur->sutOn;
  for (;;) {
    // wake expired sleepers
    for (auto t : *T)
      if (t->st == Task::BLOCKED && t->wake >= 0 && (uint64_t)t->wake <= R.now) {
        t->st = Task::RUN; t->timedOut = true; t->wake = -1;
      }
    int ids[256];
    int n = 0;
    // current task first so that choice 0 == keep running
    if (cur->st == Task::RUN) ids[n++] = cur->id;
    for (auto t : *T) if (t != cur && t->st == Task::RUN && n < 256) ids[n++] = t->id;
    if (n == 0) {
      int64_t best = -1;
      for (auto t : *T)
        if (t->st == Task::BLOCKED && t->wake >= 0 && (best < 0 || t->wake < best)) best = t->wake;
      if (best < 0) hang_report("deadlock");
      if ((uint64_t)best > R.now) R.now = best;
      if (R.now > R.timeLimit) hang_report("no-progress");
      continue;
    }
    Task *nx = (*T)[ids[stream(n)]];
    g_slice = new_slice();
    if (nx == cur) { activate(cur); break; }
    R.switches++;
    R.hash = hash_bytes(&nx->id, sizeof nx->id, R.hash);
    if (R.traceFd >= 0) { char b[80]; snprintf(b, sizeof b, "-> switch to %s#%d", nx->name, nx->id); trace_line("", b); }
    activate(nx);
    fpost(&nx->futex);
    if (cur->st == Task::DONE) return;   // thread is finishing
    fwait(&cur->futex);
    break;
  }
  cur->sutOn = was;
  g_preempt = was;
}
void yield() {
  if (!T || T->size() < 2) return;
  reschedule();
}
static void *task_main(void *p) {
  Task *t = (Task *)p;
  fpost(&R.startFutex);     // parked: creator may continue
  fwait(&t->futex);
  try {
    t->fn();
  } catch (std::exception &e) {
    fail("uncaught-exception", "task %s: %s", t->name, e.what());
  } catch (...) {
    fail("uncaught-exception", "task %s: unknown exception", t->name);
  }
  t->sutOn = false;
  t->st = Task::DONE;
  wake_all(t);
  reschedule();
  return nullptr;
}
int spawn(const std::string &name, Fn fn) {
  Harness h;
  Task *t = new Task();
  t->id = (int)T->size();
  snprintf(t->name, sizeof t->name, "%s", name.c_str());
  t->fn = std::move(fn);
  T->push_back(t);
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, 1 << 20);
  pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
  if (pthread_create(&t->th, &a, task_main, t)) harness_error("pthread_create failed");
  pthread_attr_destroy(&a);
  fwait(&R.startFutex);
  ev("spawn %s#%d", t->name, t->id);
  return t->id;
}
void join(int id) {
  while ((*T)[id]->st != Task::DONE) block_on((*T)[id], "join");
}
bool done(int id) { return (*T)[id]->st == Task::DONE; }
int self() { return R.cur; }
const char *self_name() { return R.curName; }
bool idle_others() {
  for (auto t : *T) if (t->id != R.cur && t->st == Task::RUN) return false;
  return true;
}
bool block_on(const void *obj, const char *why, int64_t timeout) {
  Task *t = me();
  t->st = Task::BLOCKED;
  t->obj = obj;
  t->why = why;
  t->timedOut = false;
  t->wake = timeout < 0 ? -1 : (int64_t)(R.now + timeout);
  reschedule();
  t->obj = nullptr;
  return !t->timedOut;
}
static void wake(const void *obj, bool all) {
  if (!T) return;
  std::vector<Task *> w;
  for (auto t : *T) if (t->st == Task::BLOCKED && t->obj == obj) w.push_back(t);
  if (w.empty()) return;
  if (all) { for (auto t : w) { t->st = Task::RUN; t->wake = -1; } }
  else { Task *t = w[stream((uint32_t)w.size())]; t->st = Task::RUN; t->wake = -1; }
}
void wake_all(const void *o) { wake(o, true); }
void wake_one(const void *o) { wake(o, false); }
void sleep_us(uint64_t us) {
  static char sleepObj;
  block_on(&sleepObj, "sleep", (int64_t)us);
}
uint64_t now_us() { return R.now; }
void set_wall_offset(int64_t o) { R.wallOffset = o; }
int64_t wall_us() { R.now += 1; return 1700000000000000ll + (int64_t)R.now + R.wallOffset; }
void set_preemption(uint32_t pm, uint32_t mx) { R.preemptPm = pm; R.preemptMax = mx; }
void set_store_preemption(uint32_t pm) { R.storePm = pm; }
static void stored() {
  if (T->size() < 2 || R.preempts >= R.preemptMax || stream(1000) < 1000 - R.storePm) return;
  g_slice = 1 + (int64_t)stream(4);
  count("sched.global_store_preemptions");
}
uint64_t switches() { return R.switches; }

Sut::Sut() : prev(g_preempt) { g_preempt = true; if (T) me()->sutOn = true; }
Sut::~Sut() { g_preempt = prev; if (T) me()->sutOn = prev; }
Harness::Harness() : prev(g_preempt) { g_preempt = false; if (T) me()->sutOn = false; }
Harness::~Harness() { g_preempt = prev; if (T) me()->sutOn = prev; }
bool in_sut() { return g_preempt; }

// ------------------------------------------------------------------ alloc faults
static int64_t a_left = -1, a_burst = 0;
static bool a_fired = false;
static uint64_t a_count = 0;
static bool a_off = false;
void alloc_arm(int64_t nth, int64_t burst) { a_left = nth; a_burst = burst; a_fired = false; a_count = 0; }
bool alloc_disarm() { a_left = -1; a_burst = 0; return a_fired; }
uint64_t alloc_count() { return a_count; }
NoAllocFault::NoAllocFault() : prev(a_off) { a_off = true; }
NoAllocFault::~NoAllocFault() { a_off = prev; }
bool alloc_should_fail(size_t n) {
  if (!R.inChild) return false;
  if (n > memory_cap) { count("probe.alloc_over_cap"); return true; }
  if (!g_preempt || a_off) return false;
  a_count++;
  if (a_left < 0) return false;
  if (a_left > 0) { a_left--; return false; }
  a_fired = true;
  if (--a_burst <= 0) a_left = -1;
  fault("alloc_failure");
  return true;
}

// ------------------------------------------------------------------ dso registry
struct DsoEnt { char base[64]; char sym[32]; void *fn; };
static DsoEnt dso[64];
static int ndso = 0, dsoOpen = 0;
void dso_register(const char *b, const char *s, void *fn) {
  if (ndso >= 64) harness_error("too many dso entries");
  snprintf(dso[ndso].base, 64, "%s", b);
  snprintf(dso[ndso].sym, 32, "%s", s);
  dso[ndso++].fn = fn;
}
void dso_clear() { ndso = 0; }
int dso_open_count() { return dsoOpen; }
void dso_opened(int d) { dsoOpen += d; }
bool dso_known(const char *b) {
  for (int i = 0; i < ndso; i++) if (!strcmp(dso[i].base, b)) return true;
  return false;
}
void *dso_find(const char *b, const char *s) {
  for (int i = 0; i < ndso; i++) if (!strcmp(dso[i].base, b) && !strcmp(dso[i].sym, s)) return dso[i].fn;
  return nullptr;
}
const char *scratch() { return R.scratch; }

static Result *initDummy() { res = &dummyResult; return res; }
static Result *initDummy_ = initDummy();
}  // namespace sim

// ------------------------------------------------------------------ coverage hooks
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
  if (start == stop || *start) return;
  for (uint32_t *x = start; x < stop; x++) *x = ++sim::covN < (1u << 20) ? sim::covN : (1u << 20) - 1;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *guard) {
  using namespace sim;
  cov[*guard] = 1;
  if (__builtin_expect(++R.steps >= R.stepBudget, 0)) {
    if (R.inChild) { R.stepBudget = UINT64_MAX; hang_report("livelock"); }
  }
  if (g_preempt && --g_slice <= 0) {
    g_slice = INT64_MAX;
    R.preempts++;
    bool p = g_preempt;
    g_preempt = false;
    count("sched.preemptions");
    reschedule();
    (*T)[R.cur]->sutOn = p;
    g_preempt = p;
  }
}
// a store to static storage: what threads can share unknowingly. Sometimes another task runs soon after it.
extern char __data_start, _end;
static bool isStatic(const void *p) { return (const char *)p >= &__data_start && (const char *)p < &_end; }
// a library function has written there on behalf of the code under test
void sim_written(const void *p) {
  using namespace sim;
  if (!isStatic(p) || !R.storePm || !g_preempt || T->size() < 2 || R.preempts >= R.preemptMax || stream(1000) < 1000 - R.storePm) return;
  R.preempts++;
  count("sched.global_store_preemptions");
  bool b = g_preempt;
  g_preempt = false;
  reschedule();
  (*T)[R.cur]->sutOn = b;
  g_preempt = b;
}
#define STORE(n, T) void __sanitizer_cov_store##n(T *p) { \
  if (__builtin_expect(isStatic(p), 0) && sim::R.storePm && sim::g_preempt) sim::stored(); }
STORE(1, uint8_t) STORE(2, uint16_t) STORE(4, uint32_t) STORE(8, uint64_t) STORE(16, __uint128_t)
const char *__asan_default_options() {
  return "detect_leaks=0:symbolize=0:handle_abort=1:handle_sigfpe=1:exitcode=77:allocator_may_return_null=1:"
         "detect_stack_use_after_return=0:quarantine_size_mb=8:malloc_context_size=6:print_legend=0:"
         "print_full_thread_history=0:print_summary=0:max_malloc_fill_size=1000000:malloc_fill_byte=190:"
         "allocator_release_to_os_interval_ms=-1:detect_odr_violation=0:log_path=/dev/null:"
         "fast_unwind_on_malloc=1:intercept_tls_get_addr=0:check_initialization_order=0";
}
}
