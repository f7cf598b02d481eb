// Deterministic simulation core: choice stream, event log, scheduler, clock, faults.
// One simulated run = one forked child process; every random decision is a draw()
// from a single recorded choice stream, so (code, choice list) determines the run.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <functional>
#include <initializer_list>
#include <string>
#include <vector>

namespace sim {

// ---- choices ----------------------------------------------------------------
uint32_t draw(uint32_t n);                       // uniform in [0,n); 0 is the simplest choice
bool chance(uint32_t per_mille);                 // 0 choice => false
uint32_t weighted(std::initializer_list<uint32_t> w);
uint32_t range(uint32_t lo, uint32_t hi);        // inclusive, lo simplest
uint32_t skewed(uint32_t max);                   // [0,max], biased to small values
bool more(uint32_t mean);                        // continue an op loop; 0 => stop
template <class C> auto &pick(C &c) { return c[draw((uint32_t)c.size())]; }
template <class C> auto pick(C &&c) -> typename C::value_type { return c[draw((uint32_t)c.size())]; }
struct Span { Span(); ~Span(); uint32_t idx; };  // a deletable part of the choice stream
uint32_t mark();                                 // position in the choice stream
// while it lives, draws of this thread come from a generator seeded with seed (0: all choices 0)
struct Private { Private(uint64_t seed); ~Private(); uint64_t state, *prev; };
struct Again { Again(uint32_t from, uint32_t to); ~Again(); };  // draws repeat the choices made in [from,to)

// ---- event log / verdicts ---------------------------------------------------
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));     // hashed, traced in replay
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // traced only, not hashed
[[noreturn]] void fail(const char *sig, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void count(const char *name, uint64_t n = 1);    // measured counters (faults fired, probes hit)
void fault(const char *kind);                    // count("fault.<kind>") + event + nontrivial
void nontrivial();                               // this run exercised the property
bool verbose();
void expect_hang(const char *what);              // context added to deadlock/livelock reports
uint64_t steps();
void set_step_budget(uint64_t n);
void disarm();  // no further crash is a violation (used when the run is over)

// ---- scheduler --------------------------------------------------------------
typedef std::function<void()> Fn;
int spawn(const std::string &name, Fn fn);       // runnable task; runs when scheduled
void join(int id);
bool done(int id);
int self();
const char *self_name();
void yield();                                    // a scheduling point
void sleep_us(uint64_t us);
uint64_t now_us();
void set_wall_offset(int64_t us);                // clock jump (affects apr_time_now/time)
int64_t wall_us();
void set_preemption(uint32_t per_mille, uint32_t max);  // swarm knob
void set_store_preemption(uint32_t per_mille);  // switch soon after stores to static storage
// block current task on an object until woken; returns false on timeout
bool block_on(const void *obj, const char *why, int64_t timeout_us = -1);
void wake_all(const void *obj);
void wake_one(const void *obj);
uint64_t switches();
bool idle_others();                              // nobody else runnable right now

struct Sut { Sut(); ~Sut(); bool prev; };        // calls into the code under test: preemptible
struct Harness { Harness(); ~Harness(); bool prev; };  // harness code called from it: not
template <class F> auto sut(F f) -> decltype(f()) { Sut s; return f(); }

// ---- allocation faults --------------------------------------------------------
// fail the n-th (0-based) operator-new in SUT code from now; -1 disarms. Returns via fired()
void alloc_arm(int64_t nth, int64_t burst = 1);
bool alloc_disarm();                             // true if it fired
uint64_t alloc_count();
struct NoAllocFault { NoAllocFault(); ~NoAllocFault(); bool prev; };

// ---- in-process "shared libraries" (apr_dso) ----------------------------------
typedef void *(*DsoSym)(const char *name);
void dso_register(const char *basename, const char *sym, void *fn);
void dso_clear();
extern std::function<bool(const char *)> dso_load_fault;   // return true => load fails
extern std::function<bool(const char *)> dso_sym_fault;
int dso_open_count();

// ---- scratch dir ---------------------------------------------------------------
const char *scratch();                            // per-worker directory, emptied before each run
extern uint64_t memory_cap;                       // single allocation larger than this => bad_alloc

// ---- scenarios -----------------------------------------------------------------
struct Scenario {
  const char *prop;      // property id
  const char *name;      // scenario name
  void (*run)();
  uint32_t weight;       // share of runs
};
struct Register { Register(const char *prop, const char *name, void (*run)(), uint32_t weight = 1); };
extern void (*process_init)();                    // called once per worker before forking runs

uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
}  // namespace sim

#define SIM_SCENARIO(prop, name, weight)                                  \
  static void scen_##prop##_##name();                                     \
  static sim::Register reg_##prop##_##name(#prop, #name, scen_##prop##_##name, weight); \
  static void scen_##prop##_##name()
