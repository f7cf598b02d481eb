#pragma once
#include <cstdint>
#include <cstddef>
namespace sim {
enum { MAXC = 1 << 15, MAXS = 1 << 13, NCOUNT = 256 };
struct Counter { char name[48]; uint64_t n; };
struct SpanRec { uint32_t b, e; };
struct Result {
  int status;            // 0 ok, 1 violation, 2 harness error, 3 died without verdict
  char sig[256];
  char detail[6000];
  uint64_t hash, steps, events, simtime, switches;
  bool nontrivial;
  uint32_t nchoices, nspans, npcs;
  uint64_t pcs[24];
  uint32_t choices[MAXC];
  SpanRec spans[MAXS];
  Counter counters[NCOUNT];
};
struct RunState {
  bool inChild = false, disarmed = false, nontrivial = false;
  const uint32_t *replay = nullptr;
  uint32_t nreplay = 0, pos = 0, nspans = 0;
  uint64_t hash = 1469598103934665603ull, steps = 0, events = 0, stepBudget = 400000000ull;
  uint64_t now = 0, timeLimit = 48ull * 3600 * 1000000, switches = 0;
  int64_t wallOffset = 0;
  uint32_t storePm = 0, preemptPm = 0, preemptMax = 0, preempts = 0;
  int cur = 0, traceFd = -1, startFutex = 0;
  const char *curName = "main";
  char hangCtx[200] = "";
  char scratch[128] = "";
};
extern RunState R;
extern Result *res;
extern uint8_t *cov;
extern uint32_t covN;
void seed_rng(uint64_t);
void sched_init();
void child_setup();
[[noreturn]] void finish(int status);
bool in_sut();
bool alloc_should_fail(size_t);
bool dso_known(const char *);
void *dso_find(const char *, const char *);
void dso_opened(int);
}
