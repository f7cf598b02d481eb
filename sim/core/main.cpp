// Driver: forks workers (each forks one process per simulated run), explores seeds,
// confirms, minimises and writes replay files, writes the measured results.
#include "sim.hpp"
#include "internal.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fnmatch.h>
#include <fstream>
#include <map>
#include <poll.h>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

using namespace sim;

namespace {
enum { MAXSCEN = 128, MAXW = 16, FAILSLOTS = 12, HASHCAP = 1 << 20 };
Scenario scen[MAXSCEN];
int nscen = 0;

struct FailSlot { bool used; uint32_t scenario; uint64_t runIndex; uint64_t n; Result r; };
struct Shared {
  // command
  int cmd;                 // 0 none 1 explore 2 one 3 quit
  uint32_t scenario;
  uint32_t nreplay;
  uint32_t replay[MAXC];
  bool useReplay;
  uint64_t seed;
  char traceFile[256];
  volatile int stop;
  // explore parameters / results
  uint64_t baseSeed, startIndex, strideIndex, maxRuns;
  uint64_t runs, okRuns, violRuns, nontrivialRuns, totalSteps, totalEvents, totalSim, totalSwitches, totalChoices, maxChoices;
  uint64_t scenRuns[MAXSCEN];
  uint64_t recheck, recheckBad, recheckBadIndex;
  uint32_t nfail;
  FailSlot fails[FAILSLOTS];
  FailSlot herr;
  Counter counters[NCOUNT];
  uint64_t counterRuns[NCOUNT];   // number of runs in which the counter was nonzero
  uint64_t nhash;
  uint64_t hashes[HASHCAP];
  uint64_t nthash;
  uint64_t nthashes[HASHCAP];
  Result r;
  uint8_t cov[1 << 20];
};
Shared *W[MAXW];
int toW[MAXW], fromAll[2];
pid_t wpid[MAXW];
char scratchRoot[96];

int sel[MAXSCEN], nsel = 0;
uint32_t selWeight = 0;

uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x7f4a7c15;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

void rm_contents(const char *dir, bool self) {
  DIR *d = opendir(dir);
  if (!d) return;
  while (dirent *e = readdir(d)) {
    if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    char p[512];
    snprintf(p, sizeof p, "%s/%s", dir, e->d_name);
    struct stat st;
    if (lstat(p, &st)) continue;
    if (S_ISDIR(st.st_mode)) rm_contents(p, true);
    else unlink(p);
  }
  closedir(d);
  if (self) rmdir(dir);
}
bool dir_nonempty(const char *dir) {
  DIR *d = opendir(dir);
  if (!d) return false;
  bool r = false;
  while (dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) { r = true; break; }
  closedir(d);
  return r;
}

// one simulated run in a forked child; the worker process itself never allocates
char initFailure[2000];                  // what kept the process from being set up
void one_run(Shared *w, int wi, uint32_t scenario, bool useReplay, uint64_t seed, const char *trace) {
  Result &r = w->r;
  memset(&r, 0, offsetof(Result, choices));
  memset(r.counters, 0, sizeof r.counters);
  r.status = 3;
  char dir[128];
  snprintf(dir, sizeof dir, "%s/w%02d", scratchRoot, wi);
  pid_t p = fork();
  if (p == 0) {
    res = &r;
    cov = w->cov;
    R.inChild = false;
    snprintf(R.scratch, sizeof R.scratch, "%s", dir);
    if (chdir(dir)) {}
    if (trace && *trace) R.traceFd = open(trace, O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0644);
    if (useReplay) { R.replay = w->replay; R.nreplay = w->nreplay; }
    else seed_rng(seed);
    if (!getenv("SIM_STDIO")) {
      int n = open("/dev/null", O_WRONLY);
      dup2(n, 1);
      if (!(trace && *trace)) dup2(n, 2);
      if (n > 2) close(n);
    }
    alarm(120);
    child_setup();
    sched_init();
    R.hash = hash_bytes(&scenario, sizeof scenario, R.hash);
    if (*initFailure) fail("initialization", "before any run, setting up the engine process %s", initFailure);
    try {
      scen[scenario].run();
    } catch (std::exception &e) {
      fail("uncaught-exception", "%s", e.what());
    } catch (...) {
      fail("uncaught-exception", "unknown exception in scenario");
    }
    finish(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (r.status == 3) {
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { r.status = 2; snprintf(r.sig, sizeof r.sig, "harness-watchdog"); snprintf(r.detail, sizeof r.detail, "run exceeded 120 s of real time at step %llu", (unsigned long long)r.steps); }
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { r.status = 2; snprintf(r.sig, sizeof r.sig, "harness-killed"); }
    else { r.status = 1; snprintf(r.sig, sizeof r.sig, WIFSIGNALED(st) ? "crash:signal-%d" : "crash:exit-%d", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); snprintf(r.detail, sizeof r.detail, "process died without a verdict (raw status %d)", st); }
    for (uint32_t i = 0; i < r.nspans; i++) if (r.spans[i].e <= r.spans[i].b) r.spans[i].e = r.nchoices;
    r.hash = 0;
  }
  if (dir_nonempty(dir)) rm_contents(dir, false);
}
uint64_t sig_key(const Result &r) {
  uint64_t h = hash_bytes(r.sig, strlen(r.sig));
  if (!strncmp(r.sig, "crash:", 6)) h = hash_bytes(r.pcs, sizeof(uint64_t) * std::min<uint32_t>(r.npcs, 3), h);
  return h;
}
void worker(int wi, int rfd) {
  Shared *w = W[wi];
  if (process_init) {                     // first in a process of its own: the code under test may fail here, too
    int e[2];
    if (pipe(e)) _exit(1);
    pid_t p = fork();
    if (p == 0) {
      dup2(e[1], 2);
      close(e[0]); close(e[1]);
      alarm(120);
      process_init();
      _exit(0);
    }
    close(e[1]);
    std::string said;
    char buf[512];
    for (ssize_t k; (k = read(e[0], buf, sizeof buf)) > 0;) if (said.size() < 1500) said.append(buf, (size_t)k);
    close(e[0]);
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (st) snprintf(initFailure, sizeof initFailure, "%s %d: %s", WIFSIGNALED(st) ? "was ended by signal" : "failed with status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), said.c_str());
    else process_init();
  }
  char c;
  while (read(rfd, &c, 1) == 1) {
    if (w->cmd == 3) _exit(0);
    if (w->cmd == 2) one_run(w, wi, w->scenario, w->useReplay, w->seed, w->traceFile);
    if (w->cmd == 1) {
      for (uint64_t i = w->startIndex; !w->stop && w->runs < w->maxRuns; i += w->strideIndex) {
        uint64_t s = mix(w->baseSeed, i);
        uint32_t t = (uint32_t)(mix(s, 77) % selWeight), k = 0;
        while (t >= scen[sel[k]].weight) { t -= scen[sel[k]].weight; k++; }
        uint32_t sc = sel[k];
        one_run(w, wi, sc, false, s, nullptr);
        if (w->stop) break;
        Result &r = w->r;
        w->runs++;
        w->scenRuns[sc]++;
        w->totalSteps += r.steps; w->totalEvents += r.events; w->totalSim += r.simtime;
        w->totalSwitches += r.switches; w->totalChoices += r.nchoices;
        if (r.nchoices > w->maxChoices) w->maxChoices = r.nchoices;
        for (int j = 0; j < NCOUNT; j++) {
          if (!r.counters[j].name[0]) continue;
          uint32_t h = (uint32_t)(hash_bytes(r.counters[j].name, strlen(r.counters[j].name)) % NCOUNT);
          for (uint32_t q = 0; q < NCOUNT; q++) {
            Counter &cc = w->counters[(h + q) % NCOUNT];
            if (!cc.name[0]) memcpy(cc.name, r.counters[j].name, sizeof cc.name);
            if (!strcmp(cc.name, r.counters[j].name)) { cc.n += r.counters[j].n; w->counterRuns[(h + q) % NCOUNT]++; break; }
          }
        }
        if (w->nhash < HASHCAP) w->hashes[w->nhash++] = r.hash;
        if (r.nontrivial) { w->nontrivialRuns++; if (w->nthash < HASHCAP) w->nthashes[w->nthash++] = r.hash; }
        if (r.status == 0) {
          w->okRuns++;
          if (i % 64 == 7) {      // determinism sample: same seed again, compare hashes
            uint64_t h0 = r.hash;
            one_run(w, wi, sc, false, s, nullptr);
            w->recheck++;
            if (w->r.hash != h0 || w->r.status != 0) { w->recheckBad++; w->recheckBadIndex = i; }
          }
        } else if (r.status == 1) {
          w->violRuns++;
          uint64_t key = sig_key(r);
          uint32_t j = 0;
          for (; j < w->nfail; j++) if (sig_key(w->fails[j].r) == key) { w->fails[j].n++; break; }
          if (j == w->nfail && j < FAILSLOTS) {
            FailSlot &f = w->fails[j];
            f.scenario = sc; f.runIndex = i; f.n = 1;
            memcpy(&f.r, &r, sizeof r);
            f.used = true;
            __atomic_store_n(&w->nfail, j + 1, __ATOMIC_RELEASE);
          }
        } else {
          w->herr.scenario = sc; w->herr.runIndex = i;
          memcpy(&w->herr.r, &r, sizeof r);
          w->herr.used = true;
          break;
        }
      }
    }
    w->cmd = 0;
    char b = (char)wi;
    if (write(fromAll[1], &b, 1) != 1) _exit(1);
  }
  _exit(0);
}
void kick(int wi, int cmd) {
  W[wi]->cmd = cmd;
  char c = 1;
  if (write(toW[wi], &c, 1) != 1) {}
}
int wait_any(int ms) {
  pollfd p = {fromAll[0], POLLIN, 0};
  for (;;) {
    int k = poll(&p, 1, ms < 0 ? 1000 : ms);
    if (k > 0) break;
    int st;
    pid_t d = waitpid(-1, &st, WNOHANG);
    for (int i = 0; d > 0 && i < MAXW; i++) if (wpid[i] == d) {
      printf("HARNESS-ERROR worker %d died (status %d)\n", i, st);
      fflush(stdout);
      rm_contents(scratchRoot, true);
      _exit(2);
    }
    if (ms >= 0) return -1;
  }
  char c;
  if (read(fromAll[0], &c, 1) != 1) return -1;
  return c;
}

// ---- symbolization -----------------------------------------------------------
std::map<uint64_t, std::string> symCache;
void symbolize(const std::vector<uint64_t> &pcs) {
  std::string cmd = "llvm-symbolizer --no-inlines --functions=linkage --demangle --obj=/proc/" + std::to_string(getpid()) + "/exe";
  bool any = false;
  std::vector<uint64_t> todo;
  for (auto p : pcs) if (!symCache.count(p)) { char b[32]; snprintf(b, sizeof b, " 0x%llx", (unsigned long long)(p ? p - 1 : 0)); cmd += b; todo.push_back(p); any = true; }
  if (!any) return;
  cmd += " 2>/dev/null";
  FILE *f = popen(cmd.c_str(), "r");
  char line[4096];
  size_t k = 0;
  bool fn = true;
  while (f && fgets(line, sizeof line, f) && k < todo.size()) {
    size_t n = strlen(line);
    while (n && (line[n - 1] == '\n')) line[--n] = 0;
    if (!n) { k++; fn = true; continue; }
    if (fn) { symCache[todo[k]] = line; fn = false; }
    else { std::string s = line; size_t b = s.find("/src/"); symCache[todo[k]] += " " + (b == std::string::npos ? s.substr(s.rfind('/') + 1) : s.substr(b + 5)); }
  }
  if (f) pclose(f);
  for (auto p : todo) if (!symCache.count(p)) symCache[p] = "??";
}
std::string fn_only(std::string s) {
  size_t p = s.find('(');
  // keep the qualified function name, drop arguments, template args stay
  if (p != std::string::npos && p > 0) s = s.substr(0, p);
  size_t sp = s.rfind(' ');
  if (sp != std::string::npos && s.find('<') == std::string::npos) { size_t q = s.find(' '); s = s.substr(0, q); }
  return s;
}
std::string full_sig(const Result &r) {
  std::string s = r.sig;
  if (strncmp(r.sig, "crash:", 6) || !r.npcs) return s;
  std::vector<uint64_t> v(r.pcs, r.pcs + r.npcs);
  symbolize(v);
  for (auto p : v) {
    std::string &t = symCache[p];
    if (t.find("uima::") != std::string::npos && t.find("std::") != 0 && t.find("__") != 0) { return s + "@" + fn_only(t); }
  }
  return s + "@" + fn_only(symCache[v[0]]);
}
std::string stack_text(const Result &r) {
  std::string o;
  for (uint32_t i = 0; i < r.npcs && i < 12; i++) { uint64_t p = r.pcs[i]; if (!symCache.count(p)) symbolize({p}); o += "#" + std::to_string(i) + " " + symCache[p].substr(0, 200) + "\n"; }
  return o;
}

// ---- known findings ------------------------------------------------------------
struct Known { std::string prop, sig, text; bool seen; };
std::vector<Known> known;
void load_known(const char *f, const char *prop) {
  std::ifstream in(f);
  std::string l;
  while (std::getline(in, l)) {
    if (l.compare(0, 6, "known:")) continue;
    std::istringstream s(l.substr(6));
    std::string p, g, rest;
    s >> p >> g;
    std::getline(s, rest);
    if (p.compare(0, 9, "property=") || g.compare(0, 4, "sig=")) continue;
    if (p.substr(9) == prop) known.push_back({p.substr(9), g.substr(4), rest, false});
  }
}
Known *match_known(const std::string &sig) {
  for (auto &k : known) if (!fnmatch(k.sig.c_str(), sig.c_str(), 0)) return &k;
  return nullptr;
}
std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
struct Trial { std::vector<uint32_t> ch; };
struct Best { std::vector<uint32_t> ch; std::vector<SpanRec> spans; Result r; };

int NW = 8;
void submit(int wi, uint32_t sc, const std::vector<uint32_t> &ch) {
  Shared *w = W[wi];
  w->scenario = sc; w->useReplay = true; w->traceFile[0] = 0;
  w->nreplay = (uint32_t)std::min<size_t>(ch.size(), MAXC);
  std::copy(ch.begin(), ch.begin() + w->nreplay, w->replay);
  kick(wi, 2);
}
// run a batch of candidates; returns index of the first that fails with the same signature, or -1
uint64_t shrinkRuns = 0;
int batch(uint32_t sc, const std::vector<std::vector<uint32_t>> &c, const std::string &sig, Best &best) {
  size_t n = std::min<size_t>(c.size(), NW);
  for (size_t i = 0; i < n; i++) submit((int)i, sc, c[i]);
  for (size_t i = 0; i < n; i++) wait_any(-1);
  shrinkRuns += n;
  for (size_t i = 0; i < n; i++)
    if (W[i]->r.status == 1 && full_sig(W[i]->r) == sig) {
      Result &r = W[i]->r;
      best.ch.assign(r.choices, r.choices + r.nchoices);
      best.spans.assign(r.spans, r.spans + r.nspans);
      memcpy(&best.r, &r, sizeof r);
      return (int)i;
    }
  return -1;
}
bool simpler(const std::vector<uint32_t> &a, const std::vector<uint32_t> &b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}
void shrink(uint32_t sc, const std::string &sig, Best &best, double budget) {
  double t0 = wall();
  auto left = [&] { return wall() - t0 < budget; };
  bool progress = true;
  while (progress && left()) {
    progress = false;
    auto tryAll = [&](std::vector<std::vector<uint32_t>> cands) {
      // run all candidates in groups; on success stop
      for (size_t i = 0; i < cands.size() && left(); i += NW) {
        std::vector<std::vector<uint32_t>> g(cands.begin() + i, cands.begin() + std::min(cands.size(), i + NW));
        Best nb;
        nb.ch = best.ch;
        if (batch(sc, g, sig, nb) >= 0 && simpler(nb.ch, best.ch)) { best = nb; progress = true; return true; }
      }
      return false;
    };
    auto dedup = [&](std::vector<std::vector<uint32_t>> &c) {
      std::set<std::vector<uint32_t>> s;
      std::vector<std::vector<uint32_t>> o;
      for (auto &x : c) if (x != best.ch && s.insert(x).second) o.push_back(x);
      c.swap(o);
    };
    // 1. truncation
    {
      std::vector<std::vector<uint32_t>> c;
      for (size_t d = best.ch.size() / 2; d > 0; d /= 2) { auto x = best.ch; x.resize(x.size() - d); c.push_back(x); }
      while (tryAll(c) && left()) { c.clear(); for (size_t d = best.ch.size() / 2; d > 0; d /= 2) { auto x = best.ch; x.resize(x.size() - d); c.push_back(x); } }
    }
    // 2. delete spans (largest first), repeatedly
    for (bool again = true; again && left();) {
      again = false;
      auto sp = best.spans;
      std::sort(sp.begin(), sp.end(), [](const SpanRec &a, const SpanRec &b) { return a.e - a.b > b.e - b.b; });
      std::vector<std::vector<uint32_t>> c;
      for (auto &s : sp) {
        if (s.e <= s.b || s.e > best.ch.size()) continue;
        auto x = best.ch;
        x.erase(x.begin() + s.b, x.begin() + s.e);
        c.push_back(x);
      }
      dedup(c);
      if (tryAll(c)) again = true;
    }
    // 3. delete / zero chunks
    for (size_t k = 32; k >= 1 && left(); k /= 2) {
      for (bool again = true; again && left();) {
        again = false;
        std::vector<std::vector<uint32_t>> c;
        if (best.ch.size() > 3000 && k < 4) break;
        for (size_t i = 0; i + k <= best.ch.size(); i += k) {
          auto x = best.ch;
          x.erase(x.begin() + i, x.begin() + i + k);
          c.push_back(x);
          auto y = best.ch;
          bool nz = false;
          for (size_t j = i; j < i + k; j++) { nz |= y[j] != 0; y[j] = 0; }
          if (nz) c.push_back(y);
        }
        dedup(c);
        if (tryAll(c)) again = true;
      }
    }
    // 4. lower values
    for (size_t i = 0; i < best.ch.size() && left() && best.ch.size() < 3000; i++) {
      uint32_t v = best.ch[i];
      if (!v) continue;
      std::vector<std::vector<uint32_t>> c;
      for (uint32_t nv : {v / 2, v - 1, v - v / 4}) if (nv < v) { auto x = best.ch; x[i] = nv; c.push_back(x); }
      dedup(c);
      int guard = 0;
      while (tryAll(c) && left() && guard++ < 20 && i < best.ch.size() && best.ch[i]) {
        v = best.ch[i];
        c.clear();
        for (uint32_t nv : {v / 2, v - 1}) if (nv < v) { auto x = best.ch; x[i] = nv; c.push_back(x); }
        dedup(c);
      }
    }
  }
}
std::string write_replay(const std::string &path, const char *prop, uint32_t sc, uint64_t seed, uint64_t idx, const std::string &sig, const Best &b, const std::string &trace) {
  std::ofstream o(path);
  o << "{\n \"property\": \"" << prop << "\",\n \"scenario\": \"" << scen[sc].name << "\",\n \"verif_seed\": " << seed << ",\n \"run_index\": " << idx
    << ",\n \"signature\": \"" << jesc(sig) << "\",\n \"event_hash\": \"" << std::hex << b.r.hash << std::dec << "\",\n \"detail\": \"" << jesc(b.r.detail)
    << "\",\n \"stack\": \"" << jesc(stack_text(b.r)) << "\",\n \"choices\": [";
  for (size_t i = 0; i < b.ch.size(); i++) o << (i ? "," : "") << b.ch[i];
  o << "],\n \"trace\": [\n";
  std::istringstream s(trace);
  std::string l;
  bool first = true;
  int n = 0;
  while (std::getline(s, l) && n++ < 4000) { o << (first ? "" : ",\n") << "  \"" << jesc(l) << "\""; first = false; }
  o << "\n ]\n}\n";
  return path;
}
std::string slurp(const std::string &f) {
  std::ifstream in(f);
  std::stringstream s;
  s << in.rdbuf();
  return s.str();
}
const char *arg(int argc, char **argv, const char *name, const char *def) {
  for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], name)) return argv[i + 1];
  return def;
}
bool flag(int argc, char **argv, const char *name) {
  for (int i = 1; i < argc; i++) if (!strcmp(argv[i], name)) return true;
  return false;
}
std::string jfield(const std::string &j, const std::string &k) {
  size_t p = j.find("\"" + k + "\":");
  if (p == std::string::npos) return "";
  p = j.find(':', p) + 1;
  while (j[p] == ' ') p++;
  if (j[p] == '"') {
    std::string o;
    for (p++; p < j.size() && j[p] != '"'; p++) {
      if (j[p] == '\\') {
        p++;
        if (j[p] == 'n') o += '\n';
        else if (j[p] == 'u') { o += (char)strtol(j.substr(p + 1, 4).c_str(), 0, 16); p += 4; }
        else o += j[p];
      } else o += j[p];
    }
    return o;
  }
  size_t e = j.find_first_of(",\n}", p);
  if (j[p] == '[') e = j.find(']', p) + 1;
  return j.substr(p, e - p);
}
void cleanup() { rm_contents(scratchRoot, true); }
void quit_workers() {
  for (int i = 0; i < NW; i++) kick(i, 3);
  for (int i = 0; i < NW; i++) waitpid(wpid[i], nullptr, 0);
  cleanup();
}
}  // namespace

namespace sim {
Register::Register(const char *p, const char *n, void (*run)(), uint32_t w) {
  if (nscen < MAXSCEN) scen[nscen++] = {p, n, run, w};
}
}

int main(int argc, char **argv) {
  // same memory layout for every execution
  if (!getenv("SIM_REEXEC")) {
    setenv("SIM_REEXEC", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1) {
      char exe[512];
      ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
      if (n > 0) { exe[n] = 0; execv(exe, argv); }
    }
  }
  std::sort(scen, scen + nscen, [](const Scenario &a, const Scenario &b) { int c = strcmp(a.prop, b.prop); return c ? c < 0 : strcmp(a.name, b.name) < 0; });
  const char *prop = arg(argc, argv, "--prop", "");
  const char *only = arg(argc, argv, "--scenario", "");
  const char *replayFile = arg(argc, argv, "--replay", nullptr);
  const char *traceOut = arg(argc, argv, "--trace", nullptr);
  uint64_t seed = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);
  double seconds = atof(arg(argc, argv, "--seconds", "30"));
  uint64_t maxRuns = strtoull(arg(argc, argv, "--runs", "1000000000"), nullptr, 10);
  const char *outDir = arg(argc, argv, "--out", "/tmp");
  const char *resultFile = arg(argc, argv, "--result", nullptr);
  const char *knownFile = arg(argc, argv, "--known", nullptr);
  double shrinkBudget = atof(arg(argc, argv, "--shrink", "25"));
  const char *oneIndex = arg(argc, argv, "--index", nullptr);
  bool keepGoing = flag(argc, argv, "--keep-going");
  NW = replayFile || oneIndex ? 1 : atoi(arg(argc, argv, "--jobs", "8"));
  if (NW < 1) NW = 1;
  if (NW > MAXW) NW = MAXW;
  if (flag(argc, argv, "--list")) { for (int i = 0; i < nscen; i++) printf("%s %s %u\n", scen[i].prop, scen[i].name, scen[i].weight); return 0; }
  snprintf(scratchRoot, sizeof scratchRoot, "/tmp/uimasim.%08x", (unsigned)getpid());
  mkdir(scratchRoot, 0755);
  for (int i = 0; i < NW; i++) { char d[128]; snprintf(d, sizeof d, "%s/w%02d", scratchRoot, i); mkdir(d, 0755); }
  char rprop[64] = "", rscen[64] = "";
  static char rbuf[1 << 22];
  if (replayFile) {
    int fd = open(replayFile, O_RDONLY);
    if (fd < 0) { fprintf(stderr, "cannot open %s\n", replayFile); return 2; }
    ssize_t n = 0, k;
    while ((k = read(fd, rbuf + n, sizeof rbuf - 1 - n)) > 0) n += k;
    rbuf[n] = 0;
    close(fd);
  }
  // select scenarios (replay selects after the fork)
  for (int i = 0; i < nscen; i++)
    if ((!*prop || !strcmp(scen[i].prop, prop)) && (!*only || !strcmp(scen[i].name, only))) { sel[nsel++] = i; selWeight += scen[i].weight; }
  if (!nsel && !replayFile) { fprintf(stderr, "no scenario for %s %s\n", prop, only); return 2; }
  if (pipe(fromAll)) return 2;
  // environment the code under test may read
  for (const char *e : {"UIMACPP_HOME", "UIMACPP_STREAMHANDLERS", "UIMACPP_LOGFILE", "UIMACPP_DATAPATH"}) unsetenv(e);
  setenv("TZ", "UTC", 1);
  signal(SIGXFSZ, SIG_IGN);
  signal(SIGPIPE, SIG_IGN);
  for (int i = 0; i < NW; i++) {
    W[i] = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (W[i] == MAP_FAILED) return 2;
  }
  for (int i = 0; i < NW; i++) {
    int p[2];
    if (pipe(p)) return 2;
    pid_t pid = fork();
    if (pid == 0) {
      close(p[1]);
      worker(i, p[0]);
    }
    close(p[0]);
    toW[i] = p[1];
    wpid[i] = pid;
  }
  double t0 = wall();
  if (replayFile) {
    std::string j = rbuf;
    std::string ps = jfield(j, "property"), ss = jfield(j, "scenario"), want = jfield(j, "signature"), ch = jfield(j, "choices");
    int s = -1;
    for (int i = 0; i < nscen; i++) if (ps == scen[i].prop && ss == scen[i].name) s = i;
    if (s < 0) { fprintf(stderr, "unknown scenario %s/%s\n", ps.c_str(), ss.c_str()); quit_workers(); return 2; }
    std::vector<uint32_t> c;
    for (size_t p = 1; p < ch.size();) { char *e; c.push_back((uint32_t)strtoul(ch.c_str() + p, &e, 10)); if (e == ch.c_str() + p) { c.pop_back(); break; } p = e - ch.c_str() + 1; }
    Shared *w = W[0];
    w->scenario = s; w->useReplay = true; w->nreplay = c.size();
    std::copy(c.begin(), c.end(), w->replay);
    std::string tf = traceOut ? traceOut : std::string(scratchRoot) + "/trace";
    snprintf(w->traceFile, sizeof w->traceFile, "%s", tf.c_str());
    kick(0, 2);
    wait_any(-1);
    std::string got = w->r.status == 1 ? full_sig(w->r) : w->r.status == 0 ? "ok" : w->r.sig;
    if (!flag(argc, argv, "--quiet")) {
      std::string t = slurp(tf);
      fwrite(t.data(), 1, t.size(), stdout);
      printf("signature: %s\ndetail: %s\n%s", got.c_str(), w->r.detail, w->r.status == 1 ? stack_text(w->r).c_str() : "");
    }
    char hb[32];
    snprintf(hb, sizeof hb, "%llx", (unsigned long long)w->r.hash);
    bool same = got == want && jfield(j, "event_hash") == hb;
    printf("%s (hash %s, recorded %s)\n", same ? "REPRODUCED" : "NOT REPRODUCED", hb, jfield(j, "event_hash").c_str());
    quit_workers();
    return same ? 1 : got == want ? 1 : 0;
  }
  if (oneIndex) {
    uint64_t i = strtoull(oneIndex, nullptr, 10), s = mix(seed, i);
    uint32_t t = (uint32_t)(mix(s, 77) % selWeight), k = 0;
    while (t >= scen[sel[k]].weight) { t -= scen[sel[k]].weight; k++; }
    Shared *w = W[0];
    w->scenario = sel[k]; w->useReplay = false; w->seed = s;
    std::string tf = traceOut ? traceOut : std::string(scratchRoot) + "/trace";
    snprintf(w->traceFile, sizeof w->traceFile, "%s", tf.c_str());
    kick(0, 2);
    wait_any(-1);
    std::string tt = slurp(tf);
    fwrite(tt.data(), 1, tt.size(), stdout);
    printf("status %d sig %s steps %llu\n%s\n%s\n", w->r.status, w->r.status == 1 ? full_sig(w->r).c_str() : w->r.sig, (unsigned long long)w->r.steps, w->r.detail, stack_text(w->r).c_str());
    quit_workers();
    return w->r.status;
  }
  if (knownFile) load_known(knownFile, prop);
  printf("simulating property=%s seed=%llu jobs=%d scenarios=%d\n", prop, (unsigned long long)seed, NW, nsel);
  fflush(stdout);
  for (int i = 0; i < NW; i++) {
    W[i]->baseSeed = mix(seed, hash_bytes(prop, strlen(prop)));
    if (flag(argc, argv, "--rawseed")) W[i]->baseSeed = seed;
    W[i]->startIndex = i;
    W[i]->strideIndex = NW;
    W[i]->maxRuns = (maxRuns + NW - 1 - i) / NW;
    kick(i, 1);
  }
  int running = NW;
  std::set<std::string> unknownSigs;
  std::map<std::string, std::pair<int, int>> found;   // sig -> worker, slot
  std::vector<uint32_t> seenSlots(NW, 0);
  bool herr = false;
  auto scan = [&] {
    for (int i = 0; i < NW; i++) {
      uint32_t n = __atomic_load_n(&W[i]->nfail, __ATOMIC_ACQUIRE);
      for (; seenSlots[i] < n; seenSlots[i]++) {
        std::string s = full_sig(W[i]->fails[seenSlots[i]].r);
        if (!found.count(s)) found[s] = {i, (int)seenSlots[i]};
        if (Known *k = match_known(s)) k->seen = true;
        else unknownSigs.insert(s);
      }
      if (W[i]->herr.used) herr = true;
    }
  };
  while (running > 0) {
    int r = wait_any(50);
    if (r >= 0) running--;
    scan();
    if ((unknownSigs.size() && !keepGoing) || herr || wall() - t0 > seconds)
      for (int i = 0; i < NW; i++) W[i]->stop = 1;
  }
  scan();
  double explored = wall() - t0;
  // ---- merge
  uint64_t runs = 0, ok = 0, viol = 0, nt = 0, stepsT = 0, evT = 0, simT = 0, sw = 0, chT = 0, chM = 0, rc = 0, rcBad = 0, rcIdx = 0, scr[MAXSCEN] = {0};
  std::map<std::string, std::pair<uint64_t, uint64_t>> cnt;
  std::unordered_set<uint64_t> hs, nths;
  size_t edges = 0;
  std::vector<uint8_t> cv(1 << 20, 0);
  for (int i = 0; i < NW; i++) {
    Shared *w = W[i];
    runs += w->runs; ok += w->okRuns; viol += w->violRuns; nt += w->nontrivialRuns;
    stepsT += w->totalSteps; evT += w->totalEvents; simT += w->totalSim; sw += w->totalSwitches; chT += w->totalChoices;
    chM = std::max(chM, w->maxChoices);
    rc += w->recheck; rcBad += w->recheckBad;
    if (w->recheckBad) rcIdx = w->recheckBadIndex;
    for (int j = 0; j < nscen; j++) scr[j] += w->scenRuns[j];
    for (int j = 0; j < NCOUNT; j++) if (w->counters[j].name[0]) { auto &c = cnt[w->counters[j].name]; c.first += w->counters[j].n; c.second += w->counterRuns[j]; }
    for (uint64_t j = 0; j < w->nhash; j++) hs.insert(w->hashes[j]);
    for (uint64_t j = 0; j < w->nthash; j++) nths.insert(w->nthashes[j]);
    for (size_t j = 0; j < cv.size(); j++) cv[j] |= w->cov[j];
  }
  for (auto b : cv) edges += b;
  int exitCode = 0;
  std::vector<std::string> violLines;
  if (herr) {
    for (int i = 0; i < NW; i++) if (W[i]->herr.used) {
      printf("HARNESS-ERROR %s index=%llu scenario=%s: %s\n", W[i]->herr.r.sig, (unsigned long long)W[i]->herr.runIndex, scen[W[i]->herr.scenario].name, W[i]->herr.r.detail);
      break;
    }
    exitCode = 2;
  }
  for (auto &f : found) {
    FailSlot &fs = W[f.second.first]->fails[f.second.second];
    Known *k = match_known(f.first);
    if (k && !keepGoing) continue;
    if (!k && violLines.size() >= 3 && !keepGoing) continue;
    Best b;
    // copy: workers' slots stay untouched by later single runs
    b.ch.assign(fs.r.choices, fs.r.choices + fs.r.nchoices);
    b.spans.assign(fs.r.spans, fs.r.spans + fs.r.nspans);
    memcpy(&b.r, &fs.r, sizeof fs.r);
    Best orig = b;
    std::string sig = f.first;
    if (shrinkBudget > 0) shrink(fs.scenario, sig, b, violLines.empty() ? shrinkBudget : shrinkBudget / 3);
    char name[96];
    snprintf(name, sizeof name, "%s-%s-%08x", scen[fs.scenario].prop, scen[fs.scenario].name, (unsigned)(hash_bytes(sig.data(), sig.size()) & 0xffffffff));
    std::string path = std::string(outDir) + "/" + name + ".json";
    bool confirmed = false;
    for (int attempt = 0; attempt < 2 && !confirmed; attempt++) {
      Best &c = attempt ? orig : b;
      std::vector<std::vector<uint32_t>> two(2, c.ch);
      // gate 1: the same choices twice, equal signature and event hash
      for (int i = 0; i < 2; i++) submit(std::min(i, NW - 1), fs.scenario, c.ch), wait_any(-1), (void)0;
      Result *r0 = &W[0]->r, *r1 = &W[std::min(1, NW - 1)]->r;
      if (!(r0->status == 1 && r1->status == 1 && full_sig(*r0) == sig && full_sig(*r1) == sig && r0->hash == r1->hash)) continue;
      c.ch.assign(r0->choices, r0->choices + r0->nchoices);
      memcpy(&c.r, r0, sizeof *r0);
      // trace
      Shared *w = W[0];
      std::string tf = std::string(scratchRoot) + "/trace";
      w->scenario = fs.scenario; w->useReplay = true; w->nreplay = c.ch.size();
      std::copy(c.ch.begin(), c.ch.end(), w->replay);
      snprintf(w->traceFile, sizeof w->traceFile, "%s", tf.c_str());
      kick(0, 2); wait_any(-1);
      write_replay(path, scen[fs.scenario].prop, fs.scenario, seed, fs.runIndex, sig, c, slurp(tf));
      // gate 2: a fresh process replaying the file must reproduce signature and hash
      std::string exe(600, 0);
      ssize_t n = readlink("/proc/self/exe", &exe[0], 599);
      exe.resize(n > 0 ? n : 0);
      std::string cmd = "'" + exe + "' --quiet --replay '" + path + "'";
      FILE *pf = popen(cmd.c_str(), "r");
      char lb[512];
      std::string out;
      while (pf && fgets(lb, sizeof lb, pf)) out += lb;
      int rcx = pf ? pclose(pf) : -1;
      if (out.compare(0, 10, "REPRODUCED") == 0 && WIFEXITED(rcx) && WEXITSTATUS(rcx) == 1) confirmed = true;
      else printf("replay gate: %s", out.c_str());
    }
    printf("%s %s\n  scenario=%s run_index=%llu seen=%llu choices=%zu (from %u) detail: %s\n%s", k ? "known" : "violation", sig.c_str(), scen[fs.scenario].name,
           (unsigned long long)fs.runIndex, (unsigned long long)fs.n, b.ch.size(), fs.r.nchoices, b.r.detail, stack_text(b.r).c_str());
    if (k) continue;
    if (confirmed) {
      violLines.push_back("VIOLATION property=" + std::string(*prop ? prop : scen[fs.scenario].prop) + " replay=" + path);
    } else {
      printf("UNCONFIRMED %s: the failure did not replay identically\n", sig.c_str());
      if (!exitCode) exitCode = 2;
    }
  }
  if (!violLines.empty()) exitCode = 1;
  for (auto &k : known) printf("KNOWN-FINDING: property=%s %s (sig %s)%s\n", k.prop.c_str(), k.text.c_str(), k.sig.c_str(), k.seen ? " [reproduced in this run]" : "");
  if (rcBad) printf("determinism: %llu of %llu re-executed runs differed, e.g. index %llu\n", (unsigned long long)rcBad, (unsigned long long)rc, (unsigned long long)rcIdx);
  printf("runs=%llu ok=%llu violating=%llu nontrivial=%llu distinct=%zu edges=%zu/%u wall=%.1fs (%.0f runs/s) avg_choices=%.0f max=%llu recheck=%llu bad=%llu\n", (unsigned long long)runs, (unsigned long long)ok,
         (unsigned long long)viol, (unsigned long long)nt, hs.size(), edges, covN, explored, runs / std::max(explored, 0.001), runs ? (double)chT / runs : 0, (unsigned long long)chM, (unsigned long long)rc, (unsigned long long)rcBad);
  if (flag(argc, argv, "--counters")) for (auto &c : cnt) printf("  %-40s %10llu in %llu runs\n", c.first.c_str(), (unsigned long long)c.second.first, (unsigned long long)c.second.second);
  if (resultFile) {
    std::ofstream o(resultFile);
    o << "{\"runs\":" << runs << ",\"ok\":" << ok << ",\"violating\":" << viol << ",\"nontrivial\":" << nt << ",\"distinct\":" << hs.size() << ",\"distinct_nontrivial\":" << nths.size()
      << ",\"edges\":" << edges << ",\"edges_total\":" << covN << ",\"explore_s\":" << explored << ",\"wall_s\":" << wall() - t0 << ",\"steps\":" << stepsT << ",\"events\":" << evT << ",\"sim_us\":" << simT
      << ",\"switches\":" << sw << ",\"choices\":" << chT << ",\"recheck\":" << rc << ",\"recheck_bad\":" << rcBad << ",\"shrink_runs\":" << shrinkRuns << ",\"scenarios\":{";
    bool f = true;
    for (int j = 0; j < nscen; j++) if (scr[j]) { o << (f ? "" : ",") << "\"" << scen[j].name << "\":" << scr[j]; f = false; }
    o << "},\"counters\":{";
    f = true;
    for (auto &c : cnt) { o << (f ? "" : ",") << "\"" << jesc(c.first) << "\":[" << c.second.first << "," << c.second.second << "]"; f = false; }
    o << "},\"violations\":" << violLines.size() << ",\"samples\":[";
    // samples: traces of a few of this run's executions
    f = true;
    for (int k = 0; k < 3 && runs; k++) {
      uint64_t i = (uint64_t)k * 37 % std::max<uint64_t>(runs, 1), s = mix(mix(seed, hash_bytes(prop, strlen(prop))), i);
      uint32_t t = (uint32_t)(mix(s, 77) % selWeight), q = 0;
      while (t >= scen[sel[q]].weight) { t -= scen[sel[q]].weight; q++; }
      Shared *w = W[0];
      std::string tf = std::string(scratchRoot) + "/trace";
      w->scenario = sel[q]; w->useReplay = false; w->seed = s;
      snprintf(w->traceFile, sizeof w->traceFile, "%s", tf.c_str());
      kick(0, 2); wait_any(-1);
      std::string tr = slurp(tf);
      if (tr.size() > 1800) tr.resize(1800), tr += "...";
      o << (f ? "" : ",") << "{\"scenario\":\"" << scen[sel[q]].name << "\",\"run_index\":" << i << ",\"seed\":" << s << ",\"choices\":" << w->r.nchoices << ",\"event_hash\":\"" << std::hex << w->r.hash << std::dec << "\",\"trace\":\"" << jesc(tr) << "\"}";
      f = false;
    }
    o << "]}\n";
  }
  quit_workers();
  for (auto &v : violLines) printf("%s\n", v.c_str());
  return exitCode;
}
