// R02: log messages. Several tasks log through their own and the shared facilities (every overload, streams) to
// scripted loggers that are slow, fail, come and go, and to a log file on a disk that fills up; every delivery is
// compared with what was logged.
#include "eng.hpp"
#include "../core/wraps.hpp"
#include <uima/log.hpp>
#include <uima/resmgr.hpp>
#include <stdexcept>
using namespace uima;

namespace {
typedef LogStream::EnEntryType Sev;
const char *sevName[] = {"message", "warning", "error"};
const char *fileWord[] = {"INFO", "WARNING", "SEVERE"};

// ---- what was logged --------------------------------------------------------
struct Msg {
  std::string token;      // unique in the run, part of text
  std::string text, origin;
  Sev sev;
  long code;
  int task;
  uint64_t from, to = ~0ull;   // event times of the call
  bool due;                // at or above its facility's level
  bool clear = true;       // no disk fault while it was being logged
};
std::vector<Msg> *msgs;
uint64_t tick, faultsFired;

struct Got { int sev; std::string origin, text; long code; uint64_t at; };
struct Rec : Logger {
  int id = 0;
  uint32_t failPm = 0, slowPm = 0;
  uint64_t since = ~0ull, sinceEnd = ~0ull, until = ~0ull, untilEnd = ~0ull;   // registration call .. unregistration call
  std::vector<Got> got;
  bool inside = false;
  void log(Sev s, std::string cls, std::string, std::string text, long code) override {
    sim::Harness h;
    got.push_back(Got{(int)s, cls, text, code, tick++});
    sim::ev("logger %d got %s", id, text.c_str());
    if (sim::chance(slowPm)) { sim::fault("slow_logger"); sim::sleep_us(1 + sim::draw(5000)); }
    else sim::yield();
    if (sim::chance(failPm)) {
      sim::fault("logger_throws");
      switch (sim::draw(4)) {
        case 0: throw std::runtime_error("logger failed");
        case 1: throw std::bad_alloc();
        case 2: throw 42;
        default: UIMA_EXC_THROW_NEW(Uima_runtime_error, UIMA_ERR_USER_ANNOTATOR_COULD_NOT_INIT, UIMA_MSG_ID_LITERAL_STRING,
                                    ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, "logger failed"), ErrorInfo::recoverable);
      }
    }
  }
};

// ---- a log file on a simulated disk -------------------------------------------
struct Disk {
  std::string data;
  uint32_t failPm = 0;     // chance that a write is refused or cut short
  bool on = false;
};
Disk *disk;
ssize_t diskWrite(void *, const char *b, size_t n) {
  sim::Harness h;
  sim::yield();
  if (disk->on && sim::chance(disk->failPm)) {
    faultsFired++;
    if (n > 1 && sim::chance(500)) {
      sim::fault("short_write");
      n = 1 + sim::draw((uint32_t)n - 1);
      disk->data.append(b, n);
      return (ssize_t)n;
    }
    sim::fault("disk_full");
    errno = ENOSPC;
    return 0;
  }
  disk->data.append(b, n);
  return (ssize_t)n;
}
int diskClose(void *) { return 0; }

std::string randomText() {
  static const char *parts[] = {"x", " ", "a longer piece of text", "\n", "\t", "%s%n", "\xc3\xa9", "<&>", "\"q\""};
  std::string s;
  for (uint32_t i = sim::skewed(6); i > 0; i--) s += parts[sim::draw(9)];
  if (sim::chance(60)) s += std::string(sim::skewed(40000), 'y') + 'z';
  return s;
}
bool ascii(std::string const &s) { for (char c : s) if ((unsigned char)c >= 0x80) return false; return true; }

struct Facility {
  LogFacility *f;
  std::string origin;
  Sev level;
  std::string pending, pendingToken;
  Sev pendingSev = LogStream::EnMessage;
};
int seq;
int favour;              // the overload this run mostly uses, or -1
uint32_t sharedWeight;

// one call on a facility
void logOne(Facility &F, bool mayStream) {
  sim::Span span;
  int task = sim::self();
  Msg m;
  m.token = sim::fmt("m%d.%d.", task, seq++);
  m.text = m.token + randomText();
  m.origin = F.origin;
  m.sev = (Sev)sim::draw(3);
  m.task = task;
  m.code = sim::chance(400) ? (long)(1 + sim::draw(3000)) : 0;
  uint32_t how = sim::draw(mayStream ? 6 : 4);
  if (how < 4 && favour >= 0) how = (uint32_t)favour;
  std::function<void()> call;
  LogFacility &f = *F.f;
  auto plain = [&f, &m](auto const &text) {
    if (m.sev == LogStream::EnMessage) f.logMessage(text, m.code);
    else if (m.sev == LogStream::EnWarning) f.logWarning(text, m.code);
    else f.logError(text, m.code);
  };
  switch (how) {
    case 0: call = [&] { plain(m.text.c_str()); }; break;
    case 1: call = [&] { plain(m.text); }; break;
    case 2:
      if (!ascii(m.text)) m.text = m.token;
      call = [&] { plain(icu::UnicodeString(m.text.c_str())); };
      break;
    case 3: {
      if (m.sev == LogStream::EnMessage) m.sev = LogStream::EnWarning;
      m.code = 0;
      static const ErrorInfo::EnSeverity sv[] = {ErrorInfo::unrecoverable, ErrorInfo::recoverable};
      ErrorInfo ei(ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, m.text.c_str()), UIMA_ERR_USER_ANNOTATOR_COULD_NOT_PROCESS, sv[sim::draw(2)]);
      m.text = ei.asString();
      call = [&f, &m, ei] { if (m.sev == LogStream::EnWarning) f.logWarning(ei); else f.logError(ei); };
      break;
    }
    case 4:
      m.code = 0;
      call = [&] { LogStream &s = f.getLogStream(m.sev); s << m.token << m.text.substr(m.token.size()); s.flush(); };
      break;
    default:                     // text left in the stream: delivered by whatever flushes it next
      m.code = 0;
      call = [&] { f.getLogStream(m.sev) << m.text; };
      break;
  }
  bool pendingBefore = !F.pendingToken.empty();
  bool streams = how >= 4;
  m.due = m.sev >= F.level;
  m.from = tick++;
  uint64_t ff = faultsFired;
  size_t at = msgs->size();
  msgs->push_back(m);
  sim::ev("log %s by %s (%s)", m.token.c_str(), F.origin.c_str(), sevName[m.sev]);
  try { sim::sut(call); }
  catch (...) { sim::count("probe.logger_failure_seen_by_caller"); }
  bool clear = faultsFired == ff && !(disk->on && disk->failPm);
  uint64_t end = tick++;
  if (how != 5) { (*msgs)[at].to = end; (*msgs)[at].clear = clear; }
  if (streams && pendingBefore)
    for (auto &o : *msgs) if (o.token == F.pendingToken) { o.to = end; o.clear = o.clear && clear; }
  if (how == 5) { F.pendingToken = m.token; F.pending = m.text; F.pendingSev = m.sev; }
  else if (streams) F.pendingToken.clear();
  sim::nontrivial();
}

Facility make(std::string const &origin) {
  Facility F;
  F.origin = origin;
  icu::UnicodeString o(origin.c_str());
  if (sim::chance(300)) {
    F.level = (Sev)sim::draw(3);
    F.f = sim::sut([&] { return new LogFacility(o, F.level); });
  } else {
    F.level = ResourceManager::getInstance().getLoggingLevel();
    F.f = sim::sut([&] { return new LogFacility(o); });
  }
  return F;
}
void drop(Facility &F) {
  uint64_t ff = faultsFired;
  try { sim::sut([&] { delete F.f; }); }
  catch (...) { sim::fail("destructor-throws", "destroying the log facility of %s threw", F.origin.c_str()); }
  if (!F.pendingToken.empty())
    for (auto &o : *msgs) if (o.token == F.pendingToken) { o.to = tick++; o.clear = o.clear && faultsFired == ff && !(disk->on && disk->failPm); }
  F.f = nullptr;
}

void add(Rec *r) {
  r->since = tick++;
  sim::sut([&] { ResourceManager::getInstance().registerLogger(r); });
  r->sinceEnd = tick++;
}
void remove(Rec *r) {
  r->until = tick++;
  sim::sut([&] { ResourceManager::getInstance().unregisterLogger(r); });
  r->untilEnd = tick++;
}

struct Owner { AnalysisEngine *engine; Facility f; };
void worker(Facility *shared, Facility *annotators, uint32_t mean) {
  std::vector<Facility> mine;
  static const char *names[] = {"", "ann", "org.apache.uima.cpp", "a name"};
  while (sim::more(mean)) {
    uint32_t op = sim::weighted({10, sharedWeight, 2, 1});
    if (op == 1) logOne(*shared, false);
    else if (annotators && sim::chance(300)) logOne(*annotators, true);
    else if (op == 2 || mine.empty()) mine.push_back(make(sim::fmt("%s%d.%d", names[sim::draw(4)], sim::self(), (int)mine.size())));
    else if (op == 3) { uint32_t i = sim::draw((uint32_t)mine.size()); drop(mine[i]); mine.erase(mine.begin() + i); }
    else logOne(mine[sim::draw((uint32_t)mine.size())], true);
  }
  for (auto &F : mine) drop(F);
}

void check(std::vector<Rec *> const &recs) {
  for (Rec *r : recs) {
    std::vector<int> last(64, -1);
    std::vector<size_t> seen(msgs->size(), 0);
    for (auto &g : r->got) {
      // find the message by its token
      size_t k = msgs->size();
      for (size_t i = 0; i < msgs->size(); i++)
        if (g.text.find((*msgs)[i].token) != std::string::npos) {
          if (k != msgs->size()) sim::fail("messages-mixed", "logger %d got one text with two messages in it: %s", r->id, g.text.c_str());
          k = i;
        }
      if (k == msgs->size()) continue;      // logged by the framework itself
      Msg &m = (*msgs)[k];
      seen[k]++;
      if (g.text != m.text) sim::fail("text-changed", "logger %d got \"%s\" for the message \"%s\"", r->id, g.text.c_str(), m.text.c_str());
      if (g.origin != m.origin) sim::fail("wrong-origin", "logger %d got message %s as from \"%s\"; it was logged by \"%s\"", r->id, m.token.c_str(), g.origin.c_str(), m.origin.c_str());
      if (g.sev != m.sev) sim::fail("wrong-severity", "logger %d got message %s as %s; it was logged as %s", r->id, m.token.c_str(), sevName[g.sev % 3], sevName[m.sev]);
      if (g.code != m.code) sim::fail("wrong-code", "logger %d got message %s with code %ld; it was logged with %ld", r->id, m.token.c_str(), g.code, m.code);
      if (!m.due) sim::fail("below-level", "logger %d got %s %s, which is below the level of its facility %s", r->id, sevName[m.sev], m.token.c_str(), m.origin.c_str());
      if (g.at < m.from || g.at > m.to) sim::fail("late-delivery", "logger %d got message %s after the call that logged it had returned", r->id, m.token.c_str());
    }
    for (size_t i = 0; i < msgs->size(); i++) {
      Msg &m = (*msgs)[i];
      if (seen[i] > 1) sim::fail("delivered-twice", "logger %d got message %s %zu times", r->id, m.token.c_str(), seen[i]);
      bool throughout = m.due && r->sinceEnd < m.from && m.to < r->until;
      if (throughout && !seen[i]) sim::fail("message-lost", "logger %d never got %s %s of %s", r->id, sevName[m.sev], m.token.c_str(), m.origin.c_str());
      if (seen[i] && (m.to < r->since || m.from > r->untilEnd)) sim::fail("not-registered", "logger %d got message %s while it was not registered", r->id, m.token.c_str());
      if (throughout) sim::count("probe.deliveries_checked");
    }
    // each task's calls end in order, and so do the deliveries (a text left in a stream counts where it was flushed)
    for (auto &a : r->got) for (auto &b : r->got) {
      if (&a >= &b) continue;
      Msg *ma = nullptr, *mb = nullptr;
      for (auto &m : *msgs) { if (a.text == m.text) ma = &m; if (b.text == m.text) mb = &m; }
      if (ma && mb && ma->task == mb->task && mb->to < ma->from)
        sim::fail("out-of-order", "logger %d got %s before %s", r->id, ma->token.c_str(), mb->token.c_str());
    }
  }
}
void checkFile(uint64_t since) {
  std::string const &d = disk->data;
  size_t prev = 0;
  std::vector<size_t> lastOf(64, 0);
  for (auto &m : *msgs) {
    if (m.from < since) continue;
    std::string want = m.origin + " " + m.text + "\n";
    size_t p = d.find(want), n = 0;
    for (size_t q = d.find(m.token); q != std::string::npos; q = d.find(m.token, q + 1)) n++;
    if (!m.due) {
      if (n) sim::fail("below-level", "the log file has %s %s, which is below the level of its facility", sevName[m.sev], m.token.c_str());
      continue;
    }
    if (!m.clear) { sim::count("probe.logged_while_disk_failed"); continue; }
    if (p == std::string::npos) sim::fail(n ? "file-line-damaged" : "file-message-lost", "the log file %s message %s of %s", n ? "does not have whole" : "does not have", m.token.c_str(), m.origin.c_str());
    if (n > 1) sim::fail("delivered-twice", "the log file has message %s %zu times", m.token.c_str(), n);
    // what precedes it on its line
    size_t b = p > 100 ? p - 100 : 0;
    std::string before = d.substr(b, p - b);
    size_t nl = before.rfind('\n');
    if (nl != std::string::npos) before = before.substr(nl + 1);
    if (before.find(fileWord[m.sev]) == std::string::npos) sim::fail("wrong-severity", "the log file has message %s on a line that starts \"%s\"; it was logged as %s", m.token.c_str(), before.c_str(), sevName[m.sev]);
    if (m.code && before.find(sim::fmt("%ld", m.code)) == std::string::npos) sim::fail("wrong-code", "the log file has message %s on a line that starts \"%s\"; it was logged with code %ld", m.token.c_str(), before.c_str(), m.code);
    sim::count("probe.file_lines_checked");
    (void)prev;
  }
}
}  // namespace

SIM_SCENARIO(R02, logging, 1) {
  msgs = new std::vector<Msg>();
  disk = new Disk();
  tick = 1; seq = 0; faultsFired = 0;
  favour = (int)sim::draw(8) - 4;
  if (favour < 0) favour = -1;
  sharedWeight = sim::chance(300) ? 60 : 3;
  sim::set_preemption(sim::draw(3) * 300, 40);
  sim::set_store_preemption(sim::draw(3) * 250);
  ResourceManager &rm = ResourceManager::getInstance();
  Sev level = (Sev)sim::weighted({5, 2, 2});
  rm.setLoggingLevel(level);
  if (rm.getLoggingLevel() != level) sim::fail("level-not-kept", "the level was set to %d and is %d", (int)level, (int)rm.getLoggingLevel());
  uint32_t failPm = sim::chance(500) ? sim::draw(500) : 0, slowPm = sim::draw(200);
  std::vector<Rec *> recs;
  for (uint32_t i = 1 + sim::draw(3); i > 0; i--) {
    Rec *r = new Rec();
    r->id = (int)recs.size();
    r->failPm = sim::chance(500) ? failPm : 0;
    r->slowPm = slowPm;
    recs.push_back(r);
  }
  // the log file
  FileLogger *file = nullptr;
  sim::fopen_hook = [](const char *, const char *mode, FILE **f) {
    if (*mode != 'a') sim::fail("log-file-truncated", "the log file is opened with mode %s", mode);
    cookie_io_functions_t io = {nullptr, diskWrite, nullptr, diskClose};
    *f = fopencookie(nullptr, "a", io);
    return true;
  };
  disk->on = true;
  disk->failPm = sim::chance(400) ? sim::draw(400) : 0;
  uint64_t fileSince = 0;
  auto addFile = [&] { if (!file) { file = sim::sut([] { return new FileLogger("uima.log"); }); sim::sut([&] { rm.registerLogger(file); }); fileSince = tick++; } };
  if (sim::chance(300)) addFile();
  for (auto r : recs) if (sim::chance(800)) add(r);
  addFile();
  Facility shared;
  shared.origin = "org.apache.uima.cpp";
  shared.f = &rm.getLogger();
  shared.level = LogStream::EnMessage;
  // the facilities annotators get from their context
  std::vector<Owner> engines;
  uint32_t nt = 1 + sim::draw(3), mean = 3 + sim::skewed(20);
  if (sim::chance(300)) {
    eng::reset();
    eng::registerLibs();
    for (uint32_t i = 0; i < nt; i++) {
      eng::Desc d;
      d.name = sim::fmt("engine%u", i);
      Owner o;
      eng::onInit = [&](eng::Ann &, AnnotatorContext &c) { o.f.f = &c.getLogger(); };
      o.f.origin = d.name;
      o.f.level = level;
      ErrorInfo ei;
      eng::Answer a;
      o.engine = eng::create(d, (int)sim::draw(3), ei, a);
      if (!o.engine || !o.f.f) sim::fail("engine-not-created", "an engine could not be created: %s", ei.asString().c_str());
      engines.push_back(o);
    }
    eng::onInit = nullptr;
  }
  bool changes = sim::chance(400);      // loggers come and go while others log
  std::vector<int> tasks;
  for (uint32_t i = 0; i < nt; i++) tasks.push_back(sim::spawn(sim::fmt("w%u", i), [&, i] { worker(&shared, engines.empty() ? nullptr : &engines[i].f, mean); }));
  if (changes)
    while (sim::more(3)) {
      sim::sleep_us(1 + sim::draw(3000));
      Rec *r = sim::pick(recs);
      if (r->since == ~0ull) add(r);
      else if (r->until == ~0ull) remove(r);
    }
  for (int t : tasks) sim::join(t);
  for (auto &o : engines) {
    uint64_t ff = faultsFired;
    sim::sut([&] { delete o.engine; });
    for (auto &m : *msgs) if (m.token == o.f.pendingToken) { m.to = tick++; m.clear = m.clear && faultsFired == ff && !(disk->on && disk->failPm); }
  }
  // faults stop: what is logged from now on must arrive everywhere
  disk->on = false;
  for (auto r : recs) r->failPm = 0;
  for (auto r : recs) if (r->since == ~0ull) add(r);
  { Facility F = make("final"); logOne(F, true); logOne(F, true); drop(F); }
  logOne(shared, false);
  check(recs);
  for (auto r : recs) if (r->until == ~0ull) remove(r);
  sim::sut([&] { rm.unregisterLogger(file); delete file; });
  checkFile(fileSince);
  sim::fopen_hook = nullptr;
}
