// S01-S05: the whole deployed service - main program, listeners, monitor, logger, command thread, engines - in one
// process, with simulated brokers, controller, signals, stdin, threads and time.
#include "broker.hpp"
#include "../core/wraps.hpp"
#include "../cas/damage.hpp"
#include "../cas/ser.hpp"
#include "../eng/eng.hpp"
#include "uima/taespecifierbuilder.hpp"
#include "uima/xcasdeserializer.hpp"
#include "uima/xmlwriter.hpp"
#include "uima/xmideserializer.hpp"
#include "uima/xmiwriter.hpp"
#include <csignal>
#include <cstring>
#include <sstream>
#include <xercesc/framework/MemBufInputSource.hpp>
using namespace sim;
using namespace svc;
using namespace eng;

namespace {
enum { PROCESS = 2000, META = 2001, CPC = 2002, XMI = 1000, EXC = 1003, XCAS = 1004, NOP = 1005 };
const uint64_t SEC = 1000000;

struct Plan { uint64_t us = 0; Out out; };
struct Req {
  int id = 0, cmd = 0, payload = -1;
  bool wellFormed = true;
  bool fails = false;                      // the analysis (or reading the CAS) does
  Plan plan;
  std::string body, want, ref, malformed;
  Broker *rb = nullptr; std::string rq;
  bool put_ = false; uint64_t putAt = 0;
  uint64_t spent = 0;                      // by the annotator, on it
  int tookIx = -1;
  std::vector<int> replies;                // indexes into delivered
};
struct Cfg {
  int inst = 1, trace = -1, log = 0, err = 0;
  bool jport = true, cpcTerm = false;
  std::string url;
};

struct Run {
  Cfg cfg;
  Broker *mainB = nullptr, *other = nullptr;
  std::vector<Req *> reqs;
  std::vector<Plan> curPlan;
  bool reference = false;                  // computing what is right, not serving
  AnalysisEngine *refEngine = nullptr;
  std::string aeFile, meta;
  uint64_t lastFault = 0;
  std::vector<uint64_t> faults;
  bool faultsOn = false;
  uint32_t opPm = 0;
  uint64_t startAt = 0, readyAt = 0;
  size_t seen = 0;                         // of delivered
  uint64_t maxPlan = 0;
};
Run *G;

void faultNow() { G->lastFault = now_us(); G->faults.push_back(now_us()); }
Req *byRef(std::string const &ref, std::string const &queue) {
  if (!ref.empty()) { for (auto r : G->reqs) if (r->ref == ref) return r; return nullptr; }
  for (auto r : G->reqs) if (r->ref.empty() && r->rq == queue) return r;
  return nullptr;
}

// ---- the annotator -----------------------------------------------------------------------
Plan &planOf() {
  size_t t = (size_t)self();
  if (G->curPlan.size() <= t) G->curPlan.resize(t + 1);
  return G->curPlan[t];
}
void annotate(Ann &a, CAS &cas, ResultSpecification const &) {
  (void)a;
  int tag = -1;
  sut([&] {
    CAS *v = &cas;
    UnicodeStringRef t = v->getDocumentText();
    std::string s;
    for (int i = 0; i < t.length() && i < 12; i++) s += t.charAt(i) < 128 ? (char)t.charAt(i) : '?';
    if (s.size() > 1 && s[0] == 'R') tag = atoi(s.c_str() + 1);
  });
  Plan p;
  for (auto r : G->reqs) if (r->id == tag) p = r->plan;
  if (!G->reference && p.us) { uint64_t h = p.us / 2; sleep_us(h); }
  sut([&] {
    if (!cas.getSofa().isValid()) return;
    UnicodeStringRef t = cas.getDocumentText();
    Type tok = cas.getTypeSystem().getType(w::us("ent.Tok")), sub = cas.getTypeSystem().getType(w::us("ent.SubTok"));
    ANIndex ix = cas.getAnnotationIndex(tok);
    size_t before = ix.getSize();
    for (int i = 0; i + 1 < t.length() && i < 6; i += 2) cas.getIndexRepository().addFS(cas.createAnnotation(tok, (size_t)i, (size_t)i + 2));
    // what was there already shows in what is added
    cas.getIndexRepository().addFS(cas.createAnnotation(sub, before, before + (size_t)t.length()));
  });
  if (!G->reference && p.us) sleep_us(p.us - p.us / 2);
  planOf() = p;
  if (!G->reference)
    for (int i = (int)taken.size() - 1; i >= 0; i--) if (taken[i].task == self()) {
      for (auto r : G->reqs) if (r->tookIx == i) r->spent += p.us;
      break;
    }
}
Out decideCall(int, Call c) {
  if (c == C_PROCESS) return planOf().out;
  if (c == C_COLL && !G->reference)
    for (int i = (int)taken.size() - 1; i >= 0; i--) if (taken[i].task == self()) {
      Req *r = byRef(taken[i].m.str("CasReference"), taken[i].m.hasReply ? taken[i].m.replyQueue : taken[i].m.str("MessageFrom"));
      if (!r || r->cmd != CPC) return Out();
      if (r->plan.us) sleep_us(r->plan.us);
      return r->plan.out;
    }
  return Out();
}

// ---- requests ------------------------------------------------------------------------------
std::string extra(int id) { return fmt("<ext:Extra xmlns:ext=\"http:///ext.ecore\" xmi:id=\"%d\" tag=\"own%d\"/>", 900000 + id, id); }
void content(Req *r) {
  CAS *c = w::newCas();
  w::World P;
  P.dom.xmlSafe = true;
  P.attach(c);
  w::Str text;
  for (char ch : fmt("R%d ", r->id)) text += (char16_t)ch;
  text += w::genStr(P.dom);
  P.setText(0, text);
  uint32_t nv = draw(3);
  for (uint32_t i = 0; i < nv; i++) { int v = P.addView(i ? "viewB" : "viewA"); if (draw(2)) P.setText(v, w::genStr(P.dom)); }
  for (uint32_t i = 0, n = skewed(5); i < n; i++) {
    Span sp;
    int ty = (int)draw(w::T_NUSER), v = (int)draw((uint32_t)P.views.size());
    w::Node *x = P.create(ty, v);
    P.fill(x, 400, true);
    if (chance(700)) P.addToIndex(x, v);
  }
  r->body = r->payload == XMI ? w::toXmi(c) : w::toXcas(c);
  sut([&] { delete c->getBaseCas(); });
  if (r->payload == XMI && chance(400)) {
    size_t p = r->body.find("<cas:View");
    if (p != std::string::npos) r->body.insert(p, extra(r->id));
  }
  switch (weighted({12, 1, 1})) {
  case 1: r->body.resize(draw((uint32_t)r->body.size())); if (r->body.empty()) r->body = "<"; break;
  case 2: { w::Feed f; dmg::damage(r->body, f); if (r->body.find('\0') != std::string::npos || r->body.empty()) r->body = "<x"; break; }
  }
}
// what a fresh engine makes of this request
void expected(Req *r) {
  if (r->cmd == META) { r->want = G->meta; return; }
  if (r->cmd == CPC) { r->want = "CPC completed."; r->fails = r->plan.out.how != H_OK; return; }
  G->reference = true;
  std::string out, why;
  Answer a = call([&] {
    CAS *cas = G->refEngine->newCAS();
    long rc = -1;
    xercesc::MemBufInputSource mem((XMLByte const *)r->body.c_str(), r->body.size(), "sysID");
    std::ostringstream o;
    try {
      if (r->payload == XCAS) {
        XCASDeserializer d;
        d.deserialize(mem, *cas);
        rc = G->refEngine->process(*cas);
        XCASWriter wr(*cas, true);
        wr.write(o);
      } else {
        XmiSerializationSharedData sd;
        XmiDeserializer::deserialize(mem, *cas, sd);
        rc = G->refEngine->process(*cas);
        XmiWriter wr(*cas, true, &sd);
        wr.write(o);
      }
    } catch (xercesc::XMLException &) { rc = -2; }
    catch (...) { delete cas; throw; }
    delete cas;
    out = o.str();
    return rc; });
  G->reference = false;
  r->fails = a.how != Answer::RET || a.id != 0;
  r->want = out;
}
Wire wire(Req *r, int dest) {
  Wire m;
  m.id = r->id;
  m.set("Command", r->cmd);
  m.set("MessageType", 3000);
  if (r->payload >= 0) m.set("Payload", r->payload);
  if (!r->ref.empty()) m.set("CasReference", r->ref);
  m.body = r->body;
  r->rb = G->mainB;
  switch (dest) {
  case 0: m.hasReply = true; m.replyQueue = r->rq; break;
  case 1: m.hasReply = m.replyTemp = true; m.replyQueue = r->rq; break;
  default:
    m.set("MessageFrom", r->rq);
    switch (dest) {
    case 2: m.set("ServerURI", std::string("tcp://main:61616")); break;
    case 3: m.set("ServerURI", std::string("tcp://other:61616")); r->rb = G->other; break;
    case 4: m.set("ServerURI", std::string("http://proxy:8080")); break;
    default: {
      static const char *uris[] = {"failover:(tcp://other:61616,tcp://third:61616)", "failover:(tcp://other:61616)", "tcp://other:61616,tcp://third:61616",
                                   "failover:(ssl://third:61617,tcp://other:61616)?initialReconnectDelay=100", "vm://here,tcp://other:61616"};
      m.set("ServerURI", std::string(uris[draw(5)])); r->rb = G->other; }
    }
  }
  if (m.hasReply && chance(200)) m.set("MessageFrom", std::string("someone"));
  return m;
}
void malform(Req *r, Wire &m) {
  r->wellFormed = false;
  static const char *kinds[] = {"no payload kind", "odd payload kind", "empty", "text that cannot be read", "not a text message", "no reply address", "no server address", "no tcp address", "payload kind that is no number", "odd command", "no command"};
  int k = (int)draw(11);
  if (r->cmd != PROCESS && k < 4) k = 4;
  if (r->cmd != PROCESS && k == 8) k = 5;
  r->malformed = kinds[k];
  switch (k) {
  case 0: m.props.erase("Payload"); break;
  case 1: m.set("Payload", 1001 + (int)draw(2)); break;
  case 2: m.body.clear(); break;
  case 3: m.unreadable = true; break;
  case 4: m.isText = false; break;
  case 5: m.hasReply = false; m.props.erase("MessageFrom"); m.props.erase("ServerURI"); break;
  case 6: m.hasReply = false; m.set("MessageFrom", r->rq); m.props.erase("ServerURI"); break;
  case 7: m.hasReply = false; m.set("MessageFrom", r->rq); m.set("ServerURI", std::string("ssl://main:61617")); break;
  case 8: m.set("Payload", std::string("XMI")); break;
  case 9: m.set("Command", 2003 + (int)draw(4)); break;
  case 10: m.props.erase("Command"); break;
  }
}
// makes a request beforehand; returns what to put
struct Job { Req *r; Wire m; };
Job make(bool failures, bool malformed, uint64_t maxUs) {
  Req *r = new Req();
  r->id = (int)G->reqs.size() + 1;
  switch (weighted({12, 2, 2})) {
  case 0: r->cmd = PROCESS; r->payload = chance(650) ? XMI : XCAS; break;
  case 1: r->cmd = META; break;
  default: r->cmd = CPC;
  }
  if (r->cmd != PROCESS && chance(300)) r->payload = NOP;
  if (chance(950)) r->ref = fmt("cas-%d-%u", r->id, draw(1000));
  r->rq = chance(850) || r->ref.empty() ? fmt("replies.%d", r->id) : "replies.shared";
  if (r->cmd != META) {
    r->plan.us = chance(600) ? skewed((uint32_t)maxUs) : 0;
    if (failures && chance(250)) r->plan.out = anyFailure();
  }
  if (r->plan.us > G->maxPlan) G->maxPlan = r->plan.us;
  G->reqs.push_back(r);
  if (r->cmd == PROCESS) content(r);
  expected(r);
  Job j{r, wire(r, (int)weighted({5, 2, 3, 2, 1, 1}))};
  if (malformed && chance(150)) malform(r, j.m);
  ev("request %d: command %d payload %d %s%s, %zu bytes, answer to %s at %s", r->id, r->cmd, r->payload, r->wellFormed ? "well-formed" : r->malformed.c_str(), r->fails ? ", fails" : "", r->body.size(), r->rq.c_str(), r->rb->host.c_str());
  return j;
}
void send(Job &j) {
  j.r->put_ = true; j.r->putAt = now_us();
  put(G->mainB, "Q", j.m);
  ev("request %d arrives", j.r->id);
}

// ---- checks ----------------------------------------------------------------------------------
bool reqDone(Req *r) { return !r->wellFormed || !r->put_ || !r->replies.empty(); }
void checkDelivered(bool content) {
  for (; G->seen < delivered.size(); G->seen++) {
    Delivered &d = delivered[G->seen];
    Req *r = byRef(d.m.str("CasReference"), d.queue);
    if (!r) fail("stray-reply", "a reply to queue %s with CAS reference '%s' answers no request", d.queue.c_str(), d.m.str("CasReference").c_str());
    if (r->tookIx < 0) fail("stray-reply", "request %d is answered before it was taken", r->id);
    if (!r->replies.empty()) fail("second-reply", "request %d is answered a second time", r->id);
    r->replies.push_back((int)G->seen);
    if (d.queue != r->rq) fail("wrong-destination", "the reply to request %d goes to queue %s instead of %s", r->id, d.queue.c_str(), r->rq.c_str());
    if (d.b != r->rb) fail("wrong-destination", "the reply to request %d goes to broker %s instead of %s", r->id, d.b->host.c_str(), r->rb->host.c_str());
    if (!r->ref.empty() != d.m.has("CasReference")) fail("reply-properties", "the reply to request %d: CAS reference %s", r->id, d.m.has("CasReference") ? "though there was none" : "missing");
    bool exc = d.m.num("Payload") == EXC;
    if (!r->wellFormed) {
      if (!exc) fail("malformed-answered", "request %d (%s) is answered with payload %lld instead of an error", r->id, r->malformed.c_str(), d.m.num("Payload"));
      continue;
    }
    if (d.m.num("Command") != r->cmd) fail("reply-properties", "the reply to request %d has command %lld instead of %d", r->id, d.m.num("Command"), r->cmd);
    if (d.m.num("MessageType") != 3001) fail("reply-properties", "the reply to request %d has message type %lld", r->id, d.m.num("MessageType"));
    for (auto t : {"TimeInService", "IdleTime", "TimeToSerializeCAS", "TimeToDeserializeCAS", "TimeInAnalytic"})
      if (d.m.has(t) && d.m.num(t) < 0 && strcmp(t, "IdleTime")) fail("reply-properties", "the reply to request %d says %s is %lld", r->id, t, d.m.num(t));
    if (exc != r->fails) fail("wrong-outcome", "request %d (command %d) %s and is answered with %s: %s", r->id, r->cmd, r->fails ? "fails" : "succeeds", exc ? "an error" : "a result", d.m.body.substr(0, 300).c_str());
    if (!exc && d.m.num("Payload") != (r->payload >= 0 ? r->payload : NOP)) fail("reply-properties", "the reply to request %d has payload %lld instead of %d", r->id, d.m.num("Payload"), r->payload);
    if (content && !exc) {
      nontrivial();
      if (d.m.body != r->want) {
        size_t i = 0;
        while (i < d.m.body.size() && i < r->want.size() && d.m.body[i] == r->want[i]) i++;
        size_t s = i > 60 ? i - 60 : 0;
        fail("wrong-content", "request %d: at byte %zu of the reply: ...%s instead of ...%s", r->id, i, d.m.body.substr(s, 160).c_str(), r->want.substr(s, 160).c_str());
      }
      if (r->body.find("own") != std::string::npos && r->want.find(fmt("own%d", r->id)) == std::string::npos && r->body.find(extra(r->id)) != std::string::npos)
        fail("unknown-lost", "request %d: the element the service does not know is not in the reply", r->id);
    }
  }
}
bool waitAnswers(uint64_t us, bool content) {
  uint64_t end = now_us() + us;
  for (;;) {
    checkDelivered(content);
    bool all = true;
    for (auto r : G->reqs) if (!reqDone(r)) all = false;
    if (all) return true;
    if (ended || now_us() >= end) return false;
    sleep_us(SEC / 4);
  }
}
bool settled() {                           // everything taken was handled
  for (auto &t : taken) if (!t.handled) return false;
  return true;
}

// ---- the process ---------------------------------------------------------------------------------
void setup(bool failuresAtAll) {
  (void)failuresAtAll;
  G = new Run();
  eng::reset();
  registerLibs();
  brokers.clear(); conns.clear(); taken.clear(); delivered.clear();
  G->mainB = addBroker("main:61616");
  G->other = addBroker("other:61616");
  eng::onProcess = annotate;
  eng::decide = decideCall;
  onTaken = [](Taken &t) {
    Req *r = byRef(t.m.str("CasReference"), t.m.hasReply ? t.m.replyQueue : t.m.str("MessageFrom"));
    if (!r) for (auto x : G->reqs) if (x->id == t.m.id) r = x;
    if (r) r->tookIx = (int)taken.size() - 1;
  };
  uint32_t sendMs = draw(3) * 20, connMs = draw(3) * 500;
  sendTime = [sendMs] { return (uint64_t)draw(sendMs + 1) * 1000; };
  connectTime = [connMs] { return (uint64_t)draw(connMs + 1) * 1000; };
  opFault = [](const char *op) {
    (void)op;
    if (!G->faultsOn || !chance(G->opPm)) return false;
    faultNow();
    return true;
  };
  Desc d;
  d.name = "served";
  d.lib = (int)draw(NLIB);
  Cap c; c.outs.push_back("ent.Tok");
  d.caps.push_back(c);
  if (chance(300)) {
    Desc a;
    a.name = "aggregate"; a.primitive = false; a.caps = d.caps;
    a.delegates.push_back({"one", d}); a.flow.push_back("one");
    d = a;
  }
  G->aeFile = std::string(scratch()) + "/served.xml";
  std::string x = eng::xml(d);
  FILE *o = fopen(G->aeFile.c_str(), "wb");
  fwrite(x.data(), 1, x.size(), o);
  fclose(o);
  ErrorInfo ei;
  G->reference = true;
  G->refEngine = sut([&] { return Framework::createAnalysisEngine(G->aeFile.c_str(), ei); });
  if (!G->refEngine) harness_error("no reference engine: %s", sut([&] { return ei.asString(); }).c_str());
  sut([&] {
    icu::UnicodeString buf;
    buf.insert(0, "<?xml version=\"1.0\"?>");
    G->refEngine->getAnnotatorContext().getTaeSpecifier().toXMLBuffer(G->refEngine->getAnalysisEngineMetaData(), false, buf);
    G->meta = UnicodeStringRef(buf).asUTF8();
  });
  G->reference = false;
  Cfg &f = G->cfg;
  f.inst = 1 + (int)draw(3);
  f.trace = (int)draw(6) - 2;
  f.log = (int)draw(3);
  static const char *urls[] = {"tcp://main:61616", "tcp://main:61616?wireFormat=openwire", "failover:(tcp://main:61616)"};
  f.url = urls[draw(3)];
}
std::vector<std::string> args() {
  Cfg &f = G->cfg;
  std::vector<std::string> a = {"deployCppService", G->aeFile, "Q", "-b", f.url, "-n", fmt("%d", f.inst), "-t", fmt("%d", f.trace), "-l", fmt("%d", f.log)};
  if (f.jport) { a.push_back("-jport"); a.push_back("4711"); }
  if (f.err) { a.push_back("-e"); a.push_back(fmt("%d", f.err)); }
  if (f.cpcTerm) { a.push_back("-a"); a.push_back("true"); }
  if (chance(300)) { a.push_back("-p"); a.push_back(fmt("%u", draw(5))); }
  if (chance(200)) { a.push_back("-fsheapsz"); a.push_back(fmt("%u", 4000 * draw(5))); }
  return a;
}
void begin() {
  set_preemption(draw(4) * 250, 300);
  set_step_budget(30000000);
  listening = G->cfg.jport;
  G->startAt = now_us();
  if (!G->cfg.jport) stdinSetup();
  startProcess(args());
}
bool isReady() { return liveConsumers(G->mainB) >= G->cfg.inst + 1; }
bool waitReady(uint64_t us) {
  uint64_t end = now_us() + us;
  while (!isReady() && !ended && now_us() < end) sleep_us(SEC / 10);
  return isReady() && !ended;
}
void mustBeReady() {
  if (!waitReady(60 * SEC)) fail(ended ? "ends-at-start" : "not-ready", ended ? "the service ends at start-up" : "the service does not start to take requests within a minute");
  G->readyAt = now_us();
}
void over() { disarm(); }
void orderStop() { if (G->cfg.jport) ctlSend("SHUTDOWN"); else stdinType("s\n"); }
}  // namespace

// ---- S01, S02: requests of all kinds, no faults of the environment --------------------------------
static void serve(bool content, bool malformed) {
  setup(true);
  G->cfg.jport = chance(800);
  std::vector<Job> jobs;
  uint32_t n = 1 + skewed(7);
  for (uint32_t i = 0; i < n; i++) { Span sp; jobs.push_back(make(true, malformed, chance(200) ? 20000000 : 2000000)); }
  begin();
  mustBeReady();
  if (malformed) nontrivial();
  for (auto &j : jobs) {
    if (chance(500)) sleep_us(skewed(4000) * 1000);
    send(j);
  }
  uint64_t total = 60 * SEC;
  for (auto r : G->reqs) total += r->plan.us + SEC;
  if (!waitAnswers(total, content))
    for (auto r : G->reqs) if (!reqDone(r)) {
      if (ended) fail("ends-while-serving", "the service ended though nobody told it to (request %d is not answered)", r->id);
      fail("no-reply", "request %d (command %d%s) %s", r->id, r->cmd, r->fails ? ", which fails" : "", r->tookIx < 0 ? "is never taken" : "is taken and never answered");
    }
  sleep_us(10 * SEC);
  checkDelivered(content);
  count("requests", n);
  orderStop();
  if (!waitEnd(60 * SEC)) fail("does-not-stop", "the service is still running a minute after it was told to stop");
  checkDelivered(content);
  if (signalKilled) fail("crash", "the service was killed by signal %d", signalNo);
  over();
}
SIM_SCENARIO(S01, serve, 1) { serve(false, true); }
SIM_SCENARIO(S02, serve, 1) { serve(true, chance(300)); }

// ---- S03: connections break, brokers go away, operations fail; afterwards everything works again ----
namespace {
struct Down { Broker *b; uint64_t from, to; };
std::vector<Down> *downs;
bool excused(Req *r) {
  if (r->tookIx < 0) return false;
  Taken &t = taken[r->tookIx];
  uint64_t from = t.at < SEC / 10 ? 0 : t.at - SEC / 10, to = t.handled ? t.handledAt : now_us();
  for (auto f : G->faults) if (f >= from && f <= to) return true;
  for (auto &d : *downs) if (d.from <= to && (d.to == ~0ull || d.to + SEC / 10 >= from)) return true;
  return false;
}
// a spell of bad weather: returns when it is over
void weather(uint64_t len, bool calmEnd) {
  uint64_t end = now_us() + len;
  G->opPm = chance(500) ? 0 : 1 + draw(150);
  G->faultsOn = true;
  receiveThrows = draw(2); closeThrows = draw(2);
  while (now_us() < end && !ended) {
    Span sp;
    sleep_us(1000 + (chance(500) ? skewed(2000) * 1000 : skewed(40000) * 1000));
    std::vector<PConn> open;
    for (auto &c : conns) if (c->open && !c->broken) open.push_back(c);
    Broker *b = chance(700) ? G->mainB : G->other;
    switch (weighted({6, 2, 2, 2, 1})) {
    case 0:
      if (!open.empty()) { PConn c = open[draw((uint32_t)open.size())]; faultNow(); fault("connection_lost"); breakConn(c, "the network"); }
      break;
    case 1:
      if (b->up) { faultNow(); fault("broker_down"); setUp(b, false); downs->push_back(Down{b, now_us(), ~0ull}); }
      break;
    case 2:
      if (!b->up) { faultNow(); setUp(b, true); for (auto &d : *downs) if (d.b == b && d.to == ~0ull) d.to = now_us(); }
      break;
    case 3: {
      if (open.empty()) break;
      PConn c = open[draw((uint32_t)open.size())];
      fault("connection_stalls");
      interrupt(c);
      sleep_us(skewed(5000) * 1000);
      resume(c);
      break; }
    case 4: if (!open.empty()) { faultNow(); fault("connection_lost"); for (auto &c : open) if (c->b == b) breakConn(c, "the network"); } break;
    }
  }
  if (!calmEnd) return;
  G->faultsOn = false;
  for (auto b : brokers) if (!b->up) { faultNow(); setUp(b, true); }
  for (auto &d : *downs) if (d.to == ~0ull) d.to = now_us();
}
}  // namespace

SIM_SCENARIO(S03, weather, 1) {
  setup(true);
  downs = new std::vector<Down>();
  G->cfg.jport = chance(800);
  std::vector<Job> before, after;
  uint32_t n = 1 + skewed(8), m = 1 + draw(3);
  for (uint32_t i = 0; i < n; i++) { Span sp; before.push_back(make(true, chance(300), chance(300) ? 20000000 : 3000000)); }
  for (uint32_t i = 0; i < m; i++) { Span sp; after.push_back(make(true, false, 2000000)); }
  begin();
  mustBeReady();
  nontrivial();
  bool sent = false;
  spawn("clients", [&] {
    for (auto &j : before) { if (chance(700)) sleep_us(skewed(20000) * 1000); send(j); }
    sent = true;
  });
  weather((2 + skewed(120)) * SEC, true);
  ev("the weather clears");
  while (!sent) sleep_us(SEC);
  if (!waitReady(120 * SEC)) fail(ended ? "ends-after-fault" : "no-reconnect", ended ? "the service ended because of failing connections" : "two minutes after the last failure the service takes no requests again (%d of %d consumers)", liveConsumers(G->mainB), G->cfg.inst + 1);
  for (auto &j : after) { if (chance(500)) sleep_us(skewed(4000) * 1000); send(j); }
  uint64_t end = now_us() + 60 * SEC;
  for (auto r : G->reqs) end += r->plan.us + SEC;
  for (;;) {
    checkDelivered(false);
    bool all = settled();
    for (auto r : G->reqs) if (!reqDone(r) && !(excused(r) && taken[r->tookIx].handled)) all = false;
    if (all) break;
    if (ended) fail("ends-after-fault", "the service ended because of failing connections");
    if (now_us() >= end)
      for (auto r : G->reqs) if (!reqDone(r) && !(excused(r) && taken[r->tookIx].handled))
        fail("no-reply", "request %d (command %d, arrived at %.3f s) %s", r->id, r->cmd, r->putAt / 1e6, r->tookIx < 0 ? "is never taken" : "is not answered though nothing failed meanwhile");
    if (now_us() >= end) fail("stuck", "a request is still being handled");
    sleep_us(SEC / 4);
  }
  uint32_t lost = 0;
  for (auto r : G->reqs) if (r->wellFormed && r->replies.empty()) lost++;
  if (lost) count("in_flight_lost", lost);
  orderStop();
  if (!waitEnd(60 * SEC)) fail("does-not-stop", "the service is still running a minute after it was told to stop");
  checkDelivered(false);
  if (signalKilled) fail("crash", "the service was killed by signal %d", signalNo);
  over();
}

// ---- S04: orders to stop, at any moment ---------------------------------------------------------------
SIM_SCENARIO(S04, stop, 1) {
  setup(true);
  downs = new std::vector<Down>();
  Cfg &f = G->cfg;
  f.jport = chance(700);
  enum { SHUTDOWN, QUIESCE, GONE, TERM, INT, ERRORS, CPCERROR, UNREACHABLE, TWICE };
  int how = (int)weighted({4, 6, 2, 2, 2, 2, 2, 1, 1});
  if (how == UNREACHABLE) f.jport = true;
  if (how == ERRORS || chance(200)) f.err = 1 + (int)draw(3);
  if (how == CPCERROR || chance(200)) f.cpcTerm = true;
  if (how < ERRORS || how > CPCERROR) f.err = f.cpcTerm = 0;     // only the order ends the service
  std::vector<Job> jobs;
  uint32_t n = skewed(8);
  for (uint32_t i = 0; i < n; i++) { Span sp; jobs.push_back(make(true, how != ERRORS && how != CPCERROR && chance(200), chance(400) ? 30000000 : 3000000)); }
  bool early = how < ERRORS && chance(300), rough = chance(300), downAtStart = early && chance(400);
  if (downAtStart) { setUp(G->mainB, false); fault("broker_down"); downs->push_back(Down{G->mainB, now_us(), ~0ull}); }
  begin();
  if (how == UNREACHABLE) {
    nontrivial();
    uint32_t k = draw(4), c = 0, at = draw(2);
    const char *kinds[] = {"resolve", "create", "connect", ""};
    std::string kind = kinds[k];
    if (k == 3) listening = false;
    else sockFault = [=](const char *w) mutable { return kind == w && c++ == (k ? at : 0); };
    if (!waitEnd(30 * SEC)) fail("runs-without-controller", "the service runs on though it cannot reach its controller");
    over();
    return;
  }
  if (early) {
    if (!downAtStart && chance(500)) sleep_us(draw(4000) * 1000); else { uint32_t y = draw(60); for (uint32_t i = 0; i < y; i++) yield(); if (downAtStart) sleep_us(skewed(100000) * 1000); }
    if (f.jport) while (!cmdSock && !ended) sleep_us(1000);
  } else mustBeReady();
  bool stopSending = false;
  spawn("clients", [&] {
    for (auto &j : jobs) { if (chance(600)) sleep_us(skewed(8000) * 1000); if (stopSending) break; send(j); }
  });
  if (rough) spawn("weather", [&] { weather(skewed(60) * SEC, false); });
  if (!early && how != ERRORS && how != CPCERROR) {
    if (chance(400)) { uint32_t y = draw(200); for (uint32_t i = 0; i < y; i++) yield(); }
    else sleep_us(skewed(60000) * 1000);
    if (chance(300)) {                                 // while something is being processed
      uint64_t until = now_us() + 20 * SEC;
      while (settled() && now_us() < until && !ended) sleep_us(SEC / 20);
    }
  }
  if (how == ERRORS || how == CPCERROR) {
    // the service ends when as many requests failed as it tolerates, and not before
    int bad = 0, cpc = 0;
    for (auto r : G->reqs) if (r->wellFormed && r->fails) { if (r->cmd == PROCESS) bad++; if (r->cmd == CPC) cpc++; }
    bool must = (f.err && bad >= f.err) || (f.cpcTerm && cpc > 0);
    uint64_t total = 60 * SEC;
    for (auto r : G->reqs) total += r->plan.us + 9 * SEC;
    if (rough) total += 240 * SEC;
    nontrivial();
    if (must && !rough) {
      if (!waitEnd(total)) fail("does-not-stop", "%s failed, and the service runs on", f.err && bad >= f.err ? "too many requests" : "collection-process-complete");
      over();
      return;
    }
    if (!must) {
      uint64_t end = now_us() + total;
      for (;;) {
        bool all = true;
        for (auto r : G->reqs) if (!r->put_ || r->tookIx < 0 || !taken[r->tookIx].handled) all = false;
        if (ended) fail("stops-too-early", "the service ended after %d failed requests of %d it tolerates", bad, f.err);
        if (all || now_us() >= end) break;
        sleep_us(SEC / 2);
      }
      sleep_us(2 * SEC);
      if (ended) fail("stops-too-early", "the service ended after %d failed requests of %d it tolerates", bad, f.err);
    }
  }
  // the order
  if (!ended) nontrivial();
  uint64_t at = now_us();
  bool quiesce = false, orderlyStart = !early;
  bool readyBefore = isReady();
  if (!f.jport && early && how != INT) how = TERM;     // stdin is read when the service is ready
  ev("the order: %d%s", how, early ? " while starting" : "");
  auto order = [&](int h) {
    if (f.jport) {
      switch (h) {
      case QUIESCE: ctlSend(chance(500) ? "QUIESCEANDSTOP" : "QUIESCEANDSTOP\n"); quiesce = true; break;
      case GONE: fault("controller_gone"); ctlClose(); break;
      case TERM: deliverSignal(SIGTERM); break;
      case INT: deliverSignal(SIGINT); break;
      default: ctlSend(chance(500) ? "SHUTDOWN" : "SHUTDOWN\n");
      }
    } else {
      switch (h) {
      case QUIESCE: stdinType("q\n"); quiesce = true; break;
      case TERM: deliverSignal(SIGTERM); break;
      case INT: deliverSignal(SIGINT); break;
      case GONE: if (draw(2)) stdinType("x\n"); stdinType("s"); stdinClose(); break;
      default: stdinType("s\n");
      }
    }
  };
  if (f.jport && chance(200)) { sockFault = [](const char *w) { return (!strcmp(w, "short_recv") || !strcmp(w, "timeup")) && chance(500); }; }
  order(how);
  if (how == TWICE) { sleep_us(skewed(3000) * 1000); if (!ended) { fault("second_order"); order(INT); } }
  uint64_t limit = 60 * SEC;
  for (auto r : G->reqs) if (r->plan.us + 60 * SEC > limit) limit = r->plan.us + 60 * SEC;
  bool done = waitEnd(limit);
  stopSending = true;
  if (!done) fail("does-not-stop", "the service is still running %.0f s after the order", limit / 1e6);
  checkDelivered(false);
  if (signalKilled && (logSock || !conns.empty() || !orderlyStart)) {
    if (logSock || !conns.empty()) fail("crash", "the service was killed by signal %d", signalNo);
  }
  if (quiesce && readyBefore && orderlyStart) {
    for (auto &t : taken) if (t.at > at + 3 * SEC / 2) fail("takes-after-quiesce", "message %d is taken %.3f s after the order to quiesce", t.m.id, (t.at - at) / 1e6);
    for (auto r : G->reqs)
      if (r->wellFormed && r->tookIx >= 0 && r->replies.empty() && !excused(r)) fail("quiesce-loses", "request %d was taken and is not answered before the service ends", r->id);
  }
  over();
}

// ---- S05: statistics ---------------------------------------------------------------------------------
namespace {
struct Stats { std::map<std::string, std::string> v; long long n(const char *k) const { auto i = v.find(k); return i == v.end() ? -1 : atoll(i->second.c_str()); } };
size_t statSeen;                           // bytes of the command connection looked at
bool nextStats(Stats &s) {
  for (;;) {
    if (!cmdSock) return false;
    size_t e = cmdSock->out.find('\n', statSeen);
    if (e == std::string::npos) return false;
    std::string l = cmdSock->out.substr(statSeen, e - statSeen);
    statSeen = e + 1;
    if (l.compare(0, 13, "NUMINSTANCES=")) continue;
    std::istringstream in(l);
    std::string w;
    while (in >> w) { size_t q = w.find('='); if (q != std::string::npos) s.v[w.substr(0, q)] = w.substr(q + 1); }
    return true;
  }
}
void split(std::string const &bytes) {
  size_t p = 0;
  while (p < bytes.size()) {
    size_t k = chance(700) ? bytes.size() - p : 1 + draw((uint32_t)(bytes.size() - p));
    ctlSend(bytes.substr(p, k));
    p += k;
    if (p < bytes.size()) { fault("command_split"); if (chance(500)) sleep_us(skewed(3000) * 1000); else yield(); }
  }
}
}  // namespace
SIM_SCENARIO(S05, statistics, 1) {
  setup(true);
  downs = new std::vector<Down>();
  statSeen = 0;
  std::vector<Job> jobs;
  uint32_t n = skewed(9);
  for (uint32_t i = 0; i < n; i++) { Span sp; jobs.push_back(make(true, chance(300), 3000000)); }
  if (chance(500)) sockFault = [](const char *w) { return !strncmp(w, "short_", 6) && chance(300); };
  begin();
  mustBeReady();
  nontrivial();
  bool sent = false;
  spawn("clients", [&] { for (auto &j : jobs) { if (chance(600)) sleep_us(skewed(5000) * 1000); send(j); } sent = true; });
  // between RESETs: when one was sent, and when the first statistics after it were there
  uint64_t resetSent = 0, resetDone = 0;
  bool resetEver = false;
  uint32_t rounds = 1 + draw(6);
  for (uint32_t k = 0; k <= rounds; k++) {
    Span sp;
    bool last = k == rounds;
    if (last) {
      uint64_t end = now_us() + 600 * SEC;
      for (;;) { bool q = sent && settled(); for (auto r : G->reqs) if (r->tookIx < 0) q = false; if (q || ended || now_us() > end) break; sleep_us(SEC / 4); }
      sleep_us(3 * SEC);
    } else if (chance(700)) sleep_us(skewed(8000) * 1000);
    else { uint32_t y = draw(100); for (uint32_t i = 0; i < y; i++) yield(); }
    if (ended) fail("ends-while-serving", "the service ended though nobody told it to");
    bool reset = !last && chance(300);
    const char *sep[] = {"", "\n", " ", "\r\n"};
    std::string cmd = (reset ? std::string("RESET") + sep[draw(4)] : "") + (chance(150) ? "NONSENSE\n" : "") + "GETSTATS" + sep[draw(4)];
    uint64_t from = now_us();
    if (reset) { resetSent = from; resetDone = ~0ull; resetEver = true; }
    ev("commands: %s", cmd.c_str());
    split(cmd);
    Stats s;
    uint64_t end = now_us() + 10 * SEC;
    while (!nextStats(s)) {
      if (now_us() > end) fail("no-statistics", "a request for statistics is not answered");
      sleep_us(1000);
    }
    uint64_t got = now_us();
    if (reset) { resetDone = got; }
    count("statistics");
    // what may and must have been counted
    struct Range { long long lo = 0, hi = 0; } cas, casErr, cpc, cpcErr, meta;
    uint64_t annUs = 0, cpcUs = 0;
    for (auto &t : taken) {
      Req *r = byRef(t.m.str("CasReference"), t.m.hasReply ? t.m.replyQueue : t.m.str("MessageFrom"));
      if (!r || r->tookIx < 0 || &taken[r->tookIx] != &t) { r = nullptr; for (auto x : G->reqs) if (x->tookIx >= 0 && &taken[x->tookIx] == &t) r = x; }
      if (!r) continue;
      bool may = !(resetEver && t.handled && t.handledAt < resetSent);
      bool must = t.handled && r->wellFormed && t.handledAt < from && (!resetEver || t.at > resetDone);
      Range &c = r->cmd == PROCESS ? cas : r->cmd == CPC ? cpc : meta;
      if (may) c.hi++;
      if (must) c.lo++;
      if (r->fails) { Range &e = r->cmd == PROCESS ? casErr : cpcErr; if (may) e.hi++; if (must) e.lo++; }
      if (must && r->cmd == PROCESS && !r->fails) annUs += r->spent;
      if (must && r->cmd == CPC) cpcUs += r->plan.us;
    }
    auto within = [&](const char *name, Range q) {
      long long v = s.n(name);
      if (!s.v.count(name)) fail("missing", "the statistics lack %s", name);
      if (v < q.lo || v > q.hi) fail("wrong-count", "%s is %lld where %lld to %lld requests were completed", name, v, q.lo, q.hi);
    };
    if (s.v["STATUS"] != "Running" && !(s.v["STATUS"] == "Initializing" && from <= G->readyAt + 1000)) fail("wrong-status", "the status of the running service is '%s'", s.v["STATUS"].c_str());
    within("NUMCASPROCESSED", cas);
    within("PROCESSCASERRORS", casErr);
    within("CPCERRORS", cpcErr);
    within("GETMETAERRORS", Range());
    if (s.n("PROCESSCASERRORS") > s.n("NUMCASPROCESSED")) fail("wrong-count", "more requests failed than were processed");
    int inst = G->cfg.inst;
    if (s.n("NUMINSTANCES") != inst) fail("wrong-count", "NUMINSTANCES is %lld instead of %d", s.n("NUMINSTANCES"), inst);
    for (auto t : {"CPCTIME", "GETMETATIME", "SERIALIZETIME", "DESERIALIZETIME", "ANNOTATORTIME", "SENDTIME", "MESSAGEPROCESSTIME", "IDLETIME", "SERVICEUPTIME"}) {
      if (!s.v.count(t)) fail("missing", "the statistics lack %s", t);
      if (s.n(t) < 0) fail("negative-time", "%s is %lld", t, s.n(t));
    }
    long long ann = s.n("ANNOTATORTIME"), all = s.n("MESSAGEPROCESSTIME"), snd = s.n("SENDTIME"), up = s.n("SERVICEUPTIME");
    if (ann < (long long)(annUs / inst / 1000) - 1) fail("wrong-time", "ANNOTATORTIME is %lld ms, the annotators took %llu us in %d instances", ann, (unsigned long long)annUs, inst);
    if (s.n("CPCTIME") < (long long)(cpcUs / 1000) - 1) fail("wrong-time", "CPCTIME is %lld ms, the annotators took %llu us", s.n("CPCTIME"), (unsigned long long)cpcUs);
    if (!cpc.hi && s.n("CPCTIME")) fail("wrong-time", "CPCTIME is %lld ms and there was no such request", s.n("CPCTIME"));
    if (!meta.hi && s.n("GETMETATIME")) fail("wrong-time", "GETMETATIME is %lld ms and there was no such request", s.n("GETMETATIME"));
    if (!cas.hi && (ann || s.n("SERIALIZETIME") || s.n("DESERIALIZETIME"))) fail("wrong-time", "the annotators took %lld ms for no request", ann);
    if (ann > all + 1) fail("wrong-time", "ANNOTATORTIME %lld exceeds MESSAGEPROCESSTIME %lld", ann, all);
    if (snd > all + 1) fail("wrong-time", "SENDTIME %lld exceeds MESSAGEPROCESSTIME %lld", snd, all);
    uint64_t base = resetEver ? resetSent : G->startAt;
    if (up > (long long)((got - base) / 1000) + 1) fail("wrong-time", "SERVICEUPTIME is %lld ms, %llu ms after the service was %s", up, (unsigned long long)((got - base) / 1000), resetEver ? "reset" : "started");
    if (!resetEver && up + 1 < (long long)((from - G->readyAt) / 1000)) fail("wrong-time", "SERVICEUPTIME is %lld ms, %llu ms after the service was ready", up, (unsigned long long)((from - G->readyAt) / 1000));
    if (!resetEver && all > up * (inst + 1) / inst + 2) fail("wrong-time", "MESSAGEPROCESSTIME %lld exceeds what %d instances can have spent in %lld ms", all, inst, up);
  }
  checkDelivered(false);
  orderStop();
  if (!waitEnd(60 * SEC)) fail("does-not-stop", "the service is still running a minute after it was told to stop");
  over();
}
