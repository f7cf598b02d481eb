// E03: CAS pools and CAS multipliers. Random borrowing and returning (also wrong returns, and with failing
// allocations) by several holders against a model of which CAS is lent; a multiplier whose annotator produces
// scripted segments, fails, runs out of CASes, and whose consumer stops, keeps or returns CASes as it likes.
#include "eng.hpp"
#include "../cas/program.hpp"
#include <xercesc/framework/MemBufInputSource.hpp>
using namespace uima;
using namespace eng;

namespace {
AnalysisEngineDescription *describe(Desc const &d) {
  std::string x = xml(d);
  return sim::sut([&] {
    auto *aed = new AnalysisEngineDescription();
    xercesc::MemBufInputSource mem((XMLByte const *)x.data(), x.size(), "sim");
    XMLParser b;
    b.parseAnalysisEngineDescription(*aed, mem);
    aed->validate();
    aed->commit();
    return aed;
  });
}
struct Put { enum How { DONE, REFUSED, FAILED } how; std::string text; };
// calls f: done, refused by a CASPoolException, or failed in another way
template <class F> Put put(F f) {
  try { sim::sut(f); return Put{Put::DONE, ""}; }
  catch (CASPoolException &e) { return Put{Put::REFUSED, w::excText(e)}; }
  catch (Exception &e) { return Put{Put::FAILED, w::excText(e)}; }
  catch (std::bad_alloc &) { return Put{Put::FAILED, "bad_alloc"}; }
  catch (std::exception &e) { return Put{Put::FAILED, e.what()}; }
}
const char *hows[] = {"was done", "was refused", "failed"};

struct Pool {
  CASPool *pool = nullptr;
  size_t n = 0;
  std::vector<CAS *> known;           // every CAS ever lent (the view that was handed out)
  struct Loan { CAS *cas; int holder; bool used; };
  std::vector<Loan> lent;
  bool isLent(CAS *c) const { for (auto &l : lent) if (l.cas == c) return true; return false; }
};
CAS *empty() {
  static CAS *e = nullptr;
  if (!e) e = w::newCas();
  return e;
}
void checkEmpty(CAS *c, const char *what) {
  w::missingViews(c, "lent-cas-not-empty");
  w::expectSame("lent-cas-not-empty", w::dump(empty(), w::DumpOpt{true, true, true}), w::dump(c, w::DumpOpt{true, true, true}), what);
}
// something a holder does with the CAS it has
CAS *use(CAS *c, bool &used) {
  if (used || sim::chance(300)) return c;
  used = true;
  w::World W;
  W.attach(c);
  W.populate(1 + sim::draw(8), sim::chance(400));
  sim::nontrivial();
  return W.views.empty() ? c : W.views[sim::draw((uint32_t)W.views.size())].cas;
}
}  // namespace

SIM_SCENARIO(E03, pool, 3) {
  Desc d;
  AnalysisEngineDescription *aed = describe(d);
  std::vector<Pool> pools(1 + sim::draw(2));
  bool faults = sim::chance(300);
  std::vector<CAS *> foreign;
  for (auto &p : pools) {
    p.n = sim::weighted({1, 3, 3, 2, 1, 1});
    bool arm = faults && sim::chance(400);
    if (arm) sim::alloc_arm(sim::skewed(400), sim::draw(3));
    Put r = put([&] { p.pool = new CASPool(*aed, p.n); });
    sim::alloc_disarm();
    if (r.how != Put::DONE && !arm) sim::fail("pool-not-created", "a pool of %zu CASes: %s", p.n, r.text.c_str());
    if (r.how != Put::DONE) {
      sim::fault("failing_pool_creation");
      p.pool = nullptr;
      r = put([&] { p.pool = new CASPool(*aed, p.n); });
      if (r.how != Put::DONE) sim::fail("pool-not-created", "a pool of %zu CASes after a failed attempt: %s", p.n, r.text.c_str());
    }
    sim::ev("pool of %zu", p.n);
  }
  foreign.push_back(w::newCas());
  foreign.push_back(sim::sut([&] { return (CAS *)internal::CASImpl::createCASImpl(*w::casdef, false); }));
  while (sim::more(30)) {
    sim::Span sp;
    Pool &p = sim::pick(pools);
    int pi = (int)(&p - &pools[0]);
    bool arm = faults && sim::chance(250);
    switch (sim::weighted({8, 6, 2, 2, 2})) {
    case 0: {                          // borrow
      int holder = (int)sim::draw(3);
      CAS *c = nullptr;
      if (arm) sim::alloc_arm(sim::skewed(8), sim::draw(2));
      Put r = put([&] { c = &p.pool->getCAS(); });
      sim::alloc_disarm();
      sim::ev("holder %d asks pool %d, %zu of %zu lent: %s", holder, pi, p.lent.size(), p.n, hows[r.how]);
      if (r.how == Put::FAILED) {
        if (!arm) sim::fail("borrow-fails", "getCAS() with %zu of %zu CASes lent failed: %s", p.lent.size(), p.n, r.text.c_str());
        break;
      }
      if (r.how == Put::REFUSED) {
        if (p.lent.size() < p.n) sim::fail("cas-lost", "getCAS() with only %zu of %zu CASes lent was refused: %s", p.lent.size(), p.n, r.text.c_str());
        break;
      }
      if (p.lent.size() >= p.n) sim::fail("too-many-lent", "a pool of %zu CASes lends one more", p.n);
      for (auto &q : pools) for (auto &l : q.lent)
        if (l.cas->getBaseCas() == c->getBaseCas()) sim::fail("lent-twice", "holder %d gets the CAS that holder %d has not returned", holder, l.holder);
      for (auto *f : foreign) if (f->getBaseCas() == c->getBaseCas()) sim::fail("foreign-cas-lent", "the pool lends a CAS that is not its own");
      bool knew = false;
      for (auto *k : p.known) knew |= k == c;
      if (!knew) p.known.push_back(c);
      if (p.known.size() > p.n) sim::fail("foreign-cas-lent", "a pool of %zu CASes lent %zu different ones", p.n, p.known.size());
      for (auto &q : pools) if (&q != &p) for (auto *k : q.known) if (k->getBaseCas() == c->getBaseCas()) sim::fail("foreign-cas-lent", "pool %d lends a CAS of another pool", pi);
      p.lent.push_back(Pool::Loan{c, holder, false});
      checkEmpty(c, "a CAS just lent");
      sim::nontrivial();
      break;
    }
    case 1: {                          // return
      if (p.lent.empty()) break;
      size_t li = sim::draw((uint32_t)p.lent.size());
      CAS *c = p.lent[li].cas, *via = use(c, p.lent[li].used);
      int holder = p.lent[li].holder;
      if (arm) sim::alloc_arm(sim::skewed(20), sim::draw(3));
      Put r = put([&] { p.pool->releaseCAS(*via); });
      sim::alloc_disarm();
      sim::ev("holder %d returns a CAS to pool %d%s: %s", holder, pi, via == c ? "" : " (through another view)", hows[r.how]);
      p.lent.erase(p.lent.begin() + (long)li);
      if (r.how == Put::DONE) break;
      if (!arm) sim::fail("return-refused", "returning a lent CAS%s %s: %s", via == c ? "" : " through another of its views", hows[r.how], r.text.c_str());
      // whether it is back is open: returning it again succeeds or is refused, and then it is back
      r = put([&] { p.pool->releaseCAS(*c); });
      if (r.how == Put::FAILED) sim::fail("return-fails", "returning the CAS again after a failed attempt: %s", r.text.c_str());
      break;
    }
    case 2: {                          // return once more
      std::vector<CAS *> free;
      for (auto *k : p.known) if (!p.isLent(k)) free.push_back(k);
      if (free.empty()) break;
      CAS *c = sim::pick(free);
      Put r = put([&] { p.pool->releaseCAS(*c); });
      sim::ev("a CAS is returned to pool %d again: %s", pi, hows[r.how]);
      if (r.how != Put::REFUSED) sim::fail("double-return-accepted", "returning a CAS twice %s %s", hows[r.how], r.text.c_str());
      break;
    }
    case 3: {                          // return what belongs elsewhere
      CAS *c;
      bool other = false;
      if (pools.size() > 1 && sim::chance(500) && !pools[1 - pi].known.empty()) { c = sim::pick(pools[1 - pi].known); other = true; }
      else c = foreign[sim::draw((uint32_t)foreign.size())];
      w::World W;
      if (!other && c != foreign[1]) { W.attach(c); W.populate(4, false); }
      auto before = w::dump(c, w::DumpOpt{true, true, true});
      Put r = put([&] { p.pool->releaseCAS(*c); });
      sim::ev("a CAS of %s is returned to pool %d: %s", other ? "another pool" : "no pool", pi, hows[r.how]);
      if (r.how != Put::REFUSED) sim::fail("foreign-return-accepted", "returning a CAS of %s %s %s", other ? "another pool" : "no pool", hows[r.how], r.text.c_str());
      w::expectSame("foreign-cas-disturbed", before, w::dump(c, w::DumpOpt{true, true, true}), "a CAS whose return was refused");
      if (!other) sim::sut([&] { c->reset(); });
      break;
    }
    default:
      if (!p.lent.empty()) { auto &l = p.lent[sim::draw((uint32_t)p.lent.size())]; use(l.cas, l.used); }
      break;
    }
  }
  // nothing was lost: with everything back, each pool lends exactly its n CASes
  for (auto &p : pools) {
    for (auto &l : p.lent) {
      Put r = put([&] { p.pool->releaseCAS(*l.cas); });
      if (r.how != Put::DONE) sim::fail("return-refused", "returning a lent CAS %s: %s", hows[r.how], r.text.c_str());
    }
    p.lent.clear();
    std::set<CAS *> all;
    for (size_t i = 0; i < p.n; i++) {
      CAS *c = nullptr;
      Put r = put([&] { c = &p.pool->getCAS(); });
      if (r.how != Put::DONE) sim::fail("cas-lost", "after every return the pool lends %zu of its %zu CASes: %s", i, p.n, r.text.c_str());
      if (!all.insert(c->getBaseCas()).second) sim::fail("lent-twice", "the pool lends one CAS twice");
      checkEmpty(c, "a CAS lent at the end");
    }
    Put r = put([&] { p.pool->getCAS(); });
    if (r.how != Put::REFUSED) sim::fail("too-many-lent", "getCAS() of an empty pool %s", hows[r.how]);
    sim::sut([&] { delete p.pool; });
  }
  for (auto *f : foreign) sim::sut([&] { delete f->getBaseCas(); });
  sim::sut([&] { delete aed; });
}

// ---- multipliers ----------------------------------------------------------------------
namespace {
struct Mult {
  int inst = -1;
  std::deque<int> todo;                        // segments of the last input still to come
  int next = 0;                                // number of the next segment
  std::map<CAS *, int> out;                    // base CAS -> segment, lent and not returned
  std::vector<CAS *> lost;                     // the annotator took them and failed before next() returned
  Out plan;                                    // failure of the next callback
  Call planCall = C_DTOR;
  bool early = false;                          // fail before a CAS is taken
  bool giveBack = false;                       // the annotator returns the CAS before it fails
  bool keepView = false;                       // next() returns another view
  enum Res { NOTHING, MADE, NO_CAS, FAILED } res = NOTHING;
  int made = -1;
  w::Str text;
};
w::Str segText(int n) { return w::toStr(w::us(sim::fmt("segment %d of the input", n).c_str())); }
}  // namespace

SIM_SCENARIO(E03, multiplier, 2) {
  registerLibs();
  reset();
  Desc d;
  d.outputsCases = true;
  Mult m;
  int required = 1 + (int)sim::draw(3);
  onCasRequired = [&](Ann &) { return required; };
  AnnotatorContext *ctx = nullptr;
  onInit = [&](Ann &, AnnotatorContext &c) { ctx = &c; };
  decide = [&](int, Call c) {
    if (c != m.planCall || (c == C_NEXT && !m.early)) return Out();
    if (c == C_NEXT) m.res = Mult::FAILED;
    return m.plan;
  };
  onHasNext = [&](Ann &) { return !m.todo.empty(); };
  onProcess = [&](Ann &, CAS &, ResultSpecification const &) {
    m.todo.clear();
    uint32_t k = sim::skewed(6);
    for (uint32_t i = 0; i < k; i++) m.todo.push_back(m.next++);
  };
  onNext = [&](Ann &a) -> CAS & {
    CAS *c = nullptr;
    m.res = Mult::NO_CAS;
    c = &sim::sut([&]() -> CAS & { return a.ctx->getEmptyCAS(); });     // a refusal goes on to the consumer
    if (m.out.count(c->getBaseCas())) sim::fail("lent-twice", "getEmptyCAS() returns the CAS of segment %d, which the consumer has not returned", m.out[c->getBaseCas()]);
    for (auto *l : m.lost) if (l == c->getBaseCas()) sim::fail("lent-twice", "getEmptyCAS() returns a CAS that was not returned");
    checkEmpty(c, "a CAS from getEmptyCAS()");
    if (m.out.size() + m.lost.size() >= (size_t)required) sim::fail("too-many-lent", "getEmptyCAS() lends CAS number %zu of %d", m.out.size() + m.lost.size() + 1, required);
    if (m.planCall == C_NEXT && !m.early) {
      m.res = Mult::FAILED;
      bool used = false;
      use(c, used);
      if (m.giveBack) sim::sut([&] { a.ctx->releaseCAS(*c); });
      else m.lost.push_back(c->getBaseCas());
      sim::fault("annotator_next_half_way");
      Out o = m.plan;
      raise(o);
    }
    m.made = m.todo.empty() ? m.next++ : m.todo.front();
    if (!m.todo.empty()) m.todo.pop_front();
    icu::UnicodeString t = w::us(sim::fmt("segment %d of the input", m.made).c_str());
    sim::sut([&] { c->setDocumentText(t); });
    m.res = Mult::MADE;
    CAS *r = c;
    if (m.keepView) r = sim::sut([&] { return c->createView(w::us("other")); });
    return *r;
  };
  AnalysisEngine *e = nullptr;
  std::vector<AnalysisEngineDescription *> keep;
  ErrorInfo ei;
  Answer a;
  e = create(d, (int)sim::draw(3), ei, a, &keep);
  if (!e) sim::fail("multiplier-not-created", "%s", eng::show(a).c_str());
  CAS *in = w::newCas();
  CASIterator *it = nullptr;
  struct Held { CAS *c; int seg; };
  std::vector<Held> held;
  auto back = [&](size_t i, bool viaEngine) {
    Held h = held[i];
    held.erase(held.begin() + (long)i);
    CAS *v = h.c;
    m.out.erase(h.c->getBaseCas());
    Put r = put([&] { (viaEngine ? e->getAnnotatorContext() : *ctx).releaseCAS(*v); });
    sim::ev("the consumer returns segment %d: %s", h.seg, hows[r.how]);
    if (r.how != Put::DONE) sim::fail("return-refused", "returning the CAS of segment %d %s: %s", h.seg, hows[r.how], r.text.c_str());
    if (sim::chance(100)) {
      r = put([&] { e->getAnnotatorContext().releaseCAS(*v); });
      if (r.how != Put::REFUSED) sim::fail("double-return-accepted", "returning a segment twice %s", hows[r.how]);
      sim::ev("once more: refused");
    }
  };
  // the text of every CAS the consumer holds is still what the annotator put in
  auto intact = [&] {
    for (auto &h : held) {
      CAS *v = sim::sut([&] { return h.c->getView(w::us("_InitialView")); });
      w::Str t = w::toStr(sim::sut([&] { return v->getDocumentText(); }));
      if (t != segText(h.seg)) sim::fail("segment-changed", "the CAS of segment %d has the text %s", h.seg, w::show(t).c_str());
    }
  };
  while (sim::more(30)) {
    sim::Span sp;
    m.planCall = C_DTOR;
    switch (sim::weighted({3, 10, 5, 1, 1})) {
    case 0: {                          // a new input; the old iteration is abandoned
      if (sim::chance(150)) { m.planCall = C_PROCESS; m.plan = anyFailure(); }
      Out o = m.planCall == C_PROCESS ? m.plan : Out();
      CASIterator *ni = nullptr;
      Answer r = call([&] { ni = new CASIterator(e->processAndOutputNewCASes(*in)); return 0l; });
      sim::ev("a new input: %zu segments", m.todo.size());
      if ((r.how != Answer::RET) != (o.how != H_OK)) sim::fail("multiplier-process", "the annotator answered %s, the consumer got: %s", outText(o).c_str(), eng::show(r).c_str());
      if (ni) { delete it; it = ni; }
      break;
    }
    case 1: {                          // iterate
      if (!it) break;
      bool has = false;
      if (sim::chance(100)) { m.planCall = C_HASNEXT; do m.plan = anyFailure(); while (m.plan.how == H_CODE); }
      bool bad = m.planCall == C_HASNEXT;
      Answer r = call([&] { has = it->hasNext(); return 0l; });
      if ((r.how != Answer::RET) != bad) sim::fail("multiplier-hasnext", "hasNext(): the annotator answered %s, the consumer got: %s", bad ? outText(m.plan).c_str() : "a value", eng::show(r).c_str());
      if (bad) break;
      if (has != !m.todo.empty()) sim::fail("segments-differ", "hasNext() is %d with %zu segments to come", has, m.todo.size());
      if (!has && sim::chance(900)) break;
      m.planCall = C_DTOR;
      if (sim::chance(150)) {
        m.planCall = C_NEXT;
        do m.plan = anyFailure(); while (m.plan.how == H_CODE);
        m.early = sim::chance(400);
        m.giveBack = sim::chance(700);
      }
      m.keepView = sim::chance(200);
      m.res = Mult::NOTHING;
      CAS *c = nullptr;
      size_t out = m.out.size() + m.lost.size();
      bool refused = false;
      r = call([&] { try { c = &it->next(); return 0l; } catch (CASPoolException &) { refused = true; throw; } });
      m.planCall = C_DTOR;
      if (m.res == Mult::MADE) {
        if (!c) sim::fail("segments-differ", "the annotator produced segment %d, the consumer got: %s", m.made, eng::show(r).c_str());
        sim::ev("the consumer gets segment %d", m.made);
        CAS *v = sim::sut([&] { return c->getView(w::us("_InitialView")); });
        w::Str t = w::toStr(sim::sut([&] { return v->getDocumentText(); }));
        if (t != segText(m.made)) sim::fail("segments-differ", "the annotator produced segment %d, the consumer got the text %s", m.made, w::show(t).c_str());
        m.out[c->getBaseCas()] = m.made;
        held.push_back(Held{c, m.made});
        sim::nontrivial();
        if (sim::chance(400)) back(held.size() - 1, sim::chance(700));
      } else {
        if (c) sim::fail("segments-differ", "the annotator failed, the consumer got a CAS");
        if (m.res == Mult::NOTHING) sim::fail("segments-differ", "the annotator was not asked for a segment: %s", eng::show(r).c_str());
        if (m.res == Mult::NO_CAS && out < (size_t)required) sim::fail("cas-lost", "no CAS for the annotator with %zu of %d lent: %s", out, required, eng::show(r).c_str());
        if (m.res == Mult::NO_CAS && !refused) sim::fail("failure-not-reported", "no CAS for the annotator, the consumer got: %s", eng::show(r).c_str());
        sim::ev("next() fails: %s", eng::show(r).c_str());
      }
      break;
    }
    case 2: if (!held.empty()) back(sim::draw((uint32_t)held.size()), sim::chance(700)); break;
    case 3: {                          // the input of the multiplier belongs to no pool
      Put r = put([&] { e->getAnnotatorContext().releaseCAS(*in); });
      if (r.how != Put::REFUSED) sim::fail("foreign-return-accepted", "returning the input CAS to the multiplier %s", hows[r.how]);
      break;
    }
    default: intact(); break;
    }
  }
  intact();
  while (!held.empty()) back(held.size() - 1, true);
  delete it;
  sim::sut([&] { delete e; });
  for (auto k : keep) sim::sut([&] { delete k; });
  sim::sut([&] { delete in->getBaseCas(); });
}
