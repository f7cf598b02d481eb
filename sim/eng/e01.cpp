// E01: engine life cycle. Random calls to up to three engines whose scripted annotators fail in any
// callback, in any way; every callback and every answer is compared with the life cycle model.
#include "eng.hpp"
#include "uima/resmgr.hpp"
#include <dirent.h>
using namespace uima;
using namespace eng;

namespace {
struct Engine {
  Desc d;
  std::vector<AnalysisEngineDescription *> keep;
  AnalysisEngine *e = nullptr;
  bool ready = false;
  int inst = -1;
  CAS *own = nullptr;                  // made by the engine
  CASIterator *it = nullptr;
  int required = 0;
  bool nosym = false;                  // a library without makeAE
};
struct Life {
  std::vector<Engine> es;
  std::map<std::pair<int, int>, Out> plan;      // (lib, callback) -> failure of the next such callback
  CAS *cas = nullptr;                           // belongs to no engine
  size_t seen = 0;

  static std::string list(std::vector<Event> const &v) {
    std::string s;
    for (auto &e : v) s += sim::fmt("%s%s(%s)", s.empty() ? "" : ", ", callNames[e.call], outText(e.out).c_str());
    return s.empty() ? "nothing" : s;
  }
  // the callbacks since the last look, without getCasInstancesRequired
  std::vector<Event> take() {
    std::vector<Event> r;
    for (; seen < journal.size(); seen++) if (journal[seen].call != C_CASREQ) r.push_back(journal[seen]);
    return r;
  }
  void expect(const char *what, Engine &g, std::vector<int> want) {
    std::vector<Event> got = take();
    bool ok = got.size() == want.size();
    for (size_t i = 0; ok && i < want.size(); i++) ok = got[i].call == want[i] && got[i].lib == g.d.lib && (got[i].call == C_MAKE || g.inst < 0 || got[i].inst == g.inst);
    if (ok) return;
    std::string w;
    for (int c : want) w += sim::fmt("%s%s", w.empty() ? "" : ", ", callNames[c]);
    sim::fail("callbacks", "%s called %s; expected %s of annotator %d.%d", what, list(got).c_str(), w.empty() ? "nothing" : w.c_str(), g.d.lib, g.inst);
  }
  // a failure of a callback reaches the caller
  void reported(const char *what, Out const &o, Answer const &a) {
    bool ok;
    switch (o.how) {
    case H_OK: ok = a.how == Answer::RET && a.id == 0; break;
    case H_CODE: case H_UIMA: ok = (a.how == Answer::RET || a.how == Answer::UIMA) && a.id == o.code; break;
    case H_NULL: ok = a.how != Answer::RET || a.id != 0; break;
    default: ok = a.how != Answer::RET || a.id != 0;
    }
    if (!ok) sim::fail(o.how == H_OK ? "spurious-error" : "failure-not-reported", "%s: the annotator answered %s, the caller got: %s", what, outText(o).c_str(), eng::show(a).c_str());
  }
  Out planned(Engine &g, int c) {
    auto it = plan.find({g.d.lib, c});
    return it == plan.end() ? Out() : it->second;
  }
  void mayFail(Engine &g, int c, uint32_t pm) {
    if (!sim::chance(pm)) return;
    Out o = anyFailure();
    if ((c == C_HASNEXT || c == C_NEXT || c == C_CASREQ) && o.how == H_CODE) o.how = H_UIMA;
    plan[{g.d.lib, c}] = o;
  }

  void make(Engine &g) {
    take();
    plan.clear();
    uint32_t bad = sim::weighted({10, 2, 2, 2, 2, 2, 0, 1, 1, 1, 1});
    bool load = false, sym = g.nosym, temp = false;
    Desc d = g.d;
    switch (bad) {
    case 1: mayFail(g, C_INIT, 1000); mayFail(g, C_DESTROY, 300); break;
    case 2: mayFail(g, C_TSINIT, 1000); mayFail(g, C_DESTROY, 300); break;
    case 3: mayFail(g, C_MAKE, 1000); if (sim::chance(400)) plan[{g.d.lib, C_MAKE}].how = H_NULL; break;
    case 4: mayFail(g, C_CASREQ, 1000); mayFail(g, C_DESTROY, 300); break;
    case 5: load = true; break;
    case 7: d.lib = NLIB + 1; break;
    case 8: if (g.keep.empty()) { d.caps.push_back(Cap{{sim::chance(500) ? "ent.Unheard" : "ent.Tok:unheard"}, {"en"}, {}, {}}); } else bad = 0; break;
    case 9: temp = true; break;
    case 10: d.name = "en<gine"; break;          // not well-formed
    }
    g.required = sim::chance(250) ? 1 + sim::draw(3) : 0;
    onCasRequired = [&](Ann &) { return g.required; };
    bool loadHit = false, symHit = false, tempHit = false;
    sim::dso_load_fault = [&](const char *) { return load ? loadHit = true : false; };
    sim::dso_sym_fault = [&](const char *) { return sym ? symHit = true : false; };
    sim::mkstemp_fault = [&] { return temp ? tempHit = true : false; };
    int via = g.keep.empty() ? (bad == 8 ? sim::draw(2) : sim::draw(3)) : 2;
    if ((bad == 7 || bad == 10) && via == 2) via = sim::draw(2);
    ErrorInfo ei;
    Answer a;
    sim::ev("create engine %d via %d%s", g.d.lib, via, bad ? " with a failure" : "");
    g.inst = -1;
    g.e = create(d, via, ei, a, &g.keep);
    sim::dso_load_fault = nullptr; sim::dso_sym_fault = nullptr; sim::mkstemp_fault = nullptr;
    std::vector<Event> got = take();
    // what must have happened
    Out fail;
    std::vector<int> want;
    bool nothing = g.nosym || loadHit || symHit || tempHit || bad == 7 || bad == 10;
    if (!nothing) {
      want.push_back(C_MAKE);
      fail = planned(g, C_MAKE);
      if (fail.how == H_OK) {
        want.push_back(C_INIT);
        fail = planned(g, C_INIT);
        if (fail.how == H_OK) { want.push_back(C_TSINIT); fail = planned(g, C_TSINIT); }
        if (fail.how == H_OK) fail = planned(g, C_CASREQ);
        if (fail.how != H_OK || bad == 8) { want.push_back(C_DESTROY); want.push_back(C_DTOR); }
      } else if (fail.how == H_CODE) fail.how = H_NULL;
    } else fail.how = H_NULL;
    if (bad == 8) fail.how = H_NULL;
    bool ok = got.size() == want.size();
    for (size_t i = 0; ok && i < want.size(); i++) ok = got[i].call == want[i] && got[i].lib == g.d.lib;
    if (bad == 8) {                              // may be found out at any point, even before there is an annotator
      std::vector<int> c;
      for (auto &e : got) if (e.call != C_TSINIT) c.push_back(e.call);
      ok = c.empty() || c == std::vector<int>{C_MAKE, C_INIT, C_DESTROY, C_DTOR};
    }
    if (!ok) {
      std::string w;
      for (int c : want) w += sim::fmt("%s%s", w.empty() ? "" : ", ", callNames[c]);
      sim::fail("callbacks", "createAnalysisEngine called %s; expected %s", list(got).c_str(), w.empty() ? "nothing" : w.c_str());
    }
    if (fail.how == H_OK) {
      if (!g.e) sim::fail("spurious-error", "createAnalysisEngine failed: %s", eng::show(a).c_str());
      if (a.how != Answer::RET || a.id != 0) sim::fail("spurious-error", "createAnalysisEngine gave an engine and an error: %s", eng::show(a).c_str());
      g.inst = got[0].inst;
      g.ready = true;
      sim::nontrivial();
      bool in = sim::sut([&] { return g.e->isInitialized(); });
      if (!in) sim::fail("state", "a new engine is not initialized");
    } else {
      if (g.e) sim::fail("failure-not-reported", "createAnalysisEngine returned an engine although its annotator could not be set up (%s)", outText(fail).c_str());
      if (!(g.nosym || loadHit || symHit || tempHit || bad == 7 || bad == 8 || bad == 10 || planned(g, C_DESTROY).how != H_OK)) reported("createAnalysisEngine", fail, a);
      else if (a.how == Answer::RET && a.id == 0) sim::fail("failure-not-reported", "createAnalysisEngine returned NULL without an error id");
      g.ready = false;
    }
    if (alive != living()) sim::fail("annotator-leaked", "%d annotators exist, %d engines are alive", alive, living());
    DIR *dir = opendir(sim::scratch());
    while (dirent *f = readdir(dir))
      if (f->d_name[0] != '.' && strncmp(f->d_name, "ae", 2)) sim::fail("temporary-file-left", "createAnalysisEngine left the file %s behind", f->d_name);
    closedir(dir);
  }
  int living() {
    int n = 0;
    for (auto &g : es) n += g.e && g.ready;
    return n;
  }
  CAS *someCas(Engine &g) {
    if (sim::chance(400)) return cas;
    if (!g.own) g.own = sim::sut([&] { return g.e->newCAS(); });
    return g.own;
  }
  static std::set<std::string> names(ResultSpecification const &r) {
    std::set<std::string> s;
    sim::sut([&] {
      for (auto &t : r.getTypeOrFeatureSTLSet()) { UnicodeStringRef n = t.getName(); s.insert((t.isType() ? "" : "f:") + n.asUTF8()); }
    });
    return s;
  }
  void checkInitialized(Engine &g) {
    bool in = sim::sut([&] { return g.e->isInitialized(); });
    if (in != g.ready) sim::fail("state", "isInitialized() is %d, the engine was %s", (int)in, g.ready ? "not destroyed" : "destroyed");
  }
  void process(Engine &g) {
    plan.clear();
    bool withSpec = sim::chance(350), iter = !withSpec && sim::chance(300);
    CAS *c = someCas(g);
    mayFail(g, C_PROCESS, 350);
    Out o = planned(g, C_PROCESS);
    ResultSpecification rs;
    std::set<std::string> spec;
    if (withSpec) {
      sim::sut([&] {
        Type t = g.e->getAnalysisEngineMetaData().getName().length() || true ? c->getTypeSystem().getType(w::us("ent.Tok")) : Type();
        rs.add(t);
        if (sim::chance(500)) rs.add(t.getFeatureByBaseName(w::us("s")));
      });
      spec = names(rs);
    } else for (auto &k : g.d.caps) for (auto &x : k.outs) spec.insert(x.find(':') == std::string::npos ? x : "f:" + x.substr(x.find(':') + 1));
    int before = sim::sut([&] { return (int)c->getAnnotationIndex().getSize(); });
    uint32_t adds = sim::draw(3);
    CAS *seenCas = nullptr;
    onProcess = [&](Ann &a, CAS &cc, ResultSpecification const &r) {
      seenCas = &cc;
      std::set<std::string> s = names(r);
      if (s != spec) {
        std::string x, y;
        for (auto &n : spec) x += n + " ";
        for (auto &n : s) y += n + " ";
        sim::fail("result-spec", "the annotator was asked for: %s; the caller asked for: %s", y.c_str(), x.c_str());
      }
      if (&a.getAnnotatorContext() != a.ctx) sim::fail("context", "the annotator's context is not the one it was initialized with");
      sim::sut([&] {
        Type t = cc.getTypeSystem().getType(w::us("ent.Tok"));
        for (uint32_t i = 0; i < adds; i++) {
          AnnotationFS f = cc.createAnnotation(t, 0, 0);
          cc.getIndexRepository().addFS(f);
        }
        cc.getView(w::us("_InitialView"));
      });
    };
    sim::ev("process of engine %d%s%s", g.d.lib, withSpec ? " with a result specification" : "", iter ? " as a multiplier" : "");
    CASIterator *ci = nullptr;
    Answer a = call([&]() -> long {
      if (iter) { ci = new CASIterator(g.e->processAndOutputNewCASes(*c)); return 0; }
      return withSpec ? g.e->process(*c, rs) : g.e->process(*c);
    });
    onProcess = nullptr;
    if (!g.ready) {
      expect("process in an illegal state", g, {});
      if (a.how == Answer::RET && a.id == 0) sim::fail("illegal-call-accepted", "process of a destroyed engine returned success");
      delete ci;
      return;
    }
    expect("process", g, {C_PROCESS});
    if (seenCas != c) sim::fail("wrong-cas", "the annotator was given another CAS");
    if (iter) {
      bool refused = a.how != Answer::RET;
      if (refused != (o.how != H_OK)) sim::fail(refused ? "spurious-error" : "failure-not-reported", "processAndOutputNewCASes: the annotator answered %s, the caller got: %s", outText(o).c_str(), eng::show(a).c_str());
      if (o.how == H_UIMA && !(a.how == Answer::UIMA && a.id == o.code)) sim::fail("failure-not-reported", "processAndOutputNewCASes: the annotator answered %s, the caller got: %s", outText(o).c_str(), eng::show(a).c_str());
    } else reported("process", o, a);
    int after = sim::sut([&] { return (int)c->getAnnotationIndex().getSize(); });
    if (after != before + (int)adds) sim::fail("work-lost", "the annotator added %d annotations to %d, afterwards there are %d", (int)adds, before, after);
    if (ci) { if (g.it) delete g.it; g.it = ci; }
    sim::sut([&] { c->getView(w::us("_InitialView")); });
  }
  void simple(Engine &g, int c, const char *what, std::function<long()> f) {
    plan.clear();
    mayFail(g, c, 400);
    Out o = planned(g, c);
    sim::ev("%s of engine %d", what, g.d.lib);
    Answer a = call(f);
    if (!g.ready) {
      expect((std::string(what) + " in an illegal state").c_str(), g, {});
      if (a.how == Answer::RET && a.id == 0) sim::fail("illegal-call-accepted", "%s of a destroyed engine returned success", what);
      return;
    }
    if (c == C_DESTROY) {
      g.ready = false;
      mayDtor(what, g);
    } else expect(what, g, {c});
    reported(what, o, a);
    checkInitialized(g);
  }
  void mayDtor(const char *what, Engine &g) {
    if (sim::chance(0)) {}
    expect(what, g, {C_DESTROY, C_DTOR});
  }
  void iterate(Engine &g) {
    plan.clear();
    if (!g.it) return;
    bool nx = sim::chance(400);
    int c = nx ? C_NEXT : C_HASNEXT;
    mayFail(g, c, 400);
    Out o = planned(g, c);
    bool say = sim::chance(500), got = false;
    CAS *gotCas = nullptr;
    onHasNext = [&](Ann &) { return say; };
    onNext = [&](Ann &) -> CAS & { return *cas; };
    sim::ev("%s of engine %d", callNames[c], g.d.lib);
    bool typed = false;
    Answer a = call([&]() -> long {
      try { if (nx) gotCas = &g.it->next(); else got = g.it->hasNext(); return 0; }
      catch (ExcInvalidRequest &) { typed = true; throw; }
    });
    onHasNext = nullptr; onNext = nullptr;
    if (!g.ready) {
      expect("iterating over a destroyed engine", g, {});
      if (a.how == Answer::RET && (nx || got)) sim::fail("illegal-call-accepted", "%s of a destroyed engine returned something", callNames[c]);
      return;
    }
    expect(callNames[c], g, {c});
    bool bad = o.how != H_OK;
    if (bad != (a.how != Answer::RET)) sim::fail(bad ? "failure-not-reported" : "spurious-error", "%s: the annotator answered %s, the caller got: %s", callNames[c], outText(o).c_str(), eng::show(a).c_str());
    if (o.how == H_UIMA && !(a.how == Answer::UIMA && a.id == o.code)) sim::fail("failure-not-reported", "%s: the annotator answered %s, the caller got: %s", callNames[c], outText(o).c_str(), eng::show(a).c_str());
    if (o.how == H_UIMA && !typed) sim::fail("failure-not-reported", "%s: the annotator threw an ExcInvalidRequest, the caller got an exception of another class", callNames[c]);
    if (!bad && !nx && got != say) sim::fail("callbacks", "hasNext is %d, the annotator said %d", got, say);
    if (!bad && nx && gotCas != cas) sim::fail("wrong-cas", "next() is not the annotator's CAS");
  }
  void drop(Engine &g) {
    plan.clear();
    mayFail(g, C_DESTROY, 300);
    sim::ev("delete engine %d", g.d.lib);
    if (g.own) { sim::sut([&] { delete g.own->getBaseCas(); }); g.own = nullptr; }
    delete g.it; g.it = nullptr;
    Answer a = call([&] { delete g.e; return 0l; });
    g.e = nullptr;
    if (a.how != Answer::RET) sim::fail("failure-escapes-destructor", "deleting an engine %s", eng::show(a).c_str());
    expect("deleting the engine", g, g.ready ? std::vector<int>{C_DESTROY, C_DTOR} : std::vector<int>{});
    g.ready = false;
    sim::sut([&] {
      cas->getView(w::us("_InitialView"));           // the CAS does not need the engine
    });
    if (alive != living()) sim::fail("annotator-leaked", "%d annotators exist, %d engines are alive", alive, living());
  }
};
}  // namespace

SIM_SCENARIO(E01, life, 3) {
  registerLibs();
  reset();
  Life L;
  L.es.resize(1 + sim::draw(3));
  for (size_t i = 0; i < L.es.size(); i++) {
    Desc &d = L.es[i].d;
    d.name = sim::fmt("engine%d", (int)i);
    d.lib = (int)i;
    L.es[i].nosym = sim::chance(60);
    uint32_t nc = sim::draw(3);
    for (uint32_t k = 0; k < nc; k++) {
      Cap c;
      const char *outs[] = {"ent.Tok", "ent.SubTok", "ent.Tok:s", "ent.Deep"};
      uint32_t no = sim::draw(3);
      for (uint32_t j = 0; j < no; j++) c.outs.push_back(outs[sim::draw(4)]);
      if (sim::chance(600)) c.langs.push_back(sim::chance(500) ? "en" : "x-unspecified");
      d.caps.push_back(c);
    }
  }
  decide = [&](int lib, Call c) {
    auto it = L.plan.find({lib, c});
    if (it == L.plan.end()) return Out();
    Out o = it->second;
    return o;
  };
  L.cas = w::newCas();
  while (sim::more(14)) {
    sim::Span sp;
    Engine &g = sim::pick(L.es);
    if (!g.e) { L.make(g); continue; }
    switch (sim::weighted({8, 2, 2, 2, 3, 2, 1, 1, 2})) {
    case 0: L.process(g); break;
    case 1: L.simple(g, C_BATCH, "batchProcessComplete", [&] { return (long)g.e->batchProcessComplete(); }); break;
    case 2: L.simple(g, C_COLL, "collectionProcessComplete", [&] { return (long)g.e->collectionProcessComplete(); }); break;
    case 3: L.simple(g, C_RECONF, "reconfigure", [&] { return (long)g.e->reconfigure(); }); break;
    case 4: L.iterate(g); break;
    case 5: L.simple(g, C_DESTROY, "destroy", [&] { return (long)g.e->destroy(); }); break;
    case 6: {
      L.plan.clear();
      sim::ev("initialize engine %d again", g.d.lib);
      Answer a = call([&] { return (long)g.e->initialize(g.e->getAnnotatorContext().getTaeSpecifier()); });
      if (a.how == Answer::RET && a.id == 0) sim::fail("illegal-call-accepted", "a second initialize() returned success");
      L.expect("a second initialize", g, {});
      L.checkInitialized(g);
      break;
    }
    case 7: {
      L.plan.clear();
      onCasRequired = [&](Ann &) { return 3; };
      int n = 0;
      Answer a = call([&] { n = g.e->getCasInstancesRequired(); return 0l; });
      if (a.how == Answer::RET && n != (g.ready ? 3 : 0)) sim::fail("state", "getCasInstancesRequired() is %d", n);
      break;
    }
    default: L.drop(g); break;
    }
  }
  for (auto &g : L.es) if (g.e) L.drop(g);
  for (auto &g : L.es) for (auto k : g.keep) sim::sut([&] { delete k; });
  if (alive) sim::fail("annotator-leaked", "%d annotators were never deleted", alive);
  sim::sut([&] { delete L.cas->getBaseCas(); });
}
