// E02: aggregate engines. Random trees of delegates with flows, languages, sofa mappings, parameters and
// result specifications; scripted leaves fail in any callback. A reference model predicts which delegates
// are called, in which order, on which view, with which configuration and for which results.
#include "eng.hpp"
#include "uima/resmgr.hpp"
using namespace uima;
using namespace eng;

namespace {
typedef std::set<std::string> Names;
const char *VIEWS[] = {"_InitialView", "V1", "V2", "V3"};
const char *LOCALS[] = {"_InitialView", "V1", "V2", "V3", "A", "B"};
const char *TOFS[] = {"ent.Tok", "ent.SubTok", "ent.Deep", "ent.Plain", "ent.Tok:s", "ent.Tok:k"};
const char *LANGS[] = {"en", "en-US", "en-GB", "de", "pt-BR", "x-unspecified"};
const char *PARAMS[] = {"P0", "P1", "P2"};

// one delegate (or the top) of the tree the description spans
struct Node {
  Desc *d = nullptr;
  Node *up = nullptr;
  std::string key;
  std::vector<Node *> kids;            // in flow order, the same node twice if the flow says so
  std::map<std::string, std::string> maps;
  std::map<std::string, std::string> assigned;    // values set by the application
};
struct Leaf { Node *n; int inst; };
struct Step { int leaf; Names views, spec; };
struct Agg {
  Desc d;
  std::vector<std::unique_ptr<Node>> all;
  Node *top = nullptr;
  std::vector<AnalysisEngineDescription *> keep;
  AnalysisEngine *e = nullptr;
  std::vector<Leaf> leaves;            // engines in the order of their creation
  CAS *cas = nullptr;
  bool ready = false;
};
std::string join(Names const &s) {
  std::string r;
  for (auto &x : s) r += (r.empty() ? "" : " ") + x;
  return r.empty() ? "nothing" : r;
}
bool isTerr(std::string const &l) { return l.size() == 5 && l[2] == '-'; }

// the outputs a component has for a language; null if it knows nothing about it
struct Caps {
  std::map<std::string, Names> m, noTerr;
  Names unspec; bool hasUnspec = false;
  explicit Caps(std::vector<Cap> const &caps) {
    for (auto &c : caps) for (auto &l : c.langs) {
      Names &s = m[l];
      for (auto &o : c.outs) s.insert(o);
    }
    auto it = m.find("x-unspecified");
    if (it != m.end()) {
      hasUnspec = true; unspec = it->second;
      for (auto &p : m) if (!p.second.empty()) p.second.insert(unspec.begin(), unspec.end());
    }
    for (auto &p : m) if (!isTerr(p.first)) noTerr[p.first] = p.second;
    std::vector<std::string> terr;
    for (auto &p : m) if (isTerr(p.first)) terr.push_back(p.first);
    for (auto &t : terr) { Names &b = m[t.substr(0, 2)]; m[t].insert(b.begin(), b.end()); }
    for (auto &t : terr) { Names &s = m[t]; m[t.substr(0, 2)].insert(s.begin(), s.end()); }
  }
  Names const *out(std::string const &lang) const {
    auto it = m.find(lang);
    if (it != m.end()) return &it->second;
    it = noTerr.find(lang.substr(0, 2));
    if (it != noTerr.end() && lang != "x-unspecified") return &it->second;
    return hasUnspec ? &unspec : nullptr;
  }
};

struct Flow {
  std::vector<std::unique_ptr<Agg>> as;
  int nextLib = 0;
  std::map<std::pair<int, int>, Out> plan;      // (leaf index or lib, callback) -> failure
  size_t seen = 0;

  // ---- generation ----
  void genCaps(Desc &d) {
    uint32_t n = sim::weighted({2, 5, 3});
    for (uint32_t i = 0; i < n; i++) {
      Cap c;
      uint32_t no = sim::weighted({2, 4, 3});
      for (uint32_t k = 0; k < no; k++) c.outs.push_back(TOFS[sim::draw(6)]);
      uint32_t nl = sim::weighted({1, 6, 3, 2});
      for (uint32_t k = 0; k < nl; k++) c.langs.push_back(LANGS[sim::draw(6)]);
      if (sim::chance(120)) c.inSofas.push_back(LOCALS[sim::draw(6)]);
      if (sim::chance(100)) c.outSofas.push_back(LOCALS[sim::draw(6)]);
      d.caps.push_back(c);
    }
  }
  void genParams(Desc &d) {
    for (auto p : PARAMS) {
      if (!sim::chance(600)) continue;
      Param q; q.name = p;
      q.hasValue = sim::chance(600);
      if (q.hasValue) q.value = sim::fmt("v%u", sim::draw(1000));
      if (!d.primitive && sim::chance(350))
        for (auto &e : d.delegates) if (sim::chance(500)) q.restrict_.push_back(e.first);
      d.params.push_back(q);
    }
  }
  Desc gen(int depth) {
    Desc d;
    d.name = sim::fmt("d%u", sim::draw(1000));
    d.primitive = depth > 0 && (depth > 2 || nextLib >= NLIB - 1 || sim::chance(650));
    if (d.primitive) d.lib = nextLib++;
    else {
      uint32_t n = 1 + sim::weighted({2, 4, 3, 1});
      for (uint32_t i = 0; i < n && nextLib < NLIB; i++) d.delegates.push_back({std::string("k") + char('a' + i), gen(depth + 1)});
      std::vector<std::string> ks;
      for (auto &e : d.delegates) ks.push_back(e.first);
      while (!ks.empty()) { uint32_t i = sim::draw(ks.size()); if (!sim::chance(80)) d.flow.push_back(ks[i]); ks.erase(ks.begin() + i); }
      if (!d.delegates.empty() && sim::chance(80)) d.flow.push_back(d.delegates[sim::draw(d.delegates.size())].first);
      d.fixed = sim::chance(450);
      for (auto &e : d.delegates) {
        Names used;
        uint32_t k = sim::weighted({4, 4, 3, 1});
        for (uint32_t i = 0; i < k; i++) {
          SofaMap m;
          m.key = e.first;
          m.comp = sim::chance(500) ? "" : LOCALS[sim::draw(6)];
          if (!used.insert(m.comp.empty() ? "_InitialView" : m.comp).second) continue;
          m.agg = sim::chance(depth ? 500 : 200) ? LOCALS[sim::draw(6)] : VIEWS[sim::draw(4)];
          d.maps.insert(d.maps.begin() + sim::draw(d.maps.size() + 1), m);
        }
      }
    }
    genCaps(d);
    genParams(d);
    return d;
  }
  Node *build(Agg &a, Desc &d, Node *up, std::string const &key) {
    a.all.emplace_back(new Node());
    Node *n = a.all.back().get();
    n->d = &d; n->up = up; n->key = key;
    if (up) for (auto &m : up->d->maps) if (m.key == key) n->maps[m.comp.empty() ? "_InitialView" : m.comp] = m.agg;
    std::map<std::string, Node *> kids;
    for (auto &e : d.delegates) kids[e.first] = build(a, e.second, n, e.first);
    for (auto &f : d.flow) n->kids.push_back(kids[f]);
    return n;
  }
  void order(Agg &a, Node *n, std::vector<Node *> &v) {
    if (n->d->primitive) { v.push_back(n); return; }
    for (auto k : n->kids) order(a, k, v);
  }

  // ---- the model ----
  // the absolute views a component's name can mean; more than one where a name is not mapped at one level but
  // is at a level above (the descriptor format leaves that open)
  static Names resolve(Node *n, std::string const &name) {
    if (!n || !n->up) return {name};
    auto it = n->maps.find(name);
    if (it != n->maps.end()) return resolve(n->up, it->second);
    Names s = resolve(n->up, name);
    s.insert(name);
    return s;
  }
  static Param *param(Node *n, std::string const &p, std::string const &childKey) {
    for (auto &q : n->d->params) if (q.name == p) {
      if (childKey.empty() || q.restrict_.empty()) return &q;
      for (auto &r : q.restrict_) if (r == childKey) return &q;
      return nullptr;
    }
    return nullptr;
  }
  // "" none, else "=value"; defined=false if the parameter is not defined
  static std::string value(Node *n, std::string const &p, std::string const &childKey, bool &defined) {
    Param *q = param(n, p, childKey);
    defined = q != nullptr;
    if (!q) return "";
    if (n->up) {
      bool d2;
      std::string v = value(n->up, p, n->key, d2);
      if (!v.empty()) return v;
    }
    auto it = n->assigned.find(p);
    if (it != n->assigned.end()) return "=" + it->second;
    return q->hasValue ? "=" + q->value : "";
  }
  static bool wantsBase(Desc const &d) { for (auto &c : d.caps) if (!c.inSofas.empty() || !c.outSofas.empty()) return true; return false; }

  std::string lang;                    // of the document, now
  std::map<int, std::string> relabel;  // leaf -> the language it sets
  Names present;                       // views of the document
  int leafNo = 0;
  std::vector<Step> steps;
  bool failed = false, loose = false, missing = false;
  // true if a delegate is to report an error code: the others are called all the
  // same, and what it was asked for remains to be asked of them
  bool predict(Agg &a, Node *n, Names const &views, Names spec) {
    Names remaining = spec;
    bool coded = false;
    for (auto k : n->kids) {
      int first = leafNo, cnt = 0;
      { std::vector<Node *> v; order(a, k, v); cnt = (int)v.size(); }
      if (failed || loose) { leafNo = first + cnt; continue; }
      Caps c(k->d->caps);
      Names const *out = c.out(lang);
      Names tofs;
      if (out) for (auto &t : *out) if (remaining.count(t)) tofs.insert(t);
      bool call = (out && out->empty()) || !tofs.empty() || n->d->fixed;
      if (call) {
        bool code = false;
        Names vs = wantsBase(*k->d) ? views : resolve(k, "_InitialView");
        int have = 0;
        for (auto &v : vs) have += present.count(v);
        if (!have) { failed = missing = true; }
        else if (have < (int)vs.size()) loose = true;
        else if (k->d->primitive) {
          steps.push_back(Step{first, vs, tofs});
          auto r = relabel.find(first);
          if (r != relabel.end()) lang = r->second;
          auto f = plan.find({first, C_PROCESS});
          if (f != plan.end()) { if (f->second.how == H_CODE) code = true; else failed = true; }
        } else code = predict(a, k, vs, tofs);
        if (code) coded = true;
        else if (!failed) for (auto &t : tofs) remaining.erase(t);
      }
      leafNo = first + cnt;
    }
    return coded;
  }

  static void describe(Desc const &d, std::string const &key, int depth) {
    std::string c;
    for (auto &k : d.caps) {
      c += " [";
      for (auto &l : k.langs) c += l + " ";
      c += ":";
      for (auto &o : k.outs) c += " " + o;
      if (!k.inSofas.empty() || !k.outSofas.empty()) c += " sofas";
      c += "]";
    }
    std::string m;
    for (auto &x : d.maps) m += " " + x.key + "/" + (x.comp.empty() ? "-" : x.comp) + "=" + x.agg;
    std::string f;
    for (auto &x : d.flow) f += " " + x;
    if (d.primitive) sim::note("%*s%s: annotator %d%s", depth * 2, "", key.c_str(), d.lib, c.c_str());
    else sim::note("%*s%s: aggregate%s, %s flow%s, mappings%s", depth * 2, "", key.c_str(), c.c_str(), d.fixed ? "fixed" : "language", f.c_str(), m.c_str());
    for (auto &e : d.delegates) describe(e.second, e.first, depth + 1);
  }

  // ---- running ----
  std::vector<Event> take() {
    std::vector<Event> r;
    for (; seen < journal.size(); seen++) if (journal[seen].call != C_CASREQ) r.push_back(journal[seen]);
    return r;
  }
  static std::string list(std::vector<Event> const &v) {
    std::string s;
    for (auto &e : v) s += sim::fmt("%s%d.%d:%s(%s)", s.empty() ? "" : ", ", e.lib, e.inst, callNames[e.call], outText(e.out).c_str());
    return s.empty() ? "nothing" : s;
  }
  int leafOf(Agg &a, int inst) {
    for (size_t i = 0; i < a.leaves.size(); i++) if (a.leaves[i].inst == inst) return (int)i;
    return -1;
  }
  // a failure that happened is reported, and nothing else is
  void reported(const char *what, std::vector<Event> const &got, Answer const &a, bool other = false) {
    bool any = other, ok = false;
    std::string txt;
    for (auto &e : got) if (e.out.how != H_OK) {
      any = true;
      txt += sim::fmt(" %s of annotator %d.%d: %s.", callNames[e.call], e.lib, e.inst, outText(e.out).c_str());
      if (e.out.how == H_CODE || e.out.how == H_UIMA) { if ((a.how == Answer::RET || a.how == Answer::UIMA) && a.id == e.out.code) ok = true; }
      else if (a.how != Answer::RET || a.id != 0) ok = true;
    }
    if (other && (a.how != Answer::RET || a.id != 0)) ok = true;
    if (any && !ok) sim::fail("failure-not-reported", "%s:%s The caller got: %s", what, txt.c_str(), eng::show(a).c_str());
    if (!any && (a.how != Answer::RET || a.id != 0)) sim::fail("spurious-error", "%s: no delegate failed, the caller got: %s", what, eng::show(a).c_str());
  }
  // every annotator made gets destroyed once, in reverse order, and deleted
  void checkCleanup(const char *what, std::vector<Event> const &got, std::vector<Event> const &made) {
    std::vector<int> want, have;
    for (auto &e : made) want.insert(want.begin(), e.inst);
    for (auto &e : got) if (e.call == C_DESTROY) have.push_back(e.inst);
    if (want != have) {
      std::string w;
      for (int i : want) w += sim::fmt(" %d", i);
      sim::fail("clean-up", "%s: the annotators were to be destroyed in the order%s; the callbacks were: %s", what, w.c_str(), list(got).c_str());
    }
    for (int i : want) {
      int n = 0;
      for (auto &e : got) n += e.call == C_DTOR && e.inst == i;
      if (n != 1) sim::fail("annotator-leaked", "%s: annotator instance %d was deleted %d times", what, i, n);
    }
  }
  int living() {
    int n = 0;
    for (auto &a : as) if (a->e && a->ready) n += (int)a->leaves.size();
    return n;
  }
  void checkParams(Ann &an, AnnotatorContext &ctx, Node *n, const char *when) {
    for (auto p : PARAMS) {
      bool defined;
      std::string want = value(n, p, "", defined), got;
      sim::sut([&] {
        icu::UnicodeString v;
        try { if (ctx.extractValue(w::us(p), v) == UIMA_ERR_NONE) got = "=" + UnicodeStringRef(v).asUTF8(); } catch (uima::Exception &) {}
        if (ctx.isParameterDefined(w::us(p)) != defined) got += defined ? " not defined" : " defined";
      });
      if (got != want) sim::fail("parameter", "in %s of annotator %d parameter %s is '%s'; it should be '%s'", when, an.lib, p, got.c_str(), want.c_str());
    }
  }

  void make(Agg &a) {
    plan.clear();
    take();
    std::vector<Node *> nodes;
    order(a, a.top, nodes);
    uint32_t bad = sim::weighted({10, 2, 1, 1, 1, 1, 1});
    if (nodes.empty() && bad != 5) bad = 0;
    int victim = nodes.empty() ? -1 : sim::draw(nodes.size());
    bool loadHit = false;
    Desc const *use = &a.d;
    Desc changed;
    int via = a.keep.empty() ? sim::draw(3) : 2;
    switch (bad) {
    case 1: plan[{nodes[victim]->d->lib, C_INIT}] = anyFailure(); break;
    case 2: plan[{nodes[victim]->d->lib, C_TSINIT}] = anyFailure(); break;
    case 3: { Out o = anyFailure(); if (o.how == H_CODE) o.how = H_NULL; plan[{nodes[victim]->d->lib, C_MAKE}] = o; break; }
    case 4: sim::dso_load_fault = [&, victim](const char *f) { return strstr(f, sim::fmt("simann%d", nodes[victim]->d->lib).c_str()) ? loadHit = true : false; }; break;
    case 5: if (via == 2) { bad = 0; break; }
      changed = a.d; changed.flow.insert(changed.flow.begin() + sim::draw(changed.flow.size() + 1), sim::chance(500) ? "nobody" : "K"); use = &changed; break;
    case 6: {
      if (via == 2) { bad = 0; break; }
      changed = a.d; use = &changed;
      std::function<void(Desc &)> spoil = [&](Desc &d) {
        if (d.primitive && d.lib == nodes[victim]->d->lib) d.caps.push_back(Cap{{sim::chance(500) ? "ent.Unheard" : "ent.Tok:unheard"}, {"en"}, {}, {}});
        for (auto &e : d.delegates) spoil(e.second);
      };
      spoil(changed);
      break;
    }
    }
    if ((bad == 1 || bad == 2) && sim::chance(400)) plan[{nodes[sim::draw(nodes.size())]->d->lib, C_DESTROY}] = anyFailure();
    std::vector<Event> inits;
    decide = [&](int lib, Call c) { auto it = plan.find({lib, c}); return it == plan.end() ? Out() : it->second; };
    onInit = [&](Ann &an, AnnotatorContext &ctx) {
      for (auto n : nodes) if (n->d->lib == an.lib) { checkParams(an, ctx, n, "initialize"); return; }
      sim::fail("flow", "annotator %d was initialized; it is not in the flow", an.lib);
    };
    sim::ev("create aggregate via %d%s", via, bad ? " with a failure" : "");
    ErrorInfo ei;
    Answer r;
    a.leaves.clear();
    a.e = create(*use, via, ei, r, &a.keep);
    sim::dso_load_fault = nullptr;
    onInit = nullptr;
    std::vector<Event> got = take(), made, failures;
    for (auto &e : got) {
      if (e.call == C_INIT) made.push_back(e);
      if (e.out.how != H_OK) failures.push_back(e);
    }
    bool fail = loadHit || bad >= 5 || !failures.empty();
    for (size_t i = 0; i < made.size(); i++)
      if (i >= nodes.size() || made[i].lib != nodes[i]->d->lib) {
        sim::fail("flow", "the annotators were initialized in another order than that of the flow: %s", list(made).c_str());
      }
    if (!fail) {
      if (!a.e) sim::fail("spurious-error", "createAnalysisEngine failed: %s", eng::show(r).c_str());
      reported("createAnalysisEngine", got, r);
      if (made.size() != nodes.size()) sim::fail("flow", "%d annotators are in the flow, initialized were: %s", (int)nodes.size(), list(made).c_str());
      for (size_t i = 0; i < made.size(); i++) a.leaves.push_back(Leaf{nodes[i], made[i].inst});
      a.ready = true;
      sim::nontrivial();
    } else {
      if (a.e) sim::fail("failure-not-reported", "createAnalysisEngine returned an engine although a delegate failed: %s", list(failures).c_str());
      if (bad >= 5 || loadHit) { if (r.how == Answer::RET && r.id == 0) sim::fail("failure-not-reported", "createAnalysisEngine returned NULL without an error id"); }
      else reported("createAnalysisEngine", got, r);
      checkCleanup("createAnalysisEngine", got, made);
      a.ready = false;
    }
    if (alive != living()) sim::fail("annotator-leaked", "%d annotators exist, the aggregates have %d", alive, living());
  }
  // markers the delegates left: view -> (lib, serial)
  typedef std::multiset<std::pair<int, int>> Marks;
  std::map<std::string, Marks> board;
  std::map<std::string, std::string> langs;
  static Marks marksOf(CAS *v) {
    Marks m;
    Type t = v->getTypeSystem().getType(w::us("ent.Tok"));
    ANIndex ix = v->getAnnotationIndex(t);
    ANIterator it = ix.iterator();
    for (it.moveToFirst(); it.isValid(); it.moveToNext()) {
      AnnotationFS f = it.get();
      m.insert({(int)f.getBeginPosition(), (int)f.getEndPosition()});
    }
    return m;
  }
  static std::string text(Marks const &m) {
    std::string s;
    for (auto &p : m) s += sim::fmt(" %d/%d", p.first, p.second);
    return s.empty() ? " nothing" : s;
  }
  // "" if the view is what the board says
  std::string diff(CAS *v, std::string const &name) {
    Marks m = sim::sut([&] { return marksOf(v); });
    if (m != board[name]) return sim::fmt("view %s has the annotations%s; so far were added%s", name.c_str(), text(m).c_str(), text(board[name]).c_str());
    return "";
  }
  void newDoc(Agg &a) {
    sim::sut([&] {
      if (!a.cas) a.cas = a.e->newCAS();
      else a.cas->reset();
    });
    mustNew = false;
    board.clear(); langs.clear(); present.clear();
    lang = LANGS[sim::draw(6)];
    for (int i = 0; i < 4; i++) {
      if (i && sim::chance(60)) continue;
      present.insert(VIEWS[i]);
    }
    for (auto l : {"A", "B"}) if (sim::chance(500)) present.insert(l);
    sim::ev("new document in %s, views %s", lang.c_str(), join(present).c_str());
    a.cas = sim::sut([&] {
      CAS *init = a.cas->getView(w::us("_InitialView"));
      for (auto &n : present) {
        CAS *v = n == "_InitialView" ? init : init->createView(w::us(n.c_str()));
        v->setDocumentText(UnicodeStringRef(w::us("0123456789012345678901234567890123456789012345678901234567890123456789")));
        if (lang != "x-unspecified") v->getDocumentAnnotation().setLanguage(Language(lang.c_str()));
      }
      return init;
    });
  }
  int serial = 10;
  void process(Agg &a) {
    plan.clear();
    if (!a.cas || mustNew || sim::chance(600)) newDoc(a);
    else lang = curLang;
    bool withSpec = sim::chance(400);
    Names spec;
    ResultSpecification rs;
    if (withSpec) {
      uint32_t n = sim::draw(5);
      for (uint32_t i = 0; i < n; i++) spec.insert(TOFS[sim::draw(6)]);
      sim::sut([&] {
        for (auto &s : spec) {
          Type t = a.cas->getTypeSystem().getType(w::us(s.c_str()));
          if (t.isValid()) rs.add(t); else rs.add(a.cas->getTypeSystem().getFeatureByFullName(w::us(s.c_str())));
        }
      });
    } else for (auto &c : a.d.caps) spec.insert(c.outs.begin(), c.outs.end());
    relabel.clear();
    for (size_t i = 0; i < a.leaves.size(); i++) {
      if (sim::chance(80)) relabel[(int)i] = LANGS[sim::draw(5)];
      if (sim::chance(60)) plan[{(int)i, C_PROCESS}] = anyFailure();
    }
    std::string startView = sim::chance(850) ? "_InitialView" : *std::next(present.begin(), sim::draw(present.size()));
    std::string startLang = lang;
    leafNo = 0; steps.clear(); failed = loose = missing = false;
    predict(a, a.top, {startView}, spec);
    lang = startLang;
    bool wasLoose = loose;
    sim::count(wasLoose ? "documents_loose" : "documents_strict");
    sim::count("delegate_calls_predicted", steps.size());
    if (missing) sim::fault("view_missing");
    sim::ev("process view %s in %s for %s%s", startView.c_str(), lang.c_str(), join(spec).c_str(), wasLoose ? ", loosely" : "");
    size_t at = 0;
    int last = -1;
    bool failedNow = false, thrown = false, beyond = false;
    std::map<std::string, CAS *> byName;
    int cur = -1;
    onProcess = [&](Ann &an, CAS &c, ResultSpecification const &r) {
      int leaf = leafOf(a, an.inst);
      if (leaf < 0) sim::fail("flow", "an annotator of another aggregate was called");
      Node *n = a.leaves[leaf].n;
      cur = leaf;
      if (leaf <= last) sim::fail("flow", "delegate %d was called after delegate %d", leaf, last);
      last = leaf;
      Names vs;
      if (thrown) sim::fail("flow", "delegate %d (annotator %d) was called after a delegate threw an exception", leaf, an.lib);
      if (missing && at >= steps.size()) beyond = true;     // other delegates may go on where one had no view
      if (!wasLoose && !beyond) {
        if (at >= steps.size()) sim::fail("flow", "delegate %d (annotator %d) was called; it should not have been", leaf, an.lib);
        Step &s = steps[at];
        if (s.leaf != leaf) sim::fail("flow", "delegate %d (annotator %d) was called; the next should have been delegate %d (annotator %d)", leaf, an.lib, s.leaf, a.leaves[s.leaf].n->d->lib);
        vs = s.views;
        Names got = sim::sut([&] {
          Names g;
          TypeSystem const &ts = c.getTypeSystem();
          for (auto &t : r.getTypeOrFeatureSTLSet()) {
            std::string nm = "?";
            for (auto x : TOFS) {
              Type ty = ts.getType(w::us(x));
              TypeOrFeature tof = ty.isValid() ? TypeOrFeature(ty) : TypeOrFeature(ts.getFeatureByFullName(w::us(x)));
              if (tof == t) nm = x;
            }
            g.insert(nm);
          }
          return g;
        });
        if (got != s.spec) sim::fail("result-spec", "delegate %d (annotator %d) was asked for %s; it should have been asked for %s", leaf, an.lib, join(got).c_str(), join(s.spec).c_str());
        at++;
      }
      if (&an.getAnnotatorContext() != an.ctx) sim::fail("context", "the annotator's context is not the one it was initialized with");
      std::string name = sim::sut([&] { return c.getViewName().asUTF8(); });
      if (!vs.empty() && !vs.count(name)) sim::fail("view", "delegate %d (annotator %d) was given view %s; its mappings say %s", leaf, an.lib, name.c_str(), join(vs).c_str());
      checkParams(an, *an.ctx, n, "process");
      std::string d = diff(&c, name);
      if (!d.empty()) sim::fail("not-seen", "in delegate %d %s", leaf, d.c_str());
      std::string l = sim::sut([&] { std::string s; icu::UnicodeString u = c.getDocumentAnnotation().getLanguage().asUnicodeString(); s = UnicodeStringRef(u).asUTF8(); return s; });
      std::string wl = lang == "x-unspecified" ? "??" : lang;
      for (auto &ch : wl) ch = tolower(ch);
      if (l != wl && !(wl == "??" && l.empty())) sim::fail("not-seen", "in delegate %d the document's language is %s; it was set to %s", leaf, l.c_str(), wl.c_str());
      // names the delegate uses
      for (auto loc : LOCALS) {
        if (!sim::chance(500)) continue;
        Names w = resolve(n, loc);
        std::string got;
        CAS *v = nullptr;
        sim::sut([&] {
          try { v = c.getView(w::us(loc)); got = v->getViewName().asUTF8(); } catch (uima::Exception &) {}
        });
        int have = 0;
        for (auto &x : w) have += present.count(x);
        if (v ? !w.count(got) : have == (int)w.size())
          sim::fail("view", "delegate %d (annotator %d) got view '%s' for its name %s; its mappings say %s", leaf, an.lib, got.c_str(), loc, join(w).c_str());
        if (v && present.count(got)) {
          d = diff(v, got);
          if (!d.empty()) sim::fail("not-seen", "in delegate %d %s", leaf, d.c_str());
        }
      }
      // work
      uint32_t adds = sim::draw(3);
      for (uint32_t i = 0; i < adds; i++) {
        int b = an.lib, e = serial++;
        board[name].insert({b, e});
        sim::sut([&] {
          Type t = c.getTypeSystem().getType(w::us("ent.Tok"));
          AnnotationFS f = c.createAnnotation(t, b, e);
          c.getIndexRepository().addFS(f);
        });
      }
      auto rl = relabel.find(leaf);
      if (rl != relabel.end()) {
        lang = rl->second;
        for (auto &p : present) {
          CAS *v = byName[p];
          sim::sut([&] { v->getDocumentAnnotation().setLanguage(Language(lang.c_str())); });
        }
      }
      auto f = plan.find({leaf, C_PROCESS});
      if (f != plan.end()) {
        failedNow = true;
        if (f->second.how != H_CODE) thrown = true;
      }
    };
    for (auto &p : present) byName[p] = sim::sut([&] { return a.cas->getView(w::us(p.c_str())); });
    decide = [&](int, Call c) {
      if (c != C_PROCESS) return Out();
      auto it = plan.find({cur, c});
      return it == plan.end() ? Out() : it->second;
    };
    CAS *start = byName[startView];
    Answer r = call([&]() -> long { return withSpec ? a.e->process(*start, rs) : a.e->process(*start); });
    onProcess = nullptr;
    curLang = lang;
    std::vector<Event> got = take();
    if (!a.ready) {
      if (!got.empty()) sim::fail("flow", "process of a destroyed aggregate called %s", list(got).c_str());
      if (r.how == Answer::RET && r.id == 0) sim::fail("illegal-call-accepted", "process of a destroyed aggregate returned success");
      return;
    }
    if (!wasLoose) {
      if (at < steps.size()) sim::fail("flow", "delegate %d (annotator %d) should have been called next; process ended", steps[at].leaf, a.leaves[steps[at].leaf].n->d->lib);
      // a view that is not there ends process() with an error of its own, also after a delegate has failed
      bool allThere = present.size() == 6;
      reported("process", got, r, missing || (failedNow && !allThere));
    } else if (failedNow) reported("process", got, r, true);
    // the caller's names are not the delegates'
    for (auto &p : present) {
      std::string name;
      CAS *v = sim::sut([&] { CAS *x = a.cas->getView(w::us(p.c_str())); name = x->getViewName().asUTF8(); return x; });
      if (name != p) sim::fail("view", "after process the caller's name %s means view %s", p.c_str(), name.c_str());
      std::string d = diff(v, p);
      if (!d.empty()) sim::fail("not-seen", "after process %s", d.c_str());
    }
    if (failedNow || missing || wasLoose || sim::chance(300)) dropDoc = true;
  }
  std::string curLang;
  bool dropDoc = false, mustNew = false;
  void all(Agg &a, int c, const char *what, std::function<long()> f) {
    plan.clear();
    std::set<int> bad;
    for (size_t i = 0; i < a.leaves.size(); i++) if (sim::chance(100)) plan[{a.leaves[i].n->d->lib, c}] = anyFailure();
    decide = [&](int lib, Call cc) { auto it = plan.find({lib, cc}); return it == plan.end() ? Out() : it->second; };
    sim::ev("%s", what);
    Answer r = call(f);
    std::vector<Event> got = take();
    if (!a.ready) {
      if (!got.empty()) sim::fail("flow", "%s of a destroyed aggregate called %s", what, list(got).c_str());
      if (r.how == Answer::RET && r.id == 0) sim::fail("illegal-call-accepted", "%s of a destroyed aggregate returned success", what);
      return;
    }
    if (c == C_DESTROY) {
      std::vector<Event> made;
      for (auto &l : a.leaves) { Event e{}; e.inst = l.inst; made.push_back(e); }
      checkCleanup(what, got, made);
      a.ready = false;
    } else {
      bool threw = false;
      size_t k = 0;
      for (auto &e : got) {
        if (e.call != c) sim::fail("callbacks", "%s called %s of annotator %d.%d", what, callNames[e.call], e.lib, e.inst);
        int leaf = leafOf(a, e.inst);
        if (leaf < (int)k || (!threw && leaf != (int)k)) sim::fail("flow", "%s called %s", what, list(got).c_str());
        k = leaf + 1;
        if (e.out.how == H_STD || e.out.how == H_ALLOC) threw = true;
      }
      if (!threw && k != a.leaves.size()) sim::fail("flow", "%s called %s; %d delegates are in the flow", what, list(got).c_str(), (int)a.leaves.size());
    }
    reported(what, got, r);
  }
  void assign(Agg &a) {
    std::string p = PARAMS[sim::draw(3)], v = sim::fmt("w%u", sim::draw(1000));
    bool can = param(a.top, p, "") != nullptr;
    sim::ev("set parameter %s", p.c_str());
    Answer r = call([&] { return (long)a.e->getAnnotatorContext().assignValue(w::us(p.c_str()), w::us(v.c_str())); });
    bool done = r.how == Answer::RET && r.id == 0;
    if (done != can) sim::fail("parameter", "setting %s, which the aggregate %s, %s", p.c_str(), can ? "has" : "does not have", eng::show(r).c_str());
    if (done) a.top->assigned[p] = v;
  }
  void drop(Agg &a) {
    plan.clear();
    for (auto &l : a.leaves) if (sim::chance(80)) plan[{l.n->d->lib, C_DESTROY}] = anyFailure();
    decide = [&](int lib, Call cc) { auto it = plan.find({lib, cc}); return it == plan.end() ? Out() : it->second; };
    sim::ev("delete aggregate");
    if (a.cas) { sim::sut([&] { delete a.cas->getBaseCas(); }); a.cas = nullptr; }
    Answer r = call([&] { delete a.e; return 0l; });
    a.e = nullptr;
    if (r.how != Answer::RET) sim::fail("failure-escapes-destructor", "deleting an aggregate %s", eng::show(r).c_str());
    std::vector<Event> got = take();
    if (a.ready) {
      std::vector<Event> made;
      for (auto &l : a.leaves) { Event e{}; e.inst = l.inst; made.push_back(e); }
      checkCleanup("deleting the aggregate", got, made);
    } else if (!got.empty()) sim::fail("callbacks", "deleting a destroyed aggregate called %s", list(got).c_str());
    a.ready = false;
    if (a.keep.empty()) for (auto &n : a.all) n->assigned.clear();     // values live in the description
    if (alive != living()) sim::fail("annotator-leaked", "%d annotators exist, the aggregates have %d", alive, living());
  }
};
}  // namespace

static void flow() {
  registerLibs();
  reset();
  Flow F;
  uint32_t n = 1 + sim::chance(200);
  for (uint32_t i = 0; i < n; i++) {
    F.as.emplace_back(new Agg());
    Agg &a = *F.as.back();
    a.d = F.gen(0);
    a.top = F.build(a, a.d, nullptr, "");
    Flow::describe(a.d, "top", 0);
  }
  Agg *docOwner = nullptr;
  while (sim::more(12)) {
    sim::Span sp;
    Agg &a = *sim::pick(F.as);
    if (!a.e) { F.make(a); continue; }
    if (docOwner == &a && F.dropDoc && sim::chance(500)) { F.mustNew = true; F.dropDoc = false; }
    if (docOwner != &a || F.dropDoc) { if (a.cas) { sim::sut([&] { delete a.cas->getBaseCas(); }); a.cas = nullptr; } docOwner = &a; F.dropDoc = false; }
    switch (sim::weighted({14, 1, 1, 1, 1, 2, 1})) {
    case 0: F.process(a); break;
    case 1: F.all(a, C_BATCH, "batchProcessComplete", [&] { return (long)a.e->batchProcessComplete(); }); break;
    case 2: F.all(a, C_COLL, "collectionProcessComplete", [&] { return (long)a.e->collectionProcessComplete(); }); break;
    case 3: F.all(a, C_RECONF, "reconfigure", [&] { return (long)a.e->reconfigure(); }); break;
    case 4: F.all(a, C_DESTROY, "destroy", [&] { return (long)a.e->destroy(); }); break;
    case 5: F.assign(a); break;
    default: F.drop(a); break;
    }
  }
  for (auto &a : F.as) if (a->e) F.drop(*a);
  for (auto &a : F.as) for (auto k : a->keep) sim::sut([&] { delete k; });
  if (alive) sim::fail("annotator-leaked", "%d annotators were never deleted", alive);
}
SIM_SCENARIO(E02, flow, 1) { flow(); }
SIM_SCENARIO(E01, aggregate, 1) { flow(); }   // the failures of delegates reach the caller as well
