// C04: allocation failure at any point of any CAS operation is reported and corrupts nothing.
#include "program.hpp"
#include "uima/caspool.hpp"
#include <xercesc/util/OutOfMemoryException.hpp>
using namespace uima;
using namespace w;

namespace {
// runs f with failing allocations; "" or a description of what was reported
struct Faulty {
  bool fired = false;
  uint64_t allocs = 0;
  std::string run(std::function<void()> f) {
    uint32_t k = sim::weighted({2, 3, 3, 2, 1});
    int64_t nth = k == 0 ? 0 : k == 1 ? sim::draw(4) : k == 2 ? sim::draw(16) : k == 3 ? sim::draw(120) : sim::draw(2000);
    int64_t burst = sim::chance(700) ? 1 : 1 + sim::draw(1000);
    std::string r;
    sim::alloc_arm(nth, burst);
    try { f(); }
    catch (std::bad_alloc &) { r = "bad_alloc"; }
    catch (uima::Exception &) { r = "uima::Exception"; }
    catch (std::exception &) { r = "std::exception"; }
    catch (xercesc::OutOfMemoryException &) { r = "OutOfMemoryException"; }
    catch (xercesc::XMLException &) { r = "XMLException"; }
    catch (xercesc::SAXException &) { r = "SAXException"; }
    allocs = sim::alloc_count();
    fired = sim::alloc_disarm();
    if (fired) sim::nontrivial();
    sim::ev("  nth %d burst %d: fired %d -> %s", (int)nth, (int)burst, (int)fired, r.c_str());
    return r;
  }
};

struct Case {
  World W;
  CAS *ini, *other;
  std::string xmi, xcas, blob;
  std::set<Node *> touched;          // what a failed operation was about
  std::set<int> membersUnknown;      // views whose membership a failed operation was about
  bool lost = false;                 // a failed read into the CAS was about all of it
  std::map<int, Str> text;           // expected document text of a view
  std::vector<std::pair<Node *, int>> maybe;
  Case(CAS *c) : ini(c) { W.dom.xmlSafe = true; }

  void checkRest(const char *op) {
    if (lost) return;
    for (auto n : W.nodes) if (!touched.count(n)) W.checkNode(n, "untouched-changed");
    for (auto n : W.arrs) if (!touched.count(n)) W.checkNode(n, "untouched-changed");
    for (auto n : W.lsts) if (!touched.count(n)) W.checkNode(n, "untouched-changed");
    for (size_t i = 0; i < W.views.size(); i++) {
      if (!text.count((int)i)) continue;
      Str t = toStr(sim::sut([&] { return W.views[i].cas->getDocumentText(); }));
      if (t != text[(int)i]) sim::fail("untouched-changed", "after a failed %s the document text of %s is %s, was %s", op, W.views[i].name.c_str(), show(t).c_str(), show(text[(int)i]).c_str());
    }
    // members of every index: exactly the model's, apart from what failed operations were about
    for (size_t i = 0; i < W.views.size(); i++) {
      for (auto &ix : indexes) {
        std::map<Node *, int> got;
        sim::sut([&] {
          FSIndex fi = W.views[i].cas->getIndexRepository().getIndex(us(ix.label));
          FSIterator it = fi.iterator();
          for (it.moveToFirst(); it.isValid(); it.moveToNext()) {
            FeatureStructure f = it.get();
            Node *n = W.byHandle(f);
            if (n) got[n]++;
          }
        });
        if (ix.kind == 2) {        // a set keeps one of equal structures: which one is not checked here
          continue;
        }
        std::map<Node *, int> want;
        for (auto &p : W.adds) if (p.second == (int)i && (ix.ty == -1 ? types[p.first->ty].annot : subsumes(ix.ty, p.first->ty))) want[p.first]++;
        for (auto &g : got) if (!touched.count(g.first) && want[g.first] != g.second)
          sim::fail("untouched-changed", "after a failed %s index %s of %s lists %s %d times, %d expected", op, ix.label, W.views[i].name.c_str(), g.first->name().c_str(), g.second, want[g.first]);
        for (auto &g : want) if (!touched.count(g.first) && got[g.first] != g.second)
          sim::fail("untouched-changed", "after a failed %s index %s of %s lists %s %d times, %d expected", op, ix.label, W.views[i].name.c_str(), g.first->name().c_str(), got[g.first], g.second);
      }
    }
  }
  void snapshotTexts() {
    text.clear();
    for (size_t i = 0; i < W.views.size(); i++) text[(int)i] = toStr(sim::sut([&] { return W.views[i].cas->getDocumentText(); }));
  }

  void op() {
    Faulty F;
    size_t vi = sim::draw((uint32_t)W.views.size());
    CAS *v = W.views[vi].cas;
    std::string r;
    const char *what = "";
    switch (sim::draw(18)) {
    case 0: case 1: {
      what = "createFS";
      int ty = (int)sim::draw(T_NUSER);
      if (types[ty].annot && !sim::sut([&] { return v->getSofa().isValid(); })) ty = T_PLAIN;
      r = F.run([&] { W.create(ty, (int)vi); });
      break; }
    case 2: {
      what = "createArray";
      int k = (int)sim::draw(9); size_t n = sim::skewed(300);
      r = F.run([&] { W.createArr(K_A_INT + k, n, false); });
      break; }
    case 3: {
      what = "createArray(huge)";
      static const size_t huge[] = {0x08000000, 0x3fffffff, 0x7fffffff, 0x80000000u, 0xfffffff0u, 0xffffffffu};
      size_t n = huge[sim::draw(6)];
      int k = (int)sim::draw(5);
      sim::memory_cap = 64 << 20;
      sim::fault("huge_request");
      sim::nontrivial();
      r = F.run([&] { sim::sut([&] {
        switch (k) {
        case 0: v->createArrayFS(n); break; case 1: v->createIntArrayFS(n); break; case 2: v->createByteArrayFS(n); break;
        case 3: v->createLongArrayFS(n); break; default: v->createStringArrayFS(n);
        } }); });
      if (r.empty()) sim::fail("failure-swallowed", "an array of %zu elements was reported as created in a CAS that may use 64 MB", n);
      break; }
    case 4: case 5: {
      what = "setFeature";
      if (W.nodes.empty()) return;
      Node *n = sim::pick(W.nodes); size_t f = 1 + sim::draw((uint32_t)types[n->ty].all.size() - 1);
      Val x = W.genVal(n->ty, (int)f, false);
      if (isRef(types[n->ty].all[f].kind)) return;
      r = F.run([&] { W.setVal(n, (int)f, x); });
      if (!r.empty()) touched.insert(n);
      break; }
    case 6: {
      what = "setElement";
      if (W.arrs.empty()) return;
      Node *a = sim::pick(W.arrs);
      if (a->v.empty() || a->kind == K_A_FS) return;
      Val x = genScalar(elemKind(a->kind), W.dom, false);
      size_t i = sim::draw((uint32_t)a->v.size());
      r = F.run([&] { W.setElem(a, i, x); });
      if (!r.empty()) touched.insert(a);
      break; }
    case 7: case 8: {
      what = "addFS";
      if (W.nodes.empty()) return;
      Node *n = sim::pick(W.nodes);
      int view = types[n->ty].annot ? n->view : (int)vi;
      r = F.run([&] { W.addToIndex(n, view); });
      if (!r.empty()) touched.insert(n);
      break; }
    case 9: {
      what = "removeFS";
      if (W.adds.empty()) return;
      size_t i = sim::draw((uint32_t)W.adds.size());
      auto p = W.adds[i];
      r = F.run([&] { sim::sut([&] { W.views[p.second].cas->getIndexRepository().removeFS(p.first->h); }); });
      if (r.empty()) W.adds.erase(W.adds.begin() + i); else touched.insert(p.first);
      break; }
    case 10: {
      what = "createView";
      const char *nm = viewNames[sim::draw(4)];
      CAS *c = nullptr;
      snapshotTexts();
      r = F.run([&] { sim::sut([&] { c = v->createView(us(nm)); }); });
      if (c) W.views.push_back(View{nm, c});
      break; }
    case 11: {
      what = "setDocumentText";
      Str t = genStr(W.dom);
      snapshotTexts();
      int how = (int)sim::draw(3);
      r = F.run([&] { sim::sut([&] {
        if (how == 0) v->setDocumentText(sref(t));
        else if (how == 1) v->setSofaDataString(sref(t), us("text/x"));
        else v->setDocumentText((UChar const *)t.data(), t.size(), true); }); });
      if (vi == 0 && r.empty()) W.views[0].hasText = true;
      Str now = toStr(sim::sut([&] { return v->getDocumentText(); }));
      if (now != t && now != text[(int)vi]) sim::fail("half-done", "after a failed setDocumentText(%s) the text is %s, was %s", show(t).c_str(), show(now).c_str(), show(text[(int)vi]).c_str());
      text[(int)vi] = now;
      break; }
    case 12: {
      what = "iterate";
      r = F.run([&] { sim::sut([&] {
        ANIterator it = v->getAnnotationIndex().iterator();
        size_t n = 0;
        for (it.moveToFirst(); it.isValid() && n < 10000; it.moveToNext()) { n++; it.get().getType().getName(); }
        }); });
      break; }
    case 13: what = "toXmi"; r = F.run([&] { toXmi(v); }); break;
    case 14: what = "toXcas"; r = F.run([&] { toXcas(v); }); break;
    case 15: what = "toBlob"; r = F.run([&] { toBlob(v); }); break;
    case 16: {
      what = "load";
      int kind = (int)sim::draw(4);
      CAS *into = sim::draw(2) ? ini : other;
      r = F.run([&] {
        std::string e;
        if (kind == 0) e = fromXmi(xmi, into);
        else if (kind == 1) e = fromXcas(xcas, into);
        else if (kind == 2) e = fromBlob(blob, into);
        else xferSections(other == into ? ini : other, into, sim::draw(2));
        if (!e.empty()) throw std::runtime_error(e);
      });
      if (into == ini) lost = true;
      break; }
    case 17: {
      what = "look";
      r = F.run([&] { sim::sut([&] {
        v->getView(us(viewNames[sim::draw(4)]));
        v->getSofaIterator();
        v->getDocumentAnnotation();
        v->getIndexRepository().getIndex(us(indexes[0].label)); }); });
      break; }
    }
    sim::ev("%s -> %s", what, r.c_str());
    if (F.fired) {
      sim::count(r.empty() ? "op_survived_alloc_failure" : "op_reported_alloc_failure");
      if (r.empty()) sim::note("%s reported success although an allocation failed", what);
      checkRest(what);
    }
  }
};
}  // namespace

SIM_SCENARIO(C04, cas, 8) {
  CAS *a = newCas(1 + sim::skewed(300), 1 + sim::skewed(300), 1 + sim::skewed(300));
  CAS *o = newCas(1 + sim::skewed(300), 1 + sim::skewed(300), 1 + sim::skewed(300));
  CAS *b = newCas();
  Case C(a);
  C.other = o;
  {
    CAS *s = newCas();
    World S; S.dom.xmlSafe = true; S.attach(s);
    S.populate(sim::skewed(6), true);
    C.xmi = toXmi(s); C.xcas = toXcas(s); C.blob = toBlob(s);
    sim::sut([&] { delete s->getBaseCas(); });
  }
  C.W.attach(a);
  C.W.populate(sim::skewed(12), true);
  C.snapshotTexts();
  uint32_t n = 1 + sim::skewed(12);
  for (uint32_t i = 0; i < n && !C.lost; i++) { sim::Span sp; C.op(); }
  C.checkRest("operation");
  TyErrorId rc = sim::sut([&] { return a->reset(); });
  if (rc != UIMA_ERR_NONE) sim::fail("reset-fails", "reset() returned %d", (int)rc);
  missingViews(a, "view-survives-reset");
  sameAsFresh(a, b, "differs-after-reset");
  sim::sut([&] { delete a->getBaseCas(); delete b->getBaseCas(); delete o->getBaseCas(); });
}
