// A generated program of CAS operations whose every outcome is recorded: run on two CASes, the logs must agree.
#pragma once
#include "ser.hpp"
using namespace uima;
namespace w {
typedef std::vector<std::string> Log;
static const char *const viewNames[] = {"viewA", "viewB", "other", "\xc3\xa9t\xc3\xa9"};

struct Program {
  World W;
  CAS *ini;                 // the initial view
  Log log;
  Program(CAS *c) : ini(c) { W.dom.nul = true; }
  void out(std::string const &s) { log.push_back(s); sim::ev("%s", s.c_str()); }
  void tryOut(const char *what, std::function<std::string()> f) {
    std::string r;
    std::string e = guarded(what, [&] { r = f(); });
    out(std::string(what) + " -> " + (e.empty() ? r : e));
  }
  CAS *anyView() { return sim::pick(W.views).cas; }

  void op() {
    size_t vi = sim::draw((uint32_t)W.views.size());
    CAS *v = W.views[vi].cas;
    switch (sim::draw(17)) {
    case 0: case 1: {
      int ty = (int)sim::draw(T_NUSER);
      if (types[ty].annot && !sim::sut([&] { return v->getSofa().isValid(); })) ty = T_PLAIN;
      Node *n = W.create(ty, (int)vi); W.fill(n, 400, true);
      if (sim::chance(700)) W.addToIndex(n, (int)vi);
      break; }
    case 2: {
      if (W.adds.empty()) return;
      size_t i = sim::draw((uint32_t)W.adds.size());
      auto p = W.adds[i];
      W.adds.erase(W.adds.begin() + i);
      sim::sut([&] { W.views[p.second].cas->getIndexRepository().removeFS(p.first->h); });
      out("remove " + p.first->name());
      break; }
    case 3: {
      if (W.nodes.empty()) return;
      Node *n = sim::pick(W.nodes); size_t f = 1 + sim::draw((uint32_t)types[n->ty].all.size() - 1);
      W.setVal(n, (int)f, W.genVal(n->ty, (int)f, false));
      break; }
    case 4: case 5: {
      const char *nm = viewNames[sim::draw(4)];
      CAS *c = nullptr;
      tryOut("createView", [&] { c = (sim::pick(W.views).cas)->createView(us(nm)); return std::string(nm); });
      if (c) W.views.push_back(View{nm, c});
      break; }
    case 6: tryOut("createView(_InitialView)", [&] { anyView()->createView(us("_InitialView")); return std::string("created"); }); break;
    case 7: {
      const char *nm = viewNames[sim::draw(4)];
      tryOut("getView", [&] { CAS *c = anyView()->getView(us(nm)); return std::string(nm) + " sofaNum " + std::to_string(c->getSofaNum()) + " name " + show(toStr(c->getViewName())); });
      break; }
    case 8: case 9: {
      Str t = sim::chance(200) ? Str() : genStr(W.dom);
      int how = (int)sim::draw(4);
      tryOut("setDocumentText", [&] {
        if (how == 0) v->setDocumentText(sref(t));
        else if (how == 1) v->setDocumentText((UChar const *)t.data(), t.size(), true);
        else if (how == 2 && !t.empty()) v->setDocumentText((UChar const *)t.data(), t.size(), false);
        else v->setSofaDataString(sref(t), us("text/x"));
        return sim::fmt("%zu", t.size());
      });
      if (vi == 0) W.views[0].hasText = true;
      break; }
    case 10: {
      int k = (int)sim::draw(9);
      Node *a = W.createArr(K_A_INT + k % 9, sim::skewed(20));
      tryOut("setSofaDataArray", [&] { v->setSofaDataArray(a->h, us("application/x")); return a->name(); });
      if (vi == 0) W.views[0].hasText = true;
      break; }
    case 11: tryOut("setSofaDataURI", [&] { v->setSofaDataURI(us("file:/no/where"), us("uri/x")); return std::string("set"); }); if (vi == 0) W.views[0].hasText = true; break;
    case 12: {
      const char *nm = viewNames[sim::draw(4)];
      Str t = genStr(W.dom);
      tryOut("createSofa", [&] { SofaID id; id.setSofaId(us(nm)); SofaFS s = anyView()->createSofa(id, "text"); s.setLocalSofaData(sref(t)); return sim::fmt("%d", s.getSofaRef()); });
      break; }
    case 13:
      if (!sim::sut([&] { return v->getSofa().isValid(); })) return;
      tryOut("language", [&] { DocumentFS d = v->getDocumentAnnotation(); d.setLanguage(Language(sim::draw(2) ? "de" : "en-US")); return std::string(d.getLanguage().asString()); });
      break;
    case 14: tryOut("createFS(Integer)", [&] { v->createFS(v->getTypeSystem().getType(us("uima.cas.Integer"))); return std::string("created"); }); break;
    case 15: {
      CAS *b = v->getBaseCas();
      tryOut("base", [&] { FeatureStructure f = b->createFS(W.type[T_LOOSE]); (void)f; ArrayFS a = b->createArrayFS(3); return sim::fmt("%zu", a.size()); });
      tryOut("base text", [&] { b->setDocumentText(sref(u"x")); return std::string("accepted"); });
      break; }
    case 16: look(); break;
    }
  }
  void look() {
    tryOut("look", [&] {
      std::string r;
      for (auto &v : W.views) {
        r += show(toStr(v.cas->getViewName())) + sim::fmt(" num %d view %d bc %d sofa %d text ", v.cas->getSofaNum(), v.cas->isView(), v.cas->isBackwardCompatibleCas(), v.cas->getSofa().isValid()) + show(toStr(v.cas->getDocumentText()));
        CAS const *cc = v.cas;
        r += sim::fmt(" doc %d ", ((CAS const *)cc)->getDocumentAnnotation().isValid());
        std::vector<lowlevel::TyFS> all;
        v.cas->getLowlevelIndexRepository().getIndexedFSs(all);
        r += sim::fmt(" indexed %zu;", all.size());
      }
      CAS *b = ini->getBaseCas();
      r += sim::fmt(" base bc %d sofanum %d", b->isBackwardCompatibleCas(), b->getSofaNum());
      FSIterator it = b->getSofaIterator();
      for (it.moveToFirst(); it.isValid(); it.moveToNext()) r += " sofa " + show(toStr(SofaFS(it.get()).getSofaID())) + sim::fmt("#%d", SofaFS(it.get()).getSofaRef());
      FSIterator hi = b->iterator();
      size_t n = 0;
      for (; hi.isValid() && n < 100000; hi.moveToNext()) n++;
      r += sim::fmt(" heap %zu", n);
      return r;
    });
  }
  void start() { W.attach(ini); }
  void run(uint32_t mean) {
    start();
    look();
    W.populate(sim::skewed(12), true);
    while (sim::more(mean)) { sim::Span sp; op(); }
    look();
  }
  // bytes from elsewhere replace the content: valid, cut short or damaged
  void load(std::string const &xmi, std::string const &xcas, std::string const &blob) {
    Feed f = Feed::random();
    int kind = (int)sim::draw(4);
    std::string const &b = kind == 0 ? xmi : xcas;
    if (sim::chance(600) && b.size()) {
      f.cut = sim::draw((uint32_t)b.size());
    } else if (sim::chance(300)) f.failAt = sim::draw((uint32_t)b.size());
    std::string e;
    if (kind == 0) e = fromXmi(xmi, ini, f);
    else if (kind == 1) e = fromXcas(xcas, ini, f);
    else if (kind == 2) e = fromBlob(blob, ini);
    sim::ev("load kind %d -> %s", kind, e.c_str());
    sim::count(e.empty() ? "load_ok" : "load_aborted");
    W.forget();
  }
};

inline void compare(Log const &a, Log const &b, const char *what, const char *sig = "reset-differs") {
  for (size_t i = 0; i < a.size() || i < b.size(); i++) {
    std::string x = i < a.size() ? a[i] : "(nothing)", y = i < b.size() ? b[i] : "(nothing)";
    if (x != y) sim::fail(sig, "%s: on a fresh CAS \"%s\", on the reset CAS \"%s\"", what, y.substr(0, 500).c_str(), x.substr(0, 500).c_str());
  }
}

inline void missingViews(CAS *ini, const char *sig) {
  for (auto nm : viewNames) {
    std::string e = guarded("getView", [&] { ini->getView(us(nm)); });
    if (e.empty()) sim::fail(sig, "after the reset the CAS still has a view %s", nm);
  }
}
}  // namespace w

namespace w {
// a CAS with a past and a fresh one: the same program must have the same outcomes and results on both
inline void sameAsFresh(CAS *a, CAS *b, const char *sig) {
  uint32_t m = sim::mark();
  Program pa(a);
  pa.run(14);
  uint32_t e = sim::mark();
  Program pb(b);
  { sim::Again again(m, e); pb.run(14); }
  compare(pa.log, pb.log, "the same operations", sig);
  std::string fa, fb;
  fa = toXmi(a); fb = toXmi(b);
  if (fa != fb) sim::fail(sig, "XMI of the reset CAS differs from a fresh CAS's: %zu and %zu bytes", fa.size(), fb.size());
  fa = toXcas(a); fb = toXcas(b);
  if (fa != fb) sim::fail(sig, "XCAS of the reset CAS differs from a fresh CAS's: %zu and %zu bytes", fa.size(), fb.size());
  fa = toBlob(a); fb = toBlob(b);
  if (fa != fb) sim::fail(sig, "the blob of the reset CAS differs from a fresh CAS's: %zu and %zu bytes", fa.size(), fb.size());
  expectSame(sig, dump(b, DumpOpt{true, true, true}), dump(a, DumpOpt{true, true, true}), "content after the same operations");
}
}  // namespace w
