// C08: damaged or interrupted input. A valid XMI or XCAS document is altered in its bytes or in its structure, or
// its source ends or fails in the middle; reading it must succeed or throw a documented exception, what was read must
// be safe to walk, and after a reset the same CAS must read the undamaged document.
#include "program.hpp"
#include "damage.hpp"
#include "uima/xmideserializer.hpp"
#include "uima/xcasdeserializer.hpp"
#include <fstream>
using namespace uima;
using namespace w;

namespace {
// visits everything that can be reached through the interface, without trusting its shape
struct Walker {
  std::vector<lowlevel::TyFS> seen;
  std::vector<FeatureStructure> queue;
  uint64_t sum = 0;
  std::set<uint64_t> known;
  void add(FeatureStructure const &f) {
    if (!f.isValid()) return;
    if (known.insert((uint64_t)fsAddr(f)).second) queue.push_back(f);
  }
  void text(UnicodeStringRef const &r) { for (int i = 0; i < (int)r.length(); i++) sum = sum * 31 + (uint64_t)r.getBuffer()[i]; }
  template <class A> void arr(FeatureStructure const &f) { A a(f); for (size_t i = 0; i < a.size(); i++) sum = sum * 31 + (uint64_t)a.get(i); }
  void describe(FeatureStructure const &fs) {
    Type t = fs.getType();
    std::string tn = t.getName().asUTF8();
    if (tn == "uima.tcas.Annotation" || t.getFeatureByBaseName(us("begin")).isValid()) {
      try { AnnotationFS a(fs); text(a.getCoveredText()); } catch (uima::Exception &) {}
    }
    if (tn == "uima.cas.IntegerArray") return arr<IntArrayFS>(fs);
    if (tn == "uima.cas.BooleanArray") return arr<BooleanArrayFS>(fs);
    if (tn == "uima.cas.ByteArray") return arr<ByteArrayFS>(fs);
    if (tn == "uima.cas.ShortArray") return arr<ShortArrayFS>(fs);
    if (tn == "uima.cas.LongArray") return arr<LongArrayFS>(fs);
    if (tn == "uima.cas.FloatArray") { FloatArrayFS a(fs); for (size_t i = 0; i < a.size(); i++) sum += a.get(i) > 0; return; }
    if (tn == "uima.cas.DoubleArray") { DoubleArrayFS a(fs); for (size_t i = 0; i < a.size(); i++) sum += a.get(i) > 0; return; }
    if (tn == "uima.cas.StringArray") { StringArrayFS a(fs); for (size_t i = 0; i < a.size(); i++) text(a.get(i)); return; }
    if (tn == "uima.cas.FSArray") { ArrayFS a(fs); for (size_t i = 0; i < a.size(); i++) add(a.get(i)); return; }
    std::vector<Feature> feats;
    t.getAppropriateFeatures(feats);
    for (auto &f : feats) {
      Type rt; f.getRangeType(rt);
      std::string rn = rt.getName().asUTF8();
      if (rn == "uima.cas.Integer") sum += (uint64_t)fs.getIntValue(f);
      else if (rn == "uima.cas.Float") sum += fs.getFloatValue(f) > 0;
      else if (rn == "uima.cas.Boolean") sum += fs.getBooleanValue(f);
      else if (rn == "uima.cas.Byte") sum += (uint64_t)fs.getByteValue(f);
      else if (rn == "uima.cas.Short") sum += (uint64_t)fs.getShortValue(f);
      else if (rn == "uima.cas.Long") sum += (uint64_t)fs.getLongValue(f);
      else if (rn == "uima.cas.Double") sum += fs.getDoubleValue(f) > 0;
      else if (rn == "uima.cas.String" || rt.isStringSubType()) text(fs.getStringValue(f));
      else {
        FeatureStructure v = fs.getFSValue(f);
        add(v);
        // the typed accessors trust the type of the value
        if (v.isValid()) {
          if (rn == "uima.cas.IntegerArray") { IntArrayFS a = fs.getIntArrayFSValue(f); for (size_t i = 0; i < a.size(); i++) sum += (uint64_t)a.get(i); }
          else if (rn == "uima.cas.StringArray") { StringArrayFS a = fs.getStringArrayFSValue(f); for (size_t i = 0; i < a.size(); i++) text(a.get(i)); }
          else if (rn == "uima.cas.LongArray") { LongArrayFS a = fs.getLongArrayFSValue(f); for (size_t i = 0; i < a.size(); i++) sum += (uint64_t)a.get(i); }
          else if (rn == "uima.cas.FSArray") { ArrayFS a = fs.getArrayFSValue(f); for (size_t i = 0; i < a.size(); i++) add(a.get(i)); }
        }
      }
    }
  }
  void view(CAS *c) {
    text(c->getDocumentText());
    for (auto &ix : indexes) {
      FSIndex idx = c->getIndexRepository().getIndex(us(ix.label));
      FSIterator it = idx.iterator();
      size_t n = 0;
      for (it.moveToFirst(); it.isValid(); it.moveToNext()) {
        if (++n > 1000000) sim::fail("damage-endless", "endless index iteration after reading damaged input");
        add(it.get());
      }
    }
    std::vector<lowlevel::TyFS> all;
    c->getLowlevelIndexRepository().getIndexedFSs(all);
    for (auto a : all) add(internal::FSPromoter::promoteFS(a, *c));
    if (c->getSofa().isValid()) {
      SofaFS s = c->getSofa();
      text(s.getSofaID()); text(s.getSofaMime()); text(s.getSofaURI());
      sum += (uint64_t)s.getSofaRef();
      UnicodeStringRef d = s.getLocalStringData();
      text(d);
      add(s.getLocalFSData());
      CAS const *cc = c;
      DocumentFS doc = cc->getDocumentAnnotation();
      if (doc.isValid()) sum += doc.getLanguage().asString()[0] != 0;
    }
  }
  void run(CAS *any) {
    FSIterator it = any->getSofaIterator();
    std::vector<FeatureStructure> sofas;
    size_t n = 0;
    for (it.moveToFirst(); it.isValid(); it.moveToNext()) {
      if (++n > 100000) sim::fail("damage-endless", "endless sofa iteration after reading damaged input");
      sofas.push_back(it.get());
    }
    view(any->getBaseCas()->getView(us("_InitialView")));
    for (auto &s : sofas) {
      add(s);
      CAS *v = nullptr;
      try { v = any->getView(SofaFS(s)); } catch (uima::Exception &) {}
      if (v) view(v);
    }
    FSIterator hi = any->getBaseCas()->iterator();
    for (n = 0; hi.isValid(); hi.moveToNext()) {
      if (++n > 10000000) sim::fail("damage-endless", "endless heap iteration after reading damaged input");
      add(hi.get());
    }
    for (size_t i = 0; i < queue.size(); i++) { FeatureStructure f = queue[i]; describe(f); }
  }
};
void walk(CAS *c) {
  Walker W;
  try { sim::sut([&] { W.run(c); }); }
  catch (uima::Exception &e) {
    sim::ev("walk: %s", excText(e).c_str());     // a refused access is no harm
  }
  sim::ev("walked %zu structures", W.queue.size());
  // what was accepted can be written
  for (int i = 0; i < 3; i++) if (sim::chance(250)) {
    std::string b;
    try { b = i == 0 ? toXmi(c) : i == 1 ? toXcas(c) : toBlob(c); }
    catch (uima::Exception &e) { b = excText(e); }
    sim::ev("written as %d: %zu bytes", i, b.size());
  }
}

// reads the bytes in one of the ways there are; "" or the text of the exception
std::string readDoc(bool xmi, std::string const &b, CAS *c, Feed f, int how) {
  ByteSource src(b, f);
  std::string file;
  if (how >= 2) {
    file = sim::fmt("%s/in.xml", sim::scratch());
    std::ofstream o(file, std::ios::binary); o.write(b.data(), (std::streamsize)b.size());
  }
  try {
    sim::sut([&] {
      XmiSerializationSharedData shared;
      icu::UnicodeString name(file.c_str());
      if (xmi) {
        XmiDeserializer d;
        switch (how) {
        case 0: d.deserialize(src, *c, false); break;
        case 1: d.deserialize(src, *c, shared); break;
        case 2: d.deserialize(file.c_str(), *c, true); break;
        default: d.deserialize(name, *c, shared);
        }
      } else {
        XCASDeserializer d;
        switch (how) {
        case 0: d.deserialize(src, *c); break;
        case 1: d.deserialize(src, *c, nullptr); break;
        case 2: d.deserialize(file.c_str(), *c); break;
        default: d.deserialize(name, *c);
        }
      }
    });
  } catch (uima::Exception &e) { return excText(e); }
  catch (std::bad_alloc &) { return "bad_alloc"; }
  catch (std::exception &e) {
    if (f.failAt >= 0 && f.failKind == 1 && f.delivered >= (size_t)f.failAt) return sim::fmt("the source's own exception (%s)", e.what());
    sim::fail("undocumented-exception", "damaged input is reported by an undocumented exception: %s", e.what());
  } catch (xercesc::SAXException &e) { sim::fail("undocumented-exception", "damaged input is reported by a SAXException");
  } catch (xercesc::XMLException &e) { sim::fail("undocumented-exception", "damaged input is reported by an XMLException");
  }
  return "";
}

void damaged(bool xmi) {
  sim::memory_cap = 96 << 20;
  sim::set_step_budget(60000000);
  sim::expect_hang("reading a damaged document");
  bool small = sim::chance(500);
  auto page = [&] { return small ? (size_t)(1 + sim::draw(60)) : (size_t)2000; };
  size_t p1 = page(), p2 = page(), p3 = page();
  CAS *a = sim::sut([&] { return newCas(); }), *b = sim::sut([&] { return newCas(p1, p2, p3); });
  World W;
  W.dom.xmlSafe = true; W.dom.finite = !xmi;
  W.attach(a);
  { sim::Span sp; if (sim::chance(700)) { Str t = genStr(W.dom); W.setText(0, t); } }
  W.populate(sim::skewed(12), true);
  if (sim::chance(500)) W.decorate();
  std::string good = xmi ? toXmi(a) : toXcas(a);
  std::vector<std::string> want;
  { // what the undamaged document means to a fresh CAS
    CAS *f = sim::sut([&] { return newCas(); });
    std::string e = xmi ? fromXmi(good, f) : fromXcas(good, f);
    if (!e.empty()) sim::fail("undamaged-refused", "the undamaged document is refused: %s", e.c_str());
    want = dump(f);
    sim::sut([&] { delete f->getBaseCas(); });
  }
  uint32_t rounds = 1 + sim::draw(4);
  for (uint32_t r = 0; r < rounds; r++) {
    sim::Span sp;
    Feed f = Feed::random();
    std::string bad = good;
    std::string what = dmg::damage(bad, f);
    int how = (int)sim::weighted({5, 3, 1, 1});
    if (how >= 2) { if (f.cut >= 0) bad.resize(std::min(bad.size(), (size_t)f.cut)); f = Feed(); }
    sim::ev("read %s damaged by: %s", xmi ? "XMI" : "XCAS", what.c_str());
    if (sim::verbose()) { std::ofstream o(sim::fmt("%s/damaged.xml", sim::scratch())); o << bad; sim::note("%s", bad.substr(0, 20000).c_str()); }
    std::string e = readDoc(xmi, bad, b, f, how);
    sim::ev("-> %s", e.empty() ? "read" : e.substr(0, 300).c_str());
    sim::count(e.empty() ? "probe.damaged_accepted" : "probe.damaged_refused");
    sim::nontrivial();
    if (e.empty()) walk(b);
    sim::sut([&] { b->reset(); });
    if (sim::chance(600) || r + 1 == rounds) {
      std::string g = xmi ? fromXmi(good, b, Feed::random()) : fromXcas(good, b, Feed::random());
      if (!g.empty()) sim::fail("undamaged-refused", "after damaged input and a reset the undamaged document is refused: %s", g.c_str());
      expectSame("after-damage", want, dump(b), "the undamaged document read after damaged input and a reset");
      sim::sut([&] { b->reset(); });
    }
  }
  sim::sut([&] { delete a->getBaseCas(); delete b->getBaseCas(); });
}
}  // namespace

SIM_SCENARIO(C08, xmi, 5) { damaged(true); }
SIM_SCENARIO(C08, xcas, 5) { damaged(false); }
