// C07: the binary forms. A generated CAS is transferred as sections or as a blob (in either byte order),
// through CASes with any past; the content must be the same and a blob must fit the announced size.
#include "ser.hpp"
#include "uima/internal_casserializer.hpp"
#include "uima/internal_casdeserializer.hpp"
#include <cstring>
using namespace uima;
using namespace w;

namespace {
CAS *someCas() { return sim::sut([&] { return newCas(1 + sim::skewed(3000), 1 + sim::skewed(3000), 1 + sim::skewed(3000)); }); }
CAS *anyOf(World &W) { return sim::chance(500) ? W.base : sim::chance(500) ? W.base->getBaseCas() : sim::pick(W.views).cas; }

// the blob as a machine of the other byte order writes it
std::string otherOrder(std::string const &b) {
  std::string o = b;
  size_t at = 0;
  auto sw = [&](size_t n) { if (at + n > o.size()) sim::fail("blob-size", "the sections of a blob are larger than the blob"); std::reverse(o.begin() + at, o.begin() + at + n); at += n; };
  auto count = [&] { uint32_t v; if (at + 4 > b.size()) sim::fail("blob-size", "the sections of a blob are larger than the blob"); memcpy(&v, b.data() + at, 4); sw(4); return (size_t)v; };
  auto body = [&](size_t n, size_t w, size_t align) { for (size_t i = 0; i < n; i++) if (w > 1) sw(w); else at++; while (at % align) at++; };
  sw(4); sw(4);
  size_t n = count(); body(n, 4, 4);          // feature structures
  n = count(); body(n, 2, 4);                 // characters
  n = count(); body(n, 4, 4);                 // string references
  n = count(); body(n, 4, 4);                 // indexed
  n = count(); body(n, 1, 4);
  n = count(); body(n, 2, 4);
  n = count(); body(n, 8, 4);
  if (at != b.size()) sim::fail("blob-size", "the sections of a blob take %zu bytes of %zu", at, b.size());
  return o;
}

void makeSource(World &W, CAS *c) {
  W.dom.nul = true; W.dom.finite = !sim::chance(500);
  W.attach(c);
  W.populate(sim::skewed(14), true);
  W.decorate();
}
// leaves the CAS with a past, sometimes without resetting it
void past(CAS *c) {
  uint32_t n = sim::draw(3);
  for (uint32_t i = 0; i < n; i++) {
    sim::Span sp;
    World P; makeSource(P, c);
    if (i + 1 < n || sim::chance(500)) { sim::sut([&] { c->reset(); }); sim::ev("reset"); }
    else sim::count("target_in_use");
  }
  if (n) sim::count("target_was_used");
}

struct Route {
  uint32_t how;
  Route() : how(sim::draw(4)) {}
  void operator()(CAS *from, CAS *to) {
    if (how < 2) {
      sim::ev("transfer by sections, %s strings", how ? "copied" : "shared");
      xferSections(from, to, how == 1);
    } else {
      std::string b = toBlob(from);
      if (toBlob(from) != b) sim::fail("write-repeat", "the blob of an unchanged CAS is different the second time");
      // a buffer that is too small is refused and not touched
      if (sim::chance(300) && b.size() > 8) {
        size_t n = sim::draw((uint32_t)b.size());
        std::unique_ptr<char[]> small(new char[n + 1]);
        memset(small.get(), 0x5a, n + 1);
        size_t m = sim::sut([&] { internal::CASSerializer s(false); s.getBlobSize(*from); return s.getBlob(*from, small.get(), n); });
        if (m != 0) sim::fail("blob-small", "getBlob accepts a buffer of %zu bytes for a blob of %zu", n, b.size());
        for (size_t i = 0; i <= n; i++) if (small[i] != 0x5a) sim::fail("blob-small", "getBlob writes into a buffer it refuses");
        sim::fault("buffer_too_small");
      }
      if (how == 3) b = otherOrder(b);
      sim::ev("transfer by blob of %zu bytes%s", b.size(), how == 3 ? ", other byte order" : "");
      std::string e = fromBlob(b, to);
      if (!e.empty()) sim::fail("read-fails", "reading back the blob fails: %s", e.c_str());
    }
    sim::nontrivial();
  }
};

// every kind of write must work on the restored CAS as it does on the original
void both(World &A, World &B, int &uid) {
  uint32_t n = sim::skewed(6);
  for (uint32_t i = 0; i < n; i++) {
    sim::Span sp;
    uid++;
    uint32_t what = sim::draw(4);
    int k = (int)sim::draw(5);
    size_t vi = sim::draw((uint32_t)A.views.size());
    Str s = genStr(A.dom);
    double d = sim::draw(1000) / 7.0;
    for (World *w : {&A, &B}) {
      CAS *c = w == &A ? A.views[vi].cas : sim::sut([&] { return vi == 0 ? B.base : B.base->getView(us(A.views[vi].name.c_str())); });
      sim::sut([&] {
        FeatureStructure x = c->createFS(w->type[T_PLAIN]);
        Type t = w->type[T_PLAIN];
        x.setIntValue(t.getFeatureByBaseName(us("uid")), uid);
        x.setIntValue(t.getFeatureByBaseName(us("k")), k);
        for (size_t f = 0; f < types[T_PLAIN].all.size(); f++) {
          Feature ft = w->feat[T_PLAIN][f];
          int kd = types[T_PLAIN].all[f].kind;
          if (kd == K_STR && what == 1) x.setStringValue(ft, sref(s));
          if (kd == K_DOUBLE && what == 2) x.setDoubleValue(ft, d);
          if (kd == K_LONG && what == 3) x.setLongValue(ft, (INT64)k * 0x100000001LL);
        }
        c->getIndexRepository().addFS(x);
      });
    }
    sim::ev("both: Plain#%d in view %zu", uid, vi);
  }
}

void roundtrip() {
  CAS *a = someCas(), *b = someCas(), *c = sim::chance(300) ? someCas() : nullptr;
  past(a);
  sim::sut([&] { a->reset(); });
  World W;
  makeSource(W, a);
  W.checkMembers("members");
  DumpOpt o; o.sofaNum = true; o.unset = true;
  past(b);
  if (c) past(c);
  std::vector<std::string> want = dump(a, o);
  Route r;
  r(anyOf(W), b);
  expectSame("write-changes-cas", want, dump(a, o), "the CAS after writing it");
  expectSame("roundtrip", want, dump(b, o), "content read back");
  World X; X.base = b;
  X.bindTypes();
  X.views = W.views;
  int uid = 100000;
  CAS *at = b;
  if (sim::chance(500)) {
    both(W, X, uid);
    expectSame("changed-after", dump(a, o), dump(b, o), "content after the same additions to the original and the restored CAS");
    if (c) { Route r2; r2(b, c); expectSame("roundtrip", dump(a, o), dump(c, o), "content read back again"); at = c; }
  }
  // back into the original
  if (sim::chance(300)) {
    std::vector<std::string> w2 = dump(at, o);
    Route r3; r3(at, a);
    expectSame("roundtrip", w2, dump(a, o), "content read back into the original");
  }
  sim::sut([&] { delete a->getBaseCas(); delete b->getBaseCas(); if (c) delete c->getBaseCas(); });
}

// the definitions travel too: the receiver, made for another type system, takes over the sender's
std::vector<std::string> text(std::vector<UnicodeStringRef> const &v) { std::vector<std::string> r; for (auto &x : v) r.push_back(show(toStr(x))); return r; }
void definitions() {
  CAS *a = someCas();
  World W;
  makeSource(W, a);
  DumpOpt o; o.sofaNum = true; o.unset = true;
  std::vector<std::string> want = dump(a, o);
  bool copy = sim::chance(500);
  size_t which = sim::draw((uint32_t)partialDefs.size());
  internal::CASDefinition *def = partialDefs[which];
  sim::ev("receiver had type system %zu", which);
  internal::SerializedCAS sc, sc2;
  uint32_t times = 1 + sim::draw(2), fills = 1 + sim::skewed(8);
  std::string e = guarded("deserializeDefinitions", [&] {
    internal::CASSerializer s(copy);
    for (uint32_t i = 0; i < fills; i++) s.serializeDefinitions(*casdef, sc);
    internal::CASDeserializer d;
    for (uint32_t i = 0; i < times; i++) d.deserializeDefinitions(sc, *def);
    internal::CASSerializer s2(!copy);
    s2.serializeDefinitions(*def, sc2);
  });
  if (!e.empty()) sim::fail("definitions-fail", "taking over the definitions fails: %s", e.c_str());
  auto nums = [](const char *what, std::vector<internal::SerializedCAS::TyNum> const &x, std::vector<internal::SerializedCAS::TyNum> const &y) {
    if (x != y) sim::fail("definitions", "the %s table written by the receiver is different", what); };
  auto strs = [](const char *what, std::vector<UnicodeStringRef> const &x, std::vector<UnicodeStringRef> const &y) {
    if (text(x) != text(y)) sim::fail("definitions", "the %s table written by the receiver is different", what); };
  strs("type name", sc.getTypeSymbolTable(), sc2.getTypeSymbolTable());
  strs("feature name", sc.getFeatureSymbolTable(), sc2.getFeatureSymbolTable());
  nums("inheritance", sc.getTypeInheritanceTable(), sc2.getTypeInheritanceTable());
  nums("feature definition", sc.getFeatureDefinitionTable(), sc2.getFeatureDefinitionTable());
  nums("feature offset", sc.getFeatureOffsetTable(), sc2.getFeatureOffsetTable());
  nums("type priority", sc.getTypePriorityTable(), sc2.getTypePriorityTable());
  nums("string subtype", sc.getStringSubTypes(), sc2.getStringSubTypes());
  nums("string subtype position", sc.getStringSubTypeValuePos(), sc2.getStringSubTypeValuePos());
  strs("allowed value", sc.getStringSubTypeValues(), sc2.getStringSubTypeValues());
  strs("index name", sc.getIndexIDTable(), sc2.getIndexIDTable());
  nums("index kind", sc.getIndexKindTable(), sc2.getIndexKindTable());
  nums("comparator", sc.getComparatorDefinitionTable(), sc2.getComparatorDefinitionTable());
  nums("comparator start", sc.getComparatorStartTable(), sc2.getComparatorStartTable());
  CAS *b = sim::sut([&] { return newPartialCas(which); });
  Route r;
  r(anyOf(W), b);
  expectSame("roundtrip", want, dump(b, o), "content read into a CAS made from the transferred definitions");
  sim::sut([&] { delete a->getBaseCas(); delete b->getBaseCas(); });
}
}  // namespace

SIM_SCENARIO(C07, roundtrip, 6) { roundtrip(); }
SIM_SCENARIO(C07, definitions, 2) { definitions(); }
