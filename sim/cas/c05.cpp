// C05 / C06: the XML forms. A generated CAS is written, read back through a byte source the simulator
// cuts into pieces, into a CAS with or without a past, under a varying process environment; the
// observable content must be the same.
#include "ser.hpp"
#include "uima/xmiwriter.hpp"
#include "uima/xmlwriter.hpp"
#include "uima/xmideserializer.hpp"
#include <sstream>
using namespace uima;
using namespace w;

namespace {
struct Env {      // the platform's default converter: the formats declare UTF-8, so it must not matter
  std::string old;
  Env() {
    static const char *names[] = {nullptr, "UTF-8", "ISO-8859-1", "windows-1252", "US-ASCII"};
    old = ucnv_getDefaultName();
    const char *n = names[sim::draw(5)];
    if (n) { ucnv_setDefaultName(n); sim::ev("default converter %s", n); }
  }
  ~Env() { ucnv_setDefaultName(old.c_str()); }
};
CAS *someCas() { return sim::sut([&] { return newCas(1 + sim::skewed(3000), 1 + sim::skewed(3000), 1 + sim::skewed(3000)); }); }
CAS *anyOf(World &W) { return sim::chance(700) ? W.base : sim::chance(500) ? W.base->getBaseCas() : sim::pick(W.views).cas; }

// a CAS that has been used before and was reset
void past(CAS *c, std::string const &bytes, bool xmi) {
  World P; P.dom.xmlSafe = true; P.attach(c);
  P.populate(sim::skewed(6), true);
  if (sim::chance(300)) {
    Feed f = Feed::random();
    f.cut = sim::draw((uint32_t)bytes.size() + 1);
    sim::sut([&] { c->reset(); });
    std::string e = xmi ? fromXmi(bytes, c, f) : fromXcas(bytes, c, f);
    sim::ev("an earlier read ended early: %s", e.c_str());
    sim::count("target_after_failed_read");
  }
  sim::sut([&] { c->reset(); });
  sim::ev("reset");
  sim::count("target_was_used");
}
void makeSource(World &W, CAS *c, bool xmi) {
  W.dom.xmlSafe = true; W.dom.finite = !sim::chance(500);
  W.attach(c);
  if (sim::chance(150)) { past(c, "", xmi); W.attach(c); }
  W.populate(sim::skewed(14), true);
  W.decorate();
}

void roundtrip(bool xmi) {
  Env env;
  CAS *a = someCas(), *b = someCas();
  World W;
  makeSource(W, a, xmi);
  W.checkMembers("members");
  DumpOpt o; o.unset = xmi;
  std::vector<std::string> want = dump(a, o);
  std::string bytes = xmi ? toXmi(anyOf(W)) : toXcas(anyOf(W));
  std::string again = xmi ? toXmi(a) : toXcas(a);
  if (bytes != again) sim::fail("write-repeat", "writing the unchanged CAS twice gives different documents (%zu and %zu bytes)", bytes.size(), again.size());
  expectSame("write-changes-cas", want, dump(a, o), "the CAS after writing it");
  if (sim::chance(300)) past(b, bytes, xmi);
  uint32_t rounds = 1 + sim::draw(2);
  sim::nontrivial();
  for (uint32_t r = 0; r < rounds; r++) {
    Feed f = Feed::random();
    std::string e = xmi ? fromXmi(bytes, b, f) : fromXcas(bytes, b, f);
    if (!e.empty()) sim::fail("read-fails", "reading back what was written fails: %s", e.c_str());
    expectSame("roundtrip", want, dump(b, o), "content read back");
    bytes = xmi ? toXmi(b) : toXcas(b);
    expectSame("write-changes-cas", want, dump(b, o), "the CAS after writing it");
    sim::sut([&] { b->reset(); });
  }
  sim::sut([&] { delete a->getBaseCas(); delete b->getBaseCas(); });
}

void output(bool xmi) {
  Env env;
  CAS *a = someCas();
  World W;
  makeSource(W, a, xmi);
  std::vector<std::string> want = dump(a);
  std::string full = xmi ? toXmi(a) : toXcas(a);
  Sink sink;
  sink.capacity = sim::chance(150) ? (int64_t)full.size() : (int64_t)sim::draw((uint32_t)full.size() + 1);
  sink.throwing = sim::chance(300);
  std::ostream os(&sink);
  bool excs = sim::chance(200);
  if (excs) os.exceptions(std::ios::badbit | std::ios::failbit);
  bool threw = false;
  try {
    sim::sut([&] {
      if (xmi) { XmiWriter w(*a, true); w.write(os); } else { XCASWriter w(*a, true); w.write(os); }
      os.flush();
    });
  } catch (uima::Exception &) { threw = true; }
  catch (std::ios_base::failure &) { threw = true; }
  catch (std::runtime_error &) { threw = true; }
  sim::nontrivial();
  bool ok = os.good() && !threw;
  if (sink.refused && ok) sim::fail("silent-truncation", "the output took %zu of %zu bytes and the write is reported as successful", sink.data.size(), full.size());
  if (!sink.refused && (!ok || sink.data != full)) sim::fail("write-fails", "the output accepted everything but the write %s", ok ? "produced another document" : "is reported as failed");
  if (sink.data.compare(0, std::string::npos, full, 0, sink.data.size()) != 0) sim::fail("write-prefix", "the bytes that arrived are not the beginning of the document");
  // the failed write leaves the CAS usable
  expectSame("write-changes-cas", want, dump(a), "the CAS after a write that failed");
  if ((xmi ? toXmi(a) : toXcas(a)) != full) sim::fail("write-after-failure", "after a failed write the CAS is written differently");
  sim::sut([&] { delete a->getBaseCas(); });
}
// A service whose type system lacks some types and features reads the document with shared data, adds
// structures of its own and answers; the sender must find everything it sent plus the additions.
void service() {
  Env env;
  CAS *a = someCas(), *b = someCas();
  size_t which = sim::draw((uint32_t)partialDefs.size());
  Subset const &sub = partialSubsets[which];
  CAS *s = sim::sut([&] { return newPartialCas(which); });
  World W;
  makeSource(W, a, true);
  std::string out = toXmi(a), back;
  uint32_t hops = 1 + sim::draw(2);
  int uid = 100000;
  sim::ev("service type system %zu", which);
  for (uint32_t h = 0; h < hops; h++) {
    sim::Span sp;
    XmiSerializationSharedData shared;
    Feed f = Feed::random();
    ByteSource src(out, f);
    std::string e = guarded("XmiDeserializer", [&] { XmiDeserializer d; d.deserialize(src, *s, shared); });
    if (!e.empty()) sim::fail("service-read", "the service cannot read the document: %s", e.c_str());
    uint32_t n = sub.drop[T_PLAIN] ? 0 : sim::skewed(3);
    for (uint32_t i = 0; i < n; i++) {
      uid++;
      int k = (int)sim::draw(5);
      bool idx = sim::chance(700);
      for (CAS *c : {a, s}) {
        sim::sut([&] {
          Type t = c->getTypeSystem().getType(us("ent.Plain"));
          FeatureStructure x = c->createFS(t);
          x.setIntValue(t.getFeatureByBaseName(us("uid")), uid);
          x.setIntValue(t.getFeatureByBaseName(us("k")), k);
          if (idx) c->getIndexRepository().addFS(x);
        });
      }
      sim::ev("service adds ent.Plain#%d", uid);
    }
    back = sim::sut([&] { std::ostringstream o; XmiWriter w(*s, true, &shared); w.write(o); return o.str(); });
    sim::sut([&] { s->reset(); });
    std::vector<std::string> want = dump(a);
    e = fromXmi(back, b, Feed::random());
    if (!e.empty()) sim::fail("reply-read", "the sender cannot read the service's reply: %s", e.c_str());
    expectSame("service-roundtrip", want, dump(b), "content after the round trip through the service");
    sim::nontrivial();
    out = toXmi(b);
    sim::sut([&] { b->reset(); });
  }
  sim::sut([&] { delete a->getBaseCas(); delete b->getBaseCas(); delete s->getBaseCas(); });
}
}  // namespace

SIM_SCENARIO(C05, service, 3) { service(); }
SIM_SCENARIO(C05, roundtrip, 6) { roundtrip(true); }
SIM_SCENARIO(C05, output, 1) { output(true); }
SIM_SCENARIO(C06, roundtrip, 6) { roundtrip(false); }
SIM_SCENARIO(C06, output, 1) { output(false); }
