// C03: a reset CAS is indistinguishable from a new one. The same generated program runs on a CAS
// with a past and on a fresh one; every outcome, the full content and all serialized forms must agree.
#include "program.hpp"
using namespace uima;
using namespace w;


SIM_SCENARIO(C03, reset, 1) {
  size_t pg = 1 + sim::skewed(3000);
  CAS *a = sim::sut([&] { return newCas(pg, 1 + sim::skewed(3000), 1 + sim::skewed(3000)); });
  CAS *b = sim::sut([&] { return newCas(); });
  std::string xmi, xcas, blob;
  {
    CAS *s = newCas();
    World S; S.dom.xmlSafe = true; S.attach(s);
    S.populate(sim::skewed(6), true);
    xmi = toXmi(s); xcas = toXcas(s); blob = toBlob(s);
    sim::sut([&] { delete s->getBaseCas(); });
  }
  uint32_t cycles = 1 + sim::skewed(3);
  CAS *held = nullptr;
  for (uint32_t i = 0; i < cycles; i++) {
    sim::Span sp;
    Program p(a);
    p.run(10);
    if (sim::chance(350)) p.load(xmi, xcas, blob);
    CAS *via = a;
    switch (sim::draw(3)) {
    case 1: via = a->getBaseCas(); break;
    case 2: if (p.W.views.size() > 1) via = p.W.views.back().cas; break;
    }
    if (p.W.views.size() > 1) held = p.W.views.back().cas;
    TyErrorId rc = sim::sut([&] { return via->reset(); });
    if (rc != UIMA_ERR_NONE) sim::fail("reset-fails", "reset() returned %d", (int)rc);
    if (sim::chance(200)) sim::sut([&] { via->reset(); });
    sim::nontrivial();
    sim::ev("reset");
    missingViews(a, "view-survives-reset");
    if (held) {
      UnicodeStringRef t = sim::sut([&] { return held->getDocumentText(); });
      if (t.length()) sim::fail("text-survives-reset", "a view of the reset CAS still shows %u characters of document text", (unsigned)t.length());
    }
    expectSame("reset-differs", dump(b, DumpOpt{true, true, true}), dump(a, DumpOpt{true, true, true}), "an empty CAS after reset");
  }
  sameAsFresh(a, b, "reset-differs");
  sim::sut([&] { delete a->getBaseCas(); delete b->getBaseCas(); });
}
