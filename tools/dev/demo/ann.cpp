// a scripted annotator: every call goes to g_hook in the demonstration program
#include "uima/api.hpp"
#include "e.hpp"
using namespace uima;
struct Ann : Annotator {
  AnnotatorContext *c = nullptr; std::string n;
  TyErrorId h(const char *call, CAS *cas = nullptr, ResultSpecification const *r = nullptr) { return (TyErrorId)g_hook(Call{n, call, c, cas, r}); }
  TyErrorId initialize(AnnotatorContext &ctx) { c = &ctx; ctx.getTaeSpecifier().getAnalysisEngineMetaData()->getName().toUTF8String(n); return h("initialize"); }
  TyErrorId typeSystemInit(TypeSystem const &) { return h("typeSystemInit"); }
  TyErrorId destroy() { return h("destroy"); }
  TyErrorId reconfigure() { return h("reconfigure"); }
  TyErrorId process(CAS &x, ResultSpecification const &r) { return h("process", &x, &r); }
  TyErrorId batchProcessComplete() { return h("batch"); }
  TyErrorId collectionProcessComplete() { return h("collection"); }
  bool hasNext() { return h("hasNext"); }
  CAS &next() { Call k{n, "next", c, nullptr, nullptr}; g_hook(k); return *g_next; }
  int getCasInstancesRequired() { return h("casRequired"); }
  ~Ann() { h("~"); }
};
MAKE_AE(Ann);
