// Scripted annotators and generated engine descriptions for the engine properties.
#pragma once
#include "../core/sim.hpp"
#include "../core/wraps.hpp"
#include "../cas/world.hpp"
#include "uima/api.hpp"
#include "uima/annotator_context.hpp"
#include "uima/caspool.hpp"
#include "uima/casiterator.hpp"
#include <deque>

namespace eng {
using namespace uima;

enum Call { C_MAKE, C_INIT, C_TSINIT, C_PROCESS, C_BATCH, C_COLL, C_RECONF, C_DESTROY, C_HASNEXT, C_NEXT, C_CASREQ, C_DTOR, N_CALLS };
extern const char *callNames[];
enum How { H_OK, H_CODE, H_UIMA, H_STD, H_ALLOC, H_NULL };
struct Out { How how = H_OK; long code = 0; };
extern const char *howNames[];

struct Ann;
struct Event { int lib, inst; Call call; Out out; Ann *ann; };
extern std::vector<Event> journal;
extern int alive;                     // annotator objects that exist
// what a callback does: decided by the scenario; called with Harness scope
extern std::function<Out(int lib, Call)> decide;
extern std::function<void(Ann &, AnnotatorContext &)> onInit;
extern std::function<void(Ann &, CAS &, ResultSpecification const &)> onProcess;
extern std::function<bool(Ann &)> onHasNext;
extern std::function<CAS &(Ann &)> onNext;
extern std::function<int(Ann &)> onCasRequired;

struct Ann : public Annotator {
  int lib, inst;
  AnnotatorContext *ctx = nullptr;
  Ann(int l);
  ~Ann();
  TyErrorId initialize(AnnotatorContext &c);
  TyErrorId typeSystemInit(TypeSystem const &);
  TyErrorId destroy();
  TyErrorId reconfigure();
  TyErrorId process(CAS &, ResultSpecification const &);
  TyErrorId batchProcessComplete();
  TyErrorId collectionProcessComplete();
  bool hasNext();
  CAS &next();
  int getCasInstancesRequired();
  TyErrorId act(Call c);
};
const int NLIB = 8;
void registerLibs();                  // simann0 .. simann7
void reset();                         // default behaviour, empty journal
Out anyFailure();                     // a drawn way to fail
std::string outText(Out const &);
[[noreturn]] void raise(Out const &); // throws for H_UIMA, H_STD, H_ALLOC

// ---- descriptions -------------------------------------------------------------------
struct Param { std::string name; bool hasValue = false; std::string value; bool multi = false; std::vector<std::string> restrict_; };
struct Cap { std::vector<std::string> outs; std::vector<std::string> langs; std::vector<std::string> inSofas, outSofas; };
struct SofaMap { std::string key, comp, agg; };
struct Desc {
  std::string name = "sim";
  bool primitive = true;
  int lib = 0;
  std::vector<Param> params;
  std::string config;                   // the two configuration elements, instead of params
  std::vector<Cap> caps;
  std::vector<std::pair<std::string, Desc>> delegates;   // key -> description
  bool fixed = true;
  std::vector<std::string> flow;
  std::vector<SofaMap> maps;
  bool outputsCases = false;
};
std::string xml(Desc const &, bool top = true);
// the caller's view of a call: how it was answered
struct Answer { enum { RET, UIMA, STD, ALLOC } how = RET; long id = 0; };
std::string show(Answer const &);
Answer call(std::function<long()> f);   // in SUT scope
AnalysisEngine *create(Desc const &, int via, ErrorInfo &ei, Answer &a, std::vector<AnalysisEngineDescription *> *keep = nullptr);
}  // namespace eng
