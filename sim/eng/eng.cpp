#include "eng.hpp"
#include "uima/taespecifierbuilder.hpp"
#include "uima/resmgr.hpp"
#include <xercesc/framework/MemBufInputSource.hpp>
#include <unistd.h>

namespace eng {
const char *callNames[] = {"make", "initialize", "typeSystemInit", "process", "batchProcessComplete", "collectionProcessComplete",
  "reconfigure", "destroy", "hasNext", "next", "getCasInstancesRequired", "~"};
const char *howNames[] = {"ok", "error code", "uima::Exception", "std::exception", "bad_alloc", "null"};
std::vector<Event> journal;
int alive = 0;
std::function<Out(int, Call)> decide;
std::function<void(Ann &, AnnotatorContext &)> onInit;
std::function<void(Ann &, CAS &, ResultSpecification const &)> onProcess;
std::function<bool(Ann &)> onHasNext;
std::function<CAS &(Ann &)> onNext;
std::function<int(Ann &)> onCasRequired;
static int nInst;
void reset() {
  journal.clear(); alive = 0; nInst = 0;
  decide = [](int, Call) { return Out(); };
  onInit = nullptr; onProcess = nullptr; onHasNext = nullptr; onNext = nullptr; onCasRequired = nullptr;
}
std::string outText(Out const &o) { return o.how == H_CODE || o.how == H_UIMA ? sim::fmt("%s %ld", howNames[o.how], o.code) : howNames[o.how]; }
Out anyFailure() {
  Out o;
  switch (sim::weighted({4, 4, 2, 1})) {
  case 0: o.how = H_CODE; break;
  case 1: o.how = H_UIMA; break;
  case 2: o.how = H_STD; break;
  default: o.how = H_ALLOC;
  }
  o.code = 5000 + sim::draw(200);
  return o;
}
void raise(Out const &o) {
  if (o.how == H_ALLOC) throw std::bad_alloc();
  if (o.how == H_STD) throw std::runtime_error("simulated annotator failure");
  ErrorInfo ei(ErrorMessage((TyMessageId)UIMA_MSG_ID_NO_MESSAGE_AVAILABLE), (TyErrorId)o.code, ErrorInfo::recoverable);
  throw ExcInvalidRequest(ei);
}
static Out record(int lib, int inst, Call c, Ann *a) {
  Out o = c == C_DTOR ? Out() : decide(lib, c);
  journal.push_back(Event{lib, inst, c, o, a});
  sim::ev("   annotator %d.%d %s: %s", lib, inst, callNames[c], outText(o).c_str());
  if (o.how != H_OK) sim::fault((std::string("annotator_") + callNames[c]).c_str());
  return o;
}
TyErrorId Ann::act(Call c) {
  Out o;
  { sim::Harness h; o = record(lib, inst, c, this); }
  if (o.how == H_OK) return UIMA_ERR_NONE;
  if (o.how == H_CODE) return (TyErrorId)o.code;
  raise(o);
}
Ann::Ann(int l) : lib(l), inst(nInst++) { alive++; }
Ann::~Ann() { sim::Harness h; alive--; record(lib, inst, C_DTOR, this); }
TyErrorId Ann::initialize(AnnotatorContext &c) {
  ctx = &c;
  if (onInit) { sim::Harness h; onInit(*this, c); }
  return act(C_INIT);
}
TyErrorId Ann::typeSystemInit(TypeSystem const &) { return act(C_TSINIT); }
TyErrorId Ann::destroy() { return act(C_DESTROY); }
TyErrorId Ann::reconfigure() { return act(C_RECONF); }
TyErrorId Ann::process(CAS &c, ResultSpecification const &r) {
  if (onProcess) { sim::Harness h; onProcess(*this, c, r); }
  return act(C_PROCESS);
}
TyErrorId Ann::batchProcessComplete() { return act(C_BATCH); }
TyErrorId Ann::collectionProcessComplete() { return act(C_COLL); }
bool Ann::hasNext() {
  { TyErrorId r = act(C_HASNEXT); (void)r; }
  sim::Harness h;
  return onHasNext ? onHasNext(*this) : false;
}
CAS &Ann::next() {
  act(C_NEXT);
  sim::Harness h;
  return onNext(*this);
}
int Ann::getCasInstancesRequired() {
  act(C_CASREQ);
  sim::Harness h;
  return onCasRequired ? onCasRequired(*this) : 0;
}
template <int N> static Annotator *maker() {
  Out o;
  { sim::Harness h; o = record(N, nInst, C_MAKE, nullptr); }
  if (o.how == H_NULL || o.how == H_CODE) return nullptr;
  if (o.how != H_OK) raise(o);
  return new Ann(N);
}
void registerLibs() {
  void *f[] = {(void *)&maker<0>, (void *)&maker<1>, (void *)&maker<2>, (void *)&maker<3>, (void *)&maker<4>, (void *)&maker<5>, (void *)&maker<6>, (void *)&maker<7>};
  for (int i = 0; i < NLIB; i++) sim::dso_register(sim::fmt("simann%d", i).c_str(), "makeAE", f[i]);
}

std::string show(Answer const &a) {
  switch (a.how) {
  case Answer::RET: return sim::fmt("returned %ld", a.id);
  case Answer::UIMA: return sim::fmt("threw uima::Exception %ld", a.id);
  case Answer::STD: return "threw std::exception";
  default: return "threw bad_alloc";
  }
}
Answer call(std::function<long()> f) {
  Answer a;
  try { a.id = sim::sut(f); }
  catch (uima::Exception &e) { a.how = Answer::UIMA; a.id = e.getErrorInfo().getErrorId(); }
  catch (std::bad_alloc &) { a.how = Answer::ALLOC; }
  catch (std::exception &) { a.how = Answer::STD; }
  return a;
}

static std::string between(std::string const &s, const char *a, const char *b) {
  size_t i = s.find(a), j = s.find(b);
  return s.substr(i, j + strlen(b) - i);
}
// one of the ways a descriptor can spell a text: in pieces, some in CDATA sections or taken from the environment,
// with comments and white space around them
static std::string spell(std::string const &t) {
  if (t.empty() || !sim::chance(60)) return t;
  std::string x;
  for (size_t i = 0; i < t.size();) {
    sim::Span sp;
    size_t n = 1 + sim::draw((uint32_t)(t.size() - i));
    std::string piece = t.substr(i, n);
    i += n;
    bool inner = true;                 // a variable's value may be anything, an element's text not
    for (char c : piece) if (c == '<' || c == '&' || c == '>') inner = false;
    switch (inner ? sim::draw(5) : 4) {
    case 0: x += "<![CDATA[" + piece + "]]>"; break;
    case 1: {
      uint32_t h = 2166136261u;
      for (unsigned char c : piece) h = (h ^ c) * 16777619u;
      std::string v = sim::fmt("SIM_%08x", h);
      setenv(v.c_str(), piece.c_str(), 1);
      x += "<envVarRef>" + v + "</envVarRef>";
      break; }
    case 2: x += piece + "<!-- " + t + " -->"; break;
    case 3: for (unsigned char c : piece) if (c < 128) x += sim::fmt("&#%u;", c); else x += (char)c; break;
    default: x += piece;
    }
  }
  return sim::chance(300) ? "\n   " + x + " " : x;
}
std::string xml(Desc const &d, bool top) {
  static const std::string base = w::descriptorXml();
  static const std::string ts = between(base, "<typeSystemDescription>", "</typeSystemDescription>");
  static const std::string prio = between(base, "<typePriorities>", "</typePriorities>");
  static const std::string ix = between(base, "<fsIndexes>", "</fsIndexes>");
  std::string x;
  if (top) x = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
  x += top ? "<analysisEngineDescription xmlns=\"http://uima.apache.org/resourceSpecifier\">" : "<analysisEngineDescription>";
  x += "<frameworkImplementation>org.apache.uima.cpp</frameworkImplementation><primitive>";
  x += d.primitive ? "true</primitive>" : "false</primitive>";
  if (d.primitive) x += sim::fmt("<annotatorImplementationName>simann%d</annotatorImplementationName>", d.lib);
  else {
    x += "<delegateAnalysisEngineSpecifiers>";
    for (auto &e : d.delegates) x += "<delegateAnalysisEngine key=\"" + e.first + "\">" + xml(e.second, false) + "</delegateAnalysisEngine>";
    x += "</delegateAnalysisEngineSpecifiers>";
  }
  x += "<analysisEngineMetaData><name>" + d.name + "</name><description/><version>1</version><vendor/>";
  if (!d.config.empty()) x += d.config;
  else {
  x += "<configurationParameters>";
  for (auto &p : d.params) {
    x += "<configurationParameter><name>" + spell(p.name) + "</name><type>String</type><multiValued>" + (p.multi ? "true" : "false") + "</multiValued><mandatory>false</mandatory>";
    if (!p.restrict_.empty()) {
      x += "<restrictOverrideTo>";
      for (auto &r : p.restrict_) x += r + " ";
      x += "</restrictOverrideTo>";
    }
    x += "</configurationParameter>";
  }
  x += "</configurationParameters><configurationParameterSettings>";
  for (auto &p : d.params) if (p.hasValue) {
    x += "<nameValuePair><name>" + spell(p.name) + "</name><value>";
    if (p.multi) x += "<array>";
    x += "<string>" + spell(p.value) + "</string>";
    if (p.multi) x += "<string>" + spell(p.value + "2") + "</string></array>";
    x += "</value></nameValuePair>";
  }
  x += "</configurationParameterSettings>";
  }
  x += ts + (top ? prio + ix : std::string("<typePriorities/><fsIndexes/>"));
  x += "<capabilities>";
  for (auto &c : d.caps) {
    x += "<capability><inputs/><outputs>";
    for (auto &o : c.outs) x += o.find(':') == std::string::npos ? "<type>" + spell(o) + "</type>" : "<feature>" + spell(o) + "</feature>";
    x += "</outputs>";
    if (!c.inSofas.empty()) { x += "<inputSofas>"; for (auto &s : c.inSofas) x += "<sofaName>" + spell(s) + "</sofaName>"; x += "</inputSofas>"; }
    if (!c.outSofas.empty()) { x += "<outputSofas>"; for (auto &s : c.outSofas) x += "<sofaName>" + spell(s) + "</sofaName>"; x += "</outputSofas>"; }
    x += "<languagesSupported>";
    for (auto &l : c.langs) x += "<language>" + spell(l) + "</language>";
    x += "</languagesSupported></capability>";
  }
  x += "</capabilities>";
  if (!d.primitive) {
    const char *t = d.fixed ? "fixedFlow" : "capabilityLanguageFlow";
    x += sim::fmt("<flowConstraints><%s>", t);
    for (auto &f : d.flow) x += "<node>" + spell(f) + "</node>";
    x += sim::fmt("</%s></flowConstraints>", t);
  }
  x += std::string("<operationalProperties><modifiesCas>true</modifiesCas><multipleDeploymentAllowed>true</multipleDeploymentAllowed><outputsNewCASes>") +
       (d.outputsCases ? "true" : "false") + "</outputsNewCASes></operationalProperties>";
  x += "</analysisEngineMetaData>";
  if (!d.maps.empty()) {
    x += "<sofaMappings>";
    for (auto &m : d.maps) {
      x += "<sofaMapping><componentKey>" + m.key + "</componentKey>";
      if (!m.comp.empty()) x += "<componentSofaName>" + spell(m.comp) + "</componentSofaName>";
      x += "<aggregateSofaName>" + spell(m.agg) + "</aggregateSofaName></sofaMapping>";
    }
    x += "</sofaMappings>";
  }
  return x + "</analysisEngineDescription>";
}

AnalysisEngine *create(Desc const &d, int via, ErrorInfo &ei, Answer &a, std::vector<AnalysisEngineDescription *> *keep) {
  std::string x = xml(d);
  AnalysisEngine *e = nullptr;
  if (via == 0) {
    std::string f = sim::fmt("%s/ae%d.xml", sim::scratch(), sim::self());   // tasks may do this at the same time
    FILE *o = fopen(f.c_str(), "wb");
    fwrite(x.data(), 1, x.size(), o);
    fclose(o);
    a = call([&] { e = Framework::createAnalysisEngine(f.c_str(), ei); return (long)ei.getErrorId(); });
  } else if (via == 1 || !keep) {
    icu::UnicodeString u = w::us(x.c_str());
    a = call([&] { e = Framework::createAnalysisEngine(u.getBuffer(), u.length(), ei); return (long)ei.getErrorId(); });
  } else {
    AnalysisEngineDescription *aed = nullptr;
    if (keep->empty()) {
      sim::sut([&] {
        aed = new AnalysisEngineDescription();
        xercesc::MemBufInputSource mem((XMLByte const *)x.data(), x.size(), "sim");
        XMLParser b;
        b.parseAnalysisEngineDescription(*aed, mem);
        aed->validate();
        aed->commit();
      });
      keep->push_back(aed);
    } else aed = keep->back();
    a = call([&] { e = Framework::createAnalysisEngine(*aed, ei); return (long)ei.getErrorId(); });
  }
  return e;
}
}  // namespace eng
