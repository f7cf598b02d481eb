// engines for the demonstrations: descriptors, and an annotator whose calls arrive in g_hook
#pragma once
#include <functional>
#include <string>
#include <vector>
#include <utility>
namespace uima { class AnnotatorContext; class CAS; class ResultSpecification; }
struct Call { std::string name, call; uima::AnnotatorContext *ctx; uima::CAS *cas; uima::ResultSpecification const *spec; };
extern std::function<int(Call const &)> g_hook;
extern uima::CAS *g_next;
#ifdef DEMO_ENGINE
std::function<int(Call const &)> g_hook = [](Call const &) { return 0; };
uima::CAS *g_next = nullptr;
struct E { std::string name, caps, params, settings, ts, sofas, ix; bool agg = false, fixed = true; std::vector<std::pair<std::string, std::string>> parts; std::vector<std::string> flow; bool multiplier = false; };
static std::string cap(std::vector<std::string> outs, std::vector<std::string> langs, std::string in = "", std::string out = "") {
  std::string x = "<capability><inputs/><outputs>";
  for (auto &o : outs) x += o.find(':') == std::string::npos ? "<type>" + o + "</type>" : "<feature>" + o + "</feature>";
  x += "</outputs>";
  if (in != "") x += "<inputSofas><sofaName>" + in + "</sofaName></inputSofas>";
  if (out != "") x += "<outputSofas><sofaName>" + out + "</sofaName></outputSofas>";
  x += "<languagesSupported>";
  for (auto &l : langs) x += "<language>" + l + "</language>";
  return x + "</languagesSupported></capability>";
}
static std::string param(std::string n, std::string extra = "") { return "<configurationParameter><name>" + n + "</name><type>String</type><multiValued>false</multiValued><mandatory>false</mandatory>" + extra + "</configurationParameter>"; }
static std::string setting(std::string n, std::string v) { return "<nameValuePair><name>" + n + "</name><value><string>" + v + "</string></value></nameValuePair>"; }
static std::string mapping(std::string key, std::string agg, std::string comp = "") {
  return "<sofaMapping><componentKey>" + key + "</componentKey>" + (comp != "" ? "<componentSofaName>" + comp + "</componentSofaName>" : "") + "<aggregateSofaName>" + agg + "</aggregateSofaName></sofaMapping>";
}
static std::string xml(E const &e, bool top = true) {
  std::string x = top ? "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<analysisEngineDescription xmlns=\"http://uima.apache.org/resourceSpecifier\">" : "<analysisEngineDescription>";
  x += std::string("<frameworkImplementation>org.apache.uima.cpp</frameworkImplementation><primitive>") + (e.agg ? "false" : "true") + "</primitive>";
  if (e.agg) {
    x += "<delegateAnalysisEngineSpecifiers>";
    for (auto &p : e.parts) x += "<delegateAnalysisEngine key=\"" + p.first + "\">" + p.second + "</delegateAnalysisEngine>";
    x += "</delegateAnalysisEngineSpecifiers>";
  } else x += "<annotatorImplementationName>ann</annotatorImplementationName>";
  x += "<analysisEngineMetaData><name>" + e.name + "</name><description/><version>1</version><vendor/><configurationParameters>" + e.params + "</configurationParameters><configurationParameterSettings>" + e.settings +
       "</configurationParameterSettings><typeSystemDescription><types>" + e.ts + "</types></typeSystemDescription><typePriorities/><fsIndexes>" + e.ix + "</fsIndexes><capabilities>" + e.caps + "</capabilities>";
  if (e.agg) {
    const char *t = e.fixed ? "fixedFlow" : "capabilityLanguageFlow";
    x += std::string("<flowConstraints><") + t + ">";
    for (auto &f : e.flow) x += "<node>" + f + "</node>";
    x += std::string("</") + t + "></flowConstraints>";
  }
  x += std::string("<operationalProperties><modifiesCas>true</modifiesCas><multipleDeploymentAllowed>true</multipleDeploymentAllowed><outputsNewCASes>") + (e.multiplier ? "true" : "false") + "</outputsNewCASes></operationalProperties></analysisEngineMetaData>";
  if (e.sofas != "") x += "<sofaMappings>" + e.sofas + "</sofaMappings>";
  return x + "</analysisEngineDescription>";
}
static uima::AnalysisEngine *engine(E const &e, uima::ErrorInfo *out = nullptr) {
  static bool init = (uima::ResourceManager::createInstance("demo"), true); (void)init;
  icu::UnicodeString u = icu::UnicodeString::fromUTF8(xml(e));
  uima::ErrorInfo ei;
  uima::AnalysisEngine *a = uima::Framework::createAnalysisEngine(u.getBuffer(), u.length(), ei);
  if (out) *out = ei;
  else if (!a) printf("no engine: %ld %s\n", (long)ei.getErrorId(), ei.asString().c_str());
  return a;
}
#endif
