// shared by the demonstrations: a CAS with a few types and indexes, and CHECK
#pragma once
#include "uima/api.hpp"
#include "uima/internal_casimpl.hpp"
#include "uima/casdefinition.hpp"
#include "uima/taespecifierbuilder.hpp"
#include "uima/fsfilterbuilder.hpp"
#include "xercesc/framework/MemBufInputSource.hpp"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <sstream>
#include <vector>
#include <set>
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); fflush(stdout); _exit(1); } } while (0)
using namespace uima;
typedef icu::UnicodeString U;
static std::string feat(const char *n, const char *r, bool mra = false) {
  return std::string("<featureDescription><name>") + n + "</name><description/><rangeTypeName>" + r + "</rangeTypeName>" +
         (mra ? "<multipleReferencesAllowed>true</multipleReferencesAllowed>" : "") + "</featureDescription>";
}
static std::string type(const char *n, const char *s, std::string f = "") {
  return std::string("<typeDescription><name>") + n + "</name><description/><supertypeName>" + s + "</supertypeName><features>" + f + "</features></typeDescription>";
}
static std::string index(const char *l, const char *t, const char *k, std::vector<std::string> keys) {
  std::string x = std::string("<fsIndexDescription><label>") + l + "</label><typeName>" + t + "</typeName><kind>" + k + "</kind><keys>";
  for (auto &s : keys) {
    bool rev = s[0] == '-';
    x += "<fsIndexKey><featureName>" + s.substr(rev) + "</featureName><comparator>" + (rev ? "reverse" : "standard") + "</comparator></fsIndexKey>";
  }
  return x + "</keys></fsIndexDescription>";
}
static std::string descriptor(std::string types, std::string indexes, std::string extra = "") {
  return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<analysisEngineDescription xmlns=\"http://uima.apache.org/resourceSpecifier\">"
    "<frameworkImplementation>org.apache.uima.cpp</frameworkImplementation><primitive>true</primitive>"
    "<annotatorImplementationName>none</annotatorImplementationName><analysisEngineMetaData><name>demo</name><description/><version>1</version><vendor/>"
    "<configurationParameters/><configurationParameterSettings/><typeSystemDescription><types>" + types +
    "</types></typeSystemDescription>" + extra + "<fsIndexes>" + indexes + "</fsIndexes><capabilities/></analysisEngineMetaData></analysisEngineDescription>";
}
static internal::CASDefinition *casDef(std::string const &x) {
  static bool init = (ResourceManager::createInstance("demo"), true); (void)init;
  auto *aed = new AnalysisEngineDescription();
  xercesc::MemBufInputSource mem((XMLByte const *)x.data(), x.size(), "demo");
  XMLParser b; b.parseAnalysisEngineDescription(*aed, mem);
  return internal::CASDefinition::createCASDefinition(*aed);
}
static CAS *newCas(internal::CASDefinition *d, size_t a = 5000, size_t b = 5000, size_t c = 5000) {
  return (new internal::CASImpl(*d, a, b, c))->CAS::getView("_InitialView");
}
static U us(const char *s) { return U::fromUTF8(s); }
static Type ty(CAS *c, const char *n) { return c->getTypeSystem().getType(us(n)); }
static Feature ft(CAS *c, const char *t, const char *f) { return ty(c, t).getFeatureByBaseName(us(f)); }
