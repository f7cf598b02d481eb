// E05: descriptors written out. A generated descriptor, spread over files and spelled in one of the ways there are, is
// read and written out again; what is written is read by a reader of our own and must describe the same engine, and the
// framework must understand it the same way. Several tasks do so at once; allocations fail.
#include "cfg.hpp"
#include <algorithm>
#include <sys/stat.h>
#include <functional>
#include <fstream>
#include <memory>
#include <xercesc/dom/DOM.hpp>
#include <xercesc/framework/MemBufInputSource.hpp>
#include <xercesc/parsers/XercesDOMParser.hpp>
#include <xercesc/sax/HandlerBase.hpp>
using namespace uima;
using namespace eng;
using cfg::genText; using cfg::escape;

namespace {
std::string u8(icu::UnicodeString const &u) { std::string s; return u.toUTF8String(s); }
struct Feat { std::string name, desc, range, elem; bool multi = false; };
struct TypeD { std::string name, desc, super; std::vector<Feat> feats; std::vector<std::pair<std::string, std::string>> allowed; };
struct Key { bool prio = false, reverse = false; std::string feat; };
struct Index { std::string label, type, kind; std::vector<Key> keys; };
struct CapD { std::vector<std::string> inT, inF, outT, outF, inS, outS, langs; };
struct Ae {
  std::string root = "analysisEngineDescription", impl, name, desc, version, vendor;
  bool primitive = true, java = false;
  cfg::Cfg config;
  int flow = 0;                         // none, fixed, by capability and language
  std::vector<std::string> nodes;
  std::vector<std::vector<std::string>> prios;
  std::vector<std::string> imports;     // by name
  std::vector<TypeD> types;
  std::vector<Index> indexes;
  std::vector<CapD> caps;
  bool op[3] = {true, true, false};
  std::vector<std::pair<std::string, Ae>> delegates;
  std::vector<SofaMap> maps;
};
// ---- what a description says, as text ---------------------------------------------------
std::string q(std::string const &s) { return "'" + s + "'"; }
std::string q(std::vector<std::string> const &v) { std::string s; for (auto &x : v) s += " " + q(x); return s; }
std::string say(cfg::Param const &p) {
  auto r = p.restrict_; std::sort(r.begin(), r.end());
  return sim::fmt("param %s desc %s type %d multi %d mandatory %d only for%s", q(p.name).c_str(), q(p.desc).c_str(), p.type, p.multi, p.mandatory, q(r).c_str());
}
void say(Ae const &a, std::string const &at, std::vector<std::string> &out) {
  auto put = [&](std::string const &s) { out.push_back(at + s); };
  put("root " + a.root); put("impl " + q(a.impl)); put("name " + q(a.name)); put("description " + q(a.desc)); put("version " + q(a.version)); put("vendor " + q(a.vendor));
  put(sim::fmt("primitive %d java %d", a.primitive, a.java));
  put(sim::fmt("modifiesCas %d multipleDeploymentAllowed %d outputsNewCASes %d", a.op[0], a.op[1], a.op[2]));
  cfg::Cfg const &c = a.config;
  if (c.groups) put(sim::fmt("default group %s strategy %d", q(c.def).c_str(), c.strategy));
  for (auto &p : c.common) put((c.groups ? "common " : "") + say(p));
  for (auto &g : c.list) { put("group " + q(g.name)); for (auto &p : g.params) put("group " + q(g.name) + " " + say(p)); }
  for (auto &g : c.set) for (auto &v : g.second) put("group " + q(g.first) + " " + q(v.first) + " = " + (v.second.vals.empty() ? "[]" : cfg::show(v.second)));
  put(sim::fmt("flow %d", a.flow) + q(a.nodes));
  for (size_t i = 0; i < a.prios.size(); i++) put(sim::fmt("priorities %zu", i) + q(a.prios[i]));
  for (auto &i : a.imports) put("import " + q(i));
  for (auto &t : a.types) {
    std::string h = "type " + q(t.name);
    put(h + " desc " + q(t.desc) + " super " + q(t.super));
    for (size_t i = 0; i < t.feats.size(); i++) { auto &f = t.feats[i]; put(h + sim::fmt(" feature %zu ", i) + q(f.name) + " desc " + q(f.desc) + " range " + q(f.range) + " elements " + q(f.elem) + sim::fmt(" multiple references %d", f.multi)); }
    for (size_t i = 0; i < t.allowed.size(); i++) put(h + sim::fmt(" value %zu ", i) + q(t.allowed[i].first) + " desc " + q(t.allowed[i].second));
  }
  for (size_t i = 0; i < a.indexes.size(); i++) {
    auto &x = a.indexes[i];
    put(sim::fmt("index %zu ", i) + q(x.label) + " type " + q(x.type) + " kind " + x.kind);
    for (size_t k = 0; k < x.keys.size(); k++) put(sim::fmt("index %zu key %zu ", i, k) + (x.keys[k].prio ? std::string("priority") : q(x.keys[k].feat) + sim::fmt(" reverse %d", x.keys[k].reverse)));
  }
  for (size_t i = 0; i < a.caps.size(); i++) {
    auto &x = a.caps[i];
    put(sim::fmt("capability %zu in", i) + q(x.inT) + " /" + q(x.inF) + " /" + q(x.inS));
    put(sim::fmt("capability %zu out", i) + q(x.outT) + " /" + q(x.outF) + " /" + q(x.outS));
    put(sim::fmt("capability %zu languages", i) + q(x.langs));
  }
  for (auto &m : a.maps) put("mapping " + q(m.key) + " " + q(m.comp) + " -> " + q(m.agg));
  for (auto &d : a.delegates) { put("delegate " + q(d.first)); say(d.second, at + "delegate " + q(d.first) + ": ", out); }
}
std::vector<std::string> say(Ae const &a) { std::vector<std::string> v; say(a, "", v); std::sort(v.begin(), v.end()); return v; }
// the first difference
std::string differ(std::vector<std::string> const &want, std::vector<std::string> const &got) {
  for (size_t i = 0; i < std::max(want.size(), got.size()); i++) {
    if (i < want.size() && i < got.size() && want[i] == got[i]) continue;
    return sim::fmt("expected: %s\n      got: %s", i < want.size() ? want[i].c_str() : "(end)", i < got.size() ? got[i].c_str() : "(end)");
  }
  return "";
}
// ---- generated descriptions ---------------------------------------------------------------
std::string some(const char *base) {       // a name; nearly always of a usual kind
  if (!sim::chance(60)) return sim::fmt("%s%u", base, sim::draw(6));
  std::string t = genText(4);
  return t.empty() ? base : t;
}
std::vector<std::string> names(const char *base, uint32_t max) {
  std::vector<std::string> v;
  for (uint32_t n = sim::draw(max + 1); v.size() < n;) { std::string s = some(base); if (std::find(v.begin(), v.end(), s) != v.end()) break; v.push_back(s); }
  return v;
}
Ae genAe(int depth) {
  sim::Span sp;
  Ae a;
  switch (sim::weighted({6, 1, 2})) {
  case 1: a.root = "taeDescription"; break;
  case 2: a.root = "casConsumerDescription"; break;
  default:;
  }
  bool consumer = a.root[0] == 'c';
  a.primitive = consumer || depth >= 2 || sim::chance(depth ? 700 : 400);
  a.java = a.primitive && sim::chance(100);
  if (a.primitive) a.impl = some("lib");
  a.name = genText(8); a.desc = genText(12); a.version = genText(3); a.vendor = genText(3);
  if (!a.primitive) {
    for (uint32_t n = 1 + sim::draw(3), i = 0; i < n; i++) {
      std::string k = some("k");
      bool used = false;
      for (auto &d : a.delegates) used |= d.first == k;
      if (!used) a.delegates.push_back({k, !a.delegates.empty() && sim::chance(150) ? a.delegates.back().second : genAe(depth + 1)});
    }
    a.flow = (int)sim::draw(3);
    if (a.flow) for (auto &d : a.delegates) a.nodes.push_back(d.first);
  }
  if (!consumer) for (uint32_t n = sim::draw(3); n; n--) a.maps.push_back({some("k"), sim::chance(200) ? "" : some("in"), some("agg")});
  std::vector<std::string> keys;
  for (auto &d : a.delegates) if (d.first.find_first_of(" \t\n") == std::string::npos) keys.push_back(d.first);
  a.config = cfg::gen(cfg::genShape(false), keys);
  for (uint32_t n = sim::draw(3); n; n--) a.prios.push_back(names("t.T", 4));
  if (sim::chance(100)) a.imports = names("some.name", 2);
  for (auto &t : names("t.T", 4)) {
    TypeD d; d.name = t; d.desc = genText(5); d.super = sim::chance(700) ? "uima.tcas.Annotation" : some("t.T");
    if (sim::chance(200)) {
      d.super = "uima.cas.String";
      for (auto &v : names("value", 3)) d.allowed.push_back({v, genText(4)});
    } else for (auto &f : names("feat", 3)) {
      Feat x; x.name = f; x.desc = genText(4); x.range = sim::chance(500) ? "uima.cas.FSArray" : some("uima.cas.Integer");
      if (sim::chance(200)) x.elem = some("t.T");
      x.multi = sim::chance(200);
      d.feats.push_back(x);
    }
    a.types.push_back(d);
  }
  for (auto &l : names("index", 3)) {
    Index x; x.label = l; x.type = some("t.T"); x.kind = std::vector<std::string>{"sorted", "bag", "set"}[sim::draw(3)];
    for (uint32_t n = sim::draw(4); n; n--) { Key k; k.prio = sim::chance(200); if (!k.prio) { k.feat = some("feat"); k.reverse = sim::chance(400); } x.keys.push_back(k); }
    a.indexes.push_back(x);
  }
  for (uint32_t n = sim::draw(3); n; n--) {
    CapD c;
    c.inT = names("t.T", 2); c.outT = names("t.T", 3); c.inF = names("t.T:f", 2); c.outF = names("t.T:f", 2);
    c.inS = names("in", 2); c.outS = names("out", 2);
    static const char *ls[] = {"en", "en-US", "de", "x-unspecified"};
    for (auto l : ls) if (sim::chance(300)) c.langs.push_back(l);
    a.caps.push_back(c);
  }
  if (sim::chance(600)) for (bool &b : a.op) b = sim::chance(500);
  return a;
}
// ---- their descriptors --------------------------------------------------------------------
std::string const NS = " xmlns=\"http://uima.apache.org/resourceSpecifier\"";
struct Writer {
  int id; bool spread;
  std::string el(const char *tag, std::string const &text) { return std::string("<") + tag + ">" + (sim::chance(40) ? "\n  " : "") + escape(text) + (sim::chance(40) ? " <!-- x --> " : "") + "</" + tag + ">"; }
  std::string opt(const char *tag, std::string const &text) { return text.empty() && sim::chance(500) ? "" : el(tag, text); }
  const char *yes(bool b) { return b ? "true" : "false"; }
  std::string dir;                      // of the file being written, below the scratch directory
  std::map<std::string, std::string> delegateFiles;   // what a delegate says -> the file that says it
  std::vector<std::string> typeFiles;   // of the type system being written
  // how the file being written names another one
  std::string from(std::string const &path) {
    if (sim::chance(100)) return std::string(sim::scratch()) + "/" + path;
    size_t common = 0;
    for (size_t i = 0; i < dir.size() && i < path.size() && dir[i] == path[i]; i++) if (dir[i] == '/') common = i + 1;
    std::string r;
    for (size_t i = common; i < dir.size(); i++) if (dir[i] == '/') r += "../";
    return r + path.substr(common);
  }
  // writes a file of what gen says when told the file's path
  std::string file(std::function<std::string(std::string const &)> gen) {
    static const char *dirs[] = {"", "", "d0/", "d0/d1/", "d2/"};
    std::string was = dir, n;
    dir = dirs[sim::draw(5)];
    mkdir((std::string(sim::scratch()) + "/d0").c_str(), 0777); mkdir((std::string(sim::scratch()) + "/d0/d1").c_str(), 0777); mkdir((std::string(sim::scratch()) + "/d2").c_str(), 0777);
    static int files;                   // a name is used once: a file in the working directory goes before one beside the importing file
    n = dir + sim::fmt("part%d-%d.xml", id, files++);
    std::string x = gen(n);
    std::ofstream o(std::string(sim::scratch()) + "/" + n, std::ios::binary);
    o << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" << x;
    dir = was;
    return n;
  }
  std::string importOf(std::string const &path) { return "<import location=\"" + from(path) + "\"/>"; }
  // a file with the given types; it may leave some to other files and import what is imported anyway, itself included
  std::string typeFile(std::vector<TypeD> in) {
    return file([&](std::string const &me) {
      typeFiles.push_back(me);
      std::string im;
      if (in.size() > 1 && sim::chance(300)) {
        size_t k = 1 + sim::draw((uint32_t)in.size() - 1);
        im += importOf(typeFile(std::vector<TypeD>(in.begin(), in.begin() + (long)k)));
        in.erase(in.begin(), in.begin() + (long)k);
      }
      if (sim::chance(250)) { im += importOf(sim::pick(typeFiles)); sim::count("types_imported_twice"); }
      return "<typeSystemDescription" + NS + "><name>part</name>" + (im.empty() ? "" : "<imports>" + im + "</imports>") + "<types>" + types(in) + "</types></typeSystemDescription>";
    });
  }
  bool apart() { return spread && sim::chance(300); }
  std::string types(std::vector<TypeD> const &ts) {
    std::string x;
    for (auto &t : ts) {
      x += "<typeDescription>" + el("name", t.name) + opt("description", t.desc) + el("supertypeName", t.super);
      if (!t.feats.empty()) {
        x += "<features>";
        for (auto &f : t.feats) {
          x += "<featureDescription>" + el("name", f.name) + opt("description", f.desc) + el("rangeTypeName", f.range);
          if (!f.elem.empty()) x += el("elementType", f.elem);
          if (f.multi || sim::chance(200)) x += el("multipleReferencesAllowed", yes(f.multi));
          x += "</featureDescription>";
        }
        x += "</features>";
      }
      if (!t.allowed.empty()) {
        x += "<allowedValues>";
        for (auto &v : t.allowed) x += "<value>" + el("string", v.first) + opt("description", v.second) + "</value>";
        x += "</allowedValues>";
      }
      x += "</typeDescription>";
    }
    return x;
  }
  std::string list(const char *tag, std::vector<std::string> const &v) { std::string x; for (auto &s : v) x += el(tag, s); return x; }
  std::string ae(Ae const &a, bool top) {
    bool consumer = a.root[0] == 'c';
    std::string x = "<" + a.root + (top ? NS : "") + ">";
    if (a.java || sim::chance(800)) x += el("frameworkImplementation", a.java ? "org.apache.uima.java" : "org.apache.uima.cpp");
    if (!consumer) x += el("primitive", yes(a.primitive));
    if (a.primitive) x += el(consumer ? "implementationName" : "annotatorImplementationName", a.impl);
    if (!a.delegates.empty()) {
      x += "<delegateAnalysisEngineSpecifiers>";
      for (auto &d : a.delegates) {
        x += "<delegateAnalysisEngine key=\"" + escape(d.first) + "\">";
        if (apart()) {
          std::string what;
          for (auto &l : say(d.second)) what += l + "\n";
          auto known = delegateFiles.find(what);
          if (known != delegateFiles.end()) sim::count("delegates_sharing_a_file");
          else known = delegateFiles.emplace(what, file([&](std::string const &) { return ae(d.second, true); })).first;
          x += importOf(known->second);
        }
        else x += ae(d.second, false);
        x += "</delegateAnalysisEngine>";
      }
      x += "</delegateAnalysisEngineSpecifiers>";
    }
    x += consumer ? "<processingResourceMetaData>" : "<analysisEngineMetaData>";
    x += el("name", a.name) + opt("description", a.desc) + opt("version", a.version) + opt("vendor", a.vendor);
    x += cfg::xml(a.config);
    if (a.flow) x += std::string("<flowConstraints>") + (a.flow == 1 ? "<fixedFlow>" : "<capabilityLanguageFlow>") + list("node", a.nodes) + (a.flow == 1 ? "</fixedFlow>" : "</capabilityLanguageFlow>") + "</flowConstraints>";
    if (!a.prios.empty()) {
      std::string p;
      for (auto &l : a.prios) p += "<priorityList>" + list("type", l) + "</priorityList>";
      if (apart()) p = "<imports>" + importOf(file([&](std::string const &me) { return "<typePriorities" + NS + ">" + p + (sim::chance(150) ? "<imports>" + importOf(me) + "</imports>" : "") + "</typePriorities>"; })) + "</imports>";
      x += "<typePriorities>" + p + "</typePriorities>";
    }
    if (!a.types.empty() || !a.imports.empty() || sim::chance(300)) {
      x += "<typeSystemDescription>";
      std::string im;
      for (auto &n : a.imports) im += "<import name=\"" + escape(n) + "\"/>";
      std::vector<TypeD> in = a.types;
      if (!in.empty() && apart()) {
        size_t k = 1 + sim::draw((uint32_t)in.size());
        typeFiles.clear();
        im += importOf(typeFile(std::vector<TypeD>(in.begin(), in.begin() + (long)k)));
        in.erase(in.begin(), in.begin() + (long)k);
        if (sim::chance(200)) { im += importOf(sim::pick(typeFiles)); sim::count("types_imported_twice"); }
      }
      if (!im.empty()) x += "<imports>" + im + "</imports>";
      if (!in.empty()) x += "<types>" + types(in) + "</types>";
      x += "</typeSystemDescription>";
    }
    if (!a.indexes.empty() || sim::chance(300)) {
      std::string ix;
      for (auto &d : a.indexes) {
        ix += "<fsIndexDescription>" + el("label", d.label) + el("typeName", d.type);
        if (d.kind != "sorted" || sim::chance(800)) ix += el("kind", d.kind);
        if (!d.keys.empty()) {
          ix += "<keys>";
          for (auto &k : d.keys) ix += "<fsIndexKey>" + (k.prio ? std::string("<typePriority/>") : el("featureName", k.feat) + el("comparator", k.reverse ? "reverse" : "standard")) + "</fsIndexKey>";
          ix += "</keys>";
        }
        ix += "</fsIndexDescription>";
      }
      if (!a.indexes.empty() && apart()) ix = "<imports>" + importOf(file([&](std::string const &me) { return "<fsIndexCollection" + NS + "><name>part</name>" + (sim::chance(150) ? "<imports>" + importOf(me) + "</imports>" : "") + "<fsIndexes>" + ix + "</fsIndexes></fsIndexCollection>"; })) + "</imports>";
      else ix = "<fsIndexes>" + ix + "</fsIndexes>";
      x += "<fsIndexCollection>" + ix + "</fsIndexCollection>";
    }
    if (!a.caps.empty() || sim::chance(300)) {
      x += "<capabilities>";
      for (auto &c : a.caps) {
        x += "<capability><inputs>" + list("type", c.inT) + list("feature", c.inF) + "</inputs><outputs>" + list("type", c.outT) + list("feature", c.outF) + "</outputs>";
        if (!c.inS.empty()) x += "<inputSofas>" + list("sofaName", c.inS) + "</inputSofas>";
        if (!c.outS.empty()) x += "<outputSofas>" + list("sofaName", c.outS) + "</outputSofas>";
        x += "<languagesSupported>" + list("language", c.langs) + "</languagesSupported></capability>";
      }
      x += "</capabilities>";
    }
    static const char *ops[] = {"modifiesCas", "multipleDeploymentAllowed", "outputsNewCASes"};
    if (!(a.op[0] && a.op[1] && !a.op[2]) || sim::chance(500)) {
      x += "<operationalProperties>";
      for (int i = 0; i < 3; i++) x += el(ops[i], yes(a.op[i]));
      x += "</operationalProperties>";
    }
    x += consumer ? "</processingResourceMetaData>" : "</analysisEngineMetaData>";
    if (!a.maps.empty()) {
      x += "<sofaMappings>";
      for (auto &m : a.maps) x += "<sofaMapping>" + el("componentKey", m.key) + (m.comp.empty() ? "" : el("componentSofaName", m.comp)) + el("aggregateSofaName", m.agg) + "</sofaMapping>";
      x += "</sofaMappings>";
    }
    return x + "</" + a.root + ">";
  }
};
// ---- our own reader -----------------------------------------------------------------------
namespace xe = xercesc;
std::string utf(XMLCh const *s) {
  icu::UnicodeString u;
  for (; s && *s; s++) u.append((UChar)*s);
  return u8(u);
}
typedef xe::DOMElement El;
std::string tag(El *e) { return utf(e->getTagName()); }
std::string attr(El *e, const char *n) { XMLCh *x = xe::XMLString::transcode(n); std::string s = utf(e->getAttribute(x)); xe::XMLString::release(&x); return s; }
std::string trim(std::string s) {
  size_t b = s.find_first_not_of(" \t\r\n"), e = s.find_last_not_of(" \t\r\n");
  return b == std::string::npos ? "" : s.substr(b, e - b + 1);
}
std::string text(El *e) { return e ? trim(utf(e->getTextContent())) : ""; }
std::vector<El *> kids(El *e, const char *t = nullptr) {
  std::vector<El *> v;
  if (e) for (El *c = e->getFirstElementChild(); c; c = c->getNextElementSibling()) if (!t || tag(c) == t) v.push_back(c);
  return v;
}
El *kid(El *e, const char *t) { auto v = kids(e, t); if (v.size() > 1) sim::fail("element-twice", "the written descriptor has %zu elements %s", v.size(), t); return v.empty() ? nullptr : v[0]; }
bool boolean(El *e, bool dflt) { std::string s = text(e); return s.empty() ? dflt : s == "true" || s == "1"; }
std::vector<std::string> texts(El *e, const char *t) { std::vector<std::string> v; for (auto c : kids(e, t)) v.push_back(text(c)); return v; }
std::vector<std::string> words(std::string const &s) {
  std::vector<std::string> v;
  for (size_t i = 0; i < s.size();) {
    size_t b = s.find_first_not_of(" \t\r\n", i);
    if (b == std::string::npos) break;
    size_t e = s.find_first_of(" \t\r\n", b);
    if (e == std::string::npos) e = s.size();
    v.push_back(s.substr(b, e - b));
    i = e;
  }
  return v;
}
cfg::Type typeOf(std::string const &s) {
  if (s == "String" || s == "string") return cfg::STRING;
  if (s == "Integer" || s == "integer") return cfg::INTEGER;
  if (s == "Float" || s == "float") return cfg::FLOAT;
  if (s == "Boolean" || s == "boolean") return cfg::BOOLEAN;
  sim::fail("unknown-type", "the written descriptor has a parameter of type '%s'", s.c_str());
}
std::vector<cfg::Param> params(El *e) {
  std::vector<cfg::Param> v;
  for (auto c : kids(e, "configurationParameter")) {
    cfg::Param p;
    p.name = text(kid(c, "name")); p.desc = text(kid(c, "description")); p.type = typeOf(text(kid(c, "type")));
    p.multi = boolean(kid(c, "multiValued"), false); p.mandatory = boolean(kid(c, "mandatory"), false);
    p.restrict_ = words(text(kid(c, "restrictOverrideTo")));
    v.push_back(p);
  }
  return v;
}
std::map<std::string, cfg::Value> values(El *e) {
  std::map<std::string, cfg::Value> m;
  for (auto c : kids(e, "nameValuePair")) {
    cfg::Value v;
    El *val = kid(c, "value"), *arr = kid(val, "array");
    v.multi = arr != nullptr;
    for (auto x : kids(arr ? arr : val)) {
      v.type = typeOf(tag(x));
      std::string t = text(x);
      if (v.type == cfg::INTEGER) t = sim::fmt("%ld", strtol(t.c_str(), nullptr, 10));
      if (v.type == cfg::FLOAT) t = sim::fmt("%.9g", strtof(t.c_str(), nullptr));
      if (v.type == cfg::BOOLEAN) t = t == "true" || t == "1" ? "true" : "false";
      v.vals.push_back(t);
    }
    std::string n = text(kid(c, "name"));
    if (m.count(n)) sim::fail("setting-twice", "the written descriptor sets parameter '%s' twice", n.c_str());
    m[n] = v;
  }
  return m;
}
Ae read(El *e) {
  Ae a;
  a.root = tag(e);
  bool consumer = a.root == "casConsumerDescription";
  a.java = text(kid(e, "frameworkImplementation")) == "org.apache.uima.java";
  a.primitive = consumer || boolean(kid(e, "primitive"), false);
  a.impl = text(kid(e, consumer ? "implementationName" : "annotatorImplementationName"));
  for (auto d : kids(kid(e, "delegateAnalysisEngineSpecifiers"), "delegateAnalysisEngine")) {
    auto in = kids(d);
    if (in.size() != 1) sim::fail("delegate-incomplete", "the written descriptor has a delegate with %zu elements", in.size());
    a.delegates.push_back({attr(d, "key"), read(in[0])});
  }
  El *md = kid(e, consumer ? "processingResourceMetaData" : "analysisEngineMetaData");
  a.name = text(kid(md, "name")); a.desc = text(kid(md, "description")); a.version = text(kid(md, "version")); a.vendor = text(kid(md, "vendor"));
  El *cp = kid(md, "configurationParameters"), *cs = kid(md, "configurationParameterSettings");
  cfg::Cfg &c = a.config;
  c.groups = !kids(cp, "configurationGroup").empty() || kid(cp, "commonParameters") || (cp && !attr(cp, "defaultGroup").empty());
  if (!c.groups) { c.common = params(cp); c.set[""] = values(cs); }
  else {
    c.def = attr(cp, "defaultGroup");
    std::string st = attr(cp, "searchStrategy");
    c.strategy = st == "default_fallback" ? 1 : st == "language_fallback" ? 2 : 0;
    c.common = params(kid(cp, "commonParameters"));
    for (auto g : kids(cp, "configurationGroup")) for (auto &n : words(attr(g, "names"))) c.list.push_back({n, params(g)});
    for (auto g : kids(cs, "settingsForGroup")) for (auto &n : words(attr(g, "name"))) for (auto &v : values(g)) c.set[n][v.first] = v.second;
  }
  if (El *f = kid(md, "flowConstraints")) {
    for (auto k : kids(f)) { a.flow = tag(k) == "fixedFlow" ? 1 : 2; a.nodes = texts(k, "node"); }
  }
  for (auto l : kids(kid(md, "typePriorities"), "priorityList")) a.prios.push_back(texts(l, "type"));
  El *ts = kid(md, "typeSystemDescription");
  for (auto i : kids(kid(ts, "imports"), "import")) a.imports.push_back(attr(i, "location").empty() ? attr(i, "name") : "location " + attr(i, "location"));
  for (auto t : kids(kid(ts, "types"), "typeDescription")) {
    TypeD d;
    d.name = text(kid(t, "name")); d.desc = text(kid(t, "description")); d.super = text(kid(t, "supertypeName"));
    for (auto f : kids(kid(t, "features"), "featureDescription")) {
      Feat x;
      x.name = text(kid(f, "name")); x.desc = text(kid(f, "description")); x.range = text(kid(f, "rangeTypeName")); x.elem = text(kid(f, "elementType"));
      x.multi = boolean(kid(f, "multipleReferencesAllowed"), false);
      d.feats.push_back(x);
    }
    for (auto v : kids(kid(t, "allowedValues"), "value")) d.allowed.push_back({text(kid(v, "string")), text(kid(v, "description"))});
    a.types.push_back(d);
  }
  El *ic = kid(md, "fsIndexCollection");
  if (!kids(kid(ic, "imports")).empty()) sim::fail("import-left", "the written descriptor still imports indexes");
  for (auto i : kids(kid(ic, "fsIndexes"), "fsIndexDescription")) {
    Index x;
    x.label = text(kid(i, "label")); x.type = text(kid(i, "typeName")); x.kind = text(kid(i, "kind"));
    if (x.kind.empty()) x.kind = "sorted";
    for (auto k : kids(kid(i, "keys"), "fsIndexKey")) {
      Key y;
      y.prio = kid(k, "typePriority") != nullptr;
      if (!y.prio) { y.feat = text(kid(k, "featureName")); y.reverse = text(kid(k, "comparator")) == "reverse"; }
      x.keys.push_back(y);
    }
    a.indexes.push_back(x);
  }
  for (auto k : kids(kid(md, "capabilities"), "capability")) {
    CapD x;
    x.inT = texts(kid(k, "inputs"), "type"); x.inF = texts(kid(k, "inputs"), "feature");
    x.outT = texts(kid(k, "outputs"), "type"); x.outF = texts(kid(k, "outputs"), "feature");
    x.inS = texts(kid(k, "inputSofas"), "sofaName"); x.outS = texts(kid(k, "outputSofas"), "sofaName");
    x.langs = texts(kid(k, "languagesSupported"), "language");
    a.caps.push_back(x);
  }
  if (El *o = kid(md, "operationalProperties")) {
    a.op[0] = boolean(kid(o, "modifiesCas"), true); a.op[1] = boolean(kid(o, "multipleDeploymentAllowed"), true); a.op[2] = boolean(kid(o, "outputsNewCASes"), false);
  }
  for (auto m : kids(kid(e, "sofaMappings"), "sofaMapping")) a.maps.push_back({text(kid(m, "componentKey")), text(kid(m, "componentSofaName")), text(kid(m, "aggregateSofaName"))});
  return a;
}
Ae readText(std::string const &x, const char *what) {
  xe::XercesDOMParser p;
  xe::HandlerBase h;                    // throws on fatal errors
  p.setErrorHandler(&h);
  try {
    xe::MemBufInputSource in((XMLByte const *)x.data(), x.size(), "written");
    p.parse(in);
  } catch (xe::SAXException &e) {
    sim::fail("not-well-formed", "%s is no XML document: %s\n%s", what, utf(e.getMessage()).c_str(), x.c_str());
  } catch (xe::XMLException &e) {
    sim::fail("not-well-formed", "%s is no XML document: %s\n%s", what, utf(e.getMessage()).c_str(), x.c_str());
  }
  return read(p.getDocument()->getDocumentElement());
}
cfg::Cfg cfgOf(std::string const &x) { return readText(x, "the written descriptor").config; }
// ---- the runs --------------------------------------------------------------------------------
std::unique_ptr<AnalysisEngineDescription> parse(std::string const &x, int via, std::string const &file, const char *what) {
  std::unique_ptr<AnalysisEngineDescription> d;
  if (via == 0) { std::ofstream o(file, std::ios::binary); o << x; }
  try {
    sim::sut([&] {
      d.reset(new AnalysisEngineDescription());
      XMLParser b;
      if (via == 0) b.parseAnalysisEngineDescription(*d, icu::UnicodeString::fromUTF8(file));
      else { xe::MemBufInputSource mem((XMLByte const *)x.data(), x.size(), "sim"); b.parseAnalysisEngineDescription(*d, mem); }
    });
  } catch (uima::Exception &e) {
    sim::fail("descriptor-refused", "%s is not understood: %s\n%s", what, w::excText(e).c_str(), x.c_str());
  }
  return d;
}
std::string write(AnalysisEngineDescription const &d, bool faults, bool *failed) {
  icu::UnicodeString u;
  *failed = false;
  if (faults) sim::alloc_arm(sim::skewed(60), sim::draw(2));
  try { sim::sut([&] { d.toXMLBuffer(u); }); }
  catch (std::bad_alloc &) { *failed = true; }
  catch (uima::Exception &) { if (!faults) throw; *failed = true; }
  sim::alloc_disarm();
  return u8(u);
}
void one(int id, bool faults) {
  while (sim::more(3)) {
    sim::Span sp;
    Ae a = genAe(0);
    std::vector<std::string> want = say(a);
    Writer wr{id};
    wr.spread = sim::chance(500);
    std::string x = wr.ae(a, true);
    int via = wr.spread ? 0 : (int)sim::draw(2);
    if (differ(want, say(a)) != "") sim::harness_error("the description changed");
    auto d = parse(x, via, sim::fmt("%s/ae%d.xml", sim::scratch(), id), "a valid descriptor");
    bool failed;
    std::string y = write(*d, faults, &failed);
    if (failed) { sim::fault("writing_out_of_memory"); y = write(*d, false, &failed); }
    sim::ev("wrote %zu bytes", y.size());
    sim::count("descriptors written");
    std::string diff = differ(want, say(readText(y, "the written descriptor")));
    if (!diff.empty()) sim::fail("written-differs", "the written descriptor does not say what the one read said\n%s\n%s", diff.c_str(), y.c_str());
    // the framework understands what it has written
    auto d2 = parse(y, 1, "", "a written descriptor");
    std::string z = write(*d2, false, &failed);
    diff = differ(want, say(readText(z, "the descriptor written again")));
    if (!diff.empty()) sim::fail("rewritten-differs", "a written descriptor is understood differently\n%s\n%s", diff.c_str(), y.c_str());
    // so does what a service tells of itself
    if (a.root[0] != 'c' && a.primitive) {
      icu::UnicodeString u;
      sim::sut([&] { d2->toXMLBuffer(*d2->getAnalysisEngineMetaData(), false, u); });
      Ae m = a;
      m.root = "ae"; m.impl = ""; m.primitive = false; m.java = false; m.maps.clear();
      diff = differ(say(m), say(readText("<ae>" + u8(u) + "</ae>", "the metadata")));
      if (!diff.empty()) sim::fail("metadata-differs", "the metadata does not say what the descriptor said\n%s", diff.c_str());
      sim::count("metadata written");
    }
    sim::sut([&] { d.reset(); d2.reset(); });
    if (want.size() > 25) sim::nontrivial();
    sim::yield();
  }
}
}  // namespace
namespace cfg {
Cfg readBack(std::string const &xml) { return cfgOf(xml); }
}

SIM_SCENARIO(E05, write, 1) {
  uint32_t n = 1 + sim::draw(3);
  bool faults = n == 1 && sim::chance(400);
  if (n == 1) { one(0, faults); return; }
  sim::set_preemption(100 + sim::draw(10) * 100, 50 + 50 * sim::draw(8));
  std::vector<int> ids;
  for (uint32_t i = 0; i < n; i++) ids.push_back(sim::spawn("user", [i] { one((int)i, false); }));
  for (int id : ids) sim::join(id);
}
