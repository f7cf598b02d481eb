// C08, descriptors: an analysis engine description or a type system description is altered, or ends early. Parsing it
// must succeed or be reported as documented; afterwards the undamaged description makes an engine that works.
#include "eng.hpp"
#include "../cas/damage.hpp"
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
#include <xercesc/framework/MemBufInputSource.hpp>
#include <xercesc/sax/SAXException.hpp>
#include <xercesc/util/OutOfMemoryException.hpp>
using namespace uima;
using namespace eng;

namespace {
const char *LANGS[] = {"en", "en-US", "de", "x-unspecified"};
Desc genDesc(int depth) {
  Desc d;
  d.name = sim::fmt("engine %u", sim::draw(100));
  d.primitive = depth > 1 || sim::chance(550);
  d.lib = (int)sim::draw(NLIB);
  for (auto p : {"P0", "P1", "P2"}) if (sim::chance(500)) {
    Param q; q.name = p; q.hasValue = sim::chance(700); q.value = sim::fmt("value %u", sim::draw(1000)); q.multi = sim::chance(200);
    d.params.push_back(q);
  }
  Cap c;
  for (auto l : LANGS) if (sim::chance(500)) c.langs.push_back(l);
  c.outs.push_back(sim::chance(500) ? "ent.Tok" : "ent.Tok:s");
  if (sim::chance(200)) { c.inSofas.push_back("in"); c.outSofas.push_back("out"); }
  d.caps.push_back(c);
  if (!d.primitive) {
    for (uint32_t i = 0; i < 1 + sim::draw(3); i++) {
      std::string k = std::string("k") + char('a' + i);
      d.delegates.push_back({k, genDesc(depth + 1)});
      d.flow.push_back(k);
      if (!d.delegates.back().second.caps[0].inSofas.empty()) d.maps.push_back({k, "in", "aggIn"});
    }
    d.fixed = sim::chance(600);
  }
  return d;
}
// makes an engine; the text of the refusal if it is refused
AnalysisEngine *make(std::string const &x, int via, std::string &why, AnalysisEngineDescription *&keep) {
  AnalysisEngine *e = nullptr;
  ErrorInfo ei;
  Answer a;
  std::string f = sim::fmt("%s/ae.xml", sim::scratch());
  if (via == 0) { std::ofstream o(f, std::ios::binary); o.write(x.data(), (std::streamsize)x.size()); }
  icu::UnicodeString u = icu::UnicodeString::fromUTF8(x);
  try {
    sim::sut([&] {
      if (via == 0) e = Framework::createAnalysisEngine(f.c_str(), ei);
      else if (via == 1) e = Framework::createAnalysisEngine(u.getBuffer(), (size_t)u.length(), ei);
      else {
        AnalysisEngineDescription *d = keep = new AnalysisEngineDescription();
        xercesc::MemBufInputSource mem((XMLByte const *)x.data(), x.size(), "sim");
        XMLParser b;
        b.parseAnalysisEngineDescription(*d, mem);
        d->validate();
        d->commit();
        e = Framework::createAnalysisEngine(*d, ei);
      }
    });
  } catch (uima::Exception &x2) {
    if (via != 2) sim::fail("undocumented-exception", "creating an engine threw instead of returning the error: %s", w::excText(x2).c_str());
    why = w::excText(x2); return nullptr;
  } catch (std::bad_alloc &) { why = "bad_alloc"; return nullptr;
  } catch (std::exception &x2) { sim::fail("undocumented-exception", "a damaged descriptor is reported by an undocumented exception: %s", x2.what());
  } catch (xercesc::SAXException &) { sim::fail("undocumented-exception", "a damaged descriptor is reported by a SAXException");
  } catch (xercesc::XMLException &) { sim::fail("undocumented-exception", "a damaged descriptor is reported by an XMLException"); }
  if (!e) {
    if (ei.getErrorId() == UIMA_ERR_NONE) sim::fail("unreported", "no engine was made from a damaged descriptor and no error is reported");
    why = sim::sut([&] { return ei.asString(); });
    for (size_t p = 0; (p = why.find("/TMP", p)) != std::string::npos; p++) why.replace(p + 4, std::min<size_t>(6, why.size() - p - 4), "*");
  }
  return e;
}
// ---- descriptors spread over several files ------------------------------------------
struct File { std::string name, data; };
std::string const HEAD = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", NS = " xmlns=\"http://uima.apache.org/resourceSpecifier\"";
// the end of the element whose start tag begins at b
size_t endOf(std::string const &x, size_t b, std::string const &tag) {
  int n = 0;
  std::string o = "<" + tag, c = "</" + tag + ">";
  for (size_t i = b; i < x.size();) {
    if (!x.compare(i, c.size(), c)) { i += c.size(); if (--n == 0) return i; }
    else if (!x.compare(i, o.size(), o) && (x[i + o.size()] == '>' || x[i + o.size()] == ' ')) { n++; i += o.size(); }
    else i++;
  }
  sim::harness_error("unbalanced %s", tag.c_str());
}
std::string fileName(std::vector<File> &files) {
  static const char *ext[] = {"", "", "", " b", "-\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9"};
  return sim::fmt("imp%zu%s.xml", files.size(), ext[sim::draw(5)]);
}
std::string import(std::string const &f) { return "<import location=\"" + f + "\"/>"; }
// moves parts of a descriptor to files of their own; they are imported instead
void spread(std::string &x, std::vector<File> &files) {
  for (size_t p = 0; (p = x.find("<delegateAnalysisEngine key=", p)) != std::string::npos;) {
    size_t b = x.find('>', p) + 1, e = endOf(x, b, "analysisEngineDescription");
    p = b;
    if (!sim::chance(500)) { p = e; continue; }
    std::string part = x.substr(b, e - b);
    part.insert(strlen("<analysisEngineDescription"), NS);
    files.push_back({fileName(files), ""});
    size_t me = files.size() - 1;
    spread(part, files);
    files[me].data = HEAD + part;
    x.replace(b, e - b, import(files[me].name));
  }
  struct { const char *tag, *outer; } const parts[] = {{"typeSystemDescription", ""}, {"typePriorities", ""}, {"fsIndexes", "fsIndexCollection"}};
  for (auto &q : parts) {
    std::string o = std::string("<") + q.tag + ">", t = *q.outer ? q.outer : q.tag;
    size_t b = x.find(o);
    if (b == std::string::npos || !sim::chance(400)) continue;
    size_t e = endOf(x, b, q.tag);
    std::string part = x.substr(b, e - b);
    if (*q.outer) part = "<" + t + NS + ">" + part + "</" + t + ">";
    else part.insert(1 + strlen(q.tag), NS);
    files.push_back({fileName(files), HEAD + part});
    x.replace(b, e - b, "<" + t + "><imports>" + import(files.back().name) + "</imports></" + t + ">");
  }
}
void store(std::vector<File> const &files) {
  for (auto &f : files) {
    std::string n = std::string(sim::scratch()) + "/" + f.name;
    rmdir(n.c_str());
    std::ofstream o(n, std::ios::binary | std::ios::trunc);
    o.write(f.data.data(), (std::streamsize)f.data.size());
  }
}
// what an engine does
std::vector<std::string> use(AnalysisEngine *e) {
  std::vector<std::string> r;
  Answer a;
  CAS *cas = nullptr;
  try { cas = sim::sut([&] { return e->newCAS(); }); }
  catch (uima::Exception &x) { r.push_back("newCAS: " + w::excText(x)); }
  if (cas) {
    icu::UnicodeString text = w::us("some text here");
    for (auto l : {"en", "de"}) {
      try {
        sim::sut([&] { cas->setDocumentText(UnicodeStringRef(text)); cas->getDocumentAnnotation().setLanguage(Language(l)); });
        a = call([&] { return (long)e->process(*cas); });
        r.push_back(sim::fmt("process %s: %s", l, show(a).c_str()));
        sim::sut([&] { cas->reset(); });
      } catch (uima::Exception &x) { r.push_back("refused: " + w::excText(x)); }
    }
    sim::sut([&] { delete cas->getBaseCas(); });
  }
  a = call([&] { return (long)e->collectionProcessComplete(); });
  r.push_back("collection: " + show(a));
  a = call([&] { return (long)e->destroy(); });
  r.push_back("destroy: " + show(a));
  sim::sut([&] { delete e; });
  return r;
}
std::vector<std::string> calls(size_t from) {
  std::vector<std::string> r;
  for (size_t i = from; i < journal.size(); i++) r.push_back(sim::fmt("lib %d %s", journal[i].lib, callNames[journal[i].call]));
  return r;
}
std::vector<std::string> good(std::string const &x, int via) {
  std::string why;
  AnalysisEngineDescription *keep = nullptr;
  size_t from = journal.size();
  AnalysisEngine *e = make(x, via, why, keep);
  if (!e) sim::fail("undamaged-refused", "the undamaged descriptor is refused: %s", why.substr(0, 600).c_str());
  std::vector<std::string> r = use(e);
  if (keep) sim::sut([&] { delete keep; });
  auto c = calls(from);
  r.insert(r.end(), c.begin(), c.end());
  return r;
}
}  // namespace

SIM_SCENARIO(C08, descriptor, 4) {
  sim::memory_cap = 192 << 20;
  sim::set_step_budget(60000000);
  sim::expect_hang("reading a damaged descriptor");
  registerLibs();
  reset();
  Desc d = genDesc(0);
  std::string x = xml(d);
  std::vector<std::string> want = good(x, (int)sim::draw(3));
  std::vector<File> files;
  if (sim::chance(500)) {
    spread(x, files);
    store(files);
    if (!files.empty()) {
      sim::count("probe.descriptor_with_imports");
      auto got = good(x, (int)sim::draw(3));
      w::expectSame("imports", want, got, "the engine made from a descriptor that imports its parts");
    }
  }
  uint32_t rounds = 1 + sim::draw(4);
  for (uint32_t r = 0; r < rounds; r++) {
    sim::Span sp;
    std::string bad = x, why;
    w::Feed f;
    size_t which = sim::draw((uint32_t)files.size() + 1);   // 0: the descriptor, else an imported file
    std::string part = which ? files[which - 1].data : x;
    std::string what;
    if (!files.empty() && sim::chance(200)) {               // an import of another file, perhaps of itself
      std::vector<size_t> at;
      for (size_t p = 0; (p = part.find("<import location=\"", p)) != std::string::npos; p++) at.push_back(p + strlen("<import location=\""));
      if (!at.empty()) {
        size_t p = sim::pick(at);
        std::string to = sim::chance(800) ? sim::pick(files).name : sim::chance(500) ? "ae.xml" : "\xc3\xa9\xe2\x82\xac nowhere";
        what = part.substr(p, part.find('"', p) - p) + " imported as " + to;
        part.replace(p, part.find('"', p) - p, to);
        sim::fault("input_altered");
      }
    }
    if (what.empty()) what = dmg::damage(part, f);
    if (f.failAt >= 0) f.cut = f.failAt;
    if (f.cut >= 0) part.resize(std::min(part.size(), (size_t)f.cut));
    int via = (int)sim::draw(3);
    if (which) {
      std::string n = std::string(sim::scratch()) + "/" + files[which - 1].name;
      store({{files[which - 1].name, part}});
      if (sim::chance(60)) { unlink(n.c_str()); what = "is missing"; sim::fault("file_missing"); if (sim::chance(300)) { mkdir(n.c_str(), 0700); what = "is a directory"; } }
      what = files[which - 1].name + " " + what;
    } else bad = part;
    if (sim::verbose() && which) sim::note("%s:\n%s", files[which - 1].name.c_str(), part.c_str());
    sim::ev("descriptor damaged by: %s; via %d", what.c_str(), via);
    if (sim::verbose()) sim::note("%s", bad.c_str());
    AnalysisEngineDescription *keep = nullptr;
    AnalysisEngine *e = make(bad, via, why, keep);
    sim::nontrivial();
    sim::count(e ? "probe.damaged_accepted" : "probe.damaged_refused");
    if (e) for (auto &l : use(e)) sim::ev("  %s", l.substr(0, 300).c_str());
    else sim::ev("-> %s", why.substr(0, 300).c_str());
    if (keep) sim::sut([&] { delete keep; });
    if (which) store({files[which - 1]});
    if (alive) sim::fail("leftover", "%d annotator objects are left after a damaged descriptor", alive);
    if (sim::chance(500) || r + 1 == rounds) {
      auto got = good(x, (int)sim::draw(3));
      w::expectSame("after-damage", want, got, "the engine made from the undamaged descriptor after a damaged one");
    }
  }
}
namespace {
// what the types described are like, or "-" and why there are none
std::string parse(std::string const &s, int via, bool oom = false) {
  TypeSystem *t = nullptr;
  TypeSystemDescription *td = nullptr;
  ErrorInfo ei;
  std::string f = sim::fmt("%s/ts.xml", sim::scratch()), out;
  if (via == 0 || via == 3) { std::ofstream o(f, std::ios::binary); o.write(s.data(), (std::streamsize)s.size()); }
  icu::UnicodeString u = icu::UnicodeString::fromUTF8(s);
  try {
    sim::sut([&] {
      switch (via) {
      case 0: t = Framework::createTypeSystem(f.c_str(), ei); break;
      case 1: t = Framework::createTypeSystem(u.getBuffer(), (size_t)u.length(), ei); break;
      case 2: t = Framework::createTypeSystemFromXMLBuffer(s.c_str(), ei); break;
      case 3: td = Framework::createTypeSystemDescription(f.c_str()); break;
      case 4: td = Framework::createTypeSystemDescription(u.getBuffer(), (size_t)u.length()); break;
      }
      if (td) t = Framework::createTypeSystem(*td, icu::UnicodeString("sim"), ei);
      if (t) {
        std::vector<Type> all;
        t->getAllTypes(all);
        std::set<std::string> names;
        for (auto &ty : all) {
          std::vector<Feature> fs;
          ty.getAppropriateFeatures(fs);
          std::string l = ty.getName().asUTF8();
          for (auto &g : fs) { Type r; g.getRangeType(r); l += " " + g.getName().asUTF8() + ":" + (r.isValid() ? r.getName().asUTF8() : "?"); }
          names.insert(l);
        }
        for (auto &n : names) out += n + "\n";
        CAS *cas = Framework::createCAS(*t, ei);
        if (cas) { if (!oom) cas->setDocumentText(UnicodeStringRef(u)); delete cas->getBaseCas(); }
        if (!cas) { out.clear(); delete t; t = nullptr; }
      }
      if (td) delete td;
    });
  } catch (uima::Exception &e) { return "-" + w::excText(e);
  } catch (std::bad_alloc &) { return "-bad_alloc";
  } catch (xercesc::OutOfMemoryException &) { return "-OutOfMemoryException";
  } catch (std::exception &e) { sim::fail("undocumented-exception", "a damaged type system is reported by an undocumented exception: %s", e.what());
  } catch (xercesc::SAXException &) { if (oom) return "-SAXException"; sim::fail("undocumented-exception", "a damaged type system is reported by a SAXException");
  } catch (xercesc::XMLException &) { if (oom) return "-XMLException"; sim::fail("undocumented-exception", "a damaged type system is reported by an XMLException"); }
  if (!t) return sim::sut([&] { return "-" + ei.asString(); });
  return out;
  }
std::string types() {
  std::string x = w::descriptorXml();
  size_t b = x.find("<typeSystemDescription"), en = x.find("</typeSystemDescription>");
  if (b == std::string::npos || en == std::string::npos) sim::harness_error("no type system in the descriptor");
  return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>" + x.substr(b, en - b) + "</typeSystemDescription>";
}
}  // namespace
SIM_SCENARIO(C08, typesystem, 2) {
  sim::memory_cap = 192 << 20;
  sim::set_step_budget(60000000);
  sim::expect_hang("reading a damaged type system");
  std::string ts = types();
  std::string want = parse(ts, (int)sim::draw(5));
  if (want[0] == '-') sim::fail("undamaged-refused", "the undamaged type system is refused: %s", want.c_str());
  for (uint32_t r = 1 + sim::draw(4); r; r--) {
    sim::Span sp;
    std::string bad = ts;
    w::Feed f;
    std::string what = dmg::damage(bad, f);
    if (f.failAt >= 0) f.cut = f.failAt;
    if (f.cut >= 0) bad.resize(std::min(bad.size(), (size_t)f.cut));
    int via = (int)sim::draw(5);
    sim::ev("type system damaged by: %s; via %d", what.c_str(), via);
    if (sim::verbose()) sim::note("%s", bad.c_str());
    std::string got = parse(bad, via);
    sim::nontrivial();
    sim::count(got[0] == '-' ? "probe.damaged_refused" : "probe.damaged_accepted");
    sim::ev("-> %s", got.substr(0, 300).c_str());
    std::string again = parse(ts, (int)sim::draw(5));
    if (again != want) sim::fail("after-damage", "the undamaged type system reads differently after a damaged one");
  }
}

// C04: allocations fail while an engine is made and used. What fails says so, and what comes later works as ever.
namespace {
struct Faulty { bool ok = false, fired = false; std::string why; };
Faulty faulty(const char *what, std::function<bool(std::string &)> f) {
  Faulty r;
  uint32_t k = sim::weighted({2, 3, 3, 2, 1});
  int64_t nth = k == 0 ? 0 : k == 1 ? sim::draw(8) : k == 2 ? sim::draw(100) : k == 3 ? sim::draw(2000) : sim::draw(20000);
  int64_t burst = sim::chance(700) ? 1 : 1 + sim::draw(1000);
  sim::alloc_arm(nth, burst);
  try { r.ok = sim::sut([&] { return f(r.why); }); }
  catch (uima::Exception &) { r.why = "a uima exception"; }
  catch (std::bad_alloc &) { r.why = "bad_alloc"; }
  catch (std::exception &) { r.why = "a std exception"; }
  catch (xercesc::OutOfMemoryException &) { r.why = "OutOfMemoryException"; }
  catch (xercesc::XMLException &) { r.why = "XMLException"; }
  catch (xercesc::SAXException &) { r.why = "SAXException"; }
  r.fired = sim::alloc_disarm();
  sim::ev("%s with allocation %d failing (burst %d): fired %d, %s %s", what, (int)nth, (int)burst, (int)r.fired, r.ok ? "done" : "failed:", r.why.c_str());
  if (r.fired) { sim::nontrivial(); sim::fault("engine_out_of_memory"); }
  if (r.fired) sim::count(r.ok ? "allocation failures survived" : "allocation failures reported");
  if (!r.ok && !r.fired) sim::fail("refused-without-fault", "%s failed although no allocation did: %s", what, r.why.c_str());
  if (!r.ok && r.why.empty()) sim::fail("unreported", "%s failed with an allocation and reports no error", what);
  return r;
}
void document(CAS *cas, const char *l) {
  icu::UnicodeString text = w::us("some text here");
  sim::sut([&] { cas->setDocumentText(UnicodeStringRef(text)); cas->getDocumentAnnotation().setLanguage(Language(l)); });
}
void shortOfMemory(std::string const &x, int via) {
  AnalysisEngine *e = nullptr;
  AnalysisEngineDescription *keep = nullptr;
  ErrorInfo ei;
  std::string f = sim::fmt("%s/ae.xml", sim::scratch());
  if (via == 0) { std::ofstream o(f, std::ios::binary); o.write(x.data(), (std::streamsize)x.size()); }
  icu::UnicodeString u = icu::UnicodeString::fromUTF8(x);
  Faulty r = faulty("creating an engine", [&](std::string &why) {
    if (via == 0) e = Framework::createAnalysisEngine(f.c_str(), ei);
    else if (via == 1) e = Framework::createAnalysisEngine(u.getBuffer(), (size_t)u.length(), ei);
    else {
      keep = new AnalysisEngineDescription();
      xercesc::MemBufInputSource mem((XMLByte const *)x.data(), x.size(), "sim");
      XMLParser b;
      b.parseAnalysisEngineDescription(*keep, mem);
      keep->validate();
      keep->commit();
      e = Framework::createAnalysisEngine(*keep, ei);
    }
    if (!e && ei.getErrorId() != UIMA_ERR_NONE) why = sim::fmt("error %d", (int)ei.getErrorId());
    return e != nullptr;
  });
  if (e) {
    CAS *cas = nullptr;
    if (!faulty("newCAS", [&](std::string &) { cas = e->newCAS(); return cas != nullptr; }).ok) cas = sim::sut([&] { return e->newCAS(); });
    uint32_t n = 1 + sim::draw(3);
    for (uint32_t i = 0; i < n; i++) {
      sim::Span sp;
      const char *l = sim::chance(500) ? "en" : "de";
      document(cas, l);
      Faulty p = faulty("process", [&](std::string &why) { TyErrorId id = e->process(*cas); if (id) why = sim::fmt("returned %d", (int)id); return id == 0; });
      sim::sut([&] { cas->reset(); });
      if (p.ok || sim::chance(500)) continue;
      document(cas, l);
      Answer a = call([&] { return (long)e->process(*cas); });
      if (a.how != Answer::RET || a.id != 0) sim::fail("engine-spoiled", "process() with memory after one without: %s", show(a).c_str());
      sim::sut([&] { cas->reset(); });
    }
    if (sim::chance(400)) faulty("reconfigure", [&](std::string &why) { TyErrorId id = e->reconfigure(); if (id) why = sim::fmt("returned %d", (int)id); return id == 0; });
    faulty("collectionProcessComplete", [&](std::string &why) { TyErrorId id = e->collectionProcessComplete(); if (id) why = sim::fmt("returned %d", (int)id); return id == 0; });
    sim::sut([&] { delete cas->getBaseCas(); });
    if (sim::chance(600)) { Answer a = call([&] { return (long)e->destroy(); }); if (a.how != Answer::RET || a.id != 0) sim::fail("engine-spoiled", "destroy() %s", show(a).c_str()); }
    sim::sut([&] { delete e; });
  }
  if (keep) sim::sut([&] { delete keep; });
}
}  // namespace
SIM_SCENARIO(C04, engine, 2) {
  registerLibs();
  reset();
  std::string x = xml(genDesc(0));
  std::vector<File> files;
  if (sim::chance(300)) spread(x, files);
  store(files);
  int via = files.empty() ? (int)sim::draw(3) : 0;
  std::vector<std::string> want = good(x, via);
  while (sim::more(3)) { sim::Span sp; shortOfMemory(x, via); }
  std::vector<std::string> got = good(x, via);
  if (want != got) {
    std::string s;
    for (size_t i = 0; i < std::max(want.size(), got.size()) && s.empty(); i++)
      if (i >= want.size() || i >= got.size() || want[i] != got[i]) s = (i < want.size() ? want[i] : "(end)") + " / " + (i < got.size() ? got[i] : "(end)");
    sim::fail("not-recovered", "an engine made after others ran out of memory behaves differently: %s", s.c_str());
  }
}
SIM_SCENARIO(C04, define, 1) {
  std::string ts = types();
  std::string want = parse(ts, (int)sim::draw(5));
  if (want[0] == '-') sim::fail("undamaged-refused", "the type system is refused: %s", want.c_str());
  while (sim::more(3)) {
    sim::Span sp;
    int via = (int)sim::draw(5);
    std::string got;
    Faulty r = faulty("creating a type system and a CAS", [&](std::string &why) { got = parse(ts, via, true); why = got[0] == '-' ? got : ""; return got[0] != '-'; });
    if (r.ok && got != want) sim::fail("incomplete", "a type system made while memory was short lacks something: %s", got.c_str());
    got = parse(ts, (int)sim::draw(5));
    if (got != want) sim::fail("not-recovered", "a type system made after others ran out of memory differs: %s", got.c_str());
  }
}
