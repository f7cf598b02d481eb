// R01: several threads, each with its own engines, descriptors, type systems and CASes. Every thread runs a script
// drawn beforehand, whose choices come from generators of its own; the same scripts then run one after the other,
// and every observation must be the same.
#include "eng.hpp"
#include "../cas/program.hpp"
#include "uima/resmgr.hpp"
#include "uima/caspool.hpp"
#include "uima/sofastream.hpp"
#include "uima/unistrref.hpp"
#include "uima/xmltypesystemreader.hpp"
#include "uima/xmltypesystemwriter.hpp"
#include <sstream>
#include <xercesc/framework/MemBufInputSource.hpp>
using namespace uima;
using namespace eng;

namespace {
struct Ctx {                         // one thread of the scripts
  int id = 0;
  std::vector<std::string> log;
  uint32_t failPm = 0;               // of the current operation's annotators
  size_t opAt = 0;
  int calls = 0;
  void out(std::string const &s) { log.push_back(s); }
};
std::vector<Ctx *> *byTask;          // by simulator task
Ctx &mine() { return *(*byTask)[(size_t)sim::self()]; }

struct Op { int kind; uint64_t seed; };
const char *kindName[] = {"engine", "cas", "program", "broken descriptor", "type system", "pool", "streams", "text"};

// ---- annotators ---------------------------------------------------------------------
void annotate(Ann &a, CAS &cas, ResultSpecification const &) {
  Ctx &c = mine();
  std::string r = sim::fmt("lib %d process:", a.lib);
  r += sim::sut([&] {
    std::string s;
    if (!cas.isView()) return std::string(" base");
    UnicodeStringRef t = cas.getDocumentText();
    s += " " + w::show(w::toStr(t));
    for (auto p : {"P0", "P1", "P2"}) {
      icu::UnicodeString v;
      if (a.ctx->isParameterDefined(w::us(p)) && a.ctx->extractValue(w::us(p), v) == UIMA_ERR_NONE) s += std::string(" ") + p + "=" + w::show(w::toStr(UnicodeStringRef(v)));
    }
    Type tok = cas.getTypeSystem().getType(w::us(a.lib & 1 ? "ent.Tok" : "ent.SubTok"));
    if (!cas.getSofa().isValid()) return s + " no text";
    for (int i = 0; i < 3; i++) {
      int b = i * 2 % (t.length() + 1), e = std::min((int)t.length(), b + 3);
      AnnotationFS f = cas.createAnnotation(tok, (size_t)b, (size_t)e);
      cas.getIndexRepository().addFS(f);
    }
    ANIndex ix = cas.getAnnotationIndex(tok);
    size_t n = 0;
    ANIterator it = ix.iterator();
    for (it.moveToFirst(); it.isValid(); it.moveToNext()) {
      AnnotationFS f = it.get();
      s += sim::fmt(" [%zu,%zu)", (size_t)f.getBeginPosition(), (size_t)f.getEndPosition());
      if (++n > 40) break;
    }
    a.ctx->getLogger().logMessage("annotated");
    return s;
  });
  c.out(r);
}
Out plan(int lib, Call call) {
  Ctx &c = mine();
  c.calls++;
  Out o;
  if (call != C_DESTROY && sim::chance(c.failPm)) o = anyFailure();
  if (call == C_MAKE && o.how == H_CODE) o.how = H_STD;
  c.out(sim::fmt("lib %d %s: %s", lib, callNames[call], outText(o).c_str()));
  return o;
}

// ---- descriptions ---------------------------------------------------------------------
const char *LANGS[] = {"en", "en-US", "de", "x-unspecified"};
Desc genDesc(int depth) {
  Desc d;
  d.name = sim::fmt("engine %u", sim::draw(100));
  d.primitive = depth > 1 || sim::chance(550);
  d.lib = (int)sim::draw(NLIB);
  for (auto p : {"P0", "P1", "P2"}) if (sim::chance(500)) {
    Param q; q.name = p; q.hasValue = sim::chance(700); q.value = sim::fmt("value %u", sim::draw(1000)); q.multi = sim::chance(200);
    d.params.push_back(q);
  }
  Cap c;
  for (auto l : LANGS) if (sim::chance(500)) c.langs.push_back(l);
  c.outs.push_back(sim::chance(500) ? "ent.Tok" : "ent.Tok:s");
  d.caps.push_back(c);
  if (!d.primitive) {
    for (uint32_t i = 0; i < 1 + sim::draw(3); i++) {
      std::string k = std::string("k") + char('a' + i);
      d.delegates.push_back({k, genDesc(depth + 1)});
      d.flow.push_back(k);
    }
    d.fixed = sim::chance(600);
  }
  return d;
}
std::string errText(ErrorInfo const &ei) {
  std::string s = sim::sut([&] { return ei.asString(); });
  for (size_t p = 0; (p = s.find("/TMP", p)) != std::string::npos; p++) s.replace(p + 4, std::min<size_t>(6, s.size() - p - 4), "*");
  return s.size() > 300 ? s.substr(0, 1200) : s;
}
AnalysisEngine *make(Ctx &c, std::string const &x, ErrorInfo &ei, AnalysisEngineDescription *&keep) {
  AnalysisEngine *e = nullptr;
  int via = (int)sim::draw(3);
  Answer a;
  if (via == 0) {
    std::string f = sim::fmt("%s/ae%d.xml", sim::scratch(), c.id);
    FILE *o = fopen(f.c_str(), "wb");
    fwrite(x.data(), 1, x.size(), o);
    fclose(o);
    a = call([&] { e = Framework::createAnalysisEngine(f.c_str(), ei); return (long)ei.getErrorId(); });
  } else if (via == 1) {
    icu::UnicodeString u = icu::UnicodeString::fromUTF8(x);
    a = call([&] { e = Framework::createAnalysisEngine(u.getBuffer(), (size_t)u.length(), ei); return (long)ei.getErrorId(); });
  } else {
    a = call([&] {
      AnalysisEngineDescription *d = keep = new AnalysisEngineDescription();
      xercesc::MemBufInputSource mem((XMLByte const *)x.data(), x.size(), "sim");
      XMLParser b;
      b.parseAnalysisEngineDescription(*d, mem);
      d->validate();
      d->commit();
      e = Framework::createAnalysisEngine(*d, ei);
      return (long)ei.getErrorId(); });
  }
  c.out(sim::fmt("create: %s, %s %s", show(a).c_str(), e ? "made" : "not made", e ? "" : errText(ei).c_str()));
  return e;
}
void dumpTo(Ctx &c, CAS *cas) { for (auto &l : w::dump(cas)) c.out(l); }
std::string bytes(std::string const &s) { return sim::fmt("%zu bytes #%llx", s.size(), (unsigned long long)sim::hash_bytes(s.data(), s.size())); }

internal::CASDefinition *define(std::string const &x, AnalysisEngineDescription *&aed) {
  aed = new AnalysisEngineDescription();
  xercesc::MemBufInputSource mem((XMLByte const *)x.data(), x.size(), "sim");
  XMLParser b;
  b.parseAnalysisEngineDescription(*aed, mem);
  return internal::CASDefinition::createCASDefinition(*aed);
}

// ---- operations -----------------------------------------------------------------------
void engineOp(Ctx &c) {
  Desc d = genDesc(0);
  c.failPm = sim::chance(300) ? 60 : 0;
  ErrorInfo ei;
  AnalysisEngineDescription *keep = nullptr;
  AnalysisEngine *e = make(c, xml(d), ei, keep);
  if (e) {
    {
      AnnotatorContext &x = e->getAnnotatorContext();
      std::string s;
      s = sim::sut([&] { return UnicodeStringRef(x.getTaeSpecifier().getAnalysisEngineMetaData()->getName()).asUTF8(); });
      c.out("name " + s);
    }
    CAS *cas = sim::sut([&] { return e->newCAS(); });
    for (uint32_t k = 1 + sim::draw(3); k; k--) {
      w::Domain dom; dom.xmlSafe = true;
      w::Str t = w::genStr(dom);
      sim::sut([&] { cas->setDocumentText(w::sref(t)); });
      if (sim::chance(600)) sim::sut([&] { cas->getDocumentAnnotation().setLanguage(Language(LANGS[sim::draw(3)])); });
      ei.reset();
      Answer a = call([&] { return (long)e->process(*cas); });
      c.out("process: " + show(a));
      dumpTo(c, cas);
      if (sim::chance(300)) c.out("xmi " + bytes(w::toXmi(cas)));
      if (sim::chance(300)) { std::string x = w::toXcas(cas); c.out("xcas " + (x.size() < 2000 ? x : bytes(x))); }
      sim::sut([&] { cas->reset(); });
      if (sim::chance(250)) {
        icu::UnicodeString v = w::us("assigned");
        a = call([&] { e->getAnnotatorContext().assignValue(w::us("P0"), v); return 0l; });
        c.out("assign: " + show(a));
        a = call([&] { return (long)e->reconfigure(); });
        c.out("reconfigure: " + show(a));
      }
      if (sim::chance(150)) { a = call([&] { return (long)e->batchProcessComplete(); }); c.out("batch: " + show(a)); }
      if (sim::chance(150)) { a = call([&] { return (long)e->collectionProcessComplete(); }); c.out("collection: " + show(a)); }
    }
    sim::sut([&] { delete cas->getBaseCas(); });
    c.failPm = 0;
    Answer a = call([&] { return (long)e->destroy(); });
    c.out("destroy: " + show(a));
    sim::sut([&] { delete e; });
  }
  if (keep) sim::sut([&] { delete keep; });
}
void casOp(Ctx &c) {
  AnalysisEngineDescription *aed = nullptr;
  internal::CASDefinition *def = sim::sut([&] { return define(w::descriptorXml(), aed); });
  auto fresh = [&] { return sim::sut([&] { CAS *b = new internal::CASImpl(*def, 2000, 2000, 2000); return b->CAS::getInitialView(); }); };
  CAS *cas = fresh();
  {
    w::World W; W.dom.xmlSafe = true;
    W.attach(cas);
    W.populate(sim::skewed(10), true);
    W.checkMembers("content-differs");
    dumpTo(c, cas);
  }
  for (int f = 0; f < 3; f++) {
    if (!sim::chance(500)) continue;
    std::string b = f == 0 ? w::toXmi(cas) : f == 1 ? w::toXcas(cas) : w::toBlob(cas);
    CAS *to = fresh();
    std::string e = f == 0 ? w::fromXmi(b, to) : f == 1 ? w::fromXcas(b, to) : w::fromBlob(b, to);
    c.out(sim::fmt("format %d: %s %s", f, f == 2 ? "blob" : bytes(b).c_str(), e.c_str()));
    dumpTo(c, to);
    sim::sut([&] { delete to->getBaseCas(); });
  }
  if (sim::chance(300)) {                    // input that ends early
    std::string b = sim::chance(500) ? w::toXmi(cas) : w::toXcas(cas);
    w::Feed f; f.cut = sim::draw((uint32_t)b.size());
    CAS *to = fresh();
    c.out("cut: " + (b.find("xmi:XMI") != std::string::npos ? w::fromXmi(b, to, f) : w::fromXcas(b, to, f)));
    sim::sut([&] { delete to->getBaseCas(); });
  }
  sim::sut([&] { delete cas->getBaseCas(); delete def; delete aed; });
}
void programOp(Ctx &c) {
  AnalysisEngineDescription *aed = nullptr;
  internal::CASDefinition *def = sim::sut([&] { return define(w::descriptorXml(), aed); });
  CAS *cas = sim::sut([&] { CAS *b = new internal::CASImpl(*def, 2000, 2000, 2000); return b->CAS::getInitialView(); });
  {
    w::Program p(cas);
    p.run(8);
    for (auto &l : p.log) c.out(l);
    sim::sut([&] { cas->reset(); });
    w::Program q(cas);
    q.run(4);
    for (auto &l : q.log) c.out(l);
  }
  sim::sut([&] { delete cas->getBaseCas(); delete def; delete aed; });
}
void brokenOp(Ctx &c) {
  Desc d = genDesc(1);
  std::string x = xml(d);
  switch (sim::draw(6)) {
  case 0: x.resize(sim::draw((uint32_t)x.size())); break;
  case 1: { size_t p = x.find("ent.Tok"); if (p != std::string::npos) x.replace(p, 7, "no.such.Type"); break; }
  case 2: { size_t p = x.find("<multiValued>"); if (p != std::string::npos) x.replace(p, 13, "<multiValude>"); break; }
  case 3: { size_t p = x.find("simann"); if (p != std::string::npos) x.replace(p, 7, sim::fmt("nosuchlibrary%u", sim::draw(4))); break; }
  case 4: { size_t p = x.find("uima.tcas.Annotation"); if (p != std::string::npos) x.replace(p, 20, "uima.cas.Unknown"); break; }
  default: { size_t p = x.find("<supertypeName>"); if (p != std::string::npos) x.insert(p, sim::fmt("<odd%u/>", sim::draw(100))); }
  }
  ErrorInfo ei;
  AnalysisEngineDescription *keep = nullptr;
  AnalysisEngine *e = make(c, x, ei, keep);
  if (e) sim::sut([&] { delete e; });
  if (keep) sim::sut([&] { delete keep; });
}
void typesOp(Ctx &c) {
  std::string all = w::descriptorXml();
  size_t i = all.find("<types>"), j = all.find("</types>");
  std::string t = "<?xml version=\"1.0\" encoding=\"UTF-8\"?><typeSystemDescription xmlns=\"http://uima.apache.org/resourceSpecifier\"><name>ts</name>" +
                  all.substr(i, j - i) + sim::fmt("<typeDescription><name>my.Type%u</name><description/><supertypeName>ent.Tok</supertypeName></typeDescription>", sim::draw(1000)) + "</types></typeSystemDescription>";
  TypeSystem *ts = nullptr;
  TypeSystemDescription *tsd = nullptr;
  ErrorInfo ei;
  std::string f = sim::fmt("%s/ts%d.xml", sim::scratch(), c.id);
  int via = (int)sim::draw(5);
  icu::UnicodeString u = icu::UnicodeString::fromUTF8(t);
  if (via == 1 || via == 4) { FILE *o = fopen(f.c_str(), "wb"); fwrite(t.data(), 1, t.size(), o); fclose(o); }
  std::string e = w::guarded("create a type system", [&] {
    if (via == 0) ts = Framework::createTypeSystemFromXMLBuffer(t.c_str(), ei);
    else if (via == 1) ts = Framework::createTypeSystem(f.c_str(), ei);
    else if (via == 2) ts = Framework::createTypeSystem(u.getBuffer(), (size_t)u.length(), ei);
    else {
      tsd = via == 3 ? Framework::createTypeSystemDescription(u.getBuffer(), (size_t)u.length()) : Framework::createTypeSystemDescription(f.c_str());
      ts = Framework::createTypeSystem(*tsd, w::us("creator"), ei);
    }
  });
  c.out(sim::fmt("type system: %s %s", ts ? "made" : "not made", e.c_str()));
  if (ts) {
    c.out(sim::sut([&] {
      std::string s;
      std::vector<Type> v;
      ts->getAllTypes(v);
      for (auto &y : v) {
        s += " " + UnicodeStringRef(y.getName()).asUTF8();
        std::vector<Feature> fs;
        y.getAppropriateFeatures(fs);
        s += sim::fmt("(%zu)", fs.size());
      }
      return s; }));
    CAS *cas = sim::sut([&] { return Framework::createCAS(*ts, ei); });
    w::Str text = u"some text of a document";
    c.out(sim::sut([&] {
      cas->setDocumentText(w::sref(text));
      AnnotationFS a = cas->createAnnotation(ts->getType(w::us("ent.Tok")), 0, 4);
      cas->getIndexRepository().addFS(a);
      return a.getCoveredText().asUTF8() + sim::fmt(" %zu", (size_t)cas->getAnnotationIndex().getSize()); }));
    c.out("xmi " + bytes(w::toXmi(cas)));
    std::string tx = sim::sut([&] { std::ostringstream o; XMLTypeSystemWriter x(*cas); x.write(o); return o.str(); });
    c.out("as XML " + bytes(tx));
    tx = "<?xml version=\"1.0\"?><type_system><type name=\"uima.cas.TOP\">";
    for (uint32_t k = 1 + sim::draw(20), i = 0; i < k; i++) {
      tx += sim::fmt("<type name=\"x.Type%u\">", i);
      for (uint32_t f = sim::draw(4); f; f--) tx += sim::fmt("<feature name=\"f%u\" range=\"x.Type%u\" multirefs=\"%s\"/>", f, sim::draw(k + 1), sim::draw(2) ? "true" : "false");
      tx += "</type>";
    }
    tx += "</type></type_system>";
    internal::CASDefinition *def = sim::sut([&] { return new internal::CASDefinition(nullptr); });
    lowlevel::TypeSystem &lts = def->getTypeSystem();
    std::string re; c.out("read: " + (re = w::guarded("read the type system", [&] { def->init(); XMLTypeSystemReader r(lts); r.readMemory(tx.c_str(), w::us("creator")); def->commit(); })));
    sim::ev("%s", re.c_str());
    if (re.empty()) c.out(sim::sut([&] {
      std::string s;
      std::vector<lowlevel::TyFSType> v;
      lts.getAllTypes(v);
      for (auto y : v) {
        std::vector<lowlevel::TyFSFeature> fs;
        lts.getAppropriateFeatures(y, fs);
        s += " " + UnicodeStringRef(lts.getTypeName(y)).asUTF8() + sim::fmt("(%zu)", fs.size());
      }
      return s; }));
    sim::sut([&] { delete def; });
    sim::sut([&] { delete cas->getBaseCas(); });
    sim::sut([&] { delete ts; });
  }
  if (tsd) sim::sut([&] { delete tsd; });
}
void poolOp(Ctx &c) {
  std::string x = xml(genDesc(2));
  AnalysisEngineDescription *aed = nullptr;
  sim::sut([&] {
    aed = new AnalysisEngineDescription();
    xercesc::MemBufInputSource mem((XMLByte const *)x.data(), x.size(), "sim");
    XMLParser b;
    b.parseAnalysisEngineDescription(*aed, mem);
    aed->validate();
    aed->commit();
  });
  CASPool *p = sim::sut([&] { return new CASPool(*aed, 1 + sim::draw(2)); });
  std::vector<CAS *> lent;
  while (sim::more(6)) {
    if (lent.empty() || sim::chance(500)) {
      CAS *k = nullptr;
      std::string e = w::guarded("getCAS", [&] { k = &p->getCAS(); });
      c.out("getCAS " + e);
      if (!k) continue;
      lent.push_back(k);
      w::Domain dom; w::Str t = w::genStr(dom);
      sim::sut([&] { k->setDocumentText(w::sref(t)); });
      dumpTo(c, k);
    } else {
      CAS *k = lent.back();
      lent.pop_back();
      dumpTo(c, k);
      c.out("releaseCAS " + w::guarded("releaseCAS", [&] { p->releaseCAS(*k); }));
    }
  }
  for (auto k : lent) c.out("releaseCAS " + w::guarded("releaseCAS", [&] { p->releaseCAS(*k); }));
  sim::sut([&] { delete p; delete aed; });
}
void streamOp(Ctx &c) {
  AnalysisEngineDescription *aed = nullptr;
  internal::CASDefinition *def = sim::sut([&] { return define(w::descriptorXml(), aed); });
  CAS *cas = sim::sut([&] { CAS *b = new internal::CASImpl(*def, 2000, 2000, 2000); return b->CAS::getInitialView(); });
  w::Domain dom;
  for (int i = 0; i < 3; i++) {
    w::Str t = w::genStr(dom);
    SofaFS s = sim::sut([&] { SofaID id; id.setSofaId(w::us(w::viewNames[i])); SofaFS f = cas->createSofa(id, "text"); f.setLocalSofaData(w::sref(t)); return f; });
    std::string e = w::guarded("stream", [&] {
      SofaDataStream *d = s.getSofaDataStream();
      if (!d) return;
      d->open();
      char b[7];
      int n;
      while ((n = (int)d->read(b, 1, sizeof b)) > 0) { sim::Harness h; c.out(sim::fmt("got %d #%llx", n, (unsigned long long)sim::hash_bytes(b, (size_t)n))); }
      d->close();
      delete d;
    });
    c.out("stream " + e);
  }
  sim::sut([&] { delete cas->getBaseCas(); delete def; delete aed; });
}
void textOp(Ctx &c) {
  w::Domain dom;
  for (int i = 0; i < 3; i++) {
    w::Str t = w::genStr(dom);
    UnicodeStringRef r = w::sref(t);
    c.out(sim::sut([&] {
      std::string s = r.asUTF8(), o;
      r.extract(o, "ISO-8859-1");
      std::string u;
      r.extractUTF8(u);
      return sim::fmt("%zu %zu %zu %llx", s.size(), o.size(), u.size(), (unsigned long long)sim::hash_bytes((s + o + u).data(), (s + o + u).size())); }));
    static const char *ls[] = {"en", "en-US", "de", "pt-BR", "x-unspecified", "zz", "zh-TW"};
    Language a(ls[sim::draw(7)]), b(ls[sim::draw(7)]);
    c.out(sim::sut([&] { return sim::fmt("%s %s %d %d", a.asString().c_str(), b.asString().c_str(), a.matches(b), a == b); }));
  }
  ErrorInfo ei;
  sim::sut([&] {
    ErrorMessage m(UIMA_MSG_ID_EXC_UNKNOWN_TYPE_NAME, sim::fmt("some.Type%u", sim::draw(1000)).c_str());
    ei.setErrorId(UIMA_ERR_CONFIG_FILE_NOT_FOUND);
    ei.setMessage(m);
  });
  c.out(errText(ei));
}
void (*ops[])(Ctx &) = {engineOp, casOp, programOp, brokenOp, typesOp, poolOp, streamOp, textOp};

void runScript(Ctx &c, std::vector<Op> const &s) {
  for (auto &o : s) {
    sim::Private p(o.seed);
    sim::ev("thread %d: %s #%llx", c.id, kindName[o.kind], (unsigned long long)o.seed);
    c.failPm = 0;
    c.out(sim::fmt("== %s", kindName[o.kind]));
    ops[o.kind](c);
  }
}
void bind(Ctx *c) {
  while (byTask->size() <= (size_t)sim::self()) byTask->push_back(nullptr);
  (*byTask)[(size_t)sim::self()] = c;
}
}  // namespace

SIM_SCENARIO(R01, isolation, 1) {
  byTask = new std::vector<Ctx *>();
  registerLibs();
  reset();
  decide = plan;
  onProcess = annotate;
  uint32_t n = 2 + sim::draw(3);
  std::vector<std::vector<Op>> scripts(n);
  // often every thread does the same kind of work, so that they meet in the same code
  int kind = sim::chance(500) ? (int)sim::weighted({8, 3, 2, 3, 4, 2, 1, 1}) : -1;
  uint64_t common = sim::chance(300) ? 1 + sim::draw(1u << 30) : 0;
  for (auto &s : scripts) {
    uint32_t k = 1 + sim::skewed(3);
    for (uint32_t i = 0; i < k; i++) {
      sim::Span sp;
      Op o;
      o.kind = kind >= 0 ? kind : (int)sim::weighted({8, 3, 2, 3, 4, 2, 1, 1});
      o.seed = common ? common : sim::draw(1u << 30);
      s.push_back(o);
    }
  }
  sim::set_preemption(100 + sim::draw(10) * 100, 50 + 50 * sim::draw(8));
  sim::set_store_preemption(sim::draw(4) * 250);
  auto concurrent = [&] {
    std::vector<Ctx *> r;
    std::vector<int> tasks;
    for (uint32_t i = 0; i < n; i++) {
      Ctx *c = new Ctx();
      c->id = (int)i;
      r.push_back(c);
      tasks.push_back(sim::spawn(sim::fmt("t%u", i), [&scripts, c, i] { bind(c); runScript(*c, scripts[i]); }));
    }
    for (int t : tasks) sim::join(t);
    return r;
  };
  auto alone = [&] {
    std::vector<Ctx *> r;
    for (uint32_t i = 0; i < n; i++) {
      Ctx *c = new Ctx();
      c->id = (int)i;
      r.push_back(c);
      sim::join(sim::spawn(sim::fmt("alone%u", i), [&scripts, c, i] { bind(c); runScript(*c, scripts[i]); }));
    }
    return r;
  };
  bool first = sim::chance(850);
  std::vector<Ctx *> a, b;
  if (first) { a = concurrent(); sim::ev("one after the other"); b = alone(); }
  else { b = alone(); sim::ev("at the same time"); a = concurrent(); }
  for (uint32_t i = 0; i < n; i++) {
    auto &x = a[i]->log, &y = b[i]->log;
    std::string op;
    for (size_t k = 0; k < x.size() || k < y.size(); k++) {
      std::string p = k < x.size() ? x[k] : "(nothing)", q = k < y.size() ? y[k] : "(nothing)";
      if (p.compare(0, 3, "== ") == 0) op = p.substr(3);
      if (p != q) sim::fail("threads-interfere", "thread %u, %s: alone \"%s\", with the others \"%s\"", i, op.c_str(), q.substr(0, 1200).c_str(), p.substr(0, 1200).c_str());
    }
    sim::count("probe.observations_compared", x.size());
  }
  if (sim::switches() > 20) sim::nontrivial();
  if (eng::alive) sim::fail("annotator-leaked", "%d annotators exist after every engine was deleted", eng::alive);
}
