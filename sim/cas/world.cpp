#include "world.hpp"
#include "uima/xmlerror_handler.hpp"
#include <xercesc/framework/MemBufInputSource.hpp>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <memory>

using namespace uima;
namespace w {

static const char *kindNames[K_N] = {
  "uima.cas.Integer", "uima.cas.Float", "uima.cas.String", "ent.Color", "uima.cas.Boolean", "uima.cas.Byte", "uima.cas.Short",
  "uima.cas.Long", "uima.cas.Double", "uima.cas.TOP", "ent.Tok",
  "uima.cas.IntegerArray", "uima.cas.FloatArray", "uima.cas.StringArray", "uima.cas.BooleanArray", "uima.cas.ByteArray",
  "uima.cas.ShortArray", "uima.cas.LongArray", "uima.cas.DoubleArray", "uima.cas.FSArray",
  "uima.cas.IntegerList", "uima.cas.FloatList", "uima.cas.StringList", "uima.cas.FSList" };
const char *kindRange(int k) { return kindNames[k]; }
int elemKind(int k) {
  static const int m[] = { K_INT, K_FLOAT, K_STR, K_BOOL, K_BYTE, K_SHORT, K_LONG, K_DOUBLE, K_REF, K_INT, K_FLOAT, K_STR, K_REF };
  return m[k - K_A_INT];
}

std::vector<TypeInfo> types = {
  {"ent.Plain", -1, {{"uid", K_INT}, {"k", K_INT}, {"s", K_STR}, {"f", K_FLOAT}, {"b", K_BOOL}, {"y", K_BYTE}, {"h", K_SHORT}, {"l", K_LONG},
                     {"d", K_DOUBLE}, {"ref", K_REF}, {"tok", K_REFTOK}, {"color", K_COLOR}}, {}, false},
  {"SubPlain", T_PLAIN, {{"mFS", K_A_FS, true}, {"lFS", K_L_FS}, {"mI", K_A_INT, true}, {"nS", K_L_STR, true}}, {}, false},
  {"ent.Tok", -1, {{"uid", K_INT}, {"k", K_INT}, {"s", K_STR}, {"f", K_FLOAT}, {"ref", K_REF}, {"aI", K_A_INT}, {"aF", K_A_FLOAT}, {"aS", K_A_STR},
                   {"aB", K_A_BOOL}, {"aY", K_A_BYTE}, {"aH", K_A_SHORT}, {"aL", K_A_LONG}, {"aD", K_A_DOUBLE}, {"aFS", K_A_FS}}, {}, true},
  {"ent.SubTok", T_TOK, {{"b", K_BOOL}, {"y", K_BYTE}, {"h", K_SHORT}, {"l", K_LONG}, {"d", K_DOUBLE}, {"lI", K_L_INT}, {"lF", K_L_FLOAT}, {"lS", K_L_STR}, {"lFS", K_L_FS}}, {}, true},
  {"ent.Deep", T_SUBTOK, {{"x", K_INT}, {"mS", K_A_STR, true}, {"mFS", K_A_FS, true}, {"mB", K_A_BOOL, true}, {"mY", K_A_BYTE, true}, {"mH", K_A_SHORT, true},
                         {"mL", K_A_LONG, true}, {"mD", K_A_DOUBLE, true}, {"mF", K_A_FLOAT, true}, {"nI", K_L_INT, true}, {"nFS", K_L_FS, true}, {"nF", K_L_FLOAT, true}}, {}, true},
  {"alt.ent.Loose", -1, {{"uid", K_INT}, {"ref", K_REF}, {"s", K_STR}}, {}, false},
  {"far.ent.Stray", -1, {{"uid", K_INT}, {"ref", K_REF}, {"l", K_LONG}}, {}, false},
};
std::vector<Index> indexes = {
  {"SortPlain", T_PLAIN, 0, {{"k", false}, {"s", true}}},
  {"BagPlain", T_PLAIN, 1, {}},
  {"APlainSet", T_PLAIN, 2, {{"k", false}}},
  {"SortTok", T_TOK, 0, {{"k", true}, {"f", false}, {nullptr, false}}},
  {"SetTok", T_SUBTOK, 2, {{"s", false}, {"h", true}}},
  {"BagTok", T_SUBTOK, 1, {}},
  {"SortDeep", T_DEEP, 0, {{"l", false}, {"d", true}, {"y", false}, {"b", true}, {"h", false}}},
  {"AnnotationIndex", -1, 0, {{"begin", false}, {"end", true}, {nullptr, false}}},
};

static struct InitTypes {
  InitTypes() {
    for (auto &t : types) {
      if (t.super >= 0) t.all = types[t.super].all;
      t.all.insert(t.all.end(), t.own.begin(), t.own.end());
    }
  }
} initTypes;

bool subsumes(int sup, int sub) {
  for (; sub >= 0; sub = sub < T_NUSER ? types[sub].super : -1) if (sub == sup) return true;
  return false;
}
int featIdx(int ty, const char *name) {
  auto &a = types[ty].all;
  for (size_t i = 0; i < a.size(); i++) if (!strcmp(a[i].name, name)) return (int)i;
  return -1;
}

std::vector<internal::CASDefinition *> partialDefs;
std::vector<Subset> partialSubsets;
std::string descriptorXml(Subset const *sub) {
  std::string x = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<analysisEngineDescription xmlns=\"http://uima.apache.org/resourceSpecifier\">"
    "<frameworkImplementation>org.apache.uima.cpp</frameworkImplementation><primitive>true</primitive>"
    "<annotatorImplementationName>simann</annotatorImplementationName><analysisEngineMetaData><name>sim</name><description/><version>1</version><vendor/>"
    "<configurationParameters/><configurationParameterSettings/><typeSystemDescription><types>"
    "<typeDescription><name>ent.Color</name><description/><supertypeName>uima.cas.String</supertypeName><allowedValues>"
    "<value><string>red</string></value><value><string>green</string></value><value><string>blue</string></value></allowedValues></typeDescription>";
  for (auto &t : types) {
    int ti = (int)(&t - &types[0]);
    if (sub && sub->drop[ti]) continue;
    x += std::string("<typeDescription><name>") + t.name + "</name><description/><supertypeName>" +
         (t.super >= 0 ? types[t.super].name : t.annot ? "uima.tcas.Annotation" : "uima.cas.TOP") + "</supertypeName><features>";
    for (auto &f : t.own) {
      if (sub && sub->noFeat.count({ti, f.name})) continue;
      x += std::string("<featureDescription><name>") + f.name + "</name><description/><rangeTypeName>" + kindNames[f.kind] + "</rangeTypeName>";
      if (f.mra) x += "<multipleReferencesAllowed>true</multipleReferencesAllowed>";
      x += "</featureDescription>";
    }
    x += "</features></typeDescription>";
  }
  x += "</types></typeSystemDescription>";
  if (!sub) x += "<typePriorities><priorityList>"
       "<type>uima.tcas.DocumentAnnotation</type><type>ent.Deep</type><type>ent.Tok</type><type>ent.SubTok</type><type>uima.tcas.Annotation</type>"
       "</priorityList></typePriorities><fsIndexes>";
  else x += "<typePriorities/><fsIndexes>";
  for (auto &ix : indexes) {
    if (ix.ty < 0 || (sub && (sub->drop[ix.ty] || ix.kind != 1))) continue;
    x += std::string("<fsIndexDescription><label>") + ix.label + "</label><typeName>" + types[ix.ty].name + "</typeName><kind>" +
         (ix.kind == 0 ? "sorted" : ix.kind == 1 ? "bag" : "set") + "</kind><keys>";
    for (auto &k : ix.keys) {
      if (!k.feat) x += "<fsIndexKey><typePriority/></fsIndexKey>";
      else x += std::string("<fsIndexKey><featureName>") + k.feat + "</featureName><comparator>" + (k.rev ? "reverse" : "standard") + "</comparator></fsIndexKey>";
    }
    x += "</keys></fsIndexDescription>";
  }
  x += "</fsIndexes><capabilities/></analysisEngineMetaData></analysisEngineDescription>";
  return x;
}

internal::CASDefinition *casdef = nullptr;
static internal::CASDefinition *define(std::string const &x) {
  AnalysisEngineDescription *aed = new AnalysisEngineDescription();
  xercesc::MemBufInputSource mem((XMLByte const *)x.data(), x.size(), "sim");
  XMLParser builder;
  builder.parseAnalysisEngineDescription(*aed, mem);
  return internal::CASDefinition::createCASDefinition(*aed);
}
void initProcess() {
  ResourceManager::createInstance("uimasim");
  ResourceManager::getInstance().getLogger();
  casdef = define(descriptorXml());
  uint64_t h = 12345;
  auto rnd = [&](unsigned pct) { h = h * 6364136223846793005ull + 1442695040888963407ull; return (h >> 33) % 100 < pct; };
  for (int v = 0; v < 8; v++) {
    Subset s;
    for (int t = 0; t < T_NUSER; t++) s.drop[t] = v == 7 || rnd(30) || (types[t].super >= 0 && s.drop[types[t].super]);
    for (int t = 0; t < T_NUSER; t++) for (auto &f : types[t].own)
      if (strcmp(f.name, "uid") && strcmp(f.name, "k") && (rnd(v * 8) || (f.kind == K_REFTOK && s.drop[T_TOK]))) s.noFeat.insert({t, f.name});
    partialSubsets.push_back(s);
    partialDefs.push_back(define(descriptorXml(&s)));
  }
}
static struct SetInit { SetInit() { sim::process_init = [] {
  try { initProcess(); } catch (uima::Exception &e) { fprintf(stderr, "init: %s\n", excText(e).c_str()); _exit(70); } }; } } setInit;

CAS *newCas(size_t a, size_t b, size_t c) {
  auto *base = new internal::CASImpl(*casdef, a ? a : 2000, b ? b : 2000, c ? c : 2000);
  return base->CAS::getInitialView();
}

CAS *newPartialCas(size_t i) {
  auto *base = new internal::CASImpl(*partialDefs[i], 2000, 2000, 2000);
  return base->CAS::getInitialView();
}

// ---- text helpers -----------------------------------------------------------------
std::string show(Str const &s) {
  std::string r = "\"";
  size_t n = 0;
  for (char16_t c : s) {
    if (++n > 60) { r += sim::fmt("...(%zu)#%llx", s.size(), (unsigned long long)sim::hash_bytes(s.data(), s.size() * 2)); break; }
    if (c >= 32 && c < 127 && c != '"' && c != '\\') r += (char)c;
    else r += sim::fmt("\\u%04x", c);
  }
  return r + "\"";
}
UnicodeStringRef sref(Str const &s) { return UnicodeStringRef((UChar const *)s.data(), s.size()); }
Str toStr(UnicodeStringRef const &r) {
  if (r.getBuffer() == NULL || r.length() == 0) return Str();
  return Str((char16_t const *)r.getBuffer(), r.length());
}
icu::UnicodeString us(const char *s) { return icu::UnicodeString::fromUTF8(s); }
icu::UnicodeString us(Str const &s) { return icu::UnicodeString((UChar const *)s.data(), (int32_t)s.size()); }
std::string excText(uima::Exception &e) {
  return sim::fmt("%s (id %ld)", e.getErrorInfo().asString().c_str(), (long)e.getErrorInfo().getErrorId());
}
std::string guarded(const char *what, std::function<void()> f) {
  try { sim::sut(f); return ""; }
  catch (uima::Exception &e) { return std::string(e.getName()) + ": " + e.getErrorInfo().getMessage().asString(); }
  catch (std::bad_alloc &) { throw; }
  catch (std::exception &e) { sim::fail("foreign-exception", "%s threw %s", what, e.what()); }
  catch (xercesc::XMLException &) { sim::fail("foreign-exception", "%s let a Xerces exception escape", what); }
}

static uint64_t fbits(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static uint64_t dbits(double f) { uint64_t b; memcpy(&b, &f, 8); return b; }
bool sameVal(int k, Val const &a, Val const &b) {
  switch (k) {
  case K_FLOAT: return fbits((float)a.d) == fbits((float)b.d) || (std::isnan(a.d) && std::isnan(b.d));
  case K_DOUBLE: return dbits(a.d) == dbits(b.d) || (std::isnan(a.d) && std::isnan(b.d));
  case K_STR: case K_COLOR: return a.s == b.s;
  case K_INT: case K_BOOL: case K_BYTE: case K_SHORT: case K_LONG: return a.i == b.i;
  default: return a.ref == b.ref;
  }
}
std::string showVal(int k, Val const &v) {
  switch (k) {
  case K_FLOAT: return sim::fmt("%.9g", (float)v.d);
  case K_DOUBLE: return sim::fmt("%.17g", v.d);
  case K_STR: case K_COLOR: return show(v.s);
  case K_INT: case K_BOOL: case K_BYTE: case K_SHORT: case K_LONG: return sim::fmt("%lld", (long long)v.i);
  default: return v.ref ? v.ref->name() : "null";
  }
}
std::string Node::name() const {
  if (ty == T_ARR) return sim::fmt("%s#%d", kindNames[kind], uid);
  if (ty == T_LST) return sim::fmt("%s cell#%d%s", kindNames[kind], uid, empty ? "(empty)" : "");
  if (ty == T_DOC) return sim::fmt("Doc(view%d)", view);
  return sim::fmt("%s#%d", types[ty].name, uid);
}

// ---- generators ---------------------------------------------------------------------
Str genStr(Domain const &d) {
  Str r;
  uint32_t mode = sim::weighted({5, 4, 4, 2});
  if (mode == 0) {  // small pool: collisions as index keys
    static const char16_t *pool[] = {u"", u"a", u"b", u"ab", u"B", u"\u00e9", u"\uffee", u"\U00010400"};
    return pool[sim::draw(8)];
  }
  uint32_t len = mode == 1 ? sim::range(1, 8) : sim::skewed(40);
  if (sim::chance(d.longStr)) len = sim::range(50, 4000);
  uint32_t cls = sim::draw(6);
  for (uint32_t i = 0; i < len; i++) {
    uint32_t c = len > 200 ? i % 6 : (cls == 5 ? sim::draw(5) : cls);
    uint32_t k = len > 200 ? i * 7 : sim::draw(26);
    switch (c) {
    case 0: case 5: r += (char16_t)('a' + k % 26); break;
    case 1: { static const char16_t sp[] = u"<>&\"'; ]/!-=#%\\{}@,.:"; r += sp[k % 21]; break; }
    case 2: { static const char16_t sp[] = u" \t\n\r  \n"; char16_t ch = sp[k % 7]; if (!d.crlf && ch != ' ') ch = ' '; r += ch; break; }
    case 3: { static const char16_t sp[] = {0xe9, 0xdf, 0x7f, 0xa0, 0x2028, 0x4e2d, 0xac00, 0xfffd, 0x20ac, 0x85}; r += sp[k % 10]; break; }
    case 4: if (k % 3 == 0 && !d.xmlSafe) { static const char16_t sp[] = {1, 8, 0xb, 0x1f, 0xfffe, 0xffff}; r += sp[k % 6]; }
            else { static const char32_t sp[] = {0x10000, 0x1f600, 0x10fffd, 0x2f800}; char32_t cp = sp[k % 4] - 0x10000;
                   r += (char16_t)(0xd800 + (cp >> 10)); r += (char16_t)(0xdc00 + (cp & 0x3ff)); }
            break;
    }
  }
  if (d.nul && sim::chance(30) && r.size()) r[r.size() / 2] = 0;
  return r;
}

Val genScalar(int kind, Domain const &d, bool small) {
  Val v; v.set = true;
  switch (kind) {
  case K_INT: { static const int64_t e[] = {0, 1, -1, INT32_MAX, INT32_MIN, 255, 65536, -32769};
    v.i = small || sim::chance(600) ? (int64_t)sim::draw(5) : sim::chance(300) ? e[sim::draw(8)] : (int64_t)(int32_t)(sim::draw(65536) * 65537u); break; }
  case K_BOOL: v.i = sim::draw(2); break;
  case K_BYTE: { static const int e[] = {0, 1, -1, 127, -128, 10}; v.i = small ? (int)sim::draw(3) : sim::chance(300) ? e[sim::draw(6)] : (int)(signed char)sim::draw(256); break; }
  case K_SHORT: { static const int e[] = {0, 1, -1, 32767, -32768, 256}; v.i = small ? (int)sim::draw(3) : sim::chance(300) ? e[sim::draw(6)] : (int)(short)sim::draw(65536); break; }
  case K_LONG: { static const int64_t e[] = {0, 1, -1, INT64_MAX, INT64_MIN, 10, 4294967296ll, -4294967297ll, 2147483648ll, 0xffffffffll};
    v.i = small ? (int64_t)sim::draw(4) * 4294967296ll : sim::chance(500) ? e[sim::draw(10)] : (int64_t)((uint64_t)sim::draw(1u << 31) << 32 | sim::draw(1u << 31)); break; }
  case K_FLOAT: { static const float e[] = {0.f, 1.f, -1.f, 0.1f, 3.4028235e38f, 1.17549435e-38f, 1e-45f, -123456.789f, 16777217.f, 1e10f, 0.333333343f};
    static const float inf[] = {INFINITY, -INFINITY};
    if (small) v.d = (float)sim::draw(3) / 2; else if (!d.finite && sim::chance(60)) v.d = inf[sim::draw(2)];
    else if (sim::chance(600)) v.d = e[sim::draw(11)]; else v.d = (float)(int32_t)(sim::draw(65536) * 65537u) / (float)(1 + sim::draw(1000)); break; }
  case K_DOUBLE: { static const double e[] = {0., 1., -1., 0.1, 1.7976931348623157e308, 2.2250738585072014e-308, 4.9e-324, -123456.7890123, 9007199254740993., 1./3, 1e22};
    static const double inf[] = {INFINITY, -INFINITY};
    if (small) v.d = (double)sim::draw(3) / 2; else if (!d.finite && sim::chance(60)) v.d = inf[sim::draw(2)];
    else if (sim::chance(600)) v.d = e[sim::draw(11)]; else v.d = (double)(int32_t)(sim::draw(65536) * 65537u) / (double)(1 + sim::draw(1000)); break; }
  case K_STR: v.s = genStr(d); break;
  case K_COLOR: { static const char16_t *c[] = {u"red", u"green", u"blue"}; v.s = c[sim::draw(3)]; break; }
  default: break;
  }
  return v;
}

// ---- World ---------------------------------------------------------------------------
World::~World() {}
void World::attach(CAS *initial) {
  base = initial;
  bindTypes();
  forget();
}
void World::forget() {
  views.clear();
  views.push_back(View{"_InitialView", base});
  nodes.clear(); arrs.clear(); lsts.clear(); adds.clear(); indexed.clear();
  pool.clear();
}
void World::bindTypes() {
  TypeSystem const &ts = base->getTypeSystem();
  for (int t = 0; t < T_NUSER; t++) {
    type[t] = ts.getType(us(types[t].name));
    feat[t].clear();
    for (auto &f : types[t].all) feat[t].push_back(type[t].getFeatureByBaseName(us(f.name)));
  }
  fBegin = type[T_TOK].getFeatureByBaseName(us("begin"));
  fEnd = type[T_TOK].getFeatureByBaseName(us("end"));
}
Node *World::mk() { pool.emplace_back(new Node); Node *n = pool.back().get(); n->uid = nextUid++; return n; }

int World::addView(const char *name) {
  CAS *c = sim::sut([&] { return base->createView(us(name)); });
  views.push_back(View{name, c});
  sim::ev("createView %s", name);
  return (int)views.size() - 1;
}
void World::setText(int v, Str const &t) {
  sim::sut([&] { views[v].cas->setDocumentText(sref(t)); });
  views[v].hasText = true; views[v].text = t;
  sim::ev("setText view%d %s", v, show(t).c_str());
}

Node *World::create(int ty, int view) {
  Node *n = mk();
  n->ty = ty; n->view = view;
  n->v.resize(types[ty].all.size());
  if (types[ty].annot) {
    int64_t len = views[view].hasText ? (int64_t)views[view].text.size() : 20;
    uint32_t mode = sim::draw(4);
    int64_t b = sim::draw(mode == 0 ? 4u : (uint32_t)len + 1), e;
    if (b > len) b = len;
    e = b + (int64_t)sim::draw((uint32_t)(len - b) + 1);
    n->begin = b; n->end = e;
    sim::sut([&] { n->h = views[view].cas->createAnnotation(type[ty], (size_t)b, (size_t)e); });
  } else {
    sim::sut([&] { n->h = views[view].cas->createFS(type[ty]); });
  }
  int u = featIdx(ty, "uid");
  Val v; v.set = true; v.i = n->uid;
  sim::sut([&] { n->h.setIntValue(feat[ty][u], n->uid); });
  n->v[u] = v;
  nodes.push_back(n);
  sim::ev("create %s view%d [%lld,%lld)", n->name().c_str(), view, (long long)n->begin, (long long)n->end);
  return n;
}

FeatureStructure handleOf(World &, Val const &v) { return v.ref ? v.ref->h : FeatureStructure(); }

template <class A, class T> static void aset(Node *n, size_t i, T const &t) { A a(n->h); a.set(i, t); }
void World::setElem(Node *n, size_t i, Val const &v) {
  sim::sut([&] {
    switch (n->kind) {
    case K_A_INT: aset<IntArrayFS, int>(n, i, (int)v.i); break;
    case K_A_FLOAT: aset<FloatArrayFS, float>(n, i, (float)v.d); break;
    case K_A_STR: aset<StringArrayFS, UnicodeStringRef>(n, i, sref(v.s)); break;
    case K_A_BOOL: aset<BooleanArrayFS, bool>(n, i, v.i != 0); break;
    case K_A_BYTE: aset<ByteArrayFS, char>(n, i, (char)v.i); break;
    case K_A_SHORT: aset<ShortArrayFS, short>(n, i, (short)v.i); break;
    case K_A_LONG: aset<LongArrayFS, INT64>(n, i, (INT64)v.i); break;
    case K_A_DOUBLE: aset<DoubleArrayFS, double>(n, i, v.d); break;
    case K_A_FS: aset<ArrayFS, FeatureStructure>(n, i, handleOf(*this, v)); break;
    }
  });
  n->v[i] = v; n->v[i].set = true;
}
Node *World::createArr(int kind, size_t sz, bool fill) {
  Node *n = mk();
  n->ty = T_ARR; n->kind = kind;
  CAS *c = base;
  sim::sut([&] {
    switch (kind) {
    case K_A_INT: n->h = c->createIntArrayFS(sz); break;
    case K_A_FLOAT: n->h = c->createFloatArrayFS(sz); break;
    case K_A_STR: n->h = c->createStringArrayFS(sz); break;
    case K_A_BOOL: n->h = c->createBooleanArrayFS(sz); break;
    case K_A_BYTE: n->h = c->createByteArrayFS(sz); break;
    case K_A_SHORT: n->h = c->createShortArrayFS(sz); break;
    case K_A_LONG: n->h = c->createLongArrayFS(sz); break;
    case K_A_DOUBLE: n->h = c->createDoubleArrayFS(sz); break;
    case K_A_FS: n->h = c->createArrayFS(sz); break;
    }
  });
  n->v.resize(sz);
  arrs.push_back(n);
  sim::ev("createArr %s[%zu]", n->name().c_str(), sz);
  if (fill) for (size_t i = 0; i < sz; i++) {
    if (kind == K_A_FS) { Val v; v.ref = nodes.empty() || sim::chance(150) ? nullptr : sim::pick(nodes); if (v.ref) setElem(n, i, v); }
    else setElem(n, i, genScalar(elemKind(kind), dom, false));
  }
  return n;
}
Node *World::createLst(int kind, std::vector<Val> const &elems) {
  Node *e = mk(); e->ty = T_LST; e->kind = kind; e->empty = true;
  CAS *c = base;
  Node *head = e;
  auto put = [&](auto lst, auto conv) {
    e->h = lst;
    for (size_t i = elems.size(); i-- > 0;) {
      lst.addFirst(conv(elems[i]));
      Node *n = mk(); n->ty = T_LST; n->kind = kind; n->tail = head; n->v.push_back(elems[i]); n->h = lst;
      head = n;
    }
  };
  sim::sut([&] {
    switch (kind) {
    case K_L_INT: put(c->createIntListFS(), [](Val const &v) { return (int)v.i; }); break;
    case K_L_FLOAT: put(c->createFloatListFS(), [](Val const &v) { return (float)v.d; }); break;
    case K_L_STR: put(c->createStringListFS(), [](Val const &v) { return sref(v.s); }); break;
    case K_L_FS: put(c->createListFS(), [&](Val const &v) { return handleOf(*this, v); }); break;
    }
  });
  lsts.push_back(head);
  sim::ev("createLst %s x%zu", head->name().c_str(), elems.size());
  return head;
}

Val World::genVal(int ty, int f, bool small) {
  Feat const &ft = types[ty].all[f];
  Val v; v.set = true;
  if (ft.kind < K_REF) return genScalar(ft.kind, dom, small);
  if (ft.kind == K_REF) {
    uint32_t m = sim::weighted({6, 1, 1});
    if (m == 1 && arrs.size()) v.ref = sim::pick(arrs);
    else if (m == 2 && lsts.size()) v.ref = sim::pick(lsts);
    else if (nodes.size()) v.ref = sim::pick(nodes);
    return v;
  }
  if (ft.kind == K_REFTOK) {
    std::vector<Node *> c;
    for (auto *n : nodes) if (subsumes(T_TOK, n->ty)) c.push_back(n);
    if (c.size()) v.ref = sim::pick(c);
    return v;
  }
  // arrays / lists: an existing one (sharing) or a new one
  auto &have = isArray(ft.kind) ? arrs : lsts;
  if (sim::chance(ft.mra ? 350 : 100)) {
    std::vector<Node *> c;
    for (auto *n : have) if (n->kind == ft.kind) c.push_back(n);
    if (c.size()) { v.ref = sim::pick(c); return v; }
  }
  uint32_t n = sim::chance(100) ? 0 : sim::skewed(8);
  if (isArray(ft.kind)) { v.ref = createArr(ft.kind, n); return v; }
  std::vector<Val> el;
  for (uint32_t i = 0; i < n; i++) {
    Val x;
    if (ft.kind == K_L_FS) { x.ref = nodes.empty() ? nullptr : sim::pick(nodes); if (!x.ref) break; x.set = true; }
    else x = genScalar(elemKind(ft.kind), dom, false);
    el.push_back(x);
  }
  v.ref = createLst(ft.kind, el);
  return v;
}

void World::setVal(Node *n, int f, Val const &v) {
  Feature const &F = feat[n->ty][f];
  Feat const &ft = types[n->ty].all[f];
  if (isRef(ft.kind) && !v.ref) return;   // there is no null to store: only feature structures can be assigned
  sim::sut([&] {
    switch (ft.kind) {
    case K_INT: n->h.setIntValue(F, (int)v.i); break;
    case K_FLOAT: n->h.setFloatValue(F, (float)v.d); break;
    case K_STR: case K_COLOR: n->h.setStringValue(F, sref(v.s)); break;
    case K_BOOL: n->h.setBooleanValue(F, v.i != 0); break;
    case K_BYTE: n->h.setByteValue(F, (char)v.i); break;
    case K_SHORT: n->h.setShortValue(F, (short)v.i); break;
    case K_LONG: n->h.setLongValue(F, (INT64)v.i); break;
    case K_DOUBLE: n->h.setDoubleValue(F, v.d); break;
    default: n->h.setFSValue(F, handleOf(*this, v)); break;
    }
  });
  n->v[f] = v; n->v[f].set = true;
  sim::ev("set %s.%s = %s", n->name().c_str(), ft.name, showVal(ft.kind, v).c_str());
}

void World::fill(Node *n, uint32_t density, bool small) {
  for (size_t f = 0; f < types[n->ty].all.size(); f++) {
    if (!strcmp(types[n->ty].all[f].name, "uid")) continue;
    if (!sim::chance(density)) continue;
    Val v = genVal(n->ty, (int)f, small);
    setVal(n, (int)f, v);
  }
}

// identity of the structure itself: handles of one structure obtained through two views differ
bool sameFS(FeatureStructure const &a, FeatureStructure const &b) {
  if (!a.isValid() || !b.isValid()) return a.isValid() == b.isValid();
  return internal::FSPromoter::getFSHeap(a) == internal::FSPromoter::getFSHeap(b) && fsAddr(a) == fsAddr(b);
}

Node *World::byHandle(FeatureStructure const &fs) {
  for (auto &p : pool) if (p->h.isValid() && sameFS(p->h, fs)) return p.get();
  return nullptr;
}

Val World::readVal(Node *n, int f) {
  Feature const &F = feat[n->ty][f];
  Feat const &ft = types[n->ty].all[f];
  Val r; r.set = true;
  FeatureStructure fs;
  sim::sut([&] {
    switch (ft.kind) {
    case K_INT: r.i = n->h.getIntValue(F); break;
    case K_FLOAT: r.d = n->h.getFloatValue(F); break;
    case K_STR: case K_COLOR: r.s = toStr(n->h.getStringValue(F)); break;
    case K_BOOL: r.i = n->h.getBooleanValue(F); break;
    case K_BYTE: r.i = (signed char)n->h.getByteValue(F); break;
    case K_SHORT: r.i = n->h.getShortValue(F); break;
    case K_LONG: r.i = n->h.getLongValue(F); break;
    case K_DOUBLE: r.d = n->h.getDoubleValue(F); break;
    default: fs = n->h.getFSValue(F); break;
    }
  });
  if (ft.kind >= K_REF && fs.isValid()) {
    if (n->v[f].ref && sameFS(n->v[f].ref->h, fs)) r.ref = n->v[f].ref;
    else { r.ref = byHandle(fs); if (!r.ref) sim::fail("value", "%s.%s refers to an unknown feature structure of type %s", n->name().c_str(), ft.name, fs.getType().getName().asUTF8().c_str()); }
  }
  return r;
}
Val World::readElem(Node *n, size_t i) {
  Val r; r.set = true;
  FeatureStructure fs;
  sim::sut([&] {
    switch (n->kind) {
    case K_A_INT: r.i = IntArrayFS(n->h).get(i); break;
    case K_A_FLOAT: r.d = FloatArrayFS(n->h).get(i); break;
    case K_A_STR: r.s = toStr(StringArrayFS(n->h).get(i)); break;
    case K_A_BOOL: r.i = BooleanArrayFS(n->h).get(i); break;
    case K_A_BYTE: r.i = (signed char)ByteArrayFS(n->h).get(i); break;
    case K_A_SHORT: r.i = ShortArrayFS(n->h).get(i); break;
    case K_A_LONG: r.i = LongArrayFS(n->h).get(i); break;
    case K_A_DOUBLE: r.d = DoubleArrayFS(n->h).get(i); break;
    case K_A_FS: fs = ArrayFS(n->h).get(i); break;
    }
  });
  if (n->kind == K_A_FS && fs.isValid()) {
    if (n->v[i].ref && sameFS(n->v[i].ref->h, fs)) r.ref = n->v[i].ref;
    else { r.ref = byHandle(fs); if (!r.ref) sim::fail("value", "%s[%zu] refers to an unknown feature structure", n->name().c_str(), i); }
  }
  return r;
}

template <class L, class T> static void cellCheck(World &w, Node *n, const char *sig, T conv) {
  L l(n->h);
  bool e = sim::sut([&] { return l.isEmpty(); });
  if (e != n->empty) sim::fail(sig, "%s: isEmpty() is %d", n->name().c_str(), e);
  if (e) { if (sim::sut([&] { return l.getLength(); }) != 0) sim::fail(sig, "%s: empty list of length != 0", n->name().c_str()); return; }
  size_t len = 0; for (Node *x = n; !x->empty; x = x->tail) len++;
  size_t got = sim::sut([&] { return l.getLength(); });
  if (got != len) sim::fail(sig, "%s: length %zu, expected %zu", n->name().c_str(), got, len);
  auto h = sim::sut([&] { return l.getHead(); });
  if (!conv(h, n->v[0])) sim::fail(sig, "%s: head differs from the value written (%s)", n->name().c_str(), showVal(elemKind(n->kind), n->v[0]).c_str());
  FeatureStructure t = sim::sut([&] { return (FeatureStructure)l.getTail(); });
  if (!sameFS(t, n->tail->h)) sim::fail(sig, "%s: tail is not the list last set (%s)", n->name().c_str(), n->tail->name().c_str());
}

void World::checkNode(Node *n, const char *sig) {
  if (n->ty == T_ARR) {
    size_t sz = 0;
    sim::sut([&] {
      switch (n->kind) {
      case K_A_INT: sz = IntArrayFS(n->h).size(); break;
      case K_A_FLOAT: sz = FloatArrayFS(n->h).size(); break;
      case K_A_STR: sz = StringArrayFS(n->h).size(); break;
      case K_A_BOOL: sz = BooleanArrayFS(n->h).size(); break;
      case K_A_BYTE: sz = ByteArrayFS(n->h).size(); break;
      case K_A_SHORT: sz = ShortArrayFS(n->h).size(); break;
      case K_A_LONG: sz = LongArrayFS(n->h).size(); break;
      case K_A_DOUBLE: sz = DoubleArrayFS(n->h).size(); break;
      case K_A_FS: sz = ArrayFS(n->h).size(); break;
      }
    });
    if (sz != n->v.size()) sim::fail(sig, "%s: size %zu, created with %zu", n->name().c_str(), sz, n->v.size());
    for (size_t i = 0; i < n->v.size(); i++) {
      Val r = readElem(n, i);
      if (!sameVal(elemKind(n->kind), r, n->v[i]))
        sim::fail(sig, "%s[%zu] reads %s, last written %s", n->name().c_str(), i, showVal(elemKind(n->kind), r).c_str(), n->v[i].set ? showVal(elemKind(n->kind), n->v[i]).c_str() : "never");
    }
    return;
  }
  if (n->ty == T_LST) {
    switch (n->kind) {
    case K_L_INT: cellCheck<IntListFS>(*this, n, sig, [](int h, Val const &v) { return h == (int)v.i; }); break;
    case K_L_FLOAT: cellCheck<FloatListFS>(*this, n, sig, [](float h, Val const &v) { return fbits(h) == fbits((float)v.d); }); break;
    case K_L_STR: cellCheck<StringListFS>(*this, n, sig, [](UnicodeStringRef h, Val const &v) { return toStr(h) == v.s; }); break;
    case K_L_FS: cellCheck<ListFS>(*this, n, sig, [](FeatureStructure h, Val const &v) { return v.ref ? sameFS(h, v.ref->h) : !h.isValid(); }); break;
    }
    return;
  }
  if (n->ty >= T_NUSER) return;
  for (size_t f = 0; f < types[n->ty].all.size(); f++) {
    Feat const &ft = types[n->ty].all[f];
    Val r = readVal(n, (int)f);
    if (!sameVal(ft.kind, r, n->v[f]))
      sim::fail(sig, "%s.%s reads %s, last written %s", n->name().c_str(), ft.name, showVal(ft.kind, r).c_str(), n->v[f].set ? showVal(ft.kind, n->v[f]).c_str() : "never");
  }
  if (types[n->ty].annot) {
    AnnotationFS a(n->h);
    int64_t b = (int64_t)sim::sut([&] { return a.getBeginPosition(); }), e = (int64_t)sim::sut([&] { return a.getEndPosition(); });
    if (b != n->begin || e != n->end) sim::fail(sig, "%s reads [%lld,%lld), written [%lld,%lld)", n->name().c_str(), (long long)b, (long long)e, (long long)n->begin, (long long)n->end);
  }
}

void World::checkMembers(const char *sig) {
  for (size_t i = 0; i < views.size(); i++) {
    std::vector<lowlevel::TyFS> all;
    sim::sut([&] { views[i].cas->getLowlevelIndexRepository().getIndexedFSs(all); });
    std::multiset<std::string> got, want;
    for (auto a : all) {
      FeatureStructure fs = internal::FSPromoter::promoteFS(a, *views[i].cas);
      Node *n = byHandle(fs);
      if (n) got.insert(n->name());
      else if (fs.getType().getName().asUTF8() != "uima.tcas.DocumentAnnotation") got.insert(fs.getType().getName().asUTF8());
    }
    for (auto &p : adds) if (p.second == (int)i) want.insert(p.first->name());
    for (auto &x : want) if (!got.count(x)) sim::fail(sig, "%s was added to view %s but is not a member", x.c_str(), views[i].name.c_str());
    for (auto &x : got) if (want.count(x) != got.count(x)) sim::fail(sig, "view %s lists %s %zu times, %zu expected", views[i].name.c_str(), x.c_str(), got.count(x), want.count(x));
  }
}

void World::addToIndex(Node *n, int view) {
  sim::sut([&] { views[view].cas->getIndexRepository().addFS(n->h); });
  adds.push_back({n, view});
  sim::ev("add %s to view%d", n->name().c_str(), view);
}

void World::populate(uint32_t size, bool multiView) {
  static const char *names[] = {"viewA", "viewB", "\xc3\xa9t\xc3\xa9 <&\">"};
  if (sim::chance(800)) setText(0, genStr(dom));
  if (multiView) {
    uint32_t nv = sim::draw(4);
    for (uint32_t i = 0; i < nv; i++) {
      int v = addView(names[i]);
      uint32_t m = sim::draw(3);
      if (m == 1) setText(v, genStr(dom));
    }
  }
  for (uint32_t i = 0; i < size; i++) {
    sim::Span sp;
    int ty = (int)sim::draw(T_NUSER), v = (int)sim::draw((uint32_t)views.size());
    // an annotation needs its view's sofa; the initial view has one once text was set
    if (types[ty].annot && v == 0 && !views[0].hasText) { if (views.size() > 1) v = 1; else ty = T_PLAIN; }
    Node *n = create(ty, v);
    fill(n, 500, sim::chance(300));
    if (sim::chance(700)) addToIndex(n, v);
    if (!types[ty].annot && sim::chance(100)) {
      int v2 = (int)sim::draw((uint32_t)views.size());
      if (v2 != v) addToIndex(n, v2);    // at most once per view: the serialized forms keep membership, not multiplicity
    }
  }
  // cyclic / late references
  uint32_t late = nodes.empty() ? 0 : sim::draw(size + 1);
  for (uint32_t i = 0; i < late; i++) {
    sim::Span sp;
    Node *n = sim::pick(nodes);
    int f = featIdx(n->ty, "ref");
    setVal(n, f, genVal(n->ty, f, false));
  }
}

void World::decorate() {
  uint32_t n = sim::skewed(5);
  for (uint32_t i = 0; i < n; i++) {
    sim::Span sp;
    size_t vi = sim::draw((uint32_t)views.size());
    CAS *c = views[vi].cas;
    switch (sim::draw(5)) {
    case 0: {
      if (adds.empty()) break;
      size_t k = sim::draw((uint32_t)adds.size());
      auto p = adds[k];
      // which of several equal members a set index holds depends on the history; keep to types no set covers
      if (p.first->ty != T_TOK && p.first->ty != T_LOOSE && p.first->ty != T_STRAY) break;
      adds.erase(adds.begin() + k);
      sim::sut([&] { views[p.second].cas->getIndexRepository().removeFS(p.first->h); });
      sim::ev("remove %s from view%d", p.first->name().c_str(), p.second);
      break; }
    case 1: {
      if (views[vi].hasText || vi == 0) break;
      views[vi].hasText = true;
      uint32_t how = sim::draw(3);
      if (how == 0) { Str t = genStr(dom); sim::sut([&] { c->setSofaDataString(sref(t), us("text/x-\xc3\xa9")); }); sim::ev("sofa string view%zu %s", vi, show(t).c_str()); }
      else if (how == 1) { sim::sut([&] { c->setSofaDataURI(us("file:/no/where?a=1&b=2"), us("application/octet-stream")); }); sim::ev("sofa uri view%zu", vi); }
      else {
        static const int ks[] = {K_A_INT, K_A_FLOAT, K_A_BYTE, K_A_SHORT, K_A_LONG, K_A_DOUBLE};
        Node *a = createArr(ks[sim::draw(6)], sim::skewed(12));
        sim::sut([&] { c->setSofaDataArray(a->h, us("image/x")); });
        sim::ev("sofa array view%zu %s", vi, a->name().c_str());
      }
      break; }
    case 2: {
      bool has = sim::sut([&] { return c->getSofa().isValid(); }) && (vi > 0 || views[0].hasText);
      if (!has) break;
      const char *l = sim::draw(2) ? "de" : "en-US";
      sim::sut([&] { DocumentFS d = c->getDocumentAnnotation(); d.setLanguage(Language(l)); });
      sim::ev("language view%zu %s", vi, l);
      break; }
    case 3: {   // arrays with holes, referenced from a structure
      if (nodes.empty()) break;
      Node *a = createArr(K_A_FS, sim::skewed(8), false);
      for (size_t k = 0; k < a->v.size(); k++) if (sim::chance(500)) { Val v; v.set = true; v.ref = sim::pick(nodes); setElem(a, k, v); }
      Node *h = sim::pick(nodes);
      int f = featIdx(h->ty, "ref");
      if (sim::chance(300) && featIdx(h->ty, "aFS") >= 0) f = featIdx(h->ty, "aFS");
      Val v; v.set = true; v.ref = a;
      setVal(h, f, v);
      break; }
    case 4: {   // an existing array or list of any kind, possibly empty, shared
      if (nodes.empty()) break;
      Node *h = sim::pick(nodes);
      Val v; v.set = true;
      if (sim::draw(2)) v.ref = createArr(K_A_INT + (int)sim::draw(9), sim::chance(500) ? 0 : sim::skewed(6));
      else {
        int k = K_L_INT + (int)sim::draw(4);
        std::vector<Val> el;
        uint32_t m = sim::chance(500) ? 0 : sim::skewed(6);
        for (uint32_t j = 0; j < m; j++) { Val x; if (k == K_L_FS) { x.ref = sim::pick(nodes); x.set = true; } else x = genScalar(elemKind(k), dom, false); el.push_back(x); }
        v.ref = createLst(k, el);
      }
      setVal(h, featIdx(h->ty, "ref"), v);
      break; }
    }
  }
}

// ---- canonical dump ---------------------------------------------------------------------
namespace {
struct Dumper {
  DumpOpt o;
  std::map<lowlevel::TyFS, std::string> names;
  std::vector<FeatureStructure> queue;
  std::vector<std::string> out;
  int anon = 0;

  std::string s(UnicodeStringRef const &r) { return show(toStr(r)); }
  std::string tname(Type const &t) { return t.getName().asUTF8(); }
  std::string strFeat(FeatureStructure const &fs, const char *f) { return s(fs.getStringValue(fs.getType().getFeatureByBaseName(us(f)))); }

  std::string nameOf(FeatureStructure const &fs) {
    if (!fs.isValid()) return "null";
    auto it = names.find(fsAddr(fs));
    if (it != names.end()) return it->second;
    Type t = fs.getType();
    std::string tn = tname(t), nm;
    if (tn == "uima.cas.Sofa") nm = "Sofa(" + strFeat(fs, "sofaID") + ")";
    else if (tn == "uima.tcas.DocumentAnnotation") {
      FeatureStructure sf = fs.getFSValue(t.getFeatureByBaseName(us("sofa")));
      nm = "Doc(" + (sf.isValid() ? strFeat(sf, "sofaID") : "null") + ")";
      int k = 1; std::string b = nm;
      for (auto &p : names) if (p.second == nm) nm = b + sim::fmt("~%d", ++k);
    }
    else if (t.getFeatureByBaseName(us("uid")).isValid()) nm = tn + sim::fmt("#%d", fs.getIntValue(t.getFeatureByBaseName(us("uid"))));
    else nm = tn + sim::fmt("~%d", ++anon);
    names[fsAddr(fs)] = nm;
    queue.push_back(fs);
    return nm;
  }
  template <class A, class F> std::string arr(FeatureStructure const &fs, F f) {
    A a(fs);
    std::string r = "[";
    for (size_t i = 0; i < a.size(); i++) { if (i) r += ","; r += f(a.get(i)); }
    return r + "]";
  }
  std::string arrayText(FeatureStructure const &fs) {
    std::string tn = tname(fs.getType());
    auto num = [](auto v) { return sim::fmt("%lld", (long long)v); };
    if (tn == "uima.cas.IntegerArray") return arr<IntArrayFS>(fs, num);
    if (tn == "uima.cas.BooleanArray") return arr<BooleanArrayFS>(fs, num);
    if (tn == "uima.cas.ByteArray") return arr<ByteArrayFS>(fs, [](char c) { return sim::fmt("%d", (signed char)c); });
    if (tn == "uima.cas.ShortArray") return arr<ShortArrayFS>(fs, num);
    if (tn == "uima.cas.LongArray") return arr<LongArrayFS>(fs, num);
    if (tn == "uima.cas.FloatArray") return arr<FloatArrayFS>(fs, [](float v) { return sim::fmt("%.9g", v); });
    if (tn == "uima.cas.DoubleArray") return arr<DoubleArrayFS>(fs, [](double v) { return sim::fmt("%.17g", v); });
    if (tn == "uima.cas.StringArray") return arr<StringArrayFS>(fs, [&](UnicodeStringRef r) { return s(r); });
    return arr<ArrayFS>(fs, [&](FeatureStructure f) { return nameOf(f); });
  }
  template <class L, class F> std::string lst(FeatureStructure const &fs, F f) {
    L l(fs);
    std::string r = "(";
    for (int i = 0; !l.isEmpty(); i++) { if (i > 100000) sim::fail("dump", "endless list"); if (i) r += ","; r += f(l.getHead()); l.moveToNext(); }
    return r + ")";
  }
  std::string listText(FeatureStructure const &fs) {
    std::string tn = tname(fs.getType());
    if (tn.find("IntegerList") != std::string::npos) return lst<IntListFS>(fs, [](int v) { return sim::fmt("%d", v); });
    if (tn.find("FloatList") != std::string::npos) return lst<FloatListFS>(fs, [](float v) { return sim::fmt("%.9g", v); });
    if (tn.find("StringList") != std::string::npos) return lst<StringListFS>(fs, [&](UnicodeStringRef r) { return s(r); });
    return lst<ListFS>(fs, [&](FeatureStructure f) { return nameOf(f); });
  }
  static bool isArr(std::string const &tn) { return tn.size() > 5 && tn.compare(0, 9, "uima.cas.") == 0 && tn.compare(tn.size() - 5, 5, "Array") == 0; }
  static bool isLst(std::string const &tn) { return tn.size() > 4 && tn.compare(0, 9, "uima.cas.") == 0 && tn.compare(tn.size() - 4, 4, "List") == 0; }

  std::string value(FeatureStructure const &fs, Feature const &f) {
    Type rt; f.getRangeType(rt);
    std::string rn = tname(rt);
    if (rn == "uima.cas.Integer") return sim::fmt("%d", fs.getIntValue(f));
    if (rn == "uima.cas.Float") return sim::fmt("%.9g", fs.getFloatValue(f));
    if (rn == "uima.cas.Boolean") return sim::fmt("%d", fs.getBooleanValue(f));
    if (rn == "uima.cas.Byte") return sim::fmt("%d", (signed char)fs.getByteValue(f));
    if (rn == "uima.cas.Short") return sim::fmt("%d", fs.getShortValue(f));
    if (rn == "uima.cas.Long") return sim::fmt("%lld", (long long)fs.getLongValue(f));
    if (rn == "uima.cas.Double") return sim::fmt("%.17g", fs.getDoubleValue(f));
    if (rn == "uima.cas.String" || rt.isStringSubType()) return s(fs.getStringValue(f)) + (o.unset && fs.isUntouchedFSValue(f) ? " (unset)" : "");
    FeatureStructure v = fs.getFSValue(f);
    if (!v.isValid()) return "null";
    if (!f.isMultipleReferencesAllowed()) {
      if (isArr(rn)) return arrayText(v);
      if (isLst(rn)) return listText(v);
    }
    return nameOf(v);
  }
  void describe(FeatureStructure const &fs) {
    std::string nm = names[fsAddr(fs)], tn = tname(fs.getType());
    if (isArr(tn)) { out.push_back(nm + " = " + arrayText(fs)); return; }
    std::vector<Feature> fs_;
    fs.getType().getAppropriateFeatures(fs_);
    std::map<std::string, std::string> lines;
    for (auto &f : fs_) {
      std::string fn = f.getName().asUTF8();
      size_t p = fn.rfind(':'); if (p != std::string::npos) fn = fn.substr(p + 1);
      if (tn == "uima.cas.Sofa" && fn == "sofaNum" && !o.sofaNum) continue;
      if (tn == "uima.cas.Sofa" && fn == "mimeType" && !o.mime) continue;
      lines[fn] = "";
    }
    for (auto &l : lines) l.second = value(fs, fs.getType().getFeatureByBaseName(us(l.first.c_str())));
    for (auto &l : lines) out.push_back(nm + "." + l.first + " = " + l.second);
  }
  // names index members deterministically: named ones first, anonymous in iteration order
  void view(std::string const &label, CAS *c) {
    out.push_back("view " + label);
    out.push_back("  text " + s(c->getDocumentText()));
    for (auto &ix : indexes) {
      FSIndex idx = c->getIndexRepository().getIndex(us(ix.label));
      std::vector<std::string> v;
      FSIterator it = idx.iterator();
      size_t n = 0;
      for (it.moveToFirst(); it.isValid(); it.moveToNext()) {
        if (++n > 1000000) sim::fail("dump", "endless index iteration");
        v.push_back(ix.kind == 2 ? setKey(ix, it.get()) : nameOf(it.get()));
      }
      if (!o.order || ix.kind != 0) std::sort(v.begin(), v.end());
      std::string l = std::string("  ") + ix.label + ":";
      for (auto &x : v) l += " " + x;
      out.push_back(l);
    }
    std::vector<lowlevel::TyFS> all;
    c->getLowlevelIndexRepository().getIndexedFSs(all);
    std::set<std::string> v;
    for (auto a : all) v.insert(nameOf(internal::FSPromoter::promoteFS(a, *c)));
    std::string l = "  indexed:";
    for (auto &x : v) l += " " + x;
    out.push_back(l);
  }
  std::string setKey(Index const &ix, FeatureStructure const &fs) {
    std::string r = tname(fs.getType()) + "{";
    for (auto &k : ix.keys) r += value(fs, fs.getType().getFeatureByBaseName(us(k.feat))) + ";";
    return r + "}";
  }
  void run(CAS *any) {
    std::map<std::string, SofaFS> sofas;
    FSIterator it = any->getSofaIterator();
    size_t n = 0;
    for (it.moveToFirst(); it.isValid(); it.moveToNext()) {
      if (++n > 100000) sim::fail("dump", "endless sofa iteration");
      SofaFS sf(it.get());
      std::string id = s(sf.getSofaID());
      if (sofas.count(id)) out.push_back("DUPLICATE sofa " + id);
      sofas[id] = sf;
      nameOf(sf);
    }
    std::string ini = show(Str(u"_InitialView"));
    if (!sofas.count(ini)) view(ini + " (no sofa)", any->getBaseCas()->getView(us("_InitialView")));
    for (auto &p : sofas) view(p.first, any->getView(p.second));
    // walk: sort what is named so far for a representation-independent order
    std::sort(queue.begin(), queue.end(), [&](FeatureStructure const &a, FeatureStructure const &b) { return names[fsAddr(a)] < names[fsAddr(b)]; });
    for (size_t i = 0; i < queue.size(); i++) { FeatureStructure fs = queue[i]; describe(fs); }
  }
};
}  // namespace

std::vector<std::string> dump(CAS *any, DumpOpt o) {
  Dumper d; d.o = o;
  try { sim::sut([&] { d.run(any); }); }
  catch (uima::Exception &e) { sim::fail("dump-exception", "reading the CAS back threw %s", excText(e).c_str()); }
  return d.out;
}
void expectSame(const char *sig, std::vector<std::string> const &a, std::vector<std::string> const &b, const char *what) {
  for (size_t i = 0; i < a.size() || i < b.size(); i++) {
    std::string x = i < a.size() ? a[i] : "(nothing)", y = i < b.size() ? b[i] : "(nothing)";
    if (x != y) {
      // a one-sided line is clearer when reported against the set of the other side
      sim::fail(sig, "%s: expected \"%s\", got \"%s\"", what, x.substr(0, 600).c_str(), y.substr(0, 600).c_str());
    }
  }
}
}  // namespace w
