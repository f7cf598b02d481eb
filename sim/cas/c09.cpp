// C09: sofa data streams. Random opens, reads, seeks, closes and CAS growth on local sofas of every kind and on
// remote sofas whose scheme handler reads short, fails or refuses, against the sofa's bytes.
#include "program.hpp"
#include "uima/resmgr.hpp"
#include "uima/sofastream.hpp"
#include "uima/sofastreamhandler.hpp"
#include "uima/arrayfs.hpp"
using namespace uima;

namespace {
typedef std::string Bytes;
struct Stub;
struct Source {                        // a remote sofa
  std::string uri;
  Bytes data;                          // network byte order
  bool openEnded = false, zeroAtEnd = false, makeNull = false;
  uint32_t faulty = 0, shortPm = 0;    // per mille
  int opens = 0, closes = 0, failedOpens = 0, live = 0;
  size_t minBuf = 0;
};
std::vector<Source *> sources;
std::vector<Stub *> stubs;             // that exist
struct Fault { bool thrown = false; long code = 0; } fault;   // what a handler did wrong in the current call
Source *making;
bool muted;                            // no faults

[[noreturn]] void boom(const char *where) {
  fault.thrown = true;
  sim::fault((std::string("handler_") + where + "_throws").c_str());
  sim::ev("   the handler's %s throws", where);
  uint32_t k = sim::draw(2);
  if (k) throw std::runtime_error("the stream handler failed");
  UIMA_EXC_THROW_NEW(SofaDataStreamException, UIMA_ERR_SOFADATASTREAM, ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, "the stream handler failed"),
                     UIMA_MSG_ID_EXCON_SOFADATASTREAM, ErrorInfo::unrecoverable);
}
bool fails(Source *s) { return s && !muted && sim::chance(s->faulty); }

struct Stub : public SofaStreamHandler {
  Source *s = nullptr;
  bool open = false, closed = false;
  size_t pos = 0;
  Stub() { stubs.push_back(this); }
  ~Stub() {
    sim::Harness h;
    for (size_t i = 0; i < stubs.size(); i++) if (stubs[i] == this) stubs.erase(stubs.begin() + (long)i);
    if (s) s->live--;
    if (open) sim::fail("handler-not-closed", "the handler of %s is deleted without closeStream()", s->uri.c_str());
    if (!sim::dso_open_count()) sim::fail("handler-library-unloaded", "the handler is deleted after its library was unloaded");
  }
  void openStream(const char *u) { doOpen(u, 0); }
  void openStream(const char *u, size_t m) { doOpen(u, m); }
  void doOpen(const char *u, size_t m) {
    sim::Harness h;
    for (auto *x : sources) if (x->uri == u) s = x;
    if (!s) sim::fail("wrong-uri", "the handler is asked to open %s", w::show(w::toStr(w::us(u))).c_str());
    s->live++;
    if (open || closed) sim::fail("handler-reopened", "openStream() is called twice on one handler");
    s->minBuf = m;
    if (fails(s)) { s->failedOpens++; boom("openStream"); }
    open = true;
    s->opens++;
  }
  void use(const char *what) { if (!open) sim::fail("handler-used-closed", "%s is called on a handler that is not open", what); }
  INT64 getTotalStreamSize() { sim::Harness h; use("getTotalStreamSize"); if (fails(s)) boom("getTotalStreamSize"); return s->openEnded ? -1 : (INT64)s->data.size(); }
  size_t getBufferSize() { return 16; }
  INT64 howManyAvailable() { sim::Harness h; use("howManyAvailable"); if (fails(s)) boom("howManyAvailable"); return s->openEnded ? -1 : (INT64)(s->data.size() - pos); }
  INT64 getNext(size_t n, void *p) {
    sim::Harness h;
    use("getNext");
    if (fails(s)) {
      if (sim::chance(500)) boom("getNext");
      fault.code = -2 - (long)sim::draw(3);
      sim::fault("handler_getNext_code");
      sim::ev("   getNext returns %ld", fault.code);
      return fault.code;
    }
    size_t left = s->data.size() - pos;
    if (!left && n) return s->zeroAtEnd ? 0 : -1;
    size_t k = std::min(n, left);
    if (k > 1 && sim::chance(s->shortPm)) { k = 1 + sim::skewed((uint32_t)k - 1); sim::fault("handler_short_read"); }
    memcpy(p, s->data.data() + pos, k);
    pos += k;
    sim::ev("   getNext(%zu) returns %zu", n, k);
    return (INT64)k;
  }
  int seek(INT64 off, int origin) {
    sim::Harness h;
    use("seek");
    if (fails(s)) {
      if (sim::chance(500)) boom("seek");
      fault.code = -3;
      sim::fault("handler_seek_code");
      return -3;
    }
    INT64 to = origin == SEEK_SET ? off : origin == SEEK_CUR ? (INT64)pos + off : (INT64)s->data.size() + off;
    if (to < 0 || to > (INT64)s->data.size()) return -1;
    pos = (size_t)to;
    return 0;
  }
  void closeStream() {
    sim::Harness h;
    if (!s || !open) {                 // also for a handler whose openStream() failed
      if (closed) sim::fail("handler-closed-twice", "closeStream() is called twice on one handler");
      closed = true;
      return;
    }
    open = false;
    closed = true;
    s->closes++;
    if (fails(s)) boom("closeStream");
  }
};
SofaStreamHandler *maker() {
  sim::Harness h;
  if (making && making->makeNull && !muted) {
    sim::fault("handler_not_made");
    fault.code = 1;
    if (sim::chance(500)) return nullptr;
    boom("constructor");
  }
  return new Stub;
}

struct Stream {
  SofaDataStream *s = nullptr;
  bool remote = false, open = false;
  Source *src = nullptr;
  Bytes data;                          // local: native order; remote: network order
  int elem = 1;                        // local: the element size of the sofa
  const char *what = "";
  bool badText = false;
  size_t pos = 0;
  Stub *stub = nullptr;
};
template <class F> std::string attempt(F f) {
  fault = Fault();
  try { sim::sut(f); return ""; }
  catch (Exception &e) { return w::excText(e); }
  catch (std::bad_alloc &) { return "bad_alloc"; }
  catch (std::exception &e) { return e.what(); }
}
template <class T> void app(Bytes &b, T v) { b.append((const char *)&v, sizeof v); }
Bytes randomBytes(size_t n) {
  Bytes b(n, 0);
  for (auto &c : b) c = (char)sim::draw(256);
  return b;
}
// a new view with data of some kind: kind 0 text, 1..7 arrays, returns the expected bytes
Stream localSofa(CAS *ini, int n) {
  Stream t;
  CAS *v = sim::sut([&] { return ini->createView(w::us(sim::fmt("local%d", n).c_str())); });
  uint32_t kind = sim::draw(8);
  size_t len = sim::skewed(40);
  const char *names[] = {"text", "int array", "float array", "boolean array", "byte array", "short array", "long array", "double array"};
  t.what = names[kind];
  CAS *maker = sim::chance(500) ? v : ini;
  switch (kind) {
  case 0: {
    w::Domain d;
    w::Str s;
    if (!sim::chance(150)) s = w::genStr(d);
    icu::UnicodeString u = w::us(s);
    sim::sut([&] { v->setDocumentText(u); });
    u.toUTF8String(t.data);
    for (size_t i = 0; i < s.size(); i++) {
      bool hi = s[i] >= 0xd800 && s[i] < 0xdc00, lo = s[i] >= 0xdc00 && s[i] < 0xe000;
      if (hi && i + 1 < s.size() && s[i + 1] >= 0xdc00 && s[i + 1] < 0xe000) i++;
      else if (hi || lo) t.badText = true;
    }
    break;
  }
#define ARR(K, CRE, T, EXPR, SZ) case K: { auto a = sim::sut([&] { return maker->CRE(len); }); \
    for (size_t i = 0; i < len; i++) { T x = (T)(EXPR); sim::sut([&] { a.set(i, x); }); app<T>(t.data, x); } \
    t.elem = SZ; sim::sut([&] { v->setSofaDataArray(a, w::us("x/y")); }); break; }
  ARR(1, createIntArrayFS, int32_t, sim::draw(0xffffffff), 4)
  ARR(2, createFloatArrayFS, float, (float)sim::draw(100000) / 7, 4)
  ARR(3, createBooleanArrayFS, bool, sim::chance(500), 1)
  ARR(4, createByteArrayFS, char, sim::draw(256), 1)
  ARR(5, createShortArrayFS, int16_t, sim::draw(65536), 2)
  ARR(6, createLongArrayFS, int64_t, ((int64_t)sim::draw(0xffffffff) << 32) ^ sim::draw(0xffffffff), 8)
  ARR(7, createDoubleArrayFS, double, (double)sim::draw(0xffffffff) / 11, 8)
  }
  t.s = sim::sut([&] { return v->getSofaDataStream(); });
  if (!t.s) sim::fail("no-stream", "getSofaDataStream() of a sofa with %s data is null", t.what);
  sim::ev("local sofa %d: %s, %zu bytes", n, t.what, t.data.size());
  return t;
}

struct Streams {
  CAS *ini = nullptr;
  std::vector<Stream> st;

  // a failed handler call surfaces; returns whether one failed
  bool failed(const char *what, std::string const &err, bool codeSeen) {
    if (fault.thrown && err.empty()) sim::fail("failure-not-reported", "%s: the handler threw, the caller saw nothing", what);
    if (!fault.thrown && fault.code && err.empty() && !codeSeen) sim::fail("failure-not-reported", "%s: the handler returned %ld, the caller saw nothing", what, fault.code);
    return fault.thrown || fault.code;
  }
  void open(Stream &t) {
    bool arm = sim::chance(60), load = false, sym = false;
    if (t.remote) { load = sim::chance(50); sym = sim::chance(50); }
    making = t.src;
    sim::dso_load_fault = [&](const char *) { return load; };
    sim::dso_sym_fault = [&](const char *) { return sym; };
    size_t m = sim::chance(500) ? 0 : 1 + sim::draw(64);
    int rc = 0;
    if (arm) sim::alloc_arm(sim::draw(6), 0);
    bool was = t.open;
    std::string e = attempt([&] { rc = m ? t.s->open(m) : t.s->open(); });
    sim::alloc_disarm();
    sim::dso_load_fault = nullptr;
    sim::dso_sym_fault = nullptr;
    making = nullptr;
    sim::ev("open of %s%s: %s", t.what, was ? " again" : "", e.empty() ? "done" : "failed");
    bool bad = t.remote && failed("open", e, rc != 0);
    if (!bad && !load && !sym && !arm && !t.badText && (!e.empty() || rc)) sim::fail("open-fails", "opening a stream on a sofa with %s data: %d %s", t.what, rc, e.c_str());
    if ((load || sym) && e.empty() && !rc) sim::fail("failure-not-reported", "the handler's library %s, open() succeeded", load ? "does not load" : "has no makeHandler");
    t.open = e.empty() && !rc;
    t.pos = 0;
    t.stub = nullptr;
    if (t.remote && t.open) {
      if (stubs.empty() || stubs.back()->s != t.src || !stubs.back()->open) sim::fail("open-lies", "open() of %s succeeded without opening a handler", t.src->uri.c_str());
      t.stub = stubs.back();
      if (m && t.src->minBuf != m) sim::fail("open-buffer-size", "open(%zu) asked the handler for a buffer of %zu", m, t.src->minBuf);
    }
    if (t.remote) balance();
  }
  // every handler that was opened is either in use by one stream, or was closed exactly once
  void balance() {
    for (auto *s : sources) {
      int used = 0;
      for (auto &t : st) used += t.src == s && t.open;
      if (s->opens - s->closes != used) sim::fail("handler-not-closed", "%d handlers for %s were opened and %d closed while %d streams are open", s->opens, s->uri.c_str(), s->closes, used);
    }
  }
  void close(Stream &t) {
    bool was = t.open;
    std::string e = attempt([&] { t.s->close(); });
    sim::ev("close of %s: %s", t.what, e.empty() ? "done" : "failed");
    if (t.remote && failed("close", e, false)) {}
    else if (!e.empty()) sim::fail("close-fails", "closing a stream: %s", e.c_str());
    (void)was;
    t.open = false;
    t.stub = nullptr;
    if (t.remote) balance();
  }
  void read(Stream &t) {
    static const int sizes[] = {1, 2, 4, 8, 0, 3, -1};
    int el = sim::chance(t.remote ? 0 : 850) ? t.elem : sizes[sim::weighted({8, 8, 8, 8, 1, 1, 1})];
    size_t avail = t.data.size() - t.pos;
    size_t n = el > 0 && sim::chance(200) ? avail / (size_t)el + sim::draw(2) : sim::skewed(30);
    size_t cap = el > 0 ? (size_t)el * n : n;
    char *buf = (char *)malloc(cap ? cap : 1);
    int got = 0;
    std::string e = attempt([&] { got = t.s->read(buf, el, n); });
    sim::ev("read of %zu elements of %d from %s at %zu of %zu: %s%d", n, el, t.what, t.pos, t.data.size(), e.empty() ? "" : "refused ", got);
    Bytes b(buf, cap);
    free(buf);
    if (!t.open) {
      if (e.empty() && got >= 0 && n) sim::fail("read-closed", "reading from a stream that is not open returned %d", got);
      return;
    }
    if (t.remote && failed("read", e, got < -1)) { t.pos = t.stub->pos; return; }
    bool whole = el == 1 || el == 2 || el == 4 || el == 8;
    if (!whole || (!t.remote && el != t.elem)) {
      if (e.empty() && got >= 0 && (whole || n)) sim::fail("wrong-element-size", "reading %d-byte elements from %s data returned %d", el, t.what, got);
      if (t.remote) t.pos = t.stub->pos;
      return;
    }
    if (!e.empty()) sim::fail("read-refused", "reading %zu elements of %d bytes from %s data with %zu of %zu bytes left: %s", n, el, t.what, avail, t.data.size(), e.c_str());
    size_t want = std::min(n, avail / (size_t)el);
    if (!want) {
      if (got != -1 && !(n == 0 && got == 0)) sim::fail("end-of-data", "reading %zu elements of %d bytes at %zu of %zu returned %d", n, el, t.pos, t.data.size(), got);
      if (t.remote) t.pos = t.stub->pos;
      return;
    }
    if (got != (int)want) sim::fail("elements-read", "reading %zu elements of %d bytes from %s data at %zu of %zu returned %d, expected %zu", n, el, t.what, t.pos, t.data.size(), got, want);
    Bytes exp = t.data.substr(t.pos, want * (size_t)el);
    if (t.remote) for (size_t i = 0; i < want; i++) std::reverse(exp.begin() + (long)(i * (size_t)el), exp.begin() + (long)((i + 1) * (size_t)el));
    if (b.compare(0, exp.size(), exp)) {
      size_t i = 0;
      while (b[i] == exp[i]) i++;
      sim::fail("bytes-differ", "reading %zu elements of %d bytes from %s data at %zu: byte %zu is 0x%02x, expected 0x%02x", want, el, t.what, t.pos, i, (unsigned char)b[i], (unsigned char)exp[i]);
    }
    sim::nontrivial();
    t.pos += want * (size_t)el;
    if (t.remote) t.pos = t.stub->pos;
  }
  void seek(Stream &t) {
    static const int origins[] = {SEEK_SET, SEEK_CUR, SEEK_END, 77};
    int o = origins[sim::weighted({6, 6, 3, 1})];
    int64_t size = (int64_t)t.data.size(), off;
    switch (sim::draw(5)) {
    case 0: off = 0; break;
    case 1: off = (int64_t)sim::draw((uint32_t)size + 1); break;
    case 2: off = -(int64_t)sim::draw((uint32_t)size + 1); break;
    case 3: off = size - (o == SEEK_CUR ? (int64_t)t.pos : 0) + (int64_t)sim::draw(2); break;
    default: off = sim::chance(500) ? (int64_t)1 << 40 : -((int64_t)1 << 40); break;
    }
    int rc = 0;
    std::string e = attempt([&] { rc = t.s->seek(off, o); });
    bool done = e.empty() && rc == 0;
    sim::ev("seek of %s by %lld from %d at %zu of %zu: %s", t.what, (long long)off, o, t.pos, t.data.size(), done ? "done" : "refused");
    if (!t.open) {
      if (done) sim::fail("seek-closed", "seeking in a stream that is not open succeeded");
      return;
    }
    if (t.remote) {
      size_t before = t.pos;
      if (failed("seek", e, rc != 0)) { t.pos = t.stub->pos; return; }
      int64_t to = o == SEEK_SET ? off : o == SEEK_CUR ? (int64_t)before + off : size + off;
      if (o == 77) return t.pos = t.stub->pos, void();
      bool ok = to >= 0 && to <= size;
      if (done != ok) sim::fail("seek-result", "the handler %s to seek by %lld from origin %d, the caller got %d %s", ok ? "was asked" : "refused", (long long)off, o, rc, e.c_str());
      t.pos = t.stub->pos;
      if (ok && (int64_t)t.pos != to) sim::fail("seek-position", "seek by %lld from origin %d moved from %zu to %zu", (long long)off, o, before, t.pos);
      return;
    }
    // local: from the end, the offset may count backwards or (as in stdio) be added
    std::vector<int64_t> cand;
    if (o == SEEK_SET) cand = {off};
    else if (o == SEEK_CUR) cand = {(int64_t)t.pos + off};
    else if (o == SEEK_END) cand = {size - off, size + off};
    bool may = false, must = !cand.empty();
    for (auto c : cand) { bool in = c >= 0 && c <= size; may |= in; must &= in; }
    if (done && !may) sim::fail("seek-outside", "seek by %lld from origin %d at %zu of %lld succeeded", (long long)off, o, t.pos, (long long)size);
    if (!done && must) sim::fail("seek-refused", "seek by %lld from origin %d at %zu of %lld: %d %s", (long long)off, o, t.pos, (long long)size, rc, e.c_str());
    INT64 left = 0;
    e = attempt([&] { left = t.s->howManyBytesAvailable(); });
    if (!e.empty()) sim::fail("available-fails", "howManyBytesAvailable(): %s", e.c_str());
    if (!size) return;
    int64_t now = size - left;
    if (!done) {
      if (now != (int64_t)t.pos) sim::fail("seek-position", "a refused seek moved from %zu to %lld", t.pos, (long long)now);
      return;
    }
    bool hit = false;
    for (auto c : cand) hit |= c == now && c >= 0 && c <= size;
    if (!hit) sim::fail("seek-position", "seek by %lld from origin %d at %zu of %lld moved to %lld", (long long)off, o, t.pos, (long long)size, (long long)now);
    t.pos = (size_t)now;
  }
  void sizes(Stream &t) {
    if (!t.open) {
      if (t.remote) {
        INT64 v = 0;
        std::string e = attempt([&] { v = t.s->getTotalStreamSizeInBytes(); });
        if (e.empty() && v >= 0) sim::fail("size-closed", "the size of a remote stream that is not open is %lld", (long long)v);
      }
      return;
    }
    INT64 total = 0, left = 0;
    std::string e = attempt([&] { total = t.s->getTotalStreamSizeInBytes(); });
    if (!(t.remote && failed("getTotalStreamSizeInBytes", e, false))) {
      if (!e.empty()) sim::fail("size-fails", "getTotalStreamSizeInBytes(): %s", e.c_str());
      bool unknown = t.remote ? t.src->openEnded : t.data.empty();
      if (total != (INT64)t.data.size() && !(unknown && total == -1)) sim::fail("size-differs", "getTotalStreamSizeInBytes() of %zu bytes of %s is %lld", t.data.size(), t.what, (long long)total);
    }
    e = attempt([&] { left = t.s->howManyBytesAvailable(); });
    if (!(t.remote && failed("howManyBytesAvailable", e, false))) {
      if (!e.empty()) sim::fail("size-fails", "howManyBytesAvailable(): %s", e.c_str());
      bool unknown = t.remote ? t.src->openEnded : t.data.empty();
      if (left != (INT64)(t.data.size() - t.pos) && !(unknown && left == -1)) sim::fail("size-differs", "howManyBytesAvailable() at %zu of %zu bytes of %s is %lld", t.pos, t.data.size(), t.what, (long long)left);
    }
    if (!t.remote) {
      const char *p = (const char *)sim::sut([&] { return t.s->getDataPointer(); });
      if (p && t.data.compare(0, std::string::npos, p, t.data.size())) sim::fail("bytes-differ", "getDataPointer() does not point at the data of the %s", t.what);
    }
  }
};
}  // namespace

SIM_SCENARIO(C09, streams, 1) {
  Streams S;
  sources.clear();
  stubs.clear();
  muted = false;
  sim::dso_register("simstream", "makeHandler", (void *)&maker);
  sim::dso_register("simnosym", "something", (void *)&maker);
  sim::sut([] {
    ResourceManager &r = ResourceManager::getInstance();
    r.registerStreamHandlerForURIScheme("sim", "simstream");
    r.registerStreamHandlerForURIScheme("x-other", "simstream");
    r.registerStreamHandlerForURIScheme("nosym", "simnosym");
    r.registerStreamHandlerForURIScheme("gone", "simgone");
  });
  uint32_t page = sim::chance(600) ? 1 + sim::draw(64) : 0;
  S.ini = w::newCas(page, page, page);
  w::World W;
  W.attach(S.ini);
  bool faults = sim::chance(500);
  std::vector<std::unique_ptr<Source>> own;
  uint32_t nl = sim::draw(3), nr = sim::draw(3);
  for (uint32_t i = 0; i < nl; i++) S.st.push_back(localSofa(S.ini, (int)i));
  for (uint32_t i = 0; i < nr; i++) {
    own.emplace_back(new Source);
    Source *s = own.back().get();
    sources.push_back(s);
    s->uri = sim::fmt("%s//h/%d%s", sim::chance(500) ? "sim:" : "x-other:", (int)i, sim::chance(200) ? "/\xc3\xa9\xe2\x82\xac" : sim::chance(200) ? ":8080/a?b=c#d" : "");
    s->data = randomBytes(sim::skewed(120));
    s->openEnded = sim::chance(200);
    s->zeroAtEnd = sim::chance(300);
    s->shortPm = sim::chance(700) ? 100 + sim::draw(800) : 0;
    if (faults) { s->faulty = sim::draw(150); s->makeNull = sim::chance(100); }
    CAS *v = sim::sut([&] { return S.ini->createView(w::us(sim::fmt("remote%d", (int)i).c_str())); });
    icu::UnicodeString u = icu::UnicodeString::fromUTF8(s->uri);
    sim::sut([&] { v->setSofaDataURI(u, w::us("a/b")); });
    uint32_t k = 1 + sim::draw(2);
    for (uint32_t j = 0; j < k; j++) {
      Stream t;
      t.remote = true;
      t.src = s;
      t.data = s->data;
      t.what = "remote";
      t.s = sim::sut([&] { return v->getSofaDataStream(); });
      if (!t.s) sim::fail("no-stream", "getSofaDataStream() of a remote sofa is null");
      S.st.push_back(t);
    }
    sim::ev("remote sofa %s: %zu bytes", s->uri.c_str(), s->data.size());
  }
  // sofas that have no stream or cannot be opened
  {
    CAS *v = sim::sut([&] { return S.ini->createView(w::us("none")); });
    SofaDataStream *n = sim::sut([&] { return v->getSofaDataStream(); });
    if (n) sim::fail("no-stream", "getSofaDataStream() of a sofa without data is not null");
    static const char *bad[] = {"nope:abc", "nocolon", ":x", "gone:x", "nosym:x"};
    const char *u = bad[sim::draw(5)];
    sim::sut([&] { v->setSofaDataURI(w::us(u), w::us("a/b")); });
    n = sim::sut([&] { return v->getSofaDataStream(); });
    std::string e;
    int rc = 0;
    if (n) e = attempt([&] { rc = n->open(); });
    if (n && e.empty() && !rc) sim::fail("open-lies", "opening a stream on the URI %s succeeded", u);
    char c;
    if (n) { e = attempt([&] { rc = n->read(&c, 1, 1); }); if (e.empty() && rc >= 0) sim::fail("read-closed", "reading from the URI %s that could not be opened returned %d", u, rc); }
    if (n) sim::sut([&] { delete n; });
  }
  while (sim::more(40)) {
    sim::Span sp;
    if (S.st.empty()) break;
    Stream &t = sim::pick(S.st);
    if (!t.open && sim::chance(700)) { S.open(t); continue; }
    switch (sim::weighted({12, 5, 3, 1, 1, 2})) {
    case 0: S.read(t); break;
    case 1: S.seek(t); break;
    case 2: S.sizes(t); break;
    case 3: S.close(t); break;
    case 4: S.open(t); break;
    default: sim::ev("the CAS grows"); W.populate(1 + sim::draw(10), false); break;
    }
  }
  for (size_t i = 0; i < S.st.size(); i++) {
    Stream &t = S.st[i];
    if (sim::chance(200)) S.close(t);
    t.open = false;
    sim::ev("delete the stream on %s", t.what);
    std::string e = attempt([&] { delete t.s; });
    if (!e.empty()) sim::fail("delete-throws", "deleting a stream: %s", e.c_str());
    if (t.remote) S.balance();
  }
  for (auto *s : sources) if (s->live) sim::fail("handler-leaked", "%d handlers of %s were never deleted", s->live, s->uri.c_str());
  if (sim::dso_open_count()) sim::fail("handler-library-leaked", "%d handler libraries were never unloaded", sim::dso_open_count());
  sim::sut([&] { delete S.ini->getBaseCas(); });
}
