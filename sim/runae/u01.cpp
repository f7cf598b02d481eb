// U01: the whole command-line runner in one process - main program, instances in threads of their own, engine,
// directories, files - with simulated threads, time, directory reads, file reads and failing outputs.
#include "../core/sim.hpp"
#include "../core/wraps.hpp"
#include "../core/internal.hpp"
#include "../cas/damage.hpp"
#include "../cas/ser.hpp"
#include "../eng/eng.hpp"
#include "uima/xcasdeserializer.hpp"
#include "uima/xmideserializer.hpp"
#include "uima/xmiwriter.hpp"
#include <apr_file_info.h>
#include <cstring>
#include <dirent.h>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
#include <xercesc/framework/MemBufInputSource.hpp>
using namespace sim;
using namespace eng;

int runae_main(int argc, char *argv[]);

namespace {
enum Format { TEXT, XCAS, XMI };
enum OutState { GOOD, NO_FILE, FULL };
struct Plan { Out out, nextOut; uint64_t us = 0; int segments = 0; };
struct Doc {
  int id = 0;
  std::string name, path, bytes;
  w::Str text;
  Plan plan;
  bool openFails = false; int64_t readFails = -1; bool inPieces = false;     // text files
  OutState out = GOOD;
  // what is right
  bool unreadable = false, fatal = false, fails = false; // cannot be opened or read; ends the run; the analysis (or reading the CAS) does
  int reached = 0;                                       // how often the annotator sees it, each time
  std::string want; std::vector<std::string> segs;
};
struct Run {
  Format format = TEXT;
  bool lenient = false, dir = true, random = false, withOut = false;
  std::string in, out, sofa, aeFile;
  int instances = 1, runs = 1, log = -1; long delay = 0;
  std::vector<Doc *> docs;
  bool reference = false;
  AnalysisEngine *refEngine = nullptr;
  std::vector<int> curDoc, segNo;          // by task
  std::vector<std::vector<int>> seen;      // per annotator instance: the documents
  std::vector<int> insts;                  // their instance numbers
  bool multiplier = false;
  bool dirFault = false, dirOpenFault = false; int64_t dirFailAt = -1;
  bool dirFailed = false;
};
Run *G;
bool ended, byExit; int status;

int &at(std::vector<int> &v) {
  size_t t = (size_t)self();
  if (v.size() <= t) v.resize(t + 1, -1);
  return v[t];
}
void tokens(CAS &cas) {
  UnicodeStringRef t = cas.getDocumentText();
  Type tok = cas.getTypeSystem().getType(w::us("ent.Tok")), sub = cas.getTypeSystem().getType(w::us("ent.SubTok"));
  size_t before = cas.getAnnotationIndex(tok).getSize();
  for (int i = 0; i + 1 < t.length() && i < 6; i += 2) cas.getIndexRepository().addFS(cas.createAnnotation(tok, (size_t)i, (size_t)i + 2));
  cas.getIndexRepository().addFS(cas.createAnnotation(sub, before, before + (size_t)t.length()));
}
void annotate(Ann &a, CAS &cas, ResultSpecification const &) {
  int tag = -1;
  sut([&] {
    if (!cas.getSofa().isValid()) return;
    UnicodeStringRef t = cas.getDocumentText();
    std::string s;
    for (int i = 0; i < t.length() && i < 12; i++) s += t.charAt(i) < 128 ? (char)t.charAt(i) : '?';
    if (s.size() > 1 && s[0] == 'R') tag = atoi(s.c_str() + 1);
  });
  at(G->curDoc) = tag;
  at(G->segNo) = 0;
  Plan p;
  for (auto d : G->docs) if (d->id == tag) p = d->plan;
  if (G->reference) {
    for (auto d : G->docs) if (d->id == tag) d->reached++;
  } else {
    size_t k = 0;
    while (k < G->insts.size() && G->insts[k] != a.inst) k++;
    if (k == G->insts.size()) { G->insts.push_back(a.inst); G->seen.push_back({}); }
    G->seen[k].push_back(tag);
    ev("instance %zu gets document %d", k, tag);
    if (p.us) sleep_us(p.us);
  }
  sut([&] { if (cas.getSofa().isValid()) tokens(cas); });
  if (!G->reference && p.us) sleep_us(p.us);
}
Plan planNow() {
  int tag = at(G->curDoc);
  for (auto d : G->docs) if (d->id == tag) return d->plan;
  return Plan();
}
Out decideCall(int, Call c) {
  if (c == C_PROCESS) return planNow().out;
  if (c == C_NEXT) { Plan p = planNow(); return at(G->segNo) + 1 == p.segments ? p.nextOut : Out(); }
  return Out();
}

// ---- what is right for one document --------------------------------------------------------------
std::string xmiOf(CAS &c) { std::ostringstream o; XmiWriter wr(c, true); wr.write(o); return o.str(); }
void expected(Doc *d) {
  G->reference = true;
  d->reached = 0;
  Answer a = call([&]() -> long {
    CAS *cas = G->refEngine->newCAS();
    try {
      if (G->format == TEXT) cas->setDocumentText(UnicodeStringRef((UChar const *)d->text.data(), (int32_t)d->text.size()));
      else {
        xercesc::MemBufInputSource mem((XMLByte const *)d->bytes.data(), d->bytes.size(), "doc");
        if (G->format == XCAS) XCASDeserializer::deserialize(mem, *cas);
        else XmiDeserializer::deserialize(mem, *cas, G->lenient);
      }
      CAS *v = cas;
      std::string s = G->sofa;
      bool named = !s.empty();
      if (!named && cas->isBackwardCompatibleCas()) { named = true; s = CAS::NAME_DEFAULT_TEXT_SOFA; }
      if (named) {
        SofaFS f = cas->getSofa(G->refEngine->getAnnotatorContext().mapToSofaID(s.c_str()));
        if (!f.isValid()) { d->fatal = true; delete cas; return 1; }
        v = cas->getView(f);
      }
      CASIterator it = G->refEngine->processAndOutputNewCASes(*v);
      while (it.hasNext()) {
        CAS &o = it.next();
        d->segs.push_back(xmiOf(o));
        G->refEngine->getAnnotatorContext().releaseCAS(o);
      }
      d->want = xmiOf(*cas);
    } catch (xercesc::XMLException &) { delete cas; return 1; }
    catch (...) { delete cas; throw; }
    delete cas;
    return 0; });
  d->fails = a.how != Answer::RET || a.id != 0;
  if (G->format == TEXT && (d->openFails || d->readFails >= 0)) { d->unreadable = true; d->reached = 0; d->fails = true; d->segs.clear(); }
  if (d->unreadable) d->fatal = true;      // allowed to end the run
  if (G->withOut && d->out != GOOD) { d->fails = true; d->fatal = true; }
  G->reference = false;
}

// ---- files ------------------------------------------------------------------------------------------
std::string slurp(std::string const &p, bool *ok = nullptr) {
  FILE *f = fopen(p.c_str(), "rb");
  if (ok) *ok = f != nullptr;
  std::string s;
  if (!f) return s;
  char b[65536]; size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  return s;
}
void spit(std::string const &p, std::string const &s) {
  FILE *f = fopen(p.c_str(), "wb");
  if (!f) harness_error("cannot write %s", p.c_str());
  fwrite(s.data(), 1, s.size(), f);
  fclose(f);
}
std::vector<std::string> list(std::string const &d) {
  std::vector<std::string> v;
  DIR *h = opendir(d.c_str());
  if (!h) return v;
  while (struct dirent *e = readdir(h)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name);
  closedir(h);
  std::sort(v.begin(), v.end());
  return v;
}
struct Opened { Doc *d; std::string data; size_t pos = 0; };
ssize_t readDoc(void *c, char *b, size_t n) {
  Harness h;
  Opened *o = (Opened *)c;
  yield();
  size_t k = std::min(n, o->data.size() - o->pos);
  if (o->d->inPieces && k > 1) k = 1 + draw((uint32_t)k);
  if (o->d->readFails >= 0 && (int64_t)(o->pos + k) > o->d->readFails) {
    k = (size_t)o->d->readFails - o->pos;
    if (!k) { fault("file_read"); errno = EIO; return -1; }
  }
  memcpy(b, o->data.data() + o->pos, k);
  o->pos += k;
  return (ssize_t)k;
}
int seekDoc(void *c, off64_t *off, int wh) {
  Opened *o = (Opened *)c;
  int64_t p = (wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)o->pos : (int64_t)o->data.size()) + *off;
  if (p < 0 || p > (int64_t)o->data.size()) { errno = EINVAL; return -1; }
  o->pos = (size_t)p; *off = p;
  return 0;
}
int openNow;
int closeDoc(void *c) { delete (Opened *)c; openNow--; return 0; }

// ---- the generator -------------------------------------------------------------------------------
std::string genName(int i) {
  static const char *forms[] = {"doc%d.txt", "doc%d", "%d.a.b.c", "a document %d.xml", ".hidden%d", "d%%s%d.xmi", "trailing%d.", "x%d-_+=,;'()&[]"};
  return fmt(forms[weighted({8, 3, 1, 1, 1, 1, 1, 1})], i);
}
void genContent(Doc *d) {
  w::Domain dom; dom.xmlSafe = true;
  for (char ch : fmt("R%d ", d->id)) d->text += (char16_t)ch;
  d->text += w::genStr(dom);
  if (chance(60)) for (uint32_t k = 1 + skewed(3000); k; k--) d->text += (char16_t)('a' + k % 26);
  if (G->format == TEXT) {
    icu::UnicodeString((UChar const *)d->text.data(), (int32_t)d->text.size()).toUTF8String(d->bytes);
    if (chance(150)) { d->inPieces = true; }
    return;
  }
  CAS *c = w::newCas();
  w::World P;
  P.dom.xmlSafe = true;
  P.attach(c);
  bool initial = chance(850);
  if (initial) P.setText(0, d->text);
  uint32_t nv = initial ? draw(3) : 1 + draw(2);
  for (uint32_t i = 0; i < nv; i++) { int v = P.addView(i ? "viewB" : "viewA"); if (!initial && !i) P.setText(v, d->text); else if (draw(2)) P.setText(v, w::genStr(P.dom)); }
  for (uint32_t i = 0, n = skewed(5); i < n; i++) {
    Span sp;
    int ty = (int)draw(w::T_NUSER), v = (int)draw((uint32_t)P.views.size());
    w::Node *x = P.create(ty, v);
    P.fill(x, 400, true);
    if (chance(700)) P.addToIndex(x, v);
  }
  d->bytes = G->format == XMI ? w::toXmi(c) : w::toXcas(c);
  sut([&] { delete c->getBaseCas(); });
  if (G->format == XMI && chance(200)) {
    size_t p = d->bytes.find("<cas:View");
    if (p != std::string::npos) d->bytes.insert(p, fmt("<ext:Extra xmlns:ext=\"http:///ext.ecore\" xmi:id=\"%d\" tag=\"own\"/>", 900000 + d->id));
  }
  switch (weighted({14, 1, 1})) {
  case 1: d->bytes.resize(draw((uint32_t)d->bytes.size())); break;
  case 2: { w::Feed f; dmg::damage(d->bytes, f); break; }
  }
}
Desc genEngine() {
  Desc d;
  d.name = "run";
  d.lib = (int)draw(NLIB);
  d.outputsCases = G->multiplier;
  Cap c; c.outs.push_back("ent.Tok");
  d.caps.push_back(c);
  if (!G->multiplier && chance(250)) {
    Desc a;
    a.name = "aggregate"; a.primitive = false; a.caps = d.caps;
    a.delegates.push_back({"one", d}); a.flow.push_back("one");
    d = a;
  }
  return d;
}

// ---- the process ------------------------------------------------------------------------------------
void startMain(std::vector<std::string> const &args) {
  auto *a = new std::vector<std::string>(args);
  spawn("runner", [a] {
    std::vector<char *> v;
    for (auto &s : *a) v.push_back((char *)s.c_str());
    v.push_back(nullptr);
    int r = -1;
    std::string esc;
    try { r = sut([&] { return runae_main((int)a->size(), v.data()); }); }
    catch (std::exception &e) { esc = e.what(); }
    catch (xercesc::XMLException &) { esc = "XMLException"; }
    catch (...) { esc = "something"; }
    if (!esc.empty()) fail("crash:uncaught", "an exception leaves main(): %s", esc.c_str());
    if (!ended) { ended = true; status = r & 0xff; ev("the runner ends with %d", r); wake_all(&ended); }
  });
}
struct Quiet : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } } quiet;   // what it tells the user is not judged
void runMain(std::vector<std::string> const &args) {
  std::cout.rdbuf(&quiet); std::cerr.rdbuf(&quiet);
  ended = byExit = false;
  startMain(args);
  uint64_t end = now_us() + 40ull * 3600 * 1000000;
  while (!ended && now_us() < end) block_on(&ended, "end of the runner", (int64_t)(end - now_us()));
  if (!ended) fail("does-not-end", "the runner does not end");
}
std::string outName(Doc *d, int seg) { return G->out + "/" + d->name + (seg ? fmt("_seg_%d", seg) : ""); }

void build(bool failures) {
  G = new Run();
  eng::reset();
  registerLibs();
  eng::onProcess = annotate;
  eng::decide = decideCall;
  eng::onHasNext = [](Ann &) { return at(G->segNo) >= 0 && at(G->segNo) < planNow().segments; };
  eng::onNext = [](Ann &a) -> CAS & {
    CAS *c = &sut([&]() -> CAS & { return a.ctx->getEmptyCAS(); });
    int n = ++at(G->segNo);
    sut([&] { c->setDocumentText(UnicodeStringRef(w::us(fmt("segment %d of %d", n, at(G->curDoc)).c_str()))); tokens(*c); });
    return *c;
  };
  eng::onCasRequired = [](Ann &) { return 1; };
  openNow = 0;
  G->format = (Format)weighted({5, 2, 4});
  G->lenient = chance(300);
  G->dir = chance(800);
  G->multiplier = chance(300);
  if (G->format != TEXT && chance(150)) G->sofa = chance(500) ? "viewA" : "_InitialView";
  G->random = chance(100);
  G->instances = chance(250) ? 2 + (int)draw(2) : 1;
  G->runs = chance(200) ? 2 + (int)draw(2) : 1;
  if (chance(150)) G->delay = 1 + draw(500);
  if (chance(300)) G->log = (int)draw(3);
  std::string S = scratch();
  G->in = S + "/in";
  mkdir(G->in.c_str(), 0755);
  G->withOut = G->instances == 1 && chance(800);
  if (G->withOut) { G->out = S + "/result"; mkdir(G->out.c_str(), 0755); }
  Desc e = genEngine();
  G->aeFile = S + "/engine.xml";
  spit(G->aeFile, eng::xml(e));
  ErrorInfo ei;
  G->reference = true;
  G->refEngine = sut([&] { return Framework::createAnalysisEngine(G->aeFile.c_str(), ei); });
  if (!G->refEngine) harness_error("no reference engine: %s", sut([&] { return ei.asString(); }).c_str());
  G->reference = false;
  uint32_t n = G->dir ? skewed(9) : 1;
  bool anyBad = failures && chance(600);
  for (uint32_t i = 0; i < n; i++) {
    Span sp;
    Doc *d = new Doc();
    d->id = (int)i + 1;
    d->name = genName((int)i + 1);
    d->path = G->in + "/" + d->name;
    genContent(d);
    if (G->multiplier) d->plan.segments = (int)skewed(4);
    if (chance(200)) d->plan.us = draw(2000000);
    if (anyBad) switch (weighted({10, 3, 1, 1, 2})) {
    case 1: d->plan.out = anyFailure(); break;
    case 2: if (d->plan.segments) { d->plan.nextOut = anyFailure(); if (d->plan.nextOut.how == H_CODE) d->plan.nextOut.how = H_STD; } break;
    case 3: if (G->format == TEXT) { if (draw(2)) d->openFails = true; else d->readFails = draw((uint32_t)d->bytes.size() + 1); } break;
    case 4: if (G->withOut) d->out = draw(2) ? NO_FILE : FULL; break;
    }
    if (d->readFails >= (int64_t)d->bytes.size()) d->readFails = -1;
    spit(d->path, d->bytes);
    G->docs.push_back(d);
    expected(d);
    if (d->out == NO_FILE) { mkdir(outName(d, 0).c_str(), 0755); fault("output_not_creatable"); }
    if (d->out == FULL && symlink("/dev/full", outName(d, 0).c_str())) harness_error("symlink");
    if (d->out == FULL) fault("output_disk_full");
    ev("document %d '%s': %zu bytes%s%s, reached %d, %zu segments, %zu bytes out", d->id, d->name.c_str(), d->bytes.size(), d->fails ? ", fails" : "", d->fatal ? ", ends the run" : "", d->reached, d->segs.size(), d->want.size());
  }
  if (G->dir && chance(200)) mkdir((G->in + "/sub").c_str(), 0755);      // no document
  if (G->dir && anyBad && chance(150)) { G->dirFault = true; if (draw(3)) G->dirFailAt = draw(n + 3); else G->dirOpenFault = true; }
  fopen_hook = [](const char *path, const char *mode, FILE **f) {
    if (mode[0] != 'r') return false;
    for (auto d : G->docs) if (d->path == path) {
      if (d->openFails) { fault("file_open"); *f = nullptr; errno = EMFILE; return true; }
      cookie_io_functions_t io = {readDoc, nullptr, seekDoc, closeDoc};
      *f = fopencookie(new Opened{d, d->bytes}, "r", io);
      openNow++;
      return true;
    }
    return false;
  };
}
std::vector<std::string> args() {
  std::vector<std::vector<std::string>> opts;
  if (G->format == XCAS) opts.push_back({chance(500) ? "-x" : "-xcas"});
  if (G->format == XMI) opts.push_back({"-xmi"});
  if (G->lenient) opts.push_back({"-lenient"});
  if (!G->sofa.empty()) opts.push_back({"-s", G->sofa});
  if (G->log >= 0) opts.push_back({"-l", fmt("%d", G->log)});
  if (G->instances > 1) opts.push_back({"-n", fmt("%d", G->instances)});
  if (G->runs > 1) opts.push_back({"-r", fmt("%d", G->runs)});
  if (G->random) opts.push_back({"-rand"});
  if (G->delay) opts.push_back({"-rdelay", fmt("%ld", G->delay)});
  std::vector<std::vector<std::string>> pos = {{G->aeFile}, {G->dir ? G->in + (chance(150) ? "/" : "") : G->docs[0]->path}};
  if (G->withOut) pos.push_back({G->out});
  std::vector<std::string> a = {"runAECpp"};
  while (!opts.empty() || !pos.empty()) {
    if (!pos.empty() && (opts.empty() || draw((uint32_t)(opts.size() + pos.size())) < pos.size())) { a.insert(a.end(), pos[0].begin(), pos[0].end()); pos.erase(pos.begin()); }
    else { size_t k = draw((uint32_t)opts.size()); a.insert(a.end(), opts[k].begin(), opts[k].end()); opts.erase(opts.begin() + (long)k); }
  }
  return a;
}
}  // namespace

extern "C" {
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int st) {
  if (!R.inChild) __real_exit(st);
  Harness h;
  if (!ended) { ended = byExit = true; status = st & 0xff; ev("the runner exits with %d", st); wake_all(&ended); }
  for (;;) block_on(&status, "exited", 3600ll * 1000000);
}
// directories are read in an order of the simulator's choice, and may fail
struct DirState { apr_dir_t *d; std::vector<std::string> names; size_t pos = 0; bool loaded = false; };
static std::vector<DirState *> dirs;
apr_status_t __real_apr_dir_open(apr_dir_t **, const char *, apr_pool_t *);
apr_status_t __real_apr_dir_read(apr_finfo_t *, apr_int32_t, apr_dir_t *);
apr_status_t __real_apr_dir_close(apr_dir_t *);
apr_status_t __wrap_apr_dir_open(apr_dir_t **d, const char *path, apr_pool_t *p) {
  if (!R.inChild || !in_sut()) return __real_apr_dir_open(d, path, p);
  Harness h;
  if (G->dirOpenFault && chance(700)) { fault("directory_open"); G->dirFailed = true; return EMFILE; }
  apr_status_t rv = __real_apr_dir_open(d, path, p);
  if (rv == APR_SUCCESS) { auto *s = new DirState(); s->d = *d; dirs.push_back(s); }
  return rv;
}
apr_status_t __wrap_apr_dir_read(apr_finfo_t *fi, apr_int32_t wanted, apr_dir_t *d) {
  if (!R.inChild) return __real_apr_dir_read(fi, wanted, d);
  Harness h;
  DirState *s = nullptr;
  for (auto x : dirs) if (x->d == d) s = x;
  if (!s) harness_error("a directory that is not open is read");
  yield();
  if (!s->loaded) {
    s->loaded = true;
    apr_finfo_t one;
    std::vector<std::string> v;
    while (__real_apr_dir_read(&one, APR_FINFO_NAME | APR_FINFO_TYPE, d) == APR_SUCCESS) v.push_back(one.name);
    std::sort(v.begin(), v.end());
    while (!v.empty()) { size_t k = draw((uint32_t)v.size()); s->names.push_back(v[k]); v.erase(v.begin() + (long)k); }
  }
  if (G->dirFailAt >= 0 && (int64_t)s->pos == G->dirFailAt) { fault("directory_read"); G->dirFailed = true; return EIO; }
  if (s->pos == s->names.size()) return APR_ENOENT;
  std::string const &n = s->names[s->pos++];
  struct stat st;
  memset(fi, 0, sizeof *fi);
  fi->name = n.c_str();
  fi->filetype = lstat((G->in + "/" + n).c_str(), &st) ? APR_NOFILE : S_ISDIR(st.st_mode) ? APR_DIR : S_ISREG(st.st_mode) ? APR_REG : APR_LNK;
  fi->valid = APR_FINFO_NAME | APR_FINFO_TYPE;
  return APR_SUCCESS;
}
apr_status_t __wrap_apr_dir_close(apr_dir_t *d) {
  if (R.inChild) { Harness h; for (size_t i = 0; i < dirs.size(); i++) if (dirs[i]->d == d) { dirs.erase(dirs.begin() + (long)i); break; } }
  return __real_apr_dir_close(d);
}
}

// ---- documents -------------------------------------------------------------------------------------
static void check(std::vector<std::string> const &before, bool threadFault) {
  bool anyFails = G->dirFailed || threadFault, anyFatal = anyFails;
  for (auto d : G->docs) { anyFails |= d->fails; anyFatal |= d->fatal; }
  if (!anyFails && status) fail("false-failure", "everything succeeds and the exit status is %d", status);
  if (G->random) {                       // which documents is up to chance
    bool someFail = false;
    for (auto &s : G->seen) for (int t : s) for (auto d : G->docs) if (d->id == t && d->fails) someFail = true;
    if (someFail && !status) fail("failure-hidden", "a document failed and the exit status is 0");
  } else if (anyFails && !status && !G->docs.empty()) {
    std::string why = G->dirFailed ? "the directory could not be read" : "";
    for (auto d : G->docs) if (d->fails) why += fmt(" document %d '%s'%s%s%s", d->id, d->name.c_str(), d->unreadable ? " could not be read" : "", d->plan.out.how != H_OK ? " failed in the annotator" : "", d->out != GOOD && G->withOut ? " could not be written" : "");
    fail("failure-hidden", "the exit status is 0, but %s", why.c_str());
  } else if (anyFails && !status && (G->dirFailed || threadFault)) fail("failure-hidden", "the exit status is 0, but the directory could not be read");
  // each document once per run and instance
  if (!status && !G->docs.empty() && !G->random) {
    int want = 0;
    for (auto d : G->docs) want += d->reached;
    if (want && (int)G->seen.size() != G->instances) fail("instances", "%zu of %d instances processed anything", G->seen.size(), G->instances);
  }
  for (size_t k = 0; k < G->seen.size(); k++) {
    if (G->random) {
      size_t total = G->docs.size() * (size_t)G->runs;
      bool allOnce = true;
      for (auto d : G->docs) if (d->reached != 1) allOnce = false;
      if (allOnce && (status ? G->seen[k].size() > total : G->seen[k].size() != total)) fail("count", "instance %zu processes %zu documents instead of %zu", k, G->seen[k].size(), total);
      continue;
    }
    for (auto d : G->docs) {
      int n = 0, want = d->reached * G->runs;
      for (int t : G->seen[k]) n += t == d->id;
      if (n > want) fail("twice", "instance %zu processes document %d '%s' %d times instead of %d", k, d->id, d->name.c_str(), n, want);
      if (n < want && !anyFatal) fail("left-out", "instance %zu processes document %d '%s' %d times instead of %d", k, d->id, d->name.c_str(), n, want);
    }
  }
  size_t all = 0;
  for (auto &s : G->seen) for (int t : s) { all++; if (t < 0) { bool tagless = false; for (auto d : G->docs) if (!d->reached && !d->unreadable) tagless = true; if (!tagless) fail("no-document", "the annotator is called for a CAS that holds none of the documents"); } }
  if (!anyFatal && G->seen.empty()) for (auto d : G->docs) if (d->reached && !G->random) fail("left-out", "no document is processed");
  if (all) nontrivial();
  // results
  if (G->withOut && !(G->random && G->docs.size() > 1)) {
    for (auto d : G->docs) if (!d->fails && (!anyFatal || !status)) {
      for (size_t s = 0; s <= d->segs.size(); s++) {
        bool ok;
        std::string got = slurp(outName(d, (int)s), &ok);
        std::string const &want = s ? d->segs[s - 1] : d->want;
        if (!ok) fail("no-result", "there is no result %s", outName(d, (int)s).c_str());
        if (got != want) {
          size_t i = 0;
          while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
          size_t f = i > 60 ? i - 60 : 0;
          fail("wrong-result", "document %d '%s' segment %zu, at byte %zu: ...%s instead of ...%s", d->id, d->name.c_str(), s, i, got.substr(f, 160).c_str(), want.substr(f, 160).c_str());
        }
      }
    }
    for (auto &f : list(G->out)) {
      bool known = false;
      for (auto d : G->docs) for (int s = 0; s <= 8; s++) known |= G->out + "/" + f == outName(d, s);
      if (!known) fail("stray-result", "the result directory has a file '%s', which is the result of no document", f.c_str());
    }
  }
  if (list(G->in) != before) fail("input-changed", "the input directory has other files than before");
  for (auto d : G->docs) if (slurp(d->path) != d->bytes) fail("input-changed", "document %d is not what it was", d->id);
  if (openNow && !byExit) fail("left-open", "%d input files are still open at the end", openNow);
}
SIM_SCENARIO(U01, documents, 5) {
  build(true);
  set_preemption(draw(4) * 250, 300);
  set_step_budget(30000000);
  std::vector<std::string> before = list(G->in);
  bool threadFault = false;
  uint32_t at = G->instances > 1 && chance(100) ? draw((uint32_t)G->instances) : 99, n = 0;
  if (at != 99) thread_create_fault = [&, at]() mutable { if (n++ == at) { fault("thread_create"); threadFault = true; return true; } return false; };
  runMain(args());
  thread_create_fault = nullptr;
  check(before, threadFault);
  disarm();
}

// ---- calls that cannot work ----------------------------------------------------------------------------
SIM_SCENARIO(U01, refused, 1) {
  build(false);
  std::string S = scratch();
  std::vector<std::string> a = args();
  auto where = [&](std::string const &s) { return std::find(a.begin(), a.end(), s); };
  std::string input = G->dir ? (where(G->in) != a.end() ? G->in : G->in + "/") : G->docs[0]->path;
  static const char *kinds[] = {"no such descriptor", "damaged descriptor", "annotator fails", "library does not load", "no such input", "result is input", "bad option value", "option without value", "two results"};
  int k = (int)draw(9);
  ev("refused: %s", kinds[k]);
  switch (k) {
  case 0: *where(G->aeFile) = S + "/none.xml"; break;
  case 1: { std::string x = slurp(G->aeFile); x.resize(x.size() / 2 + draw((uint32_t)x.size() / 3)); spit(G->aeFile, x); break; }
  case 2: {
    Out o = anyFailure();
    if (chance(500)) { o.how = H_CODE; o.code = 256 * (1 + (long)draw(20)); }
    uint32_t at = draw((uint32_t)G->instances), n = 0;
    Call c = draw(2) ? C_INIT : C_TSINIT;
    eng::decide = [o, at, n, c](int, Call x) mutable { return x == c && n++ == at ? o : Out(); };
    break; }
  case 3: { std::string x = slurp(G->aeFile); size_t p = x.find("simann"); x.replace(p, 7, "nosuchlib"); spit(G->aeFile, x); break; }
  case 4: *where(input) = S + "/nowhere"; break;
  case 5: if (G->withOut) *where(G->out) = input; else if (G->instances == 1) a.push_back(input); else { a.push_back("-l"); a.push_back("7"); } break;
  case 6: { static const char *v[][2] = {{"-n", "0"}, {"-r", "0"}, {"-l", "3"}, {"-l", "-1"}, {"-rdelay", "0"}, {"-n", "x"}}; int i = (int)draw(6); a.push_back(v[i][0]); a.push_back(v[i][1]); break; }
  case 7: { static const char *v[] = {"-s", "-l", "-n", "-r", "-rdelay"}; a.push_back(v[draw(5)]); break; }
  case 8: if (G->withOut) { a.push_back("-n"); a.push_back("2"); } else { a = {"runAECpp", G->aeFile}; } break;
  }
  nontrivial();
  runMain(a);
  if (!status) fail("failure-hidden", "the call cannot work (%s) and the exit status is 0", kinds[k]);
  if (!G->seen.empty()) fail("processed", "the call cannot work (%s) and documents are processed", kinds[k]);
  if (G->withOut) for (auto &f : list(G->out)) fail("stray-result", "the call cannot work (%s) and leaves a result %s", kinds[k], f.c_str());
  disarm();
}
