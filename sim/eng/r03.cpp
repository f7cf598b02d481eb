// R03: the resource manager. Several generations of create, concurrent use and delete, with failing creations, in
// random environments (log file, stream handlers, directories), against a model of what is registered.
#include "eng.hpp"
#include "../cas/ser.hpp"
#include "../core/wraps.hpp"
#include <uima/log.hpp>
#include <uima/resmgr.hpp>
#include <uima/res_abase.hpp>
#include <uima/dllfile.hpp>
#include <uima/sofastreamhandler.hpp>
#include <map>
#include <set>
#include <stdexcept>
#include <unistd.h>
#include <sys/mman.h>
using namespace uima;

namespace {
int generation;

// ---- resources ------------------------------------------------------------------
struct Res;
struct ResEvent { std::string key; int gen; };
std::vector<Res *> *resources;      // that exist
int resMade, resGone, deinits;
uint32_t resFailPm;
struct Res : ResourceABase {
  int gen;
  bool ready = false;
  Res(icu::UnicodeString const &k, icu::UnicodeString const &kind) : ResourceABase(k, kind), gen(generation) { resources->push_back(this); resMade++; }
  ~Res() {
    sim::Harness h;
    for (size_t i = 0; i < resources->size(); i++) if ((*resources)[i] == this) { resources->erase(resources->begin() + i); break; }
    resGone++;
  }
  void init(ErrorInfo &ei) override {
    sim::Harness h;
    sim::yield();
    if (sim::chance(300)) sim::sleep_us(1 + sim::draw(2000));
    if (sim::chance(resFailPm)) {
      sim::fault("resource_init_failure");
      ei.setErrorId(UIMA_ERR_RESMGR_COULD_NOT_LOAD_RESOURCE);
      return;
    }
    ready = true;
  }
  void deInit() override { if (ready) deinits++; ready = false; }
};
struct Factory : ResourceFactoryABase {
  Factory(const char *kind) : ResourceFactoryABase(kind) {}
  ResourceABase *createResource(icu::UnicodeString const &k) const override { return new Res(k, getKind()); }
};

// ---- a logger ---------------------------------------------------------------------
struct Rec : Logger {
  std::vector<std::string> got;
  void log(LogStream::EnEntryType, std::string, std::string, std::string text, long) override {
    sim::Harness h;
    got.push_back(text);
    sim::yield();
  }
};

// ---- the log file -------------------------------------------------------------------
std::string *logData;
bool logOpen, logOpenFails;
ssize_t logWrite(void *, const char *b, size_t n) { logData->append(b, n); return (ssize_t)n; }
int logClose(void *) { logOpen = false; return 0; }

// ---- a stream handler -----------------------------------------------------------------
struct Handler : SofaStreamHandler {
  int pos = 0;
  void openStream(const char *) { pos = 0; }
  void openStream(const char *, size_t) { pos = 0; }
  INT64 getTotalStreamSize() { return 5; }
  size_t getBufferSize() { return 1; }
  INT64 howManyAvailable() { return 5 - pos; }
  INT64 getNext(size_t n, void *p) {
    size_t k = std::min(n, (size_t)(5 - pos));
    memcpy(p, "hello" + pos, k);
    pos += (int)k;
    return k ? (INT64)k : SOFASTREAMHANDLER_EOF;
  }
  int seek(INT64, int) { return 0; }
  void closeStream() {}
  void *getDataPointer() { return nullptr; }
};
SofaStreamHandler *newHandler() { return new Handler(); }

struct Env {
  std::string log, handlers, data, work;
  bool dup = false;
  std::map<std::string, std::string> schemes;
};
std::string strictName(const char *dir) { return util::Location(dir).getAsCString(); }
// the system places the environment anywhere: low or high within its 4 GB
void set(const char *n, std::string const &v, bool present) {
  unsetenv(n);
  if (!present) return;
  static char *area[2];
  static size_t used[2];
  int k = (int)sim::draw(2);
  if (!area[k]) {
    area[k] = (char *)mmap((void *)(k ? 0x2ac0c0000000ull : 0x2ac040000000ull), 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    if (area[k] == MAP_FAILED) sim::harness_error("no memory for the environment");
  }
  std::string e = std::string(n) + "=" + v;
  char *p = area[k] + used[k];
  memcpy(p, e.c_str(), e.size() + 1);
  used[k] += e.size() + 1;
  putenv(p);
}
Env randomEnv() {
  Env e;
  if (sim::chance(500)) e.log = "uima.log";
  if (sim::chance(400)) { e.data = sim::chance(500) ? "d1" : "some/other"; }
  if (sim::chance(400)) { e.work = sim::chance(500) ? "w1" : "/tmp/nowhere at all"; }
  bool hs = sim::chance(600);
  if (hs) {
    static const char *sch[] = {"file", "http", "x-odd", "simx"};
    static const char *lib[] = {"simhandler", "otherhandler", "dir/h.so"};
    static const char *sep[] = {" ", "  ", "   "};
    if (sim::chance(200)) e.handlers += sep[sim::draw(3)];
    uint32_t n = sim::draw(4);
    for (uint32_t i = 0; i < n; i++) {
      std::string s = sch[sim::draw(4)], l = lib[sim::draw(3)];
      if (i) e.handlers += sep[sim::draw(3)];
      e.handlers += s + ":" + l;
      if (e.schemes.count(s)) e.dup = true;
      else e.schemes[s] = l;
    }
    if (sim::chance(200)) e.handlers += sep[sim::draw(3)];
    // malformed rests
    if (!e.dup && sim::chance(150)) { e.handlers += " nocolon"; sim::fault("malformed_handler_list"); }
    else if (!e.dup && sim::chance(50)) { e.handlers += " empty:"; sim::fault("malformed_handler_list"); }
  }
  set("UIMACPP_LOGFILE", e.log, !e.log.empty());
  set("UIMACPP_DATAPATH", e.data, !e.data.empty());
  set("UIMACPP_WORKPATH", e.work, !e.work.empty());
  set("UIMACPP_STREAMHANDLERS", e.handlers, hs);
  sim::ev("log=%s data=%s work=%s handlers=%s", e.log.c_str(), e.data.c_str(), e.work.c_str(), hs ? ("\"" + e.handlers + "\"").c_str() : "-");
  return e;
}

// ---- does everything work? ---------------------------------------------------------------
// an engine made, a document processed, written and read back: what the user sees of it
std::string tour(int lib, bool stream) {
  std::string out;
  eng::Desc d;
  d.name = "tour";
  d.lib = lib;
  eng::Param p;
  p.name = "greeting"; p.hasValue = true; p.value = "hello";
  d.params.push_back(p);
  ErrorInfo ei;
  eng::Answer a;
  AnalysisEngine *e = eng::create(d, 1, ei, a);
  if (!e) return "no engine: " + ei.asString() + " " + eng::show(a);
  CAS *c = sim::sut([&] { return e->newCAS(); });
  w::guarded("tour", [&] {
    c->setDocumentText(w::sref(u"a short document"));
    Type t = c->getTypeSystem().getType("ent.Tok");
    if (!t.isValid()) sim::fail("type-missing", "the engine's type system has no type ent.Tok");
    for (int i = 0; i < 3; i++) {
      AnnotationFS f = c->createAnnotation(t, i, i + 2);
      c->getIndexRepository().addFS(f);
    }
  });
  eng::Answer r = eng::call([&] { return (long)((AnalysisEngine *)e)->process(*c); });
  out += eng::show(r) + "\n";
  out += w::toXmi(c);
  if (stream) {
    w::guarded("remote sofa", [&] {
      CAS *v = c->createView("remote");
      v->setSofaDataURI("simx://x", "text/plain");
      SofaDataStream *s = v->getSofaDataStream();
      if (!s) { out += "no stream"; return; }
      s->open();
      char b[8] = {0};
      s->read(b, 1, 5);
      out += b;
      s->close();
      delete s;
    });
  }
  sim::sut([&] { delete c; delete e; });
  return out;
}

struct Model {
  std::vector<util::DllProcLoaderFile *> libs;               // by name index
  std::vector<std::pair<std::string, ResourceABase const *>> res;  // kind/key -> instance
};
Model *model;
ResourceManager *theOne;
const char *libNames[] = {"simann0", "simann1", "simann2", "./simann3", "lib/simann4.so", "simann5.so", "absent"};

void sameManager(const char *what, ResourceManager *m) {
  if (m != theOne) sim::fail("another-manager", "%s returned a resource manager at another address than the one that exists", what);
}
void useManager(uint32_t mean, bool loadFaults) {
  while (sim::more(mean)) {
    sim::Span span;
    switch (sim::draw(8)) {
      case 0: sameManager("getInstance", sim::sut([] { return &ResourceManager::getInstance(); })); break;
      case 1: sameManager("createInstance", sim::sut([] { return &ResourceManager::createInstance("again"); })); break;
      case 2: {
        if (!sim::sut([] { return ResourceManager::hasInstance(); })) sim::fail("not-there", "hasInstance is false while the resource manager exists");
        break;
      }
      case 3: case 4: {
        uint32_t i = sim::draw(7);
        util::DllProcLoaderFile *f = nullptr;
        std::string err;
        try { f = sim::sut([&] { return theOne->requestAnnotatorFile(util::Filename(libNames[i])); }); }
        catch (Exception &e) { err = w::excText(e); }
        sim::ev("annotator file %s: %s", libNames[i], f ? "there" : "refused");
        if (!f) {
          if (i != 6 && !loadFaults) sim::fail("resource-refused", "annotator file %s could not be obtained: %s", libNames[i], err.c_str());
          break;
        }
        if (i == 6) sim::fail("absent-file-found", "an annotator file that does not exist was obtained");
        if (!model->libs[i]) model->libs[i] = f;
        else if (model->libs[i] != f) sim::fail("another-instance", "annotator file %s is another instance than before", libNames[i]);
        if (!sim::sut([&] { return f->getProcedure("makeAE"); }) && !loadFaults) sim::fail("resource-useless", "annotator file %s has no makeAE", libNames[i]);
        break;
      }
      case 5: case 6: {
        static const char *kinds[] = {"dict", "stop", "Dict"};
        static Factory *fac[] = {new Factory("dict"), new Factory("stop"), new Factory("Dict")};
        static const char *keys[] = {"en", "EN", "en.dat", "e", "en ", "x/en"};
        uint32_t k = sim::chance(900) ? sim::draw(2) : 2;
        const char *key = keys[sim::draw(6)];
        bool byKind = k < 2 && sim::chance(400);
        std::string id = sim::fmt("%s/%s", kinds[k], key);
        ErrorInfo ei;
        ResourceABase const *r = sim::sut([&] {
          icu::UnicodeString ks(key);
          return byKind ? theOne->getResource(ks, icu::UnicodeString(kinds[k]), ei) : theOne->getResource(ks, *fac[k], ei);
        });
        sim::ev("resource %s: %s", id.c_str(), r ? "there" : "refused");
        if (!r) {
          if (ei.getErrorId() == UIMA_ERR_NONE) sim::fail("silent-refusal", "no resource %s and no error", id.c_str());
          if (!resFailPm) sim::fail("resource-refused", "resource %s could not be obtained: error %ld", id.c_str(), (long)ei.getErrorId());
          break;
        }
        bool live = false;
        for (auto x : *resources) live |= x == r;
        if (!live) sim::fail("dead-resource", "the resource %s obtained does not exist any more", id.c_str());
        if (((Res *)r)->gen != generation) sim::fail("old-resource", "the resource %s obtained is one of a former resource manager", id.c_str());
        std::string has = sim::sut([&] { return UnicodeStringRef(r->getKind()).asUTF8() + "/" + UnicodeStringRef(r->getKey()).asUTF8(); });
        if (has != id) sim::fail("wrong-resource", "asked for resource %s, got %s", id.c_str(), has.c_str());
        bool known = false;
        for (auto &x : model->res)
          if (x.first == id) { known = true; if (x.second != r) sim::fail("another-instance", "resource %s is another instance than before", id.c_str()); }
        if (!known) model->res.push_back({id, r});
        break;
      }
      case 7: sim::sut([] { ResourceManager::getInstance().getLogger().logMessage("from a user"); }); break;
    }
  }
}
}  // namespace

SIM_SCENARIO(R03, lifetimes, 1) {
  eng::reset();
  eng::registerLibs();
  sim::dso_register("simhandler", "makeHandler", (void *)&newHandler);
  static const char *libOf[] = {"simhandler", "otherhandler", "h"};
  for (int i = 1; i < 3; i++) sim::dso_register(libOf[i], "makeHandler", (void *)&newHandler);
  resources = new std::vector<Res *>();
  resMade = resGone = deinits = 0;
  logData = new std::string();
  generation = 0;
  sim::set_preemption(sim::draw(3) * 300, 60);
  sim::set_store_preemption(sim::draw(3) * 250);
  std::string want;
  if (sim::chance(500)) want = tour(0, false);
  bool haveWant = !want.empty();
  // the manager the process was started with goes first
  sim::sut([] { ResourceManager::deleteInstance(); });
  if (ResourceManager::hasInstance()) sim::fail("not-deleted", "hasInstance is true after deleteInstance");
  sim::fopen_hook = [](const char *path, const char *mode, FILE **f) {
    if (strcmp(path, "uima.log")) return false;
    if (logOpenFails) { sim::fault("open_failure"); errno = EACCES; *f = nullptr; return true; }
    cookie_io_functions_t io = {nullptr, logWrite, nullptr, logClose};
    *f = fopencookie(nullptr, "a", io);
    logOpen = true;
    return true;
  };
  Factory dictFac("dict"), stopFac("stop");
  uint32_t ngen = 1 + sim::draw(4);
  for (generation = 1; generation <= (int)ngen; generation++) {
    sim::Span span;
    Env env = randomEnv();
    logData->clear();
    logOpenFails = !env.log.empty() && sim::chance(300);
    theOne = nullptr;
    model = new Model();
    model->libs.resize(7);
    // creation, possibly by several tasks at once, possibly failing
    for (int attempt = 0;; attempt++) {
      uint32_t n = 1 + sim::skewed(3);
      std::vector<ResourceManager *> got(n, nullptr);
      std::vector<std::string> why(n);
      std::vector<int> ts;
      bool alloc = attempt == 0 && n == 1 && sim::chance(200);
      if (alloc) sim::alloc_arm(sim::draw(60));
      bool mayFail = alloc || logOpenFails || env.dup;
      auto create = [&](uint32_t i) {
        try {
          ResourceManager *m = sim::sut([] { return &ResourceManager::createInstance("sim"); });
          got[i] = m;
          // whoever has it can use it at once
          sim::sut([&] { m->getLogger().logMessage("hello"); });
        }
        catch (Exception &e) { why[i] = "uima: " + w::excText(e); }
        catch (std::bad_alloc &) { why[i] = "bad_alloc"; }
        catch (std::exception &e) { why[i] = e.what(); }
      };
      // and whoever sees it through hasInstance, too
      int watcher = -1;
      if (sim::chance(200)) watcher = sim::spawn("watcher", [&] {
        for (int i = 0; i < 200 && !sim::sut([] { return ResourceManager::hasInstance(); }); i++) sim::sleep_us(1);
        if (!mayFail && sim::sut([] { return ResourceManager::hasInstance(); })) sim::sut([] { ResourceManager::getInstance().getLogger().logMessage("seen"); });
      });
      if (n == 1) create(0);
      else {
        for (uint32_t i = 0; i < n; i++) ts.push_back(sim::spawn(sim::fmt("create%u", i), [&, i] { create(i); }));
        for (int t : ts) sim::join(t);
      }
      if (alloc && sim::alloc_disarm()) sim::fault("allocation_failure");
      if (watcher >= 0) sim::join(watcher);
      for (uint32_t i = 0; i < n; i++) {
        if (!got[i]) {
          if (!mayFail) sim::fail("creation-fails", "the resource manager cannot be created: %s", why[i].c_str());
          continue;
        }
        if (!theOne) theOne = got[i];
        sameManager("createInstance", got[i]);
      }
      if (theOne) break;
      sim::ev("creation failed: %s", why[0].c_str());
      sim::count("probe.creation_failed");
      // the cause is removed, and it must work
      if (sim::chance(200)) sim::sut([] { ResourceManager::deleteInstance(); });
      logOpenFails = false;
      if (env.dup) { unsetenv("UIMACPP_STREAMHANDLERS"); env.dup = false; env.schemes.clear(); env.handlers.clear(); }
    }
    sim::nontrivial();
    ResourceManager &rm = *theOne;
    // as configured, and nothing left of a former one
    if (rm.getLastErrorId() != UIMA_ERR_NONE) sim::fail("error-state", "a new resource manager reports error %ld", (long)rm.getLastErrorId());
    if (!env.log.empty() && !logOpen) sim::fail("no-log-file", "the log file is not open");
    if (rm.getLoggers().size() != (env.log.empty() ? 0u : 1u)) sim::fail("wrong-loggers", "a new resource manager has %zu loggers", rm.getLoggers().size());
    if (rm.getLoggingLevel() != LogStream::EnMessage) sim::fail("wrong-level", "a new resource manager has logging level %d", (int)rm.getLoggingLevel());
    std::string dataDir = env.data.empty() ? "./" : env.data + "/", workDir = env.work.empty() ? (getenv("TMP") ? std::string(getenv("TMP")) + "/" : "./") : env.work + "/";
    auto checkDirs = [&] {
      if (dataDir != rm.getLocationData().getAsCString()) sim::fail("wrong-directory", "the data directory is \"%s\" instead of \"%s\"", rm.getLocationData().getAsCString(), dataDir.c_str());
      if (workDir != rm.getLocationWork().getAsCString()) sim::fail("wrong-directory", "the work directory is \"%s\" instead of \"%s\"", rm.getLocationWork().getAsCString(), workDir.c_str());
    };
    checkDirs();
    auto checkSchemes = [&] {
      static const char *sch[] = {"file", "http", "x-odd", "simx", "none"};
      for (auto s : sch) {
        util::Filename const *f = sim::sut([&] { return rm.getStreamHandlerForURIScheme(s); });
        auto it = env.schemes.find(s);
        if (it == env.schemes.end() ? f != nullptr : (!f || it->second != f->getAsCString()))
          sim::fail("wrong-handler", "the handler for scheme %s is \"%s\"; the environment names \"%s\"", s, f ? f->getAsCString() : "-", it == env.schemes.end() ? "-" : it->second.c_str());
      }
    };
    checkSchemes();
    // what is registered stays
    LogStream::EnEntryType level = LogStream::EnMessage;
    bool validate = rm.doSchemaValidation();
    if (!validate) sim::fail("wrong-validation", "a new resource manager does not validate");
    Rec *rec = new Rec();
    bool hasRec = sim::chance(600);
    if (hasRec) sim::sut([&] { rm.registerLogger(rec); });
    if (sim::chance(400)) { dataDir = "newdata/"; sim::sut([&] { rm.setNewLocationData(util::Location("newdata")); }); }
    if (sim::chance(400)) { workDir = "newwork/"; sim::sut([&] { rm.setNewLocationWork(util::Location("newwork")); }); }
    if (sim::chance(400)) { level = (LogStream::EnEntryType)sim::draw(3); rm.setLoggingLevel(level); }
    if (sim::chance(300)) { validate = false; rm.enableSchemaValidation(false); }
    sim::sut([&] { rm.registerFactory("dict", dictFac); rm.registerFactory("stop", stopFac); });
    resFailPm = sim::chance(400) ? 300 : 0;
    bool loadFaults = sim::chance(300);
    if (loadFaults) sim::dso_load_fault = [](const char *) { return sim::chance(300); };
    uint32_t n = 1 + sim::draw(3), mean = 2 + sim::skewed(14);
    std::vector<int> ts;
    for (uint32_t i = 0; i < n; i++) ts.push_back(sim::spawn(sim::fmt("u%u", i), [&] { useManager(mean, loadFaults); }));
    for (int t : ts) sim::join(t);
    sim::dso_load_fault = nullptr;
    resFailPm = 0;
    { size_t live = 0; for (auto r : *resources) { live++; if (!r->ready) sim::fail("unready-resource", "a resource whose initialisation failed still exists"); } 
      if (live != model->res.size()) sim::fail("duplicate-resource", "%zu resources exist; %zu different ones were obtained", live, model->res.size()); }
    useManager(3, false);
    checkDirs();
    checkSchemes();
    if (rm.getLoggingLevel() != level) sim::fail("level-not-kept", "the level was set to %d and is %d", (int)level, (int)rm.getLoggingLevel());
    if (rm.doSchemaValidation() != validate) sim::fail("validation-not-kept", "schema validation was set to %d and is not any more", (int)validate);
    if (hasRec) {
      size_t before = rec->got.size();
      sim::sut([&] { rm.getLogger().logError("for the record"); });
      if (rec->got.size() != before + 1) sim::fail("logger-lost", "a registered logger got %zu of 1 messages", rec->got.size() - before);
    }
    if (!env.log.empty() && sim::chance(500)) {
      sim::sut([&] { rm.getLogger().logError("for the file"); });
      if (logData->find("for the file\n") == std::string::npos) sim::fail("logger-lost", "the log file did not get a message");
    }
    // everything works as ever
    if (sim::chance(600)) {
      bool stream = env.schemes.count("simx");
      std::string t = tour(0, stream);
      if (stream) {
        if (t.size() < 5 || t.substr(t.size() - 5) != "hello") sim::fail("stream-fails", "a remote sofa could not be read: %s", t.substr(t.size() > 60 ? t.size() - 60 : 0).c_str());
        t.resize(t.size() - 5);
      }
      if (!haveWant) { want = t; haveWant = true; }
      if (t != want) sim::fail("works-differently", "after %d re-creations a document is processed to %s instead of %s", generation, t.substr(0, 300).c_str(), want.substr(0, 300).c_str());
      sim::count("probe.tours");
    }
    if (sim::chance(300)) sim::sut([&] { rm.deRegisterFactory("dict", dictFac); });
    size_t logged = rec->got.size();
    int made = resMade - resGone, di = deinits;
    // deleted, possibly by several
    uint32_t nd = 1 + sim::skewed(2);
    if (nd == 1) sim::sut([] { ResourceManager::deleteInstance(); });
    else {
      std::vector<int> ds;
      for (uint32_t i = 0; i < nd; i++) ds.push_back(sim::spawn(sim::fmt("delete%u", i), [] { sim::sut([] { ResourceManager::deleteInstance(); }); }));
      for (int t : ds) sim::join(t);
    }
    if (sim::sut([] { return ResourceManager::hasInstance(); })) sim::fail("not-deleted", "hasInstance is true after deleteInstance");
    if (!resources->empty()) sim::fail("resource-survives", "%zu resources outlive the resource manager", resources->size());
    if (deinits - di != made) sim::fail("no-deinit", "%d of %d resources were released with deInit", deinits - di, made);
    if (sim::dso_open_count()) sim::fail("library-survives", "%d libraries are still loaded after the resource manager was deleted", sim::dso_open_count());
    if (logOpen) sim::fail("log-file-survives", "the log file is still open after the resource manager was deleted");
    (void)logged;
    delete rec;
  }
  sim::fopen_hook = nullptr;
}
