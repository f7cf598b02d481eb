// E04: configuration parameters. Trees of engines whose parameters are typed, multi-valued, grouped, restricted and
// overridden by the aggregates around them; every context is asked for values in every way, values are assigned
// (rightly, with the wrong type, to unknown groups, while allocations fail), engines are reconfigured; several engines
// live at once and are used by tasks of their own. What a context answers is compared with the rules.
#include "cfg.hpp"
#include <memory>
#include <set>
using namespace uima;
using namespace eng;
using cfg::Cfg; using cfg::Node; using cfg::Found; using cfg::Value; using cfg::Shape; using cfg::gen; using cfg::genShape; using cfg::genValue; using cfg::groupPool;
using cfg::BOOLEAN; using cfg::INTEGER; using cfg::FLOAT; using cfg::STRING;

namespace {
struct Ctx : Node {
  Desc desc;
  std::vector<std::unique_ptr<Ctx>> kids;
  AnnotatorContext *ctx = nullptr;
  int path = 0;
};
struct Tree {
  Shape shape;
  std::unique_ptr<Ctx> top;
  std::vector<Ctx *> all;
  AnalysisEngine *e = nullptr;
  std::vector<AnalysisEngineDescription *> keep;
  int lib0 = 0;
  bool faults = false, write = false;
};
icu::UnicodeString U(std::string const &s) { return icu::UnicodeString::fromUTF8(s); }
std::string S(icu::UnicodeString const &u) { return UnicodeStringRef(u).asUTF8(); }

// generates the tree; leaves use libraries lib, lib+1 ...
std::unique_ptr<Ctx> grow(Tree &t, Ctx *parent, std::string const &key, int depth, int &lib, int libEnd) {
  std::unique_ptr<Ctx> n(new Ctx());
  n->parent = parent; n->key = key;
  n->desc.name = key.empty() ? "top" : key;
  n->desc.primitive = depth >= 3 || lib + 1 >= libEnd || sim::chance(depth == 0 ? 250 : 500);
  std::vector<std::string> keys;
  t.all.push_back(n.get());
  if (n->desc.primitive) n->desc.lib = lib++;
  else {
    uint32_t k = 1 + sim::draw(2);
    for (uint32_t i = 0; i < k && lib < libEnd; i++) {
      keys.push_back(sim::fmt("k%u", i));
      n->kids.push_back(grow(t, n.get(), keys.back(), depth + 1, lib, libEnd));
    }
  }
  n->cfg = gen(t.shape, keys);
  n->desc.config = cfg::xml(n->cfg);
  for (size_t i = 0; i < keys.size(); i++) { n->desc.delegates.push_back({keys[i], n->kids[i]->desc}); n->desc.flow.push_back(keys[i]); }
  return n;
}
std::string where(Ctx const &n) {
  std::string s;
  for (Node const *p = &n; p; p = p->parent) s = (p->key.empty() ? "top" : p->key) + (s.empty() ? "" : "/" + s);
  return s;
}
// asks in one of the ways there are; the variable keeps what it held if there is nothing to get
enum Variant { AS_IS, AS_SIZE, AS_BYTES };
Found ask(AnnotatorContext &c, std::string const *group, std::string const &name, cfg::Type t, bool multi, int variant, std::string *touched) {
  Found f;
  f.v.type = t; f.v.multi = multi;
  icu::UnicodeString g = group ? U(*group) : icu::UnicodeString(), n = U(name);
  long id = -1;
  auto get = [&](auto &v) { return (long)(group ? c.extractValue(g, n, v) : c.extractValue(n, v)); };
  auto run = [&](std::function<long()> h) {
    Answer a = call(h);
    if (a.how == Answer::RET) id = a.id;
    else if (a.how != Answer::UIMA) sim::fail("undocumented-exception", "extractValue %s", eng::show(a).c_str());
    else id = -1;
    return a.how == Answer::RET && a.id == UIMA_ERR_NONE;
  };
  auto &out = f.v.vals;
  if (t == BOOLEAN && !multi) { bool b = true; if (run([&] { return get(b); })) out.push_back(b ? "true" : "false"); else if (!b) *touched = "bool"; }
  else if (t == BOOLEAN) {
    std::vector<bool> v(7, true);
    if (run([&] { return get(v); })) for (bool b : v) out.push_back(b ? "true" : "false");
    else if (v.size() != 7) *touched = "vector<bool>";
  } else if (t == INTEGER && !multi && variant == AS_SIZE) {
    size_t v = 7777; if (run([&] { return get(v); })) out.push_back(sim::fmt("%d", (int)v)); else if (v != 7777) *touched = "size_t";
  } else if (t == INTEGER && !multi) { int v = 7777; if (run([&] { return get(v); })) out.push_back(sim::fmt("%d", v)); else if (v != 7777) *touched = "int"; }
  else if (t == INTEGER) {
    std::vector<int> v(7, 7);
    if (run([&] { return get(v); })) for (int x : v) out.push_back(sim::fmt("%d", x));
    else if (v.size() != 7) *touched = "vector<int>";
  } else if (t == FLOAT && !multi) { float v = 7.5f; if (run([&] { return get(v); })) out.push_back(sim::fmt("%.9g", v)); else if (v != 7.5f) *touched = "float"; }
  else if (t == FLOAT) {
    std::vector<float> v(7, 7.f);
    if (run([&] { return get(v); })) for (float x : v) out.push_back(sim::fmt("%.9g", x));
    else if (v.size() != 7) *touched = "vector<float>";
  } else if (!multi && variant == AS_BYTES) {
    std::string v = "old"; if (run([&] { return get(v); })) out.push_back(v); else if (v != "old") *touched = "string";
  } else if (!multi) { icu::UnicodeString v("old"); if (run([&] { return get(v); })) out.push_back(S(v)); else if (S(v) != "old") *touched = "UnicodeString"; }
  else if (variant == AS_BYTES) {
    std::vector<std::string *> v;
    if (run([&] { return get(v); })) for (auto x : v) out.push_back(*x);
    else if (!v.empty()) *touched = "vector<string*>";
    sim::sut([&] { c.release(v); });
  } else {
    std::vector<icu::UnicodeString> v(7, icu::UnicodeString("old"));
    if (run([&] { return get(v); })) for (auto &x : v) out.push_back(S(x));
    else if (v.size() != 7) *touched = "vector<UnicodeString>";
  }
  if (id == UIMA_ERR_NONE) f.how = Found::VALUE;
  else if (id == UIMA_ERR_CONFIG_NAME_VALUE_PAIR_NOT_FOUND) f.how = Found::NONE;
  return f;
}
const char *hows[] = {"the request is refused", "there is no value", "the value is "};
std::string text(Found const &f) { return hows[f.how] + (f.how == Found::VALUE ? cfg::show(f.v) : ""); }
std::string what(Ctx const &n, std::string const *g, std::string const &p) { return where(n) + ", parameter " + p + (g ? " in group " + *g : std::string()); }

void check(Ctx &n, std::string const *group, std::string const &name, cfg::Type t, bool multi) {
  if (!n.ctx) return;
  Found want = cfg::find(n, group, name);
  // a value of another type or multiplicity than the caller's variable is not given
  if (want.how == Found::VALUE && (want.v.type != t || want.v.multi != multi)) want.how = Found::REFUSED;
  std::string touched;
  int variant = (int)sim::draw(3);
  Found got = ask(*n.ctx, group, name, t, multi, variant, &touched);
  sim::count("values asked for");
  // an array without entries is of any type
  if (want.how == Found::REFUSED && got.how == Found::VALUE && got.v.vals.empty() && got.v.multi) {
    Found f = cfg::find(n, group, name);
    if (f.how == Found::VALUE && f.v.multi && f.v.vals.empty()) return;
  }
  if (want.how != got.how || (want.how == Found::VALUE && !(want.v == got.v)))
    sim::fail("wrong-value", "%s: %s, but extractValue says: %s", what(n, group, name).c_str(), text(want).c_str(), text(got).c_str());
  if (!touched.empty()) sim::fail("value-touched", "%s: extractValue gave nothing, but changed the %s it was passed", what(n, group, name).c_str(), touched.c_str());
  if (want.how == Found::VALUE) sim::nontrivial();
}
// a question about a parameter: usually one that exists, in a group that exists
struct Q { std::string name; cfg::Type type; bool multi; bool grouped; std::string group; };
Q question(Tree &t, Ctx &n) {
  Q q;
  cfg::Param const &p = sim::pick(t.shape.pool);
  q.name = sim::chance(40) ? "unknown" : p.name;
  q.type = p.type; q.multi = p.multi;
  if (sim::chance(60)) q.type = (cfg::Type)sim::draw(4);
  if (sim::chance(60)) q.multi = !q.multi;
  q.grouped = sim::chance(n.cfg.groups ? 650 : 80);
  if (!n.cfg.list.empty() && sim::chance(600)) q.group = sim::pick(n.cfg.list).name;
  else q.group = groupPool[sim::draw((uint32_t)groupPool.size())];
  return q;
}
void checkSome(Tree &t, Ctx &n, uint32_t k) {
  for (uint32_t i = 0; i < k; i++) {
    sim::Span sp;
    Q q = question(t, n);
    check(n, q.grouped ? &q.group : nullptr, q.name, q.type, q.multi);
  }
}
void checkAll(Tree &t, Ctx &n) {
  for (auto &p : t.shape.pool) {
    check(n, nullptr, p.name, p.type, p.multi);
    if (n.cfg.groups) for (auto &g : groupPool) check(n, &g, p.name, p.type, p.multi);
  }
}
void checkGroups(Tree &t, Ctx &n) {
  if (!n.ctx) return;
  for (auto &p : t.shape.pool) {
    for (auto &g : n.cfg.list) {
      bool def = sim::sut([&] { return n.ctx->isParameterDefined(U(g.name), U(p.name)); });
      if (def != (n.cfg.param(g.name, p.name) != nullptr)) sim::fail("wrong-definition", "%s: isParameterDefined is %d", what(n, &g.name, p.name).c_str(), def);
    }
    std::set<icu::UnicodeString> gs = sim::sut([&] { return n.ctx->getGroupNamesForParameter(U(p.name)); });
    if (!n.cfg.groups) {
      bool def = sim::sut([&] { return n.ctx->isParameterDefined(U(p.name)); });
      if (def != (n.cfg.param("", p.name) != nullptr)) sim::fail("wrong-definition", "%s: isParameterDefined is %d", what(n, nullptr, p.name).c_str(), def);
      if (gs.size() != (size_t)def) sim::fail("wrong-definition", "%s: %zu group names without groups", what(n, nullptr, p.name).c_str(), gs.size());
      continue;
    }
    for (auto &g : n.cfg.list)
      if (n.cfg.param(g.name, p.name) && !gs.count(U(g.name))) sim::fail("wrong-definition", "%s: not among the groups that define it", what(n, &g.name, p.name).c_str());
    if (!n.parent)
      for (auto &g : gs) if (!n.cfg.param(S(g), p.name)) sim::fail("wrong-definition", "%s: group %s is said to define it", what(n, nullptr, p.name).c_str(), S(g).c_str());
  }
}
Answer put(AnnotatorContext &c, std::string const *group, std::string const &name, Value const &v, int variant) {
  icu::UnicodeString g = group ? U(*group) : icu::UnicodeString(), n = U(name);
  auto set = [&](auto const &x) { return call([&] { return (long)(group ? c.assignValue(g, n, x) : c.assignValue(n, x)); }); };
  auto &vs = v.vals;
  switch (v.type) {
  case BOOLEAN: {
    std::vector<bool> x; for (auto &s : vs) x.push_back(s == "true");
    if (v.multi) return set(x);
    bool b = x[0]; return set(b); }
  case INTEGER: {
    std::vector<int> x; for (auto &s : vs) x.push_back(atoi(s.c_str()));
    if (v.multi && variant == AS_SIZE) { std::vector<size_t> y(x.begin(), x.end()); return set(y); }
    if (v.multi) return set(x);
    if (variant == AS_SIZE) { size_t y = (size_t)x[0]; return set(y); }
    return set(x[0]); }
  case FLOAT: {
    std::vector<float> x; for (auto &s : vs) x.push_back(strtof(s.c_str(), nullptr));
    if (v.multi && variant == AS_SIZE) { std::vector<double> y(x.begin(), x.end()); return set(y); }
    if (v.multi) return set(x);
    if (variant == AS_SIZE) { double y = x[0]; return set(y); }
    return set(x[0]); }
  default: {
    std::vector<icu::UnicodeString> x; for (auto &s : vs) x.push_back(U(s));
    if (v.multi) return set(x);
    return set(x[0]); }
  }
}
void assign(Tree &t, Ctx &n) {
  if (!n.ctx) return;
  Q q = question(t, n);
  std::string const *g = q.grouped ? &q.group : nullptr;
  Value v = genValue(q.type, q.multi);
  std::string in;
  Node *to = cfg::target(n, g, q.name, v, in);
  bool arm = t.faults && sim::chance(300);
  if (arm) sim::alloc_arm(sim::skewed(20), sim::draw(2));
  Answer a = put(*n.ctx, g, q.name, v, (int)sim::draw(3));
  sim::alloc_disarm();
  bool ok = a.how == Answer::RET && a.id == UIMA_ERR_NONE;
  sim::ev("assign %s := %s: %s", what(n, g, q.name).c_str(), cfg::show(v).c_str(), eng::show(a).c_str());
  sim::count(ok ? "assignments" : "assignments refused");
  if (arm && (a.how == Answer::ALLOC || a.how == Answer::STD)) sim::fault("assignment_out_of_memory");
  else {
    if (a.how == Answer::ALLOC || a.how == Answer::STD) sim::fail("undocumented-exception", "assignValue %s", eng::show(a).c_str());
    if (!arm && to && !ok) sim::fail("assignment-refused", "%s := %s fits a parameter of %s, but assignValue %s", what(n, g, q.name).c_str(), cfg::show(v).c_str(), where(*static_cast<Ctx *>(to)).c_str(), eng::show(a).c_str());
    if (!to && ok) sim::fail("assignment-accepted", "%s := %s is no assignment this context can make, but assignValue accepts it", what(n, g, q.name).c_str(), cfg::show(v).c_str());
  }
  if (ok && to) to->cfg.set[in][q.name] = v;
  // whoever asks from here on sees it; if it failed, everything is as before
  check(n, g, q.name, q.type, q.multi);
  if (sim::chance(300)) for (auto m : t.all) check(*m, g, q.name, q.type, q.multi);
}
void contexts(Ctx &n, AnnotatorContext *c) {
  if (c) n.ctx = c;
  if (n.ctx) for (auto &k : n.kids) contexts(*k, n.ctx->getDelegate(U(k->key)));
}
// what a context's description says when it is written out
void checkWritten(Ctx &n) {
  if (!n.ctx) return;
  icu::UnicodeString u;
  sim::sut([&] { n.ctx->getTaeSpecifier().toXMLBuffer(u); });
  Cfg c = cfg::readBack(S(u));
  auto flat = [](Cfg const &c) {
    std::vector<std::string> v;
    for (auto &g : c.set) for (auto &e : g.second) v.push_back("group '" + g.first + "' parameter '" + e.first + "' = " + (e.second.vals.empty() ? "[]" : cfg::show(e.second)));
    return v;
  };
  std::vector<std::string> want = flat(n.cfg), got = flat(c);
  sim::count("settings written");
  for (size_t i = 0; i < std::max(want.size(), got.size()); i++)
    if (i >= want.size() || i >= got.size() || want[i] != got[i])
      sim::fail("written-settings", "%s: the written descriptor does not have the settings in force\nexpected: %s\n     got: %s", where(n).c_str(), i < want.size() ? want[i].c_str() : "(end)", i < got.size() ? got[i].c_str() : "(end)");
}
void live(Tree &t) {
  ErrorInfo ei;
  Answer a;
  t.e = eng::create(t.top->desc, (int)sim::draw(3), ei, a, &t.keep);
  if (!t.e) sim::fail("engine-refused", "the engine was not made: %s %s", eng::show(a).c_str(), sim::sut([&] { return ei.asString(); }).c_str());
  sim::sut([&] { contexts(*t.top, &t.e->getAnnotatorContext()); });
  for (auto n : t.all) { checkAll(t, *n); checkGroups(t, *n); if (!n->ctx) sim::count("contexts not reached"); }
  uint32_t steps = 0;
  while (sim::more(25)) {
    sim::Span sp;
    Ctx &n = *sim::pick(t.all);
    switch (sim::weighted({5, 5, 1})) {
    case 0: assign(t, n); break;
    case 1: checkSome(t, n, 3); break;
    default: {
      Answer r = call([&] { return (long)t.e->reconfigure(); });
      sim::ev("reconfigure: %s", eng::show(r).c_str());
      if (r.how != Answer::RET || r.id != 0) sim::fail("reconfigure-failed", "reconfigure() %s", eng::show(r).c_str());
    } }
    if (steps++ % 4 == 0) sim::yield();
  }
  if (t.write) for (auto n : t.all) checkWritten(*n);
  else for (auto n : t.all) checkAll(t, *n);
  call([&] { delete t.e; return 0l; });
  for (auto k : t.keep) sim::sut([&] { delete k; });
}
void params(bool write) {
  registerLibs();
  reset();
  std::vector<Tree> trees(1 + sim::draw(2));
  int per = NLIB / (int)trees.size();
  bool faults = trees.size() == 1 && sim::chance(300);
  for (size_t i = 0; i < trees.size(); i++) {
    Tree &t = trees[i];
    t.faults = faults;
    t.write = write;
    t.shape = genShape(false);
    int lib = (int)i * per;
    t.lib0 = lib;
    t.top = grow(t, nullptr, "", 0, lib, lib + per);
  }
  // annotators look at their parameters when they are initialized and reconfigured
  auto look = [&](int lib, AnnotatorContext *c) {
    for (auto &t : trees) for (auto n : t.all) if (n->desc.primitive && n->desc.lib == lib) {
      n->ctx = c;
      checkSome(t, *n, 4);
    }
  };
  onInit = [&](Ann &a, AnnotatorContext &c) { look(a.lib, &c); };
  decide = [&](int lib, Call c) {
    if (c != C_RECONF) return Out();
    for (auto &t : trees) for (auto n : t.all) if (n->desc.primitive && n->desc.lib == lib && n->ctx) checkSome(t, *n, 4);
    return Out();
  };
  if (trees.size() == 1) live(trees[0]);
  else {
    sim::set_preemption(100 + sim::draw(10) * 100, 50 + 50 * sim::draw(8));
    std::vector<int> ids;
    for (auto &t : trees) ids.push_back(sim::spawn("user", [&t] { live(t); }));
    for (int id : ids) sim::join(id);
  }
  if (alive) sim::fail("annotator-leaked", "%d annotators were never deleted", alive);
}
}  // namespace

SIM_SCENARIO(E04, params, 1) { params(false); }
SIM_SCENARIO(E05, settings, 1) { params(true); }
