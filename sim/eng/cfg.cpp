#include "cfg.hpp"
#include <algorithm>
#include <cfloat>
#include <climits>
#include <cstdlib>
#include <cstring>

namespace cfg {
const std::vector<std::string> groupPool = {"en", "en-US", "en-US-x", "de", "g", "d\xc3\xa9" "faut", "a&b", "x-unspecified"};
static const char *typeNames[] = {"String", "Integer", "Float", "Boolean"};
static const char *tags[] = {"string", "integer", "float", "boolean"};

std::string show(Value const &v) {
  std::string s = std::string(typeNames[v.type]) + (v.multi ? "[]" : "");
  for (auto &x : v.vals) s += " '" + x + "'";
  return s;
}
Param const *Cfg::param(std::string const &g, std::string const &n) const {
  if (groups) if (Group const *q = group(g)) for (auto &p : q->params) if (p.name == n) return &p;
  for (auto &p : common) if (p.name == n) return &p;
  return nullptr;
}
std::string genText(uint32_t max) {
  static const char *bits[] = {"a", "Zz", "0", "<", ">", "&", "\"", "'", "&amp;", "\xc3\xa9", "\xe4\xb8\xad", "\xf0\x9f\x98\x80", "]]>", "<x/>", "%s", "-", "."};
  static const char *mid[] = {" ", "  ", "\t", "\n"};
  std::string s;
  uint32_t n = sim::draw(max + 1);
  for (uint32_t i = 0; i < n; i++) {
    if (i && i + 1 < n && sim::chance(150)) { s += mid[sim::draw(4)]; continue; }
    s += bits[sim::draw(17)];
  }
  return s;
}
static std::string canonFloat(float f) { return sim::fmt("%.9g", f); }
static std::string one(Type t) {
  switch (t) {
  case STRING: return genText(sim::chance(50) ? 300 : 6);
  case INTEGER: {
    static const int v[] = {0, 1, -1, INT_MAX, INT_MIN, 42, 1000000};
    return sim::fmt("%d", sim::chance(500) ? v[sim::draw(7)] : (int)sim::draw(1u << 31) - (1 << 30)); }
  case FLOAT: {
    static const float v[] = {0.0f, 0.1f, -1.5f, 1e-7f, 1.17549435e-38f, FLT_MAX, -FLT_MAX, 16777217.0f, 3.14159274f, 1e10f, -0.0f, 1e-3f};
    if (sim::chance(600)) return canonFloat(v[sim::draw(12)]);
    uint32_t b = sim::draw(0x7f800000u); float f; memcpy(&f, &b, 4);
    if (f != 0 && f < FLT_MIN) f = 0.25f;
    return canonFloat(sim::chance(300) ? -f : f); }
  default: return sim::chance(500) ? "true" : "false";
  }
}
Value genValue(Type t, bool multi) {
  Value v;
  v.type = t; v.multi = multi;
  uint32_t n = multi ? 1 + sim::draw(4) : 1;
  if (multi && sim::chance(80)) n = 0;
  for (uint32_t i = 0; i < n; i++) v.vals.push_back(one(t));
  return v;
}
Shape genShape(bool plain) {
  Shape s;
  static const char *odd[] = {"P&Q", "n<1>", "\xc3\xbc" "ber", "with space", "say \"x\""};
  uint32_t n = 1 + sim::draw(5);
  for (uint32_t i = 0; i < n; i++) {
    Param p;
    p.name = sim::fmt("P%u", i);
    if (!plain && sim::chance(300)) p.name += odd[sim::draw(5)];
    p.type = (Type)sim::draw(4);
    p.multi = sim::chance(400);
    s.pool.push_back(p);
  }
  return s;
}
// the value a context's own description gives; key is the delegate that asks, "" for the context itself
static Found local(Cfg const &c, std::string const *group, std::string const &name, int strategy, std::string const &key) {
  Found f;
  std::vector<std::string> order;
  if (group) {
    if (!c.groups) return f;
    order.push_back(*group);
  } else if (!c.groups) order.push_back("");
  else if (!c.def.empty()) order.push_back(c.def);
  else return f;
  if (c.groups) {
    if (strategy == 2)
      for (size_t i = order[0].rfind('-'); i != std::string::npos; i = i ? order[0].rfind('-', i - 1) : std::string::npos) order.push_back(order[0].substr(0, i));
    if (strategy >= 1 && !c.def.empty()) order.push_back(c.def);
  }
  for (auto &g : order) {
    Param const *p = c.param(g, name);
    if (p && !key.empty() && !p->restrict_.empty() && std::find(p->restrict_.begin(), p->restrict_.end(), key) == p->restrict_.end()) p = nullptr;
    if (!p) continue;
    if (f.how == Found::REFUSED) f.how = Found::NONE;
    auto s = c.set.find(g);
    if (s == c.set.end()) continue;
    auto v = s->second.find(name);
    if (v == s->second.end()) continue;
    f.how = Found::VALUE; f.v = v->second;
    return f;
  }
  return f;
}
Cfg gen(Shape const &sh, std::vector<std::string> const &keys) {
  Cfg c;
  c.groups = sim::chance(550);
  c.strategy = (int)sim::draw(3);
  std::vector<Param> mine;
  for (auto p : sh.pool) if (sim::chance(750)) {
    p.desc = genText(5);
    p.mandatory = sim::chance(200);
    if (sim::chance(250)) for (auto &k : keys) if (sim::chance(500)) p.restrict_.push_back(k);
    mine.push_back(p);
  }
  if (!c.groups) c.common = mine;
  else {
    std::vector<std::string> left = groupPool;
    while (!left.empty() && sim::chance(c.list.empty() ? 950 : 600)) {
      sim::Span sp;
      int n = 1 + (int)sim::draw(std::min<uint32_t>(3, (uint32_t)left.size()));
      std::vector<Param> ps;
      for (auto &p : mine) if (sim::chance(600)) ps.push_back(p);
      for (int i = 0; i < n; i++) {
        size_t k = sim::draw((uint32_t)left.size());
        c.list.push_back({left[k], ps});
        left.erase(left.begin() + (long)k);
      }
      c.elems.push_back(n);
    }
    for (auto &p : mine) {
      bool inGroup = false;
      for (auto &g : c.list) for (auto &q : g.params) if (q.name == p.name) inGroup = true;
      if (!inGroup && sim::chance(800)) c.common.push_back(p);
    }
    if (sim::chance(700)) c.def = !c.list.empty() && sim::chance(850) ? sim::pick(c.list).name : groupPool[sim::draw((uint32_t)groupPool.size())];
    bool any = !c.common.empty();
    for (auto &g : c.list) any = any || !g.params.empty();
    if (!any) { c = Cfg(); c.common = mine; }
  }
  std::vector<std::string> gs;
  if (!c.groups) gs.push_back("");
  else { for (auto &g : c.list) gs.push_back(g.name); if (!c.def.empty() && !c.group(c.def)) gs.push_back(c.def); }
  for (auto &g : gs) for (auto &p : mine) {
    Param const *q = c.param(g, p.name);
    if (q && sim::chance(500)) c.set[g][p.name] = genValue(q->type, q->multi);
  }
  // a mandatory parameter has a value wherever it is declared
  auto settle = [&](Param &p, std::string const &g) { if (p.mandatory && local(c, c.groups ? &g : nullptr, p.name, c.strategy, "").how != Found::VALUE) p.mandatory = false; };
  for (auto &p : c.common) { if (!c.groups) settle(p, ""); else for (auto &g : c.list) settle(p, g.name); }
  for (auto &g : c.list) for (auto &p : g.params) settle(p, g.name);
  // the groups of one element declare the same
  size_t k = 0;
  for (int n : c.elems) {
    for (size_t j = 0; j < c.list[k].params.size(); j++) {
      bool all = true;
      for (int i = 0; i < n; i++) all = all && c.list[k + (size_t)i].params[j].mandatory;
      for (int i = 0; i < n; i++) c.list[k + (size_t)i].params[j].mandatory = all;
    }
    k += (size_t)n;
  }
  return c;
}
std::string escape(std::string const &s) {
  std::string r;
  for (char c : s) switch (c) {
    case '<': r += "&lt;"; break;
    case '>': r += "&gt;"; break;
    case '&': r += "&amp;"; break;
    case '"': r += "&quot;"; break;
    case '\n': case '\t': r += sim::fmt("&#%d;", c); break;
    default: r += c;
  }
  return r;
}
static std::string declare(std::vector<Param> const &ps) {
  std::string x;
  for (auto &p : ps) {
    x += "<configurationParameter><name>" + escape(p.name) + "</name>";
    if (!p.desc.empty()) x += "<description>" + escape(p.desc) + "</description>";
    x += std::string("<type>") + typeNames[p.type] + "</type>";
    if (p.multi || sim::chance(500)) x += std::string("<multiValued>") + (p.multi ? "true" : "false") + "</multiValued>";
    if (p.mandatory || sim::chance(500)) x += std::string("<mandatory>") + (p.mandatory ? "true" : "false") + "</mandatory>";
    if (!p.restrict_.empty()) {
      x += "<restrictOverrideTo>";
      for (auto &r : p.restrict_) x += (sim::chance(100) ? " " : "") + escape(r) + " ";
      x += "</restrictOverrideTo>";
    }
    x += "</configurationParameter>";
  }
  return x;
}
static std::string spellOne(Type t, std::string const &v) {
  if (t == INTEGER && sim::chance(150)) return v[0] == '-' ? "-00" + v.substr(1) : "+" + v;
  if (t == FLOAT && sim::chance(150)) return sim::fmt("%.12e", atof(v.c_str()));
  if (t == STRING || t == FLOAT || t == INTEGER) return escape(v);
  return sim::chance(150) ? (v == "true" ? "1" : "0") : v;
}
static std::string settings(std::map<std::string, Value> const &m) {
  std::string x;
  for (auto &e : m) {
    x += "<nameValuePair><name>" + escape(e.first) + "</name><value>";
    if (e.second.multi) x += "<array>";
    for (auto &v : e.second.vals) x += std::string("<") + tags[e.second.type] + ">" + spellOne(e.second.type, v) + "</" + tags[e.second.type] + ">";
    if (e.second.multi) x += "</array>";
    x += "</value></nameValuePair>";
  }
  return x;
}
std::string xml(Cfg const &c) {
  std::string x = "<configurationParameters";
  static const char *st[] = {"none", "default_fallback", "language_fallback"};
  if (c.groups) {
    if (!c.def.empty()) x += " defaultGroup=\"" + escape(c.def) + "\"";
    if (c.strategy || sim::chance(500)) x += std::string(" searchStrategy=\"") + st[c.strategy] + "\"";
  }
  x += ">";
  if (!c.groups) x += declare(c.common);
  else {
    bool first = sim::chance(500);
    std::string com = c.common.empty() ? "" : "<commonParameters>" + declare(c.common) + "</commonParameters>";
    if (first) x += com;
    size_t k = 0;
    for (int n : c.elems) {
      x += "<configurationGroup names=\"";
      for (int i = 0; i < n; i++) x += (i ? (sim::chance(200) ? "  " : " ") : "") + escape(c.list[k + (size_t)i].name);
      x += "\">" + declare(c.list[k].params) + "</configurationGroup>";
      k += (size_t)n;
    }
    if (!first) x += com;
  }
  x += "</configurationParameters><configurationParameterSettings>";
  if (!c.groups) { auto it = c.set.find(""); if (it != c.set.end()) x += settings(it->second); }
  else {
    std::vector<std::string> done;
    for (auto &g : c.set) {
      if (std::find(done.begin(), done.end(), g.first) != done.end()) continue;
      // groups with the same settings may be set together
      std::string names = escape(g.first);
      for (auto &h : c.set) if (h.first > g.first && h.second == g.second && std::find(done.begin(), done.end(), h.first) == done.end() && sim::chance(500)) { names += " " + escape(h.first); done.push_back(h.first); }
      x += "<settingsForGroup name=\"" + names + "\">" + settings(g.second) + "</settingsForGroup>";
    }
  }
  return x + "</configurationParameterSettings>";
}

// ---- the rules ------------------------------------------------------------------------
static Found findFrom(Node const &n, std::string const *group, std::string const &name, int strategy, std::string const &key) {
  Found f = local(n.cfg, group, name, group ? strategy : n.cfg.strategy, key);
  if (f.how == Found::REFUSED || !n.parent) return f;
  Found p = findFrom(*n.parent, group, name, strategy, n.key);
  return p.how == Found::VALUE ? p : f;
}
Found find(Node const &n, std::string const *group, std::string const &name) { return findFrom(n, group, name, n.cfg.strategy, ""); }

static Node *targetFrom(Node &n, std::string const *group, std::string const &name, Value const &v, int strategy, std::string const &key, std::string &in) {
  if (local(n.cfg, group, name, group ? strategy : n.cfg.strategy, key).how == Found::REFUSED) return nullptr;
  if (n.parent) if (Node *t = targetFrom(*n.parent, group, name, v, strategy, n.key, in)) return t;
  std::string g = group ? *group : n.cfg.groups ? n.cfg.def : "";
  if (n.cfg.groups && !n.cfg.declared(g)) return nullptr;
  Param const *p = n.cfg.param(g, name);
  if (!p || p->type != v.type || p->multi != v.multi) return nullptr;
  in = g;
  return &n;
}
Node *target(Node &n, std::string const *group, std::string const &name, Value const &v, std::string &in) {
  return targetFrom(n, group, name, v, n.cfg.strategy, "", in);
}
}  // namespace cfg
