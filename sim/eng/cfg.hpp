// Generated configuration parameters: declarations, groups and settings, how a descriptor spells them, and the rules by
// which an engine finds and changes a value.
#pragma once
#include "eng.hpp"
#include <map>

namespace cfg {
enum Type { STRING, INTEGER, FLOAT, BOOLEAN };
struct Value {
  Type type = STRING; bool multi = false;
  std::vector<std::string> vals;        // canonical: the string itself, %d, %.9g, true or false
  bool operator==(Value const &o) const { return type == o.type && multi == o.multi && vals == o.vals; }
};
std::string show(Value const &);
struct Param { std::string name, desc; Type type = STRING; bool multi = false, mandatory = false; std::vector<std::string> restrict_; };
struct Group { std::string name; std::vector<Param> params; };
struct Cfg {
  bool groups = false;                  // parameters are in groups
  std::string def;                      // default group, "" for none
  int strategy = 0;                     // none, default_fallback, language_fallback
  std::vector<Param> common;            // with groups: common parameters; otherwise the parameters
  std::vector<Group> list;              // in order of declaration
  std::vector<int> elems;               // how many consecutive groups one <configurationGroup> declares
  std::map<std::string, std::map<std::string, Value>> set;   // group ("" without groups) -> parameter -> value
  Group const *group(std::string const &n) const { for (auto &g : list) if (g.name == n) return &g; return nullptr; }
  Param const *param(std::string const &g, std::string const &n) const;
  bool declared(std::string const &g) const { return group(g) || (!def.empty() && g == def); }
};
extern const std::vector<std::string> groupPool;
struct Shape { std::vector<Param> pool; };   // the parameters of a run: name, type and multiplicity
Shape genShape(bool plainNames);
std::string genText(uint32_t max);           // no white space at its ends
Value genValue(Type, bool multi);
Cfg gen(Shape const &, std::vector<std::string> const &delegateKeys);
std::string escape(std::string const &);
std::string xml(Cfg const &);

Cfg readBack(std::string const &xml);        // the configuration a written descriptor gives

// a context that asks: its configuration, its key in the parent
struct Node { Cfg cfg; std::string key; Node *parent = nullptr; };
struct Found { enum { REFUSED, NONE, VALUE } how = REFUSED; Value v; };
Found find(Node const &, std::string const *group, std::string const &name);
// the node whose setting an assignment changes and the group it does so in; null if it is refused
Node *target(Node &, std::string const *group, std::string const &name, Value const &, std::string &in);
}  // namespace cfg
