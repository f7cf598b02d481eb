// Damage to a text document: alterations of its bytes and of its XML structure, and of the way it is delivered.
#pragma once
#include "ser.hpp"
namespace dmg {
struct Range { size_t b, e; };
inline std::vector<Range> values(std::string const &s) {        // contents of quoted attribute values
  std::vector<Range> r;
  for (size_t i = 0; (i = s.find("=\"", i)) != std::string::npos; ) {
    size_t b = i + 2, e = s.find('"', b);
    if (e == std::string::npos) break;
    r.push_back({b, e}); i = e + 1;
  }
  return r;
}
inline std::vector<Range> names(std::string const &s) {         // attribute names
  std::vector<Range> r;
  for (auto &v : values(s)) {
    size_t e = v.b - 2, b = e;
    while (b > 0 && s[b - 1] != ' ' && s[b - 1] != '<') b--;
    if (b < e) r.push_back({b, e});
  }
  return r;
}
inline std::vector<Range> tags(std::string const &s) {          // <...>
  std::vector<Range> r;
  for (size_t i = 0; (i = s.find('<', i)) != std::string::npos; ) {
    size_t e = s.find('>', i);
    if (e == std::string::npos) break;
    r.push_back({i, e + 1}); i = e + 1;
  }
  return r;
}
inline std::vector<Range> texts(std::string const &s) {         // character data between tags
  std::vector<Range> r;
  auto t = tags(s);
  for (size_t i = 0; i + 1 < t.size(); i++) if (t[i].e < t[i + 1].b) r.push_back({t[i].e, t[i + 1].b});
  return r;
}
inline std::vector<Range> numbers(std::string const &s) {
  std::vector<Range> r;
  for (size_t i = 0; i < s.size(); ) {
    if (isdigit((unsigned char)s[i])) { size_t b = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++; r.push_back({b, i}); } else i++;
  }
  return r;
}
// the element that starts at a tag: up to its end tag (or the tag itself)
inline Range element(std::string const &s, Range t) {
  if (s[t.e - 2] == '/' || s[t.b + 1] == '/' || s[t.b + 1] == '?') return t;
  size_t n = t.b + 1;
  while (n < t.e && !strchr(" />\n", s[n])) n++;
  std::string nm = s.substr(t.b + 1, n - t.b - 1), close = "</" + nm + ">";
  size_t e = s.find(close, t.e);
  return e == std::string::npos ? t : Range{t.b, e + close.size()};
}
inline std::string scalar(std::string const &doc) {
  static const char *v[] = {"", "0", "1", "-1", "2", "3", "7", "100", "255", "1000", "65536", "99999", "2147483647", "-2147483648", "2147483648", "4294967295",
                            "99999999999999999999", "abc", "1 2 3", "0 1 0 1", "-1 -1", "1.5", "true", "1e999", " ", "_InitialView", "_DefaultTextSofaName", "&amp;", "&#10;", "\xc3\xa9", "1,2", "+1", "0x10"};
  switch (sim::draw(6)) {
  case 0: { std::string r; uint32_t n = 1 + sim::skewed(3000); for (uint32_t i = 0; i < n; i++) r += (char)('a' + i % 26); return r; }
  case 1: { std::string r; uint32_t n = 1 + sim::skewed(400); uint32_t m = 1 + sim::skewed(100); for (uint32_t i = 0; i < n; i++) r += std::to_string((i * 7) % m) + " "; return r; }
  case 2: { auto q = values(doc); if (q.empty()) return "1"; auto p = sim::pick(q); return doc.substr(p.b, p.e - p.b); }
  case 3: return std::to_string(sim::draw(60));
  default: return v[sim::draw(sizeof v / sizeof *v)];
  }
}
inline void put(std::string &s, Range r, std::string const &by) { s.replace(r.b, r.e - r.b, by); }

// one alteration; what was done
inline std::string alter(std::string &s) {
  if (s.empty()) return "nothing";
  switch (sim::weighted({10, 4, 3, 3, 3, 3, 6, 4, 3, 2, 2, 2, 2, 2})) {
  case 0: { auto q = values(s); if (q.empty()) break; auto p = sim::pick(q); std::string v = scalar(s), was = s.substr(p.b, std::min<size_t>(40, p.e - p.b)); size_t nb = s.rfind(' ', p.b); std::string n = nb == std::string::npos ? "" : s.substr(nb + 1, p.b - nb - 2); put(s, p, v); return "attribute " + n.substr(0, 30) + " '" + was + "' -> '" + v.substr(0, 40) + "'"; }
  case 1: { auto q = numbers(s); if (q.empty()) break; auto p = sim::pick(q); std::string v = sim::chance(500) ? std::to_string(sim::draw(60)) : scalar(s), was = s.substr(p.b, p.e - p.b); put(s, p, v); return "number " + was + " -> '" + v.substr(0, 40) + "'"; }
  case 2: { auto q = names(s); if (q.empty()) break; auto p = sim::pick(q); std::string was = s.substr(p.b, p.e - p.b); size_t e = s.find('"', p.e + 2); if (e == std::string::npos) break; put(s, {p.b, e + 1}, ""); return "attribute " + was + " removed"; }
  case 3: { auto q = names(s); if (q.empty()) break; auto p = sim::pick(q), o = sim::pick(q); std::string was = s.substr(p.b, p.e - p.b), v = sim::chance(700) ? s.substr(o.b, o.e - o.b) : "unknown"; put(s, p, v); return "attribute " + was + " renamed " + v; }
  case 4: { auto q = tags(s); if (q.empty()) break; auto p = element(s, sim::pick(q)); std::string was = s.substr(p.b, std::min<size_t>(30, p.e - p.b)); put(s, p, ""); return "element " + was + " removed"; }
  case 5: { auto q = tags(s); if (q.empty()) break; auto p = element(s, sim::pick(q)); auto o = sim::pick(q); std::string el = s.substr(p.b, p.e - p.b); s.insert(sim::chance(500) ? o.b : o.e, el); return "element " + el.substr(0, 30) + " repeated"; }
  case 6: { auto q = tags(s); if (q.empty()) break; auto p = sim::pick(q), o = sim::pick(q);
    auto nameEnd = [&](Range t) { size_t n = t.b + 1; while (n < t.e && !strchr(" />\n", s[n])) n++; return n; };
    std::string nm = s.substr(o.b + 1, nameEnd(o) - o.b - 1), was = s.substr(p.b + 1, nameEnd(p) - p.b - 1);
    if (nm.empty() || was.empty() || nm[0] == '/' || nm[0] == '?' || was[0] == '/' || was[0] == '?') break;
    Range el = element(s, p);
    if (sim::chance(200)) nm = sim::chance(500) ? "unknown" : "uima.cas.FSArray";
    if (el.e > p.e) { size_t c = el.e - was.size() - 1; put(s, {c, c + was.size()}, nm); }
    put(s, {p.b + 1, p.b + 1 + was.size()}, nm);
    return "element " + was + " renamed " + nm; }
  case 7: { auto q = texts(s); if (q.empty()) break; auto p = sim::pick(q); std::string v = scalar(s); put(s, p, v); return "text -> '" + v.substr(0, 40) + "'"; }
  case 8: { size_t p = sim::draw((uint32_t)s.size()); static const char c[] = "<>&\"'/= ;:0919az\n\x00\x01\x7f\xc3\xff"; s[p] = c[sim::draw(sizeof c - 1)]; return sim::fmt("byte %zu altered", p); }
  case 9: { size_t p = sim::draw((uint32_t)s.size()), n = 1 + sim::skewed((uint32_t)(s.size() - p > 1 ? s.size() - p - 1 : 1)); s.erase(p, n); return sim::fmt("%zu bytes lost at %zu", n, p); }
  case 10: { size_t p = sim::draw((uint32_t)s.size()), n = 1 + sim::skewed((uint32_t)(s.size() - p > 1 ? s.size() - p - 1 : 1)); std::string d = s.substr(p, n); s.insert(p, d); return sim::fmt("%zu bytes at %zu doubled", d.size(), p); }
  case 11: { size_t p = sim::draw((uint32_t)s.size()); static const char *ins[] = {"<", ">", "&bad;", "</a>", "<x/>", "<x y=\"1\">", "\"", "]]>", "<![CDATA[", "<!--", "\xef\xbb\xbf", "\xff\xfe", "<?xml version=\"1.0\"?>", "<!DOCTYPE a [<!ENTITY b \"c\">]>", "<envVarRef/>", "<envVarRef>SIM_NONE</envVarRef>", "<envVarRef><a/></envVarRef>"}; std::string v = ins[sim::draw(17)]; s.insert(p, v); return sim::fmt("'%s' inserted at %zu", v.c_str(), p); }
  case 12: { auto q = tags(s); if (q.empty()) break; auto p = sim::pick(q); if (s[p.b + 1] == '/' || s[p.b + 1] == '?') break; auto n = names(s); std::string nm = n.empty() ? "a" : s.substr(sim::pick(n).b, 1); if (!n.empty()) { auto o = sim::pick(n); nm = s.substr(o.b, o.e - o.b); } std::string v = scalar(s); s.insert(p.e - (s[p.e - 2] == '/' ? 2 : 1), " " + nm + "=\"" + v + "\""); return "attribute " + nm + "='" + v.substr(0, 40) + "' added"; }
  case 13: { auto q = tags(s); if (q.size() < 2) break; auto p = sim::pick(q), o = sim::pick(q); if (p.b == o.b) break; if (p.b > o.b) std::swap(p, o); std::string x = s.substr(p.b, p.e - p.b), y = s.substr(o.b, o.e - o.b); put(s, o, x); put(s, p, y); return "two tags swapped"; }
  }
  return "nothing";
}
// what was done; f says how the bytes will arrive
inline std::string damage(std::string &s, w::Feed &f) {
  std::string r;
  uint32_t n = (uint32_t)sim::weighted({2, 8, 4, 2, 1});
  for (uint32_t i = 0; i < n; i++) { sim::Span sp; std::string x = alter(s); if (x == "nothing") continue; sim::count("fault.input_altered"); r += (r.empty() ? "" : "; ") + x; }
  switch (sim::weighted({r.empty() ? 1u : 12u, 3, 2})) {
  case 1: f.cut = sim::draw((uint32_t)s.size() + 1); r += sim::fmt("; ends after %lld of %zu", (long long)f.cut, s.size()); break;
  case 2: f.failAt = sim::draw((uint32_t)s.size() + 1); f.failKind = (int)sim::draw(2); r += sim::fmt("; fails at %lld of %zu", (long long)f.failAt, s.size()); break;
  }
  return r.empty() ? "nothing" : r;
}
}  // namespace dmg
