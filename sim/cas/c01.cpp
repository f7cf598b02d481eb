// C01: indexes hold exactly what was added, in comparator order, in every view.
#include "world.hpp"
#include "uima/fsfilterbuilder.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
using namespace uima;
using namespace w;

namespace {
struct Model {
  World &W;
  std::vector<std::vector<std::vector<Node *>>> c;  // [view][index]: members, in add order
  std::map<lowlevel::TyFS, Node *> byAddr;
  std::vector<std::vector<CAS *>> handles;           // every handle obtained for a view
  Model(World &w) : W(w) {}

  void clear() { c.assign(W.views.size(), std::vector<std::vector<Node *>>(indexes.size())); byAddr.clear(); handles.clear(); for (auto &v : W.views) handles.push_back({v.cas}); }
  void viewAdded() { c.resize(W.views.size(), std::vector<std::vector<Node *>>(indexes.size())); handles.push_back({W.views.back().cas}); }
  void created(Node *n) { byAddr[fsAddr(n->h)] = n; }
  static int prio(Node *n) { switch (n->ty) { case T_DOC: return 0; case T_DEEP: return 1; case T_TOK: return 2; case T_SUBTOK: return 3; } return 4; }
  static bool inType(int sup, Node *n) { return sup == -1 ? n->ty == T_DOC || (n->ty < T_NUSER && types[n->ty].annot) : sup == -2 ? n->ty == T_DOC : subsumes(sup, n->ty); }
  // <0: a before b
  static int cmp(Index const &ix, Node *a, Node *b) {
    if (a == b) return 0;
    for (auto &k : ix.keys) {
      int r = 0;
      auto c3 = [](auto x, auto y) { return x < y ? -1 : x > y ? 1 : 0; };
      if (!k.feat) r = c3(prio(a), prio(b));
      else if (!strcmp(k.feat, "begin")) r = c3(a->begin, b->begin);
      else if (!strcmp(k.feat, "end")) r = c3(a->end, b->end);
      else {
        int fa = featIdx(a->ty, k.feat), fb = featIdx(b->ty, k.feat);
        Val &x = a->v[fa], &y = b->v[fb];
        switch (types[a->ty].all[fa].kind) {
        case K_FLOAT: r = c3((float)x.d, (float)y.d); break;
        case K_DOUBLE: r = c3(x.d, y.d); break;
        case K_STR: r = c3(x.s, y.s); break;   // UTF-16 code units
        default: r = c3(x.i, y.i); break;
        }
      }
      if (k.rev) r = -r;
      if (r) return r;
    }
    return 0;
  }
  void add(Node *n, int v) {
    for (size_t i = 0; i < indexes.size(); i++) {
      if (!inType(indexes[i].ty, n)) continue;
      auto &l = c[v][i];
      if (indexes[i].kind == 2) { bool have = false; for (auto *m : l) if (m->ty == n->ty && cmp(indexes[i], m, n) == 0) have = true; if (have) continue; }
      l.push_back(n);
    }
  }
  void remove(Node *n, int v) { for (auto &l : c[v]) { auto it = std::find(l.begin(), l.end(), n); if (it != l.end()) l.erase(it); } }
  bool anywhere(Node *n) { for (auto &v : c) for (auto &l : v) for (auto *m : l) if (m == n) return true; return false; }
  CAS *cas(int v) { return sim::pick(handles[v]); }
  Node *node(FeatureStructure const &fs, const char *what) {
    if (!fs.isValid()) sim::fail("index-content", "%s delivered an invalid feature structure", what);
    auto it = byAddr.find(fsAddr(fs));
    if (it == byAddr.end()) sim::fail("index-content", "%s delivered an unknown feature structure (type %s)", what, fs.getType().getName().asUTF8().c_str());
    return it->second;
  }
};

std::string show(std::vector<Node *> const &v) { std::string r; size_t n = 0; for (auto *x : v) { if (++n > 40) { r += " ..."; break; } r += " " + x->name(); } return r; }
typedef std::vector<Node *> Seq;

std::string tyName(int t) { return t == -1 ? "uima.tcas.Annotation" : t == -2 ? "uima.tcas.DocumentAnnotation" : types[t].name; }

struct Probe {  // one index seen through one handle, restricted to a type
  Model &M; int v; size_t ix; int ty; std::string what; FSIndex idx;
  Seq want;
  Probe(Model &m, int v_, size_t ix_, int ty_) : M(m), v(v_), ix(ix_), ty(ty_) {
    CAS *cas = M.cas(v);
    Index const &I = indexes[ix];
    what = sim::fmt("%s of view%d", I.label, v);
    bool top = ty == I.ty && sim::draw(2);
    if (!top) what += " for " + tyName(ty);
    idx = sim::sut([&] {
      FSIndexRepository &r = cas->getIndexRepository();
      if (I.ty == -1 && sim::draw(2)) return (FSIndex)(top ? cas->getAnnotationIndex() : cas->getAnnotationIndex(cas->getTypeSystem().getType(us(tyName(ty).c_str()))));
      return top ? r.getIndex(us(I.label)) : r.getIndex(us(I.label), cas->getTypeSystem().getType(us(tyName(ty).c_str())));
    });
    for (auto *n : M.c[v][ix]) if (Model::inType(ty, n)) want.push_back(n);
  }
  Index const &I() { return indexes[ix]; }
  bool ordered() { return I().kind != 1; }
  Seq forward(FSIterator &it) {
    Seq s;
    sim::sut([&] { for (it.moveToFirst(); it.isValid(); it.moveToNext()) { s.push_back(M.node(it.get(), what.c_str())); if (s.size() > 100000) sim::fail("index-content", "%s: endless iteration", what.c_str()); } });
    return s;
  }
  Seq backward(FSIterator &it) {
    Seq s;
    sim::sut([&] { for (it.moveToLast(); it.isValid(); it.moveToPrevious()) { s.push_back(M.node(it.get(), what.c_str())); if (s.size() > 100000) sim::fail("index-content", "%s: endless backward iteration", what.c_str()); } });
    return s;
  }
  void sameSet(Seq const &got, Seq const &exp, const char *how) {
    Seq a = got, b = exp;
    auto by = [](Node *x, Node *y) { return std::make_pair(x->ty, x->uid) < std::make_pair(y->ty, y->uid); };
    std::sort(a.begin(), a.end(), by); std::sort(b.begin(), b.end(), by);
    if (a != b) sim::fail("index-content", "%s, %s: delivered {%s }, must hold exactly {%s }", what.c_str(), how, ::show(a).c_str(), ::show(b).c_str());
  }
  static std::string show(Seq const &s) { return ::show(s); }
  void inOrder(Seq const &got, const char *how) {
    if (!ordered()) return;
    for (size_t i = 1; i < got.size(); i++) if (Model::cmp(I(), got[i - 1], got[i]) > 0)
      sim::fail("index-order", "%s, %s: %s comes before %s against the index's comparator:%s", what.c_str(), how, got[i - 1]->name().c_str(), got[i]->name().c_str(), ::show(got).c_str());
  }
  void reversed(Seq const &f, Seq b, const char *how) {
    std::reverse(b.begin(), b.end());
    if (f != b) sim::fail("index-order", "%s, %s: backward iteration is not the reverse of forward:%s versus%s", what.c_str(), how, ::show(f).c_str(), ::show(b).c_str());
  }

  Seq full() {
    FSIterator it = sim::sut([&] { return idx.iterator(); });
    Seq f = forward(it);
    sameSet(f, want, "forward");
    inOrder(f, "forward");
    size_t n = sim::sut([&] { return idx.getSize(); });
    if (n != want.size()) sim::fail("index-content", "%s: getSize() is %zu, holds %zu", what.c_str(), n, want.size());
    return f;
  }
  void moves() {  // random walk of an iterator and its copies against the sequence
    FSIterator it = sim::sut([&] { return idx.iterator(); });
    Seq f = forward(it);
    sameSet(f, want, "forward"); inOrder(f, "forward");
    reversed(f, backward(it), "iterator");
    if (f.empty()) { sim::sut([&] { it.moveToFirst(); }); if (it.isValid()) sim::fail("index-content", "%s: an empty index delivers elements", what.c_str()); return; }
    struct Cur { FSIterator it; long pos; };
    std::vector<Cur> cs;
    sim::sut([&] { it.moveToFirst(); cs.push_back({it, 0}); });
    uint32_t ops = 3 + sim::draw(15);
    long N = (long)f.size();
    for (uint32_t i = 0; i < ops; i++) {
      Cur &c = sim::pick(cs);
      bool valid = c.pos >= 0 && c.pos < N;
      switch (sim::draw(8)) {
      case 0: sim::sut([&] { c.it.moveToFirst(); }); c.pos = 0; break;
      case 1: sim::sut([&] { c.it.moveToLast(); }); c.pos = N - 1; break;
      case 2: case 3: if (valid) { sim::sut([&] { c.it.moveToNext(); }); c.pos++; if (c.pos >= N) c.pos = -1; } break;
      case 4: if (valid) { sim::sut([&] { c.it.moveToPrevious(); }); c.pos--; } break;
      case 5: if (cs.size() < 4) { sim::sut([&] { FSIterator d(c.it); cs.push_back({d, cs.empty() ? 0 : c.pos}); }); } else { Cur &d = sim::pick(cs); sim::sut([&] { d.it = c.it; }); d.pos = c.pos; } break;
      case 6: if (valid) { FeatureStructure p = sim::sut([&] { return c.it.peekNext(); }); Node *e = c.pos + 1 < N ? f[c.pos + 1] : nullptr;
          if (p.isValid() != (e != nullptr) || (e && M.node(p, what.c_str()) != e)) sim::fail("index-order", "%s: peekNext at %ld of %ld is not the next element", what.c_str(), c.pos, N); } break;
      case 7: if (valid) { FeatureStructure p = sim::sut([&] { return c.it.peekPrevious(); }); Node *e = c.pos > 0 ? f[c.pos - 1] : nullptr;
          if (p.isValid() != (e != nullptr) || (e && M.node(p, what.c_str()) != e)) sim::fail("index-order", "%s: peekPrevious at %ld of %ld is not the previous element", what.c_str(), c.pos, N); } break;
      }
      for (auto &x : cs) {
        bool ok = x.it.isValid(), must = x.pos >= 0 && x.pos < N;
        if (ok != must) sim::fail("index-order", "%s: iterator valid=%d at position %ld of %ld", what.c_str(), ok, x.pos, N);
        if (ok) { Node *g = M.node(sim::sut([&] { return x.it.get(); }), what.c_str());
          if (g != f[x.pos]) sim::fail("index-order", "%s: iterator at position %ld delivers %s, forward iteration had %s there", what.c_str(), x.pos, g->name().c_str(), f[x.pos]->name().c_str()); }
      }
    }
  }
  std::vector<Node *> candidates() {
    std::vector<Node *> r;
    for (auto *n : M.W.nodes) if (Model::inType(ty, n)) r.push_back(n);
    return r;
  }
  // where moveTo(n) may land in seq (positions); empty: must be invalid
  void checkMoveTo(FSIterator &it, Seq const &seq, Node *n, const char *how) {
    sim::sut([&] { it.moveTo(n->h); });
    Seq rest;
    sim::sut([&] { for (; it.isValid(); it.moveToNext()) { rest.push_back(M.node(it.get(), what.c_str())); if (rest.size() > 100000) sim::fail("index-order", "%s: endless iteration after moveTo", what.c_str()); } });
    std::vector<size_t> ok;
    if (ordered()) {
      for (size_t i = 0; i < seq.size(); i++) if (Model::cmp(I(), n, seq[i]) == 0) ok.push_back(i);
      // an equal element that the filter hides is a place too: the next one shown counts
      bool hidden = false;
      for (auto *x : want) if (Model::cmp(I(), n, x) == 0 && std::find(seq.begin(), seq.end(), x) == seq.end()) hidden = true;
      if (ok.empty() || hidden) for (size_t i = 0; i <= seq.size(); i++) if (i == seq.size() || Model::cmp(I(), n, seq[i]) < 0) { ok.push_back(i); break; }
    } else for (size_t i = 0; i < seq.size(); i++) if (seq[i] == n) ok.push_back(i);
    if (ok.empty()) ok.push_back(seq.size());
    for (size_t p : ok) if (Seq(seq.begin() + p, seq.end()) == rest) return;
    sim::fail("index-moveto", "%s, %s: after moveTo(%s) iteration delivers {%s }, whole sequence is {%s }", what.c_str(), how, n->name().c_str(), ::show(rest).c_str(), ::show(seq).c_str());
  }
  void moveTo() {
    auto cand = candidates();
    if (cand.empty()) return;
    Node *n = sim::pick(cand);
    FSIterator it = sim::sut([&] { return idx.iterator(); });
    Seq f = forward(it);
    sameSet(f, want, "forward"); inOrder(f, "forward");
    if (sim::draw(2)) sim::sut([&] { it.moveToFirst(); });
    checkMoveTo(it, f, n, "iterator");
  }
  void find() {
    auto cand = candidates();
    if (cand.empty()) return;
    Node *n = sim::pick(cand);
    FeatureStructure r = sim::sut([&] { return idx.find(n->h); });
    bool have = false;
    for (auto *x : want) if (ordered() ? Model::cmp(I(), x, n) == 0 : x == n) have = true;
    if (r.isValid() != have) sim::fail("index-find", "%s: find(%s) %s, but the index %s an equal element", what.c_str(), n->name().c_str(), r.isValid() ? "found something" : "found nothing", have ? "holds" : "does not hold");
    if (have) {
      Node *g = M.node(r, what.c_str());
      if (std::find(want.begin(), want.end(), g) == want.end() || (ordered() ? Model::cmp(I(), g, n) != 0 : g != n)) sim::fail("index-find", "%s: find(%s) delivered %s", what.c_str(), n->name().c_str(), g->name().c_str());
    }
  }
  void typeSet() {
    std::set<int> ts;
    std::vector<int> all;
    for (int t = 0; t < T_NUSER; t++) if (ty == -1 ? types[t].annot : subsumes(ty, t)) all.push_back(t);
    if (ty < 0) all.push_back(-2);
    for (int t : all) if (sim::draw(2)) ts.insert(t);
    std::set<Type> set;
    CAS *cas = M.cas(v);
    for (int t : ts) set.insert(cas->getTypeSystem().getType(us(tyName(t).c_str())));
    FSIterator it = sim::sut([&] { return idx.typeSetIterator(set); });
    Seq exp;
    for (auto *n : want) if (n->ty == T_DOC ? ts.count(-2) : ts.count(n->ty)) exp.push_back(n);
    Seq f = forward(it);
    sameSet(f, exp, "type set"); inOrder(f, "type set"); reversed(f, backward(it), "type set");
    auto cand = candidates();
    if (cand.size() && ordered()) checkMoveTo(it, f, sim::pick(cand), "type set");
    FSIterator cp = sim::sut([&] { return FSIterator(it); });
    if (forward(cp) != f) sim::fail("index-content", "%s: a copied type set iterator delivers something else", what.c_str());
  }

  struct Custom : FSFilter {
    Model *M; std::set<Node *> skip;
    bool isFiltered(FeatureStructure const &fs) const override { sim::Harness h; auto it = M->byAddr.find(fsAddr(fs)); return it != M->byAddr.end() && skip.count(it->second); }
  };
  struct Flt { FSFilter *f; std::function<bool(Node *)> p; std::string d; };
  Flt genFilter(CAS *cas, int depth) {
    FSFilterBuilder const &b = cas->getFSFilterBuilder();
    TypeSystem const &ts = cas->getTypeSystem();
    uint32_t k = sim::draw(depth > 0 ? 9 : 5);
    static const FSFilterBuilder::EnComparisonOperator ops[] = {FSFilterBuilder::EQUALS, FSFilterBuilder::GREATER, FSFilterBuilder::LESS};
    auto opf = [](int o, auto a, auto b) { return o == 0 ? a == b : o == 1 ? a > b : a < b; };
    int o = (int)sim::draw(3);
    int base = ty < 0 ? T_TOK : ty;
    if (k >= 1 && k <= 4 && ty < 0) k = k == 4 ? 4 : 0;   // annotations in general have only begin and end
    switch (k) {
    case 0: { int t = ty < 0 ? (int)sim::pick(std::vector<int>{T_TOK, T_SUBTOK, T_DEEP}) : (int)sim::draw(T_NUSER); bool sub = sim::draw(2);
      return {b.createTypeFilter(ts.getType(us(types[t].name)), sub), [t, sub](Node *n) { return n->ty < T_NUSER && (sub ? subsumes(t, n->ty) : n->ty == t); }, sim::fmt("type%d %s", sub, types[t].name)}; }
    case 1: { int val = (int)sim::draw(4); int f = featIdx(base, "k"); if (f < 0) f = featIdx(base, "uid");
      return {b.createIntFeatureFilter({M.W.feat[base][f]}, ops[o], val), [=](Node *n) { return opf(o, n->v[f].i, (int64_t)val); }, "int"}; }
    case 2: { int f = featIdx(base, "f"); if (f < 0) return genFilter(cas, depth); float val = (float)sim::draw(3) / 2;
      return {b.createFloatFeatureFilter({M.W.feat[base][f]}, ops[o], val), [=](Node *n) { return opf(o, (float)n->v[f].d, val); }, "float"}; }
    case 3: { int f = featIdx(base, "s"); Str s = genStr(M.W.dom); if (sim::draw(2) && want.size()) { Node *n = sim::pick(want); s = n->v[f].s; }
      return {b.createStringFeatureFilter({M.W.feat[base][f]}, (UChar const *)s.data(), s.size()), [=](Node *n) { return n->v[f].s == s; }, "string"}; }
    case 4: if (ty < 0) { int val = (int)sim::draw(6); Feature F = sim::draw(2) ? M.W.fBegin : M.W.fEnd; bool e = F == M.W.fEnd;
        return {b.createIntFeatureFilter({F}, ops[o], val), [=](Node *n) { return opf(o, e ? n->end : n->begin, (int64_t)val); }, e ? "end" : "begin"}; }
      if (base == T_PLAIN || base == T_SUBPLAIN) {  // along a reference path: "tok" leads to an annotation when set on all
        bool all = true; int f = featIdx(base, "tok"), k2 = featIdx(T_TOK, "k");
        for (auto *n : want) if (!n->v[f].ref) all = false;
        if (all) { int val = (int)sim::draw(4);
          if (sim::draw(2)) return {b.createIntFeatureFilter({M.W.feat[base][f], M.W.feat[T_TOK][k2]}, ops[o], val), [=](Node *n) { return opf(o, n->v[f].ref->v[k2].i, (int64_t)val); }, "path"};
          return {b.createMatchFilter({M.W.feat[base][f]}, b.createIntFeatureFilter({M.W.feat[T_TOK][k2]}, ops[o], val)), [=](Node *n) { return opf(o, n->v[f].ref->v[k2].i, (int64_t)val); }, "match"}; } }
      return genFilter(cas, depth);
    case 5: case 6: { Flt x = genFilter(cas, depth - 1), y = genFilter(cas, depth - 1); auto p = x.p, q = y.p; return {b.createANDFilter(x.f, y.f), [=](Node *n) { return p(n) && q(n); }, "(" + x.d + " and " + y.d + ")"}; }
    case 7: { Flt x = genFilter(cas, depth - 1), y = genFilter(cas, depth - 1); auto p = x.p, q = y.p; return {b.createORFilter(x.f, y.f), [=](Node *n) { return p(n) || q(n); }, "(" + x.d + " or " + y.d + ")"}; }
    default: { Flt x = genFilter(cas, depth - 1); auto p = x.p; return {b.createNOTFilter(x.f), [=](Node *n) { return !p(n); }, "not " + x.d}; }
    }
  }
  void filtered() {
    CAS *cas = M.cas(v);
    Flt F;
    if (sim::chance(300)) {
      auto *c = new Custom; c->M = &M;
      for (auto *n : want) if (sim::draw(2)) c->skip.insert(n);
      F = {c, [c](Node *n) { return c->skip.count(n) > 0; }, "custom"};
    } else F = sim::sut([&] { return genFilter(cas, 2); });
    std::string how = "filtered by " + F.d;
    FSIterator it = sim::sut([&] { return idx.filteredIterator(F.f); });
    Seq exp;
    for (auto *n : want) if (!F.p(n)) exp.push_back(n);
    Seq f = forward(it);
    sameSet(f, exp, how.c_str()); inOrder(f, how.c_str()); reversed(f, backward(it), how.c_str());
    auto cand = candidates();
    if (cand.size() && ordered()) checkMoveTo(it, f, sim::pick(cand), how.c_str());
    FSIterator cp = sim::sut([&] { return FSIterator(it); });
    if (forward(cp) != f) sim::fail("index-content", "%s: a copied filtered iterator delivers something else", what.c_str());
  }
  void annotations() {
    if (indexes[ix].ty != -1) return;
    ANIndex an(idx);
    FSIterator fi = sim::sut([&] { return idx.iterator(); });
    Seq f = forward(fi);
    sameSet(f, want, "forward"); inOrder(f, "forward");
    auto greedy = [](Seq const &s) { Seq r; for (auto *n : s) if (r.empty() || n->begin >= r.back()->end) r.push_back(n); return r; };
    {
      ANIterator it = sim::sut([&] { return an.unambiguousIterator(); });
      Seq u = forward(it);
      if (u != greedy(f)) sim::fail("index-unambiguous", "%s: unambiguous iteration delivers {%s } out of {%s }", what.c_str(), ::show(u).c_str(), ::show(f).c_str());
    }
    std::vector<Node *> cand;
    for (auto *n : M.W.nodes) if (types[n->ty].annot && n->view == v) cand.push_back(n);
    if (cand.empty()) return;
    Node *a = sim::pick(cand);
    AnnotationFS af(a->h);
    ANIterator it = sim::sut([&] { return sim::draw(2) ? an.subIterator(af) : af.subIterator(M.cas(v)->getTypeSystem().getType(us(tyName(ty).c_str()))); });
    Seq s = forward(it);
    inOrder(s, "subiterator");
    Seq must;
    size_t times = 0;
    for (auto *n : want) { if (n == a) times++; if (Model::cmp(I(), a, n) < 0 && n->begin < a->end) must.push_back(n); }
    Seq extra = s;
    for (auto *n : must) { auto p = std::find(extra.begin(), extra.end(), n); if (p == extra.end()) sim::fail("index-subiterator", "%s: the subiterator of %s [%d,%d) misses %s; delivered {%s }", what.c_str(), a->name().c_str(), (int)a->begin, (int)a->end, n->name().c_str(), ::show(s).c_str()); extra.erase(p); }
    for (auto *n : extra) if (Model::cmp(I(), a, n) != 0 || n->begin >= a->end || std::find(want.begin(), want.end(), n) == want.end() || (n == a && times < 2))
      sim::fail("index-subiterator", "%s: the subiterator of %s [%d,%d) delivers %s, which is not under it", what.c_str(), a->name().c_str(), (int)a->begin, (int)a->end, n->name().c_str());
    ANIterator ut = sim::sut([&] { return an.subIterator(af, enUnambiguous); });
    Seq u = forward(ut);
    if (u != greedy(s)) sim::fail("index-unambiguous", "%s: the unambiguous subiterator of %s delivers {%s } out of {%s }", what.c_str(), a->name().c_str(), ::show(u).c_str(), ::show(s).c_str());
    sim::count("subiterators");
    int t2 = (int)sim::pick(std::vector<int>{T_TOK, T_SUBTOK, T_DEEP});
    AnnotationFS cov = sim::sut([&] { return af.getFirstCoveringAnnotation(M.W.type[t2]); });
    Node *best = nullptr;
    for (auto *n : M.c[v][ix]) if (n->ty != T_DOC && subsumes(t2, n->ty) && n->ty != a->ty && n->begin <= a->begin && n->end >= a->end && (!best || Model::cmp(I(), best, n) < 0)) best = n;
    if (cov.isValid() != (best != nullptr)) sim::fail("index-covering", "%s: covering annotation of %s %s", what.c_str(), a->name().c_str(), best ? "not found" : "found though there is none");
    if (best && Model::cmp(I(), best, M.node(cov, what.c_str())) != 0) sim::fail("index-covering", "%s: covering annotation of %s is %s, expected one equal to %s", what.c_str(), a->name().c_str(), M.node(cov, what.c_str())->name().c_str(), best->name().c_str());
  }
};

int pickType(size_t ix) {
  std::vector<int> ts;
  Index const &I = indexes[ix];
  ts.push_back(I.ty);
  for (int t = 0; t < T_NUSER; t++) if (t != I.ty && (I.ty == -1 ? types[t].annot : subsumes(I.ty, t))) ts.push_back(t);
  if (I.ty == -1) ts.push_back(-2);
  return sim::pick(ts);
}
void probe(Model &M) {
  int v = (int)sim::draw((uint32_t)M.W.views.size());
  size_t ix = sim::draw((uint32_t)indexes.size());
  Probe P(M, v, ix, pickType(ix));
  uint32_t k = sim::draw(7);
  sim::ev("probe %s kind %u", P.what.c_str(), k);
  switch (k) {
  case 0: P.full(); break;
  case 1: P.moves(); break;
  case 2: P.moveTo(); break;
  case 3: P.find(); break;
  case 4: P.typeSet(); break;
  case 5: P.filtered(); break;
  case 6: P.annotations(); break;
  }
}
void checkAll(Model &M) {
  for (size_t v = 0; v < M.W.views.size(); v++) for (size_t i = 0; i < indexes.size(); i++) {
    Probe P(M, (int)v, i, indexes[i].ty);
    P.full();
  }
}
void keys(World &W, Node *n, bool small) {  // only features that are index keys (and "tok" for paths)
  static const char *ks[] = {"k", "s", "f", "b", "y", "h", "l", "d"};
  for (auto *k : ks) { int f = featIdx(n->ty, k); if (f >= 0 && sim::chance(700)) W.setVal(n, f, genScalar(types[n->ty].all[f].kind, W.dom, small)); }
}
void refuse(const char *what, std::function<void()> f) {
  std::string r = guarded(what, f);
  sim::ev("refused %s: %s", what, r.c_str());
  if (r.empty()) sim::fail("invalid-access-accepted", "%s was accepted", what);
}
void invalid(Model &M) {
  CAS *cas = M.cas((int)sim::draw((uint32_t)M.W.views.size()));
  FSIndexRepository &r = cas->getIndexRepository();
  switch (sim::draw(8)) {
  case 0: refuse("getIndex of an unknown label", [&] { r.getIndex(us("NoSuchIndex"), M.W.type[T_PLAIN]); }); break;
  case 1: refuse("getIndex for a type the index does not cover", [&] { r.getIndex(us("SortPlain"), M.W.type[T_TOK]); }); break;
  case 2: refuse("adding an invalid feature structure", [&] { r.addFS(FeatureStructure()); }); break;
  case 3: refuse("removing an invalid feature structure", [&] { r.removeFS(FeatureStructure()); }); break;
  case 4: refuse("use of an invalid index", [&] { FSIndex x; x.iterator(); }); break;
  case 6: refuse("getIndex of an unknown label", [&] { r.getIndex(us("NoSuchIndex")); }); break;
  case 7: { bool ok = sim::sut([&] { FSIterator a; FSIterator b(a); FSIterator c = r.getIndex(us("BagPlain")).iterator(); c = b; return !b.isValid() && !c.isValid(); });
    if (!ok) sim::fail("index-content", "a copy of an iterator over nothing is valid"); break; }
  case 5: refuse("a type set outside the index", [&] { std::set<Type> s; s.insert(M.W.type[T_TOK]); r.getIndex(us("BagPlain")).typeSetIterator(s); }); break;
  }
}
}  // namespace

SIM_SCENARIO(C01, indexes, 1) {
  World W;
  Model M(W);
  CAS *cas = newCas(sim::draw(2) ? 2000 : 1 + sim::draw(30), 2000, 2000);
  W.attach(cas);
  M.clear();
  W.dom.longStr = 5;
  static const char *names[] = {"viewA", "viewB", "viewC"};
  bool small = !sim::chance(250);
  uint32_t wAdd = 2 + sim::draw(6), wRem = sim::draw(5), wReset = sim::chance(300) ? 1 : 0, wProbe = 1 + sim::draw(3), wView = sim::draw(3), wNoise = sim::draw(2);
  uint32_t tyMask = sim::chance(500) ? (1u << T_NUSER) - 1 : 1 + sim::draw((1u << T_NUSER) - 1);
  uint32_t ops = 20 + sim::skewed(160);
  auto newNode = [&](int v) -> Node * {
    std::vector<int> ts;
    for (int t = 0; t < T_NUSER; t++) if (tyMask >> t & 1) ts.push_back(t);
    int ty = sim::pick(ts);
    if (types[ty].annot && v == 0 && !W.views[0].hasText) { W.setText(0, genStr(W.dom)); if (W.views[0].text.size()) { Node *d = W.mk(); d->ty = T_DOC; d->view = 0; d->end = (int64_t)W.views[0].text.size();
        d->h = sim::sut([&] { return (FeatureStructure)W.views[0].cas->getDocumentAnnotation(); }); W.views[0].doc = d; M.created(d); M.add(d, 0); } }
    Node *n = W.create(ty, v);
    keys(W, n, small);
    if (types[ty].annot && W.nodes.size() > 1 && sim::chance(300)) {  // same span as another annotation
      Node *o = sim::pick(W.nodes);
      if (o != n && types[o->ty].annot) { sim::sut([&] { n->h.setIntValue(W.fBegin, (int)o->begin); n->h.setIntValue(W.fEnd, (int)o->end); }); n->begin = o->begin; n->end = o->end; sim::ev("span [%lld,%lld)", (long long)n->begin, (long long)n->end); }
    }
    int f = featIdx(ty, "tok");
    if (f >= 0) { Val x; x.set = true; for (auto *m : W.nodes) if (subsumes(T_TOK, m->ty)) { x.ref = m; if (sim::draw(2)) break; } if (x.ref) W.setVal(n, f, x); }
    M.created(n);
    return n;
  };
  sim::nontrivial();
  uint64_t adds = 0, removes = 0;
  for (uint32_t i = 0; i < ops; i++) {
    sim::Span sp;
    int v = (int)sim::draw((uint32_t)W.views.size());
    switch (sim::weighted({wProbe, wAdd, wRem, wReset, wView, wNoise, wRem})) {
    case 0: probe(M); break;
    case 1: {
      Node *n = W.nodes.size() && sim::chance(250) ? sim::pick(W.nodes) : newNode(v);
      if (types[n->ty].annot) v = n->view;
      CAS *c = M.cas(v);
      sim::sut([&] { c->getIndexRepository().addFS(n->h); });
      M.add(n, v); adds++;
      sim::ev("add %s to view%d", n->name().c_str(), v);
      break; }
    case 2: {
      if (W.nodes.empty()) break;
      Node *n = sim::pick(W.nodes);
      CAS *c = M.cas(v);
      sim::sut([&] { c->getIndexRepository().removeFS(n->h); });
      M.remove(n, v); removes++;
      sim::ev("remove %s from view%d", n->name().c_str(), v);
      if (sim::chance(300)) for (size_t k = 0; k < indexes.size(); k++) if (Model::inType(indexes[k].ty, n)) { Probe P(M, v, k, indexes[k].ty); P.full(); }
      break; }
    case 3: {
      sim::sut([&] { (sim::draw(2) ? W.base : M.cas(v))->reset(); });
      W.forget(); M.clear();
      sim::ev("reset");
      if (sim::draw(2)) checkAll(M);
      break; }
    case 4: {
      if (W.views.size() < 4 && sim::draw(2)) { W.addView(names[W.views.size() - 1]); M.viewAdded(); break; }
      if (sim::draw(2)) {
        if (W.views[v].hasText) break;
        W.setText(v, genStr(W.dom));
        if (W.views[v].text.size()) { Node *d = W.mk(); d->ty = T_DOC; d->view = v; d->end = (int64_t)W.views[v].text.size(); d->h = sim::sut([&] { return (FeatureStructure)W.views[v].cas->getDocumentAnnotation(); }); W.views[v].doc = d; M.created(d); M.add(d, v); }
        break; }
      CAS *from = M.cas((int)sim::draw((uint32_t)W.views.size()));
      CAS *h = sim::sut([&] { return from->getView(us(W.views[v].name.c_str())); });
      M.handles[v].push_back(h);
      sim::ev("view%d obtained again", v);
      break; }
    case 5: { if (sim::draw(2)) invalid(M); else { W.createArr(K_A_INT, sim::skewed(50)); } break; }
    case 6: {  // the documented way to change a key: remove, change, add again
      std::vector<Node *> ok;
      for (auto *n : W.nodes) if (!types[n->ty].annot || n->view == v) ok.push_back(n);
      if (ok.empty()) break;
      Node *n = sim::pick(ok);
      for (int guard = 0; M.anywhere(n) && guard < 100; guard++) for (size_t u = 0; u < W.views.size(); u++) {
        bool in = false; for (auto &l : M.c[u]) for (auto *m : l) if (m == n) in = true;
        if (in) { sim::sut([&] { M.cas((int)u)->getIndexRepository().removeFS(n->h); }); M.remove(n, (int)u); }
      }
      keys(W, n, small);
      sim::sut([&] { M.cas(v)->getIndexRepository().addFS(n->h); });
      M.add(n, v); adds++; removes++;
      sim::ev("update %s in view%d", n->name().c_str(), v);
      break; }
    }
  }
  checkAll(M);
  sim::count("adds", adds); sim::count("removes", removes);
}
