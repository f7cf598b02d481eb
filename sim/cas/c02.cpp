// C02: every value read back is the one last written, whatever else happened.
#include "world.hpp"
#include <cstring>
using namespace uima;
using namespace w;

namespace {
// must be refused with an exception; anything else is a violation. State is re-checked afterwards.
void refuse(const char *what, std::function<void()> f) {
  bool threw = false;
  std::string how;
  try { sim::sut(f); }
  catch (uima::Exception &e) { threw = true; how = e.getName(); }
  catch (std::exception &e) { sim::fail("foreign-exception", "%s threw a foreign exception: %s", what, e.what()); }
  sim::ev("refuse %s: %s", what, how.c_str());
  if (!threw) sim::fail("invalid-access-accepted", "%s was accepted", what);
  sim::count("invalid_access");
}

void getAny(FeatureStructure &h, Feature const &F, int kind) {
  switch (kind) {
  case 0: (void)h.getIntValue(F); break;
  case 1: (void)h.getFloatValue(F); break;
  case 2: (void)h.getStringValue(F); break;
  case 3: (void)h.getBooleanValue(F); break;
  case 4: (void)h.getByteValue(F); break;
  case 5: (void)h.getShortValue(F); break;
  case 6: (void)h.getLongValue(F); break;
  case 7: (void)h.getDoubleValue(F); break;
  case 8: (void)h.getFSValue(F); break;
  case 9: (void)h.getArrayFSValue(F); break;
  case 10: (void)h.getIntArrayFSValue(F); break;
  case 11: (void)h.getStringArrayFSValue(F); break;
  case 12: (void)h.getListFSValue(F); break;
  case 13: (void)h.getIntListFSValue(F); break;
  case 14: (void)h.isUntouchedFSValue(F); break;
  }
}
void setAny(FeatureStructure &h, Feature const &F, int kind, FeatureStructure const &fs) {
  switch (kind) {
  case 0: h.setIntValue(F, 7); break;
  case 1: h.setFloatValue(F, 7); break;
  case 2: h.setStringValue(F, us("red")); break;
  case 3: h.setBooleanValue(F, true); break;
  case 4: h.setByteValue(F, 7); break;
  case 5: h.setShortValue(F, 7); break;
  case 6: h.setLongValue(F, 7); break;
  case 7: h.setDoubleValue(F, 7); break;
  case 8: h.setFSValue(F, fs); break;
  }
}
int accessorOf(int kind) {  // the accessor group that is legal for a feature kind
  switch (kind) {
  case K_INT: return 0; case K_FLOAT: return 1; case K_STR: case K_COLOR: return 2; case K_BOOL: return 3; case K_BYTE: return 4;
  case K_SHORT: return 5; case K_LONG: return 6; case K_DOUBLE: return 7; default: return 8;
  }
}
bool accepts(World &W, Feat const &ft, Node *n) {
  if (ft.kind == K_REF) return true;
  if (ft.kind == K_REFTOK) return subsumes(T_TOK, n->ty);
  return (n->ty == T_ARR || n->ty == T_LST) && n->kind == ft.kind;
}
const char *accNames[] = {"int", "float", "string", "boolean", "byte", "short", "long", "double", "fs", "fsarray", "intarray", "stringarray", "fslist", "intlist", "untouched"};

void invalidAccess(World &W, CAS *other) {
  Node *n = sim::pick(W.nodes);
  FeatureStructure h = n->h;
  switch (sim::draw(14)) {
  case 0: {  // feature of an unrelated type
    int t2 = types[n->ty].annot ? T_PLAIN : n->ty == T_LOOSE || n->ty == T_STRAY ? T_TOK : T_DEEP;
    size_t f = sim::draw((uint32_t)types[t2].all.size());
    Feature F = W.feat[t2][f];
    int a = accessorOf(types[t2].all[f].kind);
    if (types[t2].all[f].kind == K_L_FS && sim::draw(2)) { refuse(sim::fmt("getfslist of %s.%s on %s", types[t2].name, types[t2].all[f].name, n->name().c_str()).c_str(), [&] { getAny(h, F, 12); }); break; }
    if (sim::draw(2)) { FeatureStructure v = a == 8 && W.nodes.size() ? sim::pick(W.nodes)->h : h; refuse(sim::fmt("set%s of %s.%s on %s", accNames[a], types[t2].name, types[t2].all[f].name, n->name().c_str()).c_str(), [&] { setAny(h, F, a, v); }); }
    else refuse(sim::fmt("get%s of %s.%s on %s", accNames[a], types[t2].name, types[t2].all[f].name, n->name().c_str()).c_str(), [&] { getAny(h, F, a); });
    break; }
  case 1: {  // accessor of another kind, reading
    size_t f = sim::draw((uint32_t)types[n->ty].all.size());
    Feat const &ft = types[n->ty].all[f];
    int a = (int)sim::draw(9);
    if (a == accessorOf(ft.kind)) return;
    refuse(sim::fmt("get%s of %s feature %s", accNames[a], kindRange(ft.kind), ft.name).c_str(), [&] { getAny(h, W.feat[n->ty][f], a); });
    break; }
  case 2: {  // accessor of another kind, writing
    size_t f = sim::draw((uint32_t)types[n->ty].all.size());
    Feat const &ft = types[n->ty].all[f];
    int a = (int)sim::draw(9);
    if (a == accessorOf(ft.kind)) return;
    refuse(sim::fmt("set%s of %s feature %s", accNames[a], kindRange(ft.kind), ft.name).c_str(), [&] { setAny(h, W.feat[n->ty][f], a, sim::pick(W.nodes)->h); });
    break; }
  case 3: {  // reference of the wrong type
    std::vector<int> fs;
    for (size_t f = 0; f < types[n->ty].all.size(); f++) if (isRef(types[n->ty].all[f].kind)) fs.push_back((int)f);
    if (fs.empty()) return;
    int f = sim::pick(fs);
    std::vector<Node *> c;
    for (auto *x : W.nodes) c.push_back(x);
    for (auto *x : W.arrs) c.push_back(x);
    for (auto *x : W.lsts) c.push_back(x);
    Node *v = sim::pick(c);
    if (accepts(W, types[n->ty].all[f], v)) return;
    refuse(sim::fmt("storing %s in %s feature %s", v->name().c_str(), kindRange(types[n->ty].all[f].kind), types[n->ty].all[f].name).c_str(), [&] { h.setFSValue(W.feat[n->ty][f], v->h); });
    break; }
  case 4: {  // array index out of range
    if (W.arrs.empty()) return;
    Node *a = sim::pick(W.arrs);
    size_t i = a->v.size() + (sim::draw(2) ? sim::draw(1000) : 0);
    if (sim::chance(200)) i = (size_t)-1;
    if (sim::draw(2)) refuse(sim::fmt("reading %s[%zd] of %zu", a->name().c_str(), (ssize_t)i, a->v.size()).c_str(), [&] {
      switch (a->kind) {
      case K_A_INT: IntArrayFS(a->h).get(i); break; case K_A_FLOAT: FloatArrayFS(a->h).get(i); break; case K_A_STR: StringArrayFS(a->h).get(i); break;
      case K_A_BOOL: BooleanArrayFS(a->h).get(i); break; case K_A_BYTE: ByteArrayFS(a->h).get(i); break; case K_A_SHORT: ShortArrayFS(a->h).get(i); break;
      case K_A_LONG: LongArrayFS(a->h).get(i); break; case K_A_DOUBLE: DoubleArrayFS(a->h).get(i); break; case K_A_FS: ArrayFS(a->h).get(i); break; } });
    else refuse(sim::fmt("writing %s[%zd] of %zu", a->name().c_str(), (ssize_t)i, a->v.size()).c_str(), [&] {
      switch (a->kind) {
      case K_A_INT: IntArrayFS(a->h).set(i, 9); break; case K_A_FLOAT: FloatArrayFS(a->h).set(i, 9); break; case K_A_STR: StringArrayFS(a->h).set(i, UnicodeStringRef()); break;
      case K_A_BOOL: BooleanArrayFS(a->h).set(i, true); break; case K_A_BYTE: ByteArrayFS(a->h).set(i, 9); break; case K_A_SHORT: ShortArrayFS(a->h).set(i, 9); break;
      case K_A_LONG: LongArrayFS(a->h).set(i, 9); break; case K_A_DOUBLE: DoubleArrayFS(a->h).set(i, 9); break; case K_A_FS: ArrayFS(a->h).set(i, h); break; } });
    break; }
  case 5: {  // bulk copy out of range
    std::vector<Node *> c;
    for (auto *x : W.arrs) if (x->kind == K_A_INT || x->kind == K_A_BYTE || x->kind == K_A_SHORT || x->kind == K_A_LONG) c.push_back(x);
    if (c.empty()) return;
    Node *a = sim::pick(c);
    size_t n = a->v.size(), start = sim::draw((uint32_t)n + 1), cnt = n - start + 1 + sim::draw(4);
    bool out = sim::draw(2);
    std::vector<char> buf((start + cnt + 8) * 8);
    std::string what = sim::fmt("bulk %s %zu elements at %zu of %s[%zu]", out ? "reading" : "writing", cnt, start, a->name().c_str(), n);
    refuse(what.c_str(), [&] {
      switch (a->kind) {
      case K_A_INT: if (out) IntArrayFS(a->h).copyToArray(start, start + cnt, (int *)buf.data(), 0); else IntArrayFS(a->h).copyFromArray((int *)buf.data(), 0, cnt, start); break;
      case K_A_BYTE: if (out) ByteArrayFS(a->h).copyToArray(start, start + cnt, (char *)buf.data(), 0); else ByteArrayFS(a->h).copyFromArray((char *)buf.data(), 0, cnt, start); break;
      case K_A_SHORT: if (out) ShortArrayFS(a->h).copyToArray(start, start + cnt, (short *)buf.data(), 0); else ShortArrayFS(a->h).copyFromArray((short *)buf.data(), 0, cnt, start); break;
      case K_A_LONG: if (out) LongArrayFS(a->h).copyToArray(start, start + cnt, (INT64 *)buf.data(), 0); else LongArrayFS(a->h).copyFromArray((INT64 *)buf.data(), 0, cnt, start); break;
      } });
    break; }
  case 6: {  // empty list
    IntListFS e = sim::sut([&] { return W.base->createIntListFS(); });
    switch (sim::draw(4)) {
    case 0: refuse("head of an empty list", [&] { e.getHead(); }); break;
    case 1: refuse("tail of an empty list", [&] { e.getTail(); }); break;
    case 2: refuse("setHead on an empty list", [&] { e.setHead(3); }); break;
    case 3: refuse("moveToNext on an empty list", [&] { e.moveToNext(); }); break;
    }
    break; }
  case 7: {  // wrong handle type
    if (W.arrs.empty()) return;
    Node *a = sim::pick(W.arrs);
    switch (sim::draw(4)) {
    case 0: if (a->kind != K_A_INT) refuse("IntArrayFS made from another type", [&] { IntArrayFS x(a->h); }); break;
    case 1: if (a->kind != K_A_LONG) refuse("LongArrayFS made from another type", [&] { LongArrayFS x(a->h); }); break;
    case 2: refuse("StringListFS made from an array", [&] { StringListFS x(a->h); }); break;
    case 3: refuse("ArrayFS made from a non-array", [&] { ArrayFS x(h); }); break;
    }
    break; }
  case 8: {  // invalid feature structure
    FeatureStructure z;
    size_t f = sim::draw((uint32_t)types[n->ty].all.size());
    int a = accessorOf(types[n->ty].all[f].kind);
    if (sim::draw(2)) refuse(sim::fmt("get%s on an invalid feature structure", accNames[a]).c_str(), [&] { getAny(z, W.feat[n->ty][f], a); });
    else refuse(sim::fmt("set%s on an invalid feature structure", accNames[a]).c_str(), [&] { setAny(z, W.feat[n->ty][f], a, h); });
    break; }
  case 9: {  // unknown feature
    Feature F = sim::draw(2) ? Feature() : W.type[n->ty].getFeatureByBaseName(us("nosuchfeature"));
    int a = (int)sim::draw(15);
    if (a < 9 && sim::draw(2)) refuse(sim::fmt("set%s of an unknown feature", accNames[a]).c_str(), [&] { setAny(h, F, a, h); });
    else refuse(sim::fmt("get%s of an unknown feature", accNames[a]).c_str(), [&] { getAny(h, F, a); });
    break; }
  case 10: {  // value outside the allowed set
    if (n->ty != T_PLAIN && n->ty != T_SUBPLAIN) return;
    int f = featIdx(n->ty, "color");
    Str s = sim::draw(2) ? Str(u"pink") : Str(u"redd");
    refuse("a string outside the allowed values", [&] { h.setStringValue(W.feat[n->ty][f], sref(s)); });
    break; }
  case 11: {  // invalid value object
    int f = featIdx(n->ty, "ref");
    refuse("storing an invalid feature structure", [&] { h.setFSValue(W.feat[n->ty][f], FeatureStructure()); });
    break; }
  case 12: {  // feature structure of another CAS
    FeatureStructure o = sim::sut([&] { return other->createFS(other->getTypeSystem().getType(us("ent.Plain"))); });
    int f = featIdx(n->ty, "ref");
    refuse("storing a feature structure of another CAS", [&] { h.setFSValue(W.feat[n->ty][f], o); });
    break; }
  case 13: {  // types that cannot be instantiated
    static const char *bad[] = {"uima.cas.Integer", "uima.cas.String", "uima.cas.FSArray", "uima.cas.IntegerArray", "ent.Color", "no.such.Type"};
    const char *t = bad[sim::draw(6)];
    refuse(sim::fmt("creating a feature structure of type %s", t).c_str(), [&] { W.base->createFS(W.base->getTypeSystem().getType(us(t))); });
    break; }
  }
  W.checkNode(n, "changed-by-refused-access");
}

// bulk copies
void bulk(World &W) {
  std::vector<Node *> c;
  for (auto *x : W.arrs) if (x->kind != K_A_STR && x->kind != K_A_FS) c.push_back(x);
  if (c.empty()) return;
  Node *a = sim::pick(c);
  size_t n = a->v.size();
  if (!n) return;
  size_t start = sim::draw((uint32_t)n), cnt = 1 + sim::draw((uint32_t)(n - start)), off = sim::draw(3);
  bool out = sim::draw(2);
  int ek = elemKind(a->kind);
  auto go = [&](auto arr, auto zero, auto get, auto put) {
    typedef decltype(zero) T;
    std::unique_ptr<T[]> buf(new T[off + cnt + 1]);
    for (size_t i = 0; i <= off + cnt; i++) buf[i] = T(1);
    if (out) {
      sim::sut([&] { arr.copyToArray(start, start + cnt, buf.get(), off); });
      for (size_t i = 0; i < cnt; i++) { Val v; v.set = true; get(v, buf[off + i]); if (!sameVal(ek, v, a->v[start + i]))
        sim::fail("value", "copyToArray: %s[%zu] delivered %s, last written %s", a->name().c_str(), start + i, showVal(ek, v).c_str(), showVal(ek, a->v[start + i]).c_str()); }
      for (size_t i = 0; i < off; i++) if (!(buf[i] == T(1))) sim::fail("value", "copyToArray wrote before the destination offset");
      if (!(buf[off + cnt] == T(1))) sim::fail("value", "copyToArray wrote past the requested elements");
    } else {
      std::vector<Val> nv;
      for (size_t i = 0; i < cnt; i++) { nv.push_back(genScalar(ek, W.dom, false)); put(buf[off + i], nv[i]); }
      sim::sut([&] { arr.copyFromArray(buf.get(), off, off + cnt, start); });
      for (size_t i = 0; i < cnt; i++) a->v[start + i] = nv[i];
    }
  };
  auto gi = [](Val &v, auto x) { v.i = (int64_t)x; };
  auto gd = [](Val &v, auto x) { v.d = x; };
  sim::ev("bulk %s %s [%zu,+%zu) off %zu", out ? "read" : "write", a->name().c_str(), start, cnt, off);
  switch (a->kind) {
  case K_A_INT: go(IntArrayFS(a->h), int(0), gi, [](int &x, Val &v) { x = (int)v.i; }); break;
  case K_A_FLOAT: go(FloatArrayFS(a->h), float(0), gd, [](float &x, Val &v) { x = (float)v.d; }); break;
  case K_A_BOOL: go(BooleanArrayFS(a->h), bool(0), gi, [](bool &x, Val &v) { x = v.i; }); break;
  case K_A_BYTE: go(ByteArrayFS(a->h), char(0), [](Val &v, char x) { v.i = (signed char)x; }, [](char &x, Val &v) { x = (char)v.i; }); break;
  case K_A_SHORT: go(ShortArrayFS(a->h), short(0), gi, [](short &x, Val &v) { x = (short)v.i; }); break;
  case K_A_LONG: go(LongArrayFS(a->h), INT64(0), gi, [](INT64 &x, Val &v) { x = v.i; }); break;
  case K_A_DOUBLE: go(DoubleArrayFS(a->h), double(0), gd, [](double &x, Val &v) { x = v.d; }); break;
  }
}

// list operations on a handle; model works on cells
// an element is named to removeElement as the list itself delivers it (a handle of the list's view)
template <class L, class T> FeatureStructure removeVia(L &l, T const &v, CAS &) { return l.removeElement(v); }
template <class L> FeatureStructure removeVia(L &l, FeatureStructure const &v, CAS &c) { return l.removeElement(v.isValid() ? internal::FSPromoter::promoteFS(fsAddr(v), c) : v); }
template <class L, class Conv> void listOp(World &W, size_t li, Conv conv) {
  Node *c = W.lsts[li];
  L l(c->h);
  int kind = c->kind, ek = elemKind(kind);
  auto gen = [&] { Val v; if (ek == K_REF) { v.ref = sim::pick(W.nodes); v.set = true; } else v = genScalar(ek, W.dom, sim::draw(2)); return v; };
  auto cell = [&](Val const &v, Node *tail) { Node *n = W.mk(); n->ty = T_LST; n->kind = kind; n->v.push_back(v); n->tail = tail; return n; };
  auto last = [](Node *n) { while (!n->tail->empty) n = n->tail; return n; };
  switch (sim::draw(9)) {
  case 0: { Val v = gen(); L r = sim::sut([&] { return L(l.addFirst(conv(v))); }); Node *n = cell(v, c); n->h = l; W.lsts[li] = n;
    sim::ev("list%zu addFirst %s", li, showVal(ek, v).c_str());
    if (!(r == l)) sim::fail("list", "addFirst does not return the list"); break; }
  case 1: { Val v = gen(); L r = sim::sut([&] { return L(l.addLast(conv(v))); });
    sim::ev("list%zu addLast %s", li, showVal(ek, v).c_str());
    if (c->empty) { Node *n = cell(v, c); n->h = l; W.lsts[li] = n; }
    else { Node *e = last(c); Node *n = cell(v, e->tail); n->h = r; e->tail = n; if (!(l == c->h)) sim::fail("list", "addLast moved the list handle"); }
    break; }
  case 2: { if (c->empty) return; Val v = gen(); sim::sut([&] { l.setHead(conv(v)); }); c->v[0] = v; sim::ev("list%zu setHead %s", li, showVal(ek, v).c_str()); break; }
  case 3: { if (c->empty) return; sim::sut([&] { l.moveToNext(); }); W.lsts[li] = c->tail; sim::ev("list%zu moveToNext", li);
    if (!(l == c->tail->h)) sim::fail("list", "moveToNext does not lead to the tail"); break; }
  case 4: { // removeElement
    std::vector<Node *> cells; for (Node *x = c; !x->empty; x = x->tail) cells.push_back(x);
    Val v = cells.size() && sim::chance(800) ? sim::pick(cells)->v[0] : gen();
    Node *prev = nullptr, *hit = nullptr;
    for (Node *x : cells) { if (sameVal(ek, x->v[0], v) || (ek == K_FLOAT && (float)x->v[0].d == (float)v.d)) { hit = x; break; } prev = x; }
    L r = sim::sut([&] { return L(removeVia(l, conv(v), *W.base)); });
    sim::ev("list%zu remove %s", li, showVal(ek, v).c_str());
    if (!hit) { if (r.isValid()) sim::fail("list", "removeElement of an absent element returned a list"); break; }
    if (!(r == hit->h)) sim::fail("list", "removeElement did not return the removed element's cell");
    Node *rest = hit->tail;
    FeatureStructure t = sim::sut([&] { return (FeatureStructure)r.getTail(); });
    if (rest->h == t) sim::fail("list", "the removed element still leads to the rest of the list");
    Node *e = W.mk(); e->ty = T_LST; e->kind = kind; e->empty = true; e->h = t; hit->tail = e;
    if (prev) prev->tail = rest; else W.lsts[li] = rest;
    break; }
  case 5: { // append a fresh list
    std::vector<Val> el; for (uint32_t i = sim::draw(4); i-- > 0;) el.push_back(gen());
    Node *o = W.createLst(kind, el); W.lsts.pop_back();
    L r = sim::sut([&] { return L(l.append(L(o->h))); });
    sim::ev("list%zu append", li);
    if (c->empty) W.lsts[li] = o; else last(c)->tail = o;
    if (!(r == W.lsts[li]->h)) sim::fail("list", "append does not return the new list");
    break; }
  case 6: { // prepend a fresh list
    std::vector<Val> el; for (uint32_t i = sim::draw(4); i-- > 0;) el.push_back(gen());
    Node *o = W.createLst(kind, el); W.lsts.pop_back();
    L r = sim::sut([&] { return L(l.prepend(L(o->h))); });
    sim::ev("list%zu prepend", li);
    if (!o->empty) { last(o)->tail = c; W.lsts[li] = o; }
    if (!(r == W.lsts[li]->h)) sim::fail("list", "prepend does not return the new list");
    break; }
  case 7: { // setTail
    if (c->empty) return;
    Node *o = W.createLst(kind, {}); W.lsts.pop_back();
    sim::sut([&] { l.setTail(L(o->h)); }); c->tail = o; sim::ev("list%zu setTail", li); break; }
  case 8: { W.checkNode(c, "list"); if (!c->empty) { bool threw = false; try { sim::sut([&] { l.append(L(c->h)); }); } catch (uima::Exception &) { threw = true; }
      if (!threw) sim::fail("invalid-access-accepted", "appending a list to itself was accepted"); sim::ev("list%zu circular refused", li); } break; }
  }
  // a shared suffix may now end differently for other handles: the cell model covers that
}

void clones(World &W) {
  Node *n = sim::pick(W.nodes);
  Node *m = W.mk();
  bool same = sim::draw(2);
  int ty = same ? n->ty : (int)sim::draw(T_NUSER);
  if (types[ty].annot && !types[n->ty].annot) { ty = n->ty; same = true; }
  m->ty = ty; m->view = n->view;
  m->v.resize(types[ty].all.size());
  sim::sut([&] { if (same) m->h = n->h.clone(); else m->h = n->h.clone(W.type[ty]); });
  // the most specific common supertype's features are copied
  int c = n->ty; while (c >= 0 && !subsumes(c, ty)) c = types[c].super;
  if (c >= 0) for (size_t f = 0; f < types[c].all.size(); f++) m->v[f] = n->v[f];
  if (types[ty].annot && types[n->ty].annot) { m->begin = n->begin; m->end = n->end; }
  W.nodes.push_back(m);
  sim::ev("clone %s as %s", n->name().c_str(), m->name().c_str());
  if (m->h == n->h) sim::fail("value", "clone returned the original");
  W.checkNode(m, "value");
}

void copyString(World &W) {  // the source buffer lies inside the CAS
  std::vector<std::pair<Node *, int>> c;
  for (auto *n : W.nodes) { int f = featIdx(n->ty, "s"); if (f >= 0) c.push_back({n, f}); }
  if (c.empty()) return;
  auto a = sim::pick(c), b = sim::pick(c);
  sim::sut([&] { b.first->h.setStringValue(W.feat[b.first->ty][b.second], a.first->h.getStringValue(W.feat[a.first->ty][a.second])); });
  b.first->v[b.second] = a.first->v[a.second]; b.first->v[b.second].set = true;
  sim::ev("copy %s.s to %s.s", a.first->name().c_str(), b.first->name().c_str());
}

void checkText(World &W) {
  for (auto &v : W.views) if (v.hasText) {
    Str t = toStr(sim::sut([&] { return v.cas->getDocumentText(); }));
    if (t != v.text) sim::fail("value", "document text of %s reads %s, set to %s", v.name.c_str(), show(t).c_str(), show(v.text).c_str());
  }
}

// walking the storage visits every structure once, in the order of creation, and copies of the iterator stay in place
void checkWalk(World &W) {
  std::set<lowlevel::TyFS> left;
  for (auto &n : W.pool) if (n->h.isValid()) left.insert(fsAddr(n->h));
  size_t total = left.size(), visited = 0, limit = sim::sut([&] { return (size_t)W.base->getHeap()->getHeap().getTopOfHeap(); });
  lowlevel::TyFS last = 0;
  FSIterator it = sim::sut([&] { return W.base->getBaseCas()->iterator(); });
  uint32_t copyAt = sim::chance(500) ? sim::skewed(30) : ~0u;
  for (; sim::sut([&] { return it.isValid(); }); sim::sut([&] { it.moveToNext(); }), visited++) {
    FeatureStructure fs = sim::sut([&] { return it.get(); });
    lowlevel::TyFS at = fsAddr(fs);
    if (at <= last || visited > limit) sim::fail("walk", "walking the CAS goes from structure %u to %u", (unsigned)last, (unsigned)at);
    last = at;
    left.erase(at);
    if (visited == copyAt) {
      FSIterator c = sim::sut([&] { return FSIterator(it); });
      if (!sim::sut([&] { return c.isValid(); }) || fsAddr(sim::sut([&] { return c.get(); })) != at) sim::fail("walk", "a copy of the iterator is at another structure");
    }
  }
  if (!left.empty()) sim::fail("walk", "walking the CAS misses %zu of %zu structures, first %u", left.size(), total, (unsigned)*left.begin());
}
}  // namespace

SIM_SCENARIO(C02, values, 1) {
  static const size_t pages[] = {2000, 1, 2, 3, 7, 16, 64, 500};
  World W;
  size_t a = pages[sim::draw(8)], b = pages[sim::draw(8)], c = pages[sim::draw(8)];
  W.attach(newCas(a, b, c));
  CAS *other = newCas();
  sim::ev("heap pages %zu %zu %zu", a, b, c);
  W.dom.finite = false;
  W.dom.longStr = sim::draw(2) ? 20 : 100;
  W.dom.nul = true;
  if (sim::chance(800)) W.setText(0, genStr(W.dom));
  if (sim::draw(2)) { W.addView("viewA"); if (sim::draw(2)) W.setText(1, genStr(W.dom)); }
  uint32_t wts[14];
  for (auto &x : wts) x = sim::chance(250) ? 0 : 1 + sim::draw(4);  // swarm: some operations off
  bool small = sim::draw(2);
  W.create(T_PLAIN, 0);
  uint32_t ops = 20 + sim::skewed(180);
  sim::nontrivial();
  for (uint32_t i = 0; i < ops; i++) {
    sim::Span sp;
    switch (sim::weighted({wts[0] + 1, wts[1] * 3 + 1, wts[2], wts[3], wts[4], wts[5], wts[6], wts[7], wts[8], wts[9], wts[10], wts[11], wts[12]})) {
    case 0: { int ty = (int)sim::draw(T_NUSER), v = (int)sim::draw((uint32_t)W.views.size());
      if (types[ty].annot && v == 0 && !W.views[0].hasText) ty = T_PLAIN;
      Node *n = W.create(ty, v); if (sim::draw(2)) W.fill(n, 400, small); break; }
    case 1: { Node *n = sim::pick(W.nodes); int f = (int)sim::draw((uint32_t)types[n->ty].all.size()); W.setVal(n, f, W.genVal(n->ty, f, small)); break; }
    case 2: { Node *n = sim::pick(W.nodes); W.checkNode(n, "value"); break; }
    case 3: { int k = K_A_INT + (int)sim::draw(9); W.createArr(k, sim::chance(50) ? sim::range(100, 3000) : sim::skewed(20), sim::draw(2)); break; }
    case 4: { if (W.arrs.empty()) break; Node *n = sim::pick(W.arrs); if (n->v.empty()) break; size_t j = sim::draw((uint32_t)n->v.size());
      Val v; if (n->kind == K_A_FS) { v.ref = sim::pick(W.nodes); v.set = true; } else v = genScalar(elemKind(n->kind), W.dom, small);
      W.setElem(n, j, v); sim::ev("%s[%zu] = %s", n->name().c_str(), j, showVal(elemKind(n->kind), v).c_str()); break; }
    case 5: bulk(W); break;
    case 6: { int k = K_L_INT + (int)sim::draw(4); std::vector<Val> el; for (uint32_t j = sim::skewed(6); j-- > 0;) { if (k == K_L_FS) { Val v; v.set = true; v.ref = sim::pick(W.nodes); el.push_back(v); } else el.push_back(genScalar(elemKind(k), W.dom, small)); } W.createLst(k, el); break; }
    case 7: { if (W.lsts.empty()) break; size_t li = sim::draw((uint32_t)W.lsts.size());
      switch (W.lsts[li]->kind) {
      case K_L_INT: listOp<IntListFS>(W, li, [](Val const &v) { return (int)v.i; }); break;
      case K_L_FLOAT: listOp<FloatListFS>(W, li, [](Val const &v) { return (float)v.d; }); break;
      case K_L_STR: listOp<StringListFS>(W, li, [](Val const &v) { return sref(v.s); }); break;
      case K_L_FS: listOp<ListFS>(W, li, [](Val const &v) { return v.ref->h; }); break;
      } break; }
    case 8: clones(W); break;
    case 9: copyString(W); break;
    case 10: invalidAccess(W, other); break;
    case 11: { Node *n = sim::pick(W.nodes); W.addToIndex(n, types[n->ty].annot ? n->view : (int)sim::draw((uint32_t)W.views.size())); break; }
    case 12: { if (W.arrs.size()) W.checkNode(sim::pick(W.arrs), "value"); if (W.lsts.size()) W.checkNode(sim::pick(W.lsts), "list"); checkText(W); break; }
    }
  }
  for (auto &n : W.pool) if (n->h.isValid()) W.checkNode(n.get(), n->ty == T_LST ? "list" : "value");
  checkText(W);
  checkWalk(W);
}
