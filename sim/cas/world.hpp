// A CAS "world": type system, content generator, reference model and canonical dump shared by
// the CAS scenarios. Everything is driven from the simulator's choice stream.
#pragma once
#include "core/sim.hpp"
#include "uima/api.hpp"
#include "uima/internal_casimpl.hpp"
#include "uima/casdefinition.hpp"
#include "uima/xmlerror_handler.hpp"
#include "uima/internal_fspromoter.hpp"
#include "uima/arrayfs.hpp"
#include "uima/listfs.hpp"
#include "uima/annotator_context.hpp"
#include <map>
#include <set>
#include <string>
#include <vector>

namespace w {
typedef std::u16string Str;

enum Kind { K_INT, K_FLOAT, K_STR, K_COLOR, K_BOOL, K_BYTE, K_SHORT, K_LONG, K_DOUBLE, K_REF, K_REFTOK,
            K_A_INT, K_A_FLOAT, K_A_STR, K_A_BOOL, K_A_BYTE, K_A_SHORT, K_A_LONG, K_A_DOUBLE, K_A_FS,
            K_L_INT, K_L_FLOAT, K_L_STR, K_L_FS, K_N };
inline bool isArray(int k) { return k >= K_A_INT && k <= K_A_FS; }
inline bool isList(int k) { return k >= K_L_INT && k <= K_L_FS; }
inline bool isRef(int k) { return k == K_REF || k == K_REFTOK || isArray(k) || isList(k); }
int elemKind(int k);              // K_A_INT -> K_INT, K_L_FS -> K_REF ...
const char *kindRange(int k);     // range type name

struct Feat { const char *name; Kind kind; bool mra; };
enum Ty { T_PLAIN, T_SUBPLAIN, T_TOK, T_SUBTOK, T_DEEP, T_LOOSE, T_STRAY, T_NUSER, T_DOC = T_NUSER, T_ARR, T_LST };
struct TypeInfo { const char *name; int super; std::vector<Feat> own, all; bool annot; };
extern std::vector<TypeInfo> types;
bool subsumes(int super, int sub);
int featIdx(int ty, const char *name);

struct Key { const char *feat; bool rev; };           // feat==nullptr: type priority
struct Index { const char *label; int ty; int kind; std::vector<Key> keys; };  // kind 0 sorted 1 bag 2 set
extern std::vector<Index> indexes;

struct Subset { bool drop[T_NUSER] = {}; std::set<std::pair<int, std::string>> noFeat; };   // a smaller type system
std::string descriptorXml(Subset const *sub = nullptr);
extern uima::internal::CASDefinition *casdef;
extern std::vector<uima::internal::CASDefinition *> partialDefs;   // each lacks some types and features
extern std::vector<Subset> partialSubsets;
uima::CAS *newPartialCas(size_t which);
void initProcess();               // parses the descriptor once
uima::CAS *newCas(size_t fsPage = 0, size_t strPage = 0, size_t refPage = 0);  // initial view

struct Node;
struct Val { bool set = false; int64_t i = 0; double d = 0; Str s; Node *ref = nullptr; };
bool sameVal(int kind, Val const &a, Val const &b);
std::string showVal(int kind, Val const &v);
std::string show(Str const &s);

struct Node {
  int ty = 0, kind = 0;           // kind for arrays / list cells
  int uid = 0;
  int view = 0;                   // annotations: owning view
  bool empty = false;             // list cells
  Node *tail = nullptr;
  std::vector<Val> v;             // features (types[ty].all), array elements, or {head}
  int64_t begin = 0, end = 0;     // annotations
  uima::FeatureStructure h;
  std::string name() const;
};

struct View { std::string name; uima::CAS *cas; bool hasText = false; Str text; Node *doc = nullptr; };

struct Domain {                   // which values the generator may produce
  bool xmlSafe = false;           // only characters XML 1.0 can carry
  bool finite = true;
  bool nul = false;
  bool crlf = true;               // may contain CR / TAB / LF
  uint32_t longStr = 20;          // per mille of strings that are long
};
Str genStr(Domain const &d);
Val genScalar(int kind, Domain const &d, bool smallDomain);

struct World {
  Domain dom;
  uima::CAS *base = nullptr;      // the initial view
  std::vector<View> views;
  std::vector<Node *> nodes;      // user-type nodes
  std::vector<Node *> arrs, lsts;
  int nextUid = 1;
  std::vector<std::unique_ptr<Node>> pool;
  uima::Type type[T_NUSER];
  std::vector<uima::Feature> feat[T_NUSER];
  uima::Feature fBegin, fEnd;
  ~World();
  void attach(uima::CAS *initial);
  void bindTypes();
  void forget();                  // after reset: drop model content
  Node *mk();
  // operations applied to the real CAS and the model
  int addView(const char *name);
  void setText(int view, Str const &t);
  Node *create(int ty, int view);
  Node *createArr(int kind, size_t n, bool fill = true);
  Node *createLst(int kind, std::vector<Val> const &elems);
  void setVal(Node *n, int f, Val const &v);       // scalar or reference
  Val genVal(int ty, int f, bool smallDomain);     // references point to existing/new nodes
  void setElem(Node *arr, size_t i, Val const &v);
  Val readVal(Node *n, int f);
  Val readElem(Node *arr, size_t i);
  Node *byHandle(uima::FeatureStructure const &fs); // null for unknown
  void checkMembers(const char *sig);              // every view has exactly the members added and not removed
  void checkNode(Node *n, const char *sig);        // every value equals the model
  void fill(Node *n, uint32_t density, bool smallDomain);
  // random content: views, texts, structures, indexes
  void populate(uint32_t size, bool multiView);
  // less common content: removals, sofa data of other kinds, languages, empty array elements
  void decorate();
  std::vector<Node *> indexed;    // in add order (per view implied for annotations)
  std::vector<std::pair<Node *, int>> adds;
  void addToIndex(Node *n, int view);
};

inline uima::lowlevel::TyFS fsAddr(uima::FeatureStructure const &f) { return uima::internal::FSPromoter::demoteFS(f); }
bool sameFS(uima::FeatureStructure const &a, uima::FeatureStructure const &b);
uima::FeatureStructure handleOf(World &, Val const &v);
uima::UnicodeStringRef sref(Str const &s);
Str toStr(uima::UnicodeStringRef const &r);
icu::UnicodeString us(const char *s);
icu::UnicodeString us(Str const &s);

// canonical text form of everything observable in the CAS through its public API
struct DumpOpt { bool sofaNum = false; bool order = false; bool mime = true; bool unset = false; };
std::vector<std::string> dump(uima::CAS *anyView, DumpOpt o = {});
void expectSame(const char *sig, std::vector<std::string> const &want, std::vector<std::string> const &got, const char *what);

// runs f; returns "" or a description of the uima exception thrown (any other exception fails)
std::string guarded(const char *what, std::function<void()> f);
std::string excText(uima::Exception &e);
}  // namespace w
