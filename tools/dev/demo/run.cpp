// an annotator for the runner: fails on a document that begins with BAD, and yields one CAS per exclamation mark
#include "uima/api.hpp"
using namespace uima;
struct Run : Annotator {
  AnnotatorContext *c = nullptr; int left = 0, n = 0;
  TyErrorId initialize(AnnotatorContext &x) { c = &x; return 0; }
  TyErrorId typeSystemInit(TypeSystem const &) { return 0; }
  TyErrorId destroy() { return 0; }
  TyErrorId process(CAS &x, ResultSpecification const &) {
    left = n = 0;
    if (!x.getSofa().isValid()) return 0;
    UnicodeStringRef t = x.getDocumentText();
    for (int i = 0; i < t.length(); i++) left += t.charAt(i) == '!';
    if (t.length() > 2 && t.charAt(0) == 'B' && t.charAt(1) == 'A') return 17;
    x.getIndexRepository().addFS(x.createAnnotation(x.getTypeSystem().getType(CAS::TYPE_NAME_ANNOTATION), 0, (size_t)t.length()));
    return 0;
  }
  bool hasNext() { return left > 0; }
  CAS &next() {
    left--; n++;
    CAS &o = c->getEmptyCAS();
    o.setDocumentText(UnicodeStringRef(icu::UnicodeString("segment ") + (UChar)('0' + n)));
    return o;
  }
  int getCasInstancesRequired() { return 1; }
};
MAKE_AE(Run);
