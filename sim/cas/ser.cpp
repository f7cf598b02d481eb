#include "ser.hpp"
#include "uima/xmlwriter.hpp"
#include "uima/xmiwriter.hpp"
#include "uima/xmideserializer.hpp"
#include "uima/xcasdeserializer.hpp"
#include "uima/internal_casserializer.hpp"
#include "uima/internal_casdeserializer.hpp"
#include "uima/internal_serializedcas.hpp"
#include <xercesc/util/IOException.hpp>
#include <xercesc/util/RuntimeException.hpp>
#include <cstring>
#include <sstream>
#include <stdexcept>
using namespace uima;
namespace w {

Feed Feed::random(bool whole) {
  Feed f;
  f.mode = whole ? 0 : (int)sim::weighted({4, 1, 3, 3});
  return f;
}

namespace {
class ByteStream : public xercesc::BinInputStream {
  std::string const &b; Feed &f; size_t pos = 0;
public:
  ByteStream(std::string const &bytes, Feed &feed) : b(bytes), f(feed) {}
  XMLFilePos curPos() const override { return pos; }
  const XMLCh *getContentType() const override { return nullptr; }
  XMLSize_t readBytes(XMLByte *const to, const XMLSize_t max) override {
    sim::Harness h;
    f.reads++;
    size_t end = b.size();
    if (f.cut >= 0 && (size_t)f.cut < end) end = (size_t)f.cut;
    size_t n = end - pos;
    if (n > max) n = max;
    if (n) switch (f.mode) {
      case 1: n = 1; break;
      case 2: n = 1 + sim::draw((uint32_t)n); break;
      case 3: { size_t k = 1 + sim::skewed(40); if (k < n) n = k; break; }
    }
    if (f.failAt >= 0 && pos + n > (size_t)f.failAt) {
      n = (size_t)f.failAt > pos ? (size_t)f.failAt - pos : 0;
      if (n == 0) {
        sim::fault(f.failKind ? "read_error_foreign" : "read_error");
        if (f.failKind) throw std::runtime_error("simulated read failure");
        throw xercesc::RuntimeException(__FILE__, __LINE__, xercesc::XMLExcepts::File_CouldNotReadFromFile, xercesc::XMLPlatformUtils::fgMemoryManager);
      }
    }
    if (n == 0 && f.cut >= 0 && (size_t)f.cut < b.size()) sim::fault("input_ends_early");
    if (n && n < max && pos + n < b.size()) sim::count("fault.short_read");
    memcpy(to, b.data() + pos, n);
    pos += n;
    f.delivered = pos;
    return n;
  }
};
}  // namespace
xercesc::BinInputStream *ByteSource::makeStream() const { return new ByteStream(b, f); }

std::streamsize Sink::take(const char *s, std::streamsize n) {
  sim::Harness h;
  if (capacity >= 0 && (int64_t)data.size() + n > capacity) {
    std::streamsize k = capacity - (int64_t)data.size();
    if (k < 0) k = 0;
    data.append(s, (size_t)k);
    if (!refused) { refused = true; sim::fault("output_full"); }
    if (throwing) throw std::runtime_error("simulated write failure");
    return k;
  }
  data.append(s, (size_t)n);
  return n;
}
int Sink::overflow(int c) { char ch = (char)c; return c == EOF || take(&ch, 1) == 1 ? (c == EOF ? 0 : c) : EOF; }
std::streamsize Sink::xsputn(const char *s, std::streamsize n) { return take(s, n); }
int Sink::sync() { return refused ? -1 : 0; }

std::string toXmi(CAS *v, bool doc) { return sim::sut([&] { std::ostringstream o; XmiWriter wr(*v, doc); wr.write(o); return o.str(); }); }
std::string toXcas(CAS *v, bool doc) { return sim::sut([&] { std::ostringstream o; XCASWriter wr(*v, doc); wr.write(o); return o.str(); }); }
std::string toBlob(CAS *v) {
  return sim::sut([&] {
    internal::CASSerializer s(false);
    size_t n = s.getBlobSize(*v);
    std::unique_ptr<char[]> b(new char[n]());    // exactly the announced size: writing past it is caught
    size_t m = s.getBlob(*v, b.get(), n);
    if (m != n) { sim::Harness h; sim::fail("blob-size", "getBlobSize announces %zu bytes, getBlob returns %zu", n, m); }
    return std::string(b.get(), n);
  });
}
std::string fromXmi(std::string const &b, CAS *v, Feed f, bool lenient) {
  ByteSource src(b, f);
  return guarded("XmiDeserializer", [&] { XmiDeserializer d; d.deserialize(src, *v, lenient); });
}
std::string fromXcas(std::string const &b, CAS *v, Feed f) {
  ByteSource src(b, f);
  return guarded("XCASDeserializer", [&] { XCASDeserializer d; d.deserialize(src, *v); });
}
std::string fromBlob(std::string b, CAS *v) {
  std::unique_ptr<int[]> p(new int[(b.size() + 3) / 4]);
  memcpy(p.get(), b.data(), b.size());
  return guarded("deserializeBlob", [&] { internal::CASDeserializer d; d.deserializeBlob(p.get(), *v); });
}
void xferSections(CAS *from, CAS *to, bool copyStrings) {
  sim::sut([&] {
    internal::CASSerializer s(copyStrings);
    internal::SerializedCAS sc;
    s.serializeData(*from, sc);
    internal::CASDeserializer d;
    d.deserializeData(sc, *to);
  });
}
}  // namespace w
