// Serialization seams: byte streams under the simulator's control (pieces, early end, failure,
// damage) and short hands for the three formats.
#pragma once
#include "world.hpp"
#include <xercesc/sax/InputSource.hpp>
#include <xercesc/util/BinInputStream.hpp>
#include <ostream>
#include <streambuf>

namespace w {
// how a byte source delivers its bytes
struct Feed {
  int mode = 0;                  // 0 whole, 1 byte by byte, 2 random pieces, 3 small pieces
  int64_t cut = -1;              // early end after this many bytes
  int64_t failAt = -1;           // a read reaching this position throws
  int failKind = 0;              // 0 xerces XMLException, 1 foreign std::runtime_error
  size_t delivered = 0, reads = 0;
  static Feed random(bool whole = false);
};
class ByteSource : public xercesc::InputSource {
  std::string const &b; Feed &f;
public:
  ByteSource(std::string const &bytes, Feed &feed) : b(bytes), f(feed) {}
  xercesc::BinInputStream *makeStream() const override;
};
// an ostream sink that accepts only part of the data, in pieces
class Sink : public std::streambuf {
public:
  std::string data; int64_t capacity = -1; bool throwing = false; bool refused = false;
protected:
  int overflow(int c) override;
  std::streamsize xsputn(const char *s, std::streamsize n) override;
  int sync() override;
private:
  std::streamsize take(const char *s, std::streamsize n);
};

std::string toXmi(uima::CAS *view, bool docBuf = true);
std::string toXcas(uima::CAS *view, bool docBuf = true);
std::string toBlob(uima::CAS *view);
// returns "" or the text of the exception
std::string fromXmi(std::string const &bytes, uima::CAS *view, Feed feed = Feed(), bool lenient = false);
std::string fromXcas(std::string const &bytes, uima::CAS *view, Feed feed = Feed());
std::string fromBlob(std::string bytes, uima::CAS *view);
void xferSections(uima::CAS *from, uima::CAS *to, bool copyStrings);
}  // namespace w
