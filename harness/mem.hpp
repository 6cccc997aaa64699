// Stream in memory.  Reading beyond the end yields zeros and is counted.
#ifndef MEM_HPP
#define MEM_HPP
#include "h.hpp"
#include "globaldefs.hpp"
#include "Streams.hpp"
class Mem : public bwtc::InStream, public bwtc::OutStream {
 public:
  Bytes d;
  size_t pos;
  unsigned bit;
  Mem() : pos(0), bit(0) {}
  explicit Mem(const Bytes &b) : d(b), pos(0), bit(0) {}
  virtual ~Mem() {}
  void writeByte(bwtc::byte b) { d.push_back(b); }
  void writeBlock(const bwtc::byte *b, const bwtc::byte *e) { d.insert(d.end(), b, e); }
  long int getPos() { return d.size(); }
  void write48bits(bwtc::uint64 v, long int p) { for (int i = 0; i < 6; ++i) d[p + i] = (v >> 8 * (5 - i)) & 255; }
  void flush() {}
  size_t readBlock(bwtc::byte *to, size_t n) {
    size_t k = 0;
    while (k < n && pos < d.size()) to[k++] = d[pos++];
    return k;
  }
  bool readBit() {
    bool r = ((pos < d.size() ? d[pos] : 0) >> (7 - bit)) & 1;
    if (++bit == 8) { bit = 0; ++pos; }
    return r;
  }
  bwtc::byte readByte() {
    if (bit == 0) { bwtc::byte b = pos < d.size() ? d[pos] : 0; ++pos; return b; }
    unsigned v = 0;
    for (int i = 0; i < 8; ++i) v = 2 * v + readBit();
    return v;
  }
  void flushBuffer() { if (bit) { bit = 0; ++pos; } }
  bwtc::uint64 read48bits() { bwtc::uint64 v = 0; for (int i = 0; i < 6; ++i) v = (v << 8) | readByte(); return v; }
  bool compressedDataEnding() { return pos >= d.size(); }
};
#endif
