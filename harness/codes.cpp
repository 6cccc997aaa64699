// Integer and prefix codes of Utils and WaveletTree.
//   P value                 packed integers
//   U n | F n w | G n | B n lo hi | S bits n | V bits n     codes of one number
//   I lo hi s,s,...         interpolative code
//   H how f:sym,...         Huffman code lengths (how 0: array of 256, 1: with names, 2: sorted pairs)
//   C l,l,...               codewords from 256 lengths
//   R hex                   runs
//   Q sym:len,...           runs, given by their lengths
//   L n                     logarithms
#include "mem.hpp"
#include "Utils.hpp"
#include "WaveletTree.hpp"
#include <algorithm>
#include <map>
namespace bwtc { int verbosity = 0; }
using namespace bwtc;
typedef std::vector<bool> BV;

// Source of bits: those of the code, then an endless tail
struct Bits {
  BV b;
  size_t pos;
  int tail;
  Bits(const BV &v, int t) : b(v), pos(0), tail(t) {}
  bool readBit() {
    size_t p = pos++;
    if (p < b.size()) return b[p];
    return tail == 0 ? false : tail == 1 ? true : (p & 1);
  }
  byte readByte() { int v = 0; for (int i = 0; i < 8; ++i) v = 2 * v + readBit(); return v; }
};

static std::vector<int> groups(uint64 v) {
  std::vector<int> g;
  do { g.push_back(v & 127); v >>= 7; } while (v);
  return g;
}
static std::vector<long long> list(const std::string &s) {
  std::vector<long long> r;
  std::istringstream in(s);
  std::string x;
  if (s != "-") while (std::getline(in, x, ',')) r.push_back(atoll(x.c_str()));
  return r;
}

int main() {
  std::string line;
  int turn = 0;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op;
    in >> op;
    Json j;
    int tail = turn++ % 3;
    if (op == "P") {
      uint64 v; in >> v;
      int n = 0;
      uint64 p = utils::packInteger(v, &n);
      std::vector<int> by, wr, di, ud;
      for (int i = 0; i < n; ++i) by.push_back((p >> 8 * i) & 255);
      byte buf[24];
      memset(buf, 0xEE, sizeof buf);
      utils::writePackedInteger(p, buf);
      for (int i = 0; i < n; ++i) wr.push_back(buf[i]);
      if (buf[n] != 0xEE) wr.push_back(-9);
      uint64 un = utils::unpackInteger(p);
      size_t used = n;
      if (v > 0) {
        memset(buf, 0xEE, sizeof buf);
        unsigned k = utils::packAndWriteInteger(v, buf);
        for (unsigned i = 0; i < k && i < 24; ++i) di.push_back(buf[i]);
        if (buf[k] != 0xEE) di.push_back(-9);
        uint64 back = 0;
        used = utils::readAndUnpackInteger(buf, &back);
        ud = groups(back);
      } else { di.push_back(-1); ud.push_back(-1); }
      BV rv, pv;
      utils::pushBitsRev(rv, p, 8 * n);
      for (int i = 0; i < n; ++i) utils::pushBits(pv, (p >> 8 * i) & 255, 8);
      Bits r(rv, tail), q(pv, tail);
      size_t rb = 0, qb = 0;
      uint64 rr = utils::readPackedIntegerRev(r, rb), qq = utils::readPackedInteger(q, qb);
      j.str("ev", "pack").seq("groups", groups(v)).seq("bytes", by).seq("written", wr).seq("direct", di);
      j.seq("unpacked", groups(un)).seq("undirect", ud).num("used", used).seq("rev", groups(rr)).seq("plain", groups(qq));
      j.num("revused", rb).num("plainused", qb).seq("revbits", rv);
    } else if (op == "U" || op == "F" || op == "G" || op == "B" || op == "S" || op == "V") {
      long long n, a = 0, b = 0;
      BV v;
      long long back = -1, used = -1, told = -1;
      const char *name;
      if (op == "U") {
        in >> n; name = "unary";
        utils::unaryCode(v, n);
        Bits s(v, tail);
        back = utils::unaryDecode(s); used = s.pos;
      } else if (op == "F") {
        in >> n >> a; name = "fixed";
        WaveletTree<BV>::fixedIntegerCode(v, n, a);
        told = WaveletTree<BV>::lengthOfFixedCode(n, a);
      } else if (op == "G") {
        in >> n; name = "flat";
        WaveletTree<BV>::gammaCode(v, n);
      } else if (op == "B") {
        in >> n >> a >> b; name = "binary";
        utils::binaryCode(n, a, b, v);
        Bits s(v, tail);
        back = utils::binaryDecode(s, a, b); used = s.pos;
        Bits s2(v, (tail + 1) % 3);
        size_t br = 0;
        long long back2 = utils::binaryDecode(s2, a, b, &br);
        if (back2 != back || (long long)s2.pos != used) back = -7;
        told = br;
      } else if (op == "S") {
        in >> a >> n; name = "bits";
        utils::pushBits(v, (uint32)n, (size_t)a);
      } else {
        in >> a >> n; name = "rbits";
        utils::pushBitsRev(v, (uint32)n, a);
      }
      j.str("ev", "int").str("code", name).num("n", n).num("a", a).num("b", b).seq("bits", v);
      j.num("back", back).num("used", used).num("told", told);
    } else if (op == "I") {
      long long lo, hi; std::string s;
      in >> lo >> hi >> s;
      std::vector<long long> x = list(s);
      BV v;
      std::vector<long long> back;
      size_t told, used;
      if (lo == 0 && hi < 256) {
        std::vector<byte> y(x.begin(), x.end()), z;
        utils::binaryInterpolativeCode(y, hi, v);
        Bits src(v, tail);
        told = utils::binaryInterpolativeDecode(z, src, hi, y.size());
        used = src.pos;
        back.assign(z.begin(), z.end());
      } else {
        std::vector<uint32> y(x.begin(), x.end()), z;
        utils::binaryInterpolativeCode(y, 0, y.size() - 1, lo, hi, v);
        Bits src(v, tail);
        told = utils::binaryInterpolativeDecode(z, src, lo, hi, y.size());
        used = src.pos;
        back.assign(z.begin(), z.end());
      }
      j.str("ev", "set").seq("s", x).num("lo", lo).num("hi", hi).seq("bits", v).seq("back", back);
      j.num("used", used).num("told", told);
    } else if (op == "H") {
      int how; std::string s, w;
      in >> how >> s;
      std::vector<std::pair<uint64, uint32> > f, r;
      std::istringstream ws(s);
      while (std::getline(ws, w, ',')) {
        uint64 a; unsigned b;
        sscanf(w.c_str(), "%lu:%u", &a, &b);
        f.push_back(std::make_pair(a, b));
      }
      if (how == 0) {
        uint64 fr[256] = {0};
        for (size_t i = 0; i < f.size(); ++i) fr[f[i].second] = f[i].first;
        utils::calculateHuffmanLengths(r, fr);
      } else if (how == 1) {
        std::vector<uint64> fr;
        std::vector<uint32> names;
        for (size_t i = 0; i < f.size(); ++i) { fr.push_back(f[i].first); names.push_back(f[i].second); }
        utils::calculateHuffmanLengths(r, &fr[0], names);
      } else {
        r = f;
        std::sort(r.begin(), r.end());
        utils::calculateCodeLengths(r, 0, true);
      }
      std::string fs = "[", ps = "[";
      for (size_t i = 0; i < f.size(); ++i)
        fs += (i ? ",[" : "[") + std::to_string(f[i].first) + "," + std::to_string(f[i].second) + "]";
      for (size_t i = 0; i < r.size(); ++i)
        ps += (i ? ",[" : "[") + std::to_string(r[i].first) + "," + std::to_string(r[i].second) + "]";
      j.str("ev", "huff").raw("freqs", fs + "]").raw("pairs", ps + "]");
    } else if (op == "C") {
      std::string s; in >> s;
      std::vector<long long> x = list(s);
      uint32 len[256] = {0}, code[256];
      for (size_t i = 0; i < x.size() && i < 256; ++i) len[i] = x[i];
      utils::computeHuffmanCodes(len, code);
      j.str("ev", "code").seq("lens", len, len + 256).seq("codes", code, code + 256);
    } else if (op == "R" || op == "Q") {
      std::string s, gs = "["; in >> s;
      Bytes x;
      std::vector<byte> src;
      if (op == "R") { x = unhex(s); src.assign(x.begin(), x.end()); }
      else {
        std::istringstream ws(s);
        std::string w;
        while (std::getline(ws, w, ',')) {
          unsigned a, b;
          sscanf(w.c_str(), "%u:%u", &a, &b);
          src.insert(src.end(), b, (byte)a);
          gs += (gs.size() > 1 ? ",[" : "[") + std::to_string(a) + "," + std::to_string(b) + "]";
        }
      }
      uint64 f1[256] = {0}, f2[256] = {0}, f3[256] = {0};
      std::map<uint32, uint32> runs;
      utils::calculateRunFrequencies(f1, &src[0], src.size());
      size_t total = utils::calculateRunsAndCharacters(f2, &src[0], src.size(), runs);
      std::vector<byte> seq(src.size() + 1);
      std::vector<uint32> len(src.size() + 1);
      size_t k = utils::calculateRunFrequenciesAndStoreRuns(f3, &seq[0], &len[0], &src[0], src.size());
      seq.resize(k); len.resize(k);
      std::string ls = "[";
      for (std::map<uint32, uint32>::iterator it = runs.begin(); it != runs.end(); ++it)
        ls += (ls.size() > 1 ? ",[" : "[") + std::to_string(it->first) + "," + std::to_string(it->second) + "]";
      j.str("ev", "runs").seq("x", x).raw("given", gs + "]").seq("freqs", f1, f1 + 256).raw("lens", ls + "]").seq("freqs2", f2, f2 + 256);
      j.num("total", total).seq("freqs3", f3, f3 + 256).seq("syms", seq).seq("runlens", len);
    } else {
      unsigned n; in >> n;
      j.str("ev", "log").num("n", n).num("floor", utils::logFloor(n)).num("ceil", utils::logCeiling(n));
      unsigned f2 = utils::logFloor((unsigned long)n), c2 = utils::logCeiling((unsigned long)n);
      if (f2 != utils::logFloor(n) || c2 != utils::logCeiling(n)) j.num("differ", 1);
      j.num("msb", utils::mostSignificantBit(n)).num("msb16", n < 65536 ? utils::mostSignificantBit16(n) : 0);
    }
    j.print();
  }
}
