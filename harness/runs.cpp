// Very long blocks of a simple form, reported as runs.
//   F kind a b n m alg starts                       two: a^n b^m   alt: (ab)^n, m = n
//   I kind a b n m which runs (n c)* rows row*        inverse of the column with these runs
#include "h.hpp"
#include "globaldefs.hpp"
#include "BWTBlock.hpp"
#include "bwtransforms/BWTManager.hpp"
#include "bwtransforms/InverseBWT.hpp"
namespace bwtc { int verbosity = 0; }
using namespace bwtc;

static std::string runs(const byte *b, size_t n, int word) {
  std::string s = "[";
  size_t made = 0;
  for (size_t i = 0; i + word <= n && made < 60; ++made) {
    size_t j = i;
    while (j + word <= n && memcmp(b + i, b + j, word) == 0) j += word;
    int v = word == 1 ? b[i] : b[i] * 256 + b[i + 1];
    s += (made ? ",[" : "[") + std::to_string((j - i) / word) + "," + std::to_string(v) + "]";
    i = j;
  }
  return s + "]";
}
int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op, kind, alg; int a, b, starts; size_t n, m;
    in >> op >> kind >> a >> b >> n >> m;
    size_t size = n + m;
    Bytes buf(size + 17, 0xAA);
    byte *p = &buf[8];
    byte *next = p + size;
    Json j;
    int ok = 1;
    j.str("ev", op == "F" ? "fwd" : "inv").str("kind", kind).num("a", a).num("b", b).num("n", n).num("m", m);
    if (op == "F") {
      in >> alg >> starts;
      for (size_t i = 0; i < size; ++i) p[i] = kind == "two" ? (i < n ? a : b) : (i % 2 == 0 ? a : b);
      *next = 0x5b;
      BWTBlock blk(p, size, false);
      std::vector<uint32> freqs(256, 0);
      BWTManager mgr;
      mgr.initialize(alg[0]);
      mgr.setStartingPoints(starts);
      mgr.doTransform(blk, &freqs[0]);
      ok = ok && *next == 0x5b;
      j.str("alg", alg).num("starts", starts).raw("stored", runs(p, size, 1)).seq("rows", blk.LFpowers()).seq("freqs", freqs);
    } else {
      int which; size_t count, runsN, at = 0;
      in >> which >> runsN;
      for (size_t i = 0; i < runsN; ++i) {
        size_t len; int c;
        in >> len >> c;
        for (size_t k = 0; k < len && at < size; ++k) p[at++] = c;
      }
      in >> count;
      std::vector<uint32> rows(count);
      for (size_t i = 0; i < count; ++i) in >> rows[i];
      BWTBlock t(p, size, true);
      t.LFpowers() = rows;
      InverseBWTransform *x = which ? new FastInverseBWTransform() : giveInverseTransformer();
      x->doTransform(t);
      delete x;
      j.num("which", which).raw("back", runs(p, size, kind == "two" ? 1 : 2));
    }
    for (int i = 0; i < 8; ++i) ok = ok && buf[i] == 0xAA && buf[8 + size + 1 + i] == 0xAA;
    j.num("guard", ok ? 1 : 0);
    j.print();
  }
}
