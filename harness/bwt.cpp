// Forward and inverse transforms.
//   F alg starts hex     transform through BWTManager, counting frequencies
//   G alg starts hex     the same without counting
//   T alg starts hex     through giveTransformer (alg d or s)
//   I which rows hex     inverse: which = 0 giveInverseTransformer, 1 FastInverseBWTransform
#include "h.hpp"
#include "globaldefs.hpp"
#include "BWTBlock.hpp"
#include "bwtransforms/BWTManager.hpp"
#include "bwtransforms/BWTransform.hpp"
#include "bwtransforms/InverseBWT.hpp"
namespace bwtc { int verbosity = 0; }
using namespace bwtc;

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op, alg, st, hex;
    in >> op >> alg >> st >> hex;
    Bytes x = unhex(hex);
    // a guard on both sides; the byte after the block belongs to the transform
    // while it runs and has to be as it was afterwards
    Bytes buf(x.size() + 17, 0xAA);
    std::copy(x.begin(), x.end(), buf.begin() + 8);
    byte *p = &buf[8];
    byte *next = p + x.size();
    *next = (byte)(x.size() * 37 + 11);
    byte was = *next;
    Json j;
    if (op == "I") {
      std::vector<uint32> rows;
      std::istringstream rs(st);
      std::string r;
      while (std::getline(rs, r, ',')) rows.push_back(strtoul(r.c_str(), 0, 10));
      BWTBlock b(p, x.size(), true);
      b.LFpowers() = rows;
      InverseBWTransform *t = alg == "1" ? new FastInverseBWTransform() : giveInverseTransformer();
      t->doTransform(b);
      delete t;
      j.str("ev", "inv").num("which", alg == "1" ? 1 : 0).seq("stored", x).seq("rows", rows);
      j.seq("out", p, p + x.size());
      j.num("guard", buf[7] == 0xAA && buf[8 + x.size() + 1] == 0xAA ? 1 : 0);
      j.print();
      continue;
    }
    BWTBlock b(p, x.size(), false);
    std::vector<uint32> freqs(256, 0);
    if (op == "T") {
      BWTransform *t = giveTransformer(alg[0]);
      b.prepareLFpowers(atoi(st.c_str()));
      t->doTransform(b, &freqs[0]);
      delete t;
    } else {
      BWTManager m;
      m.initialize(alg[0]);
      m.setStartingPoints(atoi(st.c_str()));
      if (op == "F") m.doTransform(b, &freqs[0]); else m.doTransform(b);
    }
    j.str("ev", "fwd").str("alg", alg).num("starts", atoi(st.c_str())).seq("in", x);
    j.seq("out", p, p + x.size()).seq("rows", b.LFpowers());
    if (op == "G") freqs.clear();
    j.seq("freqs", freqs);
    j.num("transformed", b.isTransformed() ? 1 : 0);
    j.num("guard", buf[7] == 0xAA && buf[8 + x.size() + 1] == 0xAA && *next == was ? 1 : 0);
    j.print();
  }
}
