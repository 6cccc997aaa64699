// sources: Compressor.cpp Decompressor.cpp
// Entropy coders as objects, and whole compressors with any memory limit.
//   E obj obj ... | k:hex k:hex ...   obj = <coder><alg><starts>; step: block hex by the encoder of object k
//   A coder prepr mem starts alg hex  Compressor and Decompressor on streams in memory
#include "mem.hpp"
#include "BWTBlock.hpp"
#include "EntropyCoders.hpp"
#include "Compressor.hpp"
#include "Decompressor.hpp"
#include "bwtransforms/BWTManager.hpp"
#include "bwtransforms/InverseBWT.hpp"
namespace bwtc { int verbosity = 0; }
using namespace bwtc;

// Compressor and Decompressor delete their streams: this one leaves its bytes behind
class Left : public Mem {
  Bytes *to;
 public:
  explicit Left(Bytes *t) : to(t) {}
  ~Left() { *to = d; }
};
static std::string list(const std::vector<std::string> &v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + v[i];
  return s + "]";
}
struct Obj {
  char coder, alg; int starts;
  EntropyEncoder *enc; EntropyDecoder *dec; BWTManager *m; Mem *out; Mem *in;
  std::vector<Bytes> blocks;
  std::vector<std::string> js;
  std::vector<size_t> told;
  size_t done;
};
int main() {
  std::string line, w;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op;
    in >> op;
    if (op == "A") {
      std::string coder, prepr, alg, hex;
      size_t mem; int starts;
      in >> coder >> prepr >> mem >> starts >> alg >> hex;
      if (prepr == "-") prepr = "";
      Bytes x = unhex(hex), ar, got;
      size_t told, dtold;
      {
        Compressor c(new Mem(x), new Left(&ar), prepr, mem, coder[0]);
        c.initializeBwtAlgorithm(alg[0], starts);
        told = c.compress(1);
      }
      {
        Decompressor d(new Mem(ar), new Left(&got));
        dtold = d.decompress(1);
      }
      Json().str("ev", "whole").num("enc", (unsigned char)coder[0]).num("mem", mem).num("starts", starts).num("prepr", prepr != "")
          .seq("in", x).seq("ar", ar).num("told", told).seq("got", got).num("dtold", dtold).print();
      continue;
    }
    std::vector<Obj> o;
    std::vector<int> order;
    while (in >> w && w != "|") {
      Obj b;
      b.coder = w[0]; b.alg = w[1]; b.starts = atoi(w.c_str() + 2);
      b.enc = giveEntropyEncoder(b.coder);
      b.m = new BWTManager; b.m->initialize(b.alg); b.m->setStartingPoints(b.starts);
      b.out = new Mem; b.done = 0;
      o.push_back(b);
    }
    while (in >> w) {
      size_t c = w.find(':');
      int k = atoi(w.c_str());
      Bytes x = unhex(w.substr(c + 1));
      Bytes buf(x.begin(), x.end());
      buf.push_back(0x5C);
      BWTBlock b(&buf[0], x.size(), false);
      o[k].told.push_back(o[k].enc->transformAndEncode(b, *o[k].m, o[k].out));
      o[k].blocks.push_back(x);
      order.push_back(k);
    }
    for (size_t k = 0; k < o.size(); ++k) {
      o[k].dec = giveEntropyDecoder(o[k].coder);
      o[k].in = new Mem(o[k].out->d);
    }
    InverseBWTransform *ibwt = giveInverseTransformer();
    for (size_t i = 0; i < order.size(); ++i) {     // in the other direction: last object first
      int k = order[order.size() - 1 - i];
      Obj &b = o[k];
      const Bytes &x = b.blocks[b.done];
      Bytes buf(x.size() + 9, 0xB7);
      BWTBlock r;
      r.setBegin(&buf[0]);
      b.dec->decodeBlock(r, b.in);
      std::vector<uint32> rows(r.LFpowers());
      size_t n = r.size();
      ibwt->doTransform(r);
      bool guard = true;
      for (size_t q = x.size() + 1; q < buf.size(); ++q) guard = guard && buf[q] == 0xB7;
      b.js.push_back(Json().seq("in", x).num("told", b.told[b.done]).num("size", n).seq("rows", rows)
                     .seq("back", buf.begin(), buf.begin() + x.size()).num("guard", guard).num("end", b.in->pos).text());
      ++b.done;
    }
    delete ibwt;
    std::vector<std::string> js;
    for (size_t k = 0; k < o.size(); ++k) {
      js.push_back(Json().num("enc", (unsigned char)o[k].coder).num("starts", o[k].starts).seq("bytes", o[k].out->d).raw("blocks", list(o[k].js)).text());
      delete o[k].enc; delete o[k].dec; delete o[k].m; delete o[k].out; delete o[k].in;
    }
    Json().str("ev", "objects").raw("objs", list(js)).print();
  }
}
