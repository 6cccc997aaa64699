// BitEncoder and BitDecoder.
//   C b:p,b:p,... b:p,...    encodes the sequences, decodes them
//   R p,p,... hex            decodes data
#include "mem.hpp"
#include "BitCoders.hpp"
namespace bwtc { int verbosity = 0; }

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op, w;
    in >> op;
    Json j;
    if (op == "C") {
      std::vector<std::vector<std::pair<int, int> > > seqs;
      while (in >> w) {
        seqs.resize(seqs.size() + 1);
        std::istringstream ws(w);
        std::string x;
        if (w != "-") while (std::getline(ws, x, ','))
          seqs.back().push_back(std::make_pair(x[0] - '0', atoi(x.c_str() + 2)));
      }
      Mem m;
      std::string sq = "[", bits = "[";
      std::vector<size_t> counters, consumed;
      {
        dcsbwt::BitEncoder e;
        e.connect(&m);
        e.resetCounter();
        for (size_t i = 0; i < seqs.size(); ++i) {
          for (size_t k = 0; k < seqs[i].size(); ++k) e.encode(seqs[i][k].first, seqs[i][k].second);
          e.finish();
          counters.push_back(e.counter());
        }
      }
      dcsbwt::BitDecoder d;
      d.connect(&m);
      for (size_t i = 0; i < seqs.size(); ++i) {
        d.start();
        sq += i ? ",[" : "[";
        bits += i ? ",[" : "[";
        for (size_t k = 0; k < seqs[i].size(); ++k) {
          int b = d.decode(seqs[i][k].second);
          sq += (k ? ",[" : "[") + std::to_string(seqs[i][k].first) + "," + std::to_string(seqs[i][k].second) + "]";
          bits += (k ? "," : "") + std::to_string(b);
        }
        sq += "]"; bits += "]";
        consumed.push_back(m.pos);
      }
      j.str("ev", "code").raw("seqs", sq + "]").seq("bytes", m.d).seq("counters", counters);
      j.raw("bits", bits + "]").seq("consumed", consumed).print();
    } else {
      std::vector<int> ps, bits;
      std::string pl, hex, x;
      in >> pl >> hex;
      std::istringstream ws(pl);
      if (pl != "-") while (std::getline(ws, x, ',')) ps.push_back(atoi(x.c_str()));
      Mem m(unhex(hex));
      dcsbwt::BitDecoder d;
      d.connect(&m);
      d.start();
      for (size_t i = 0; i < ps.size(); ++i) bits.push_back(d.decode(ps[i]));
      j.str("ev", "read").seq("data", m.d).seq("probs", ps).seq("bits", bits).num("consumed", m.pos).print();
    }
  }
}
