// FrequencyTable.  Line: 256 frequencies f,f,... then ops  i:k:n d:k:n r:k c (copy) a (assign)
#include "h.hpp"
#include "globaldefs.hpp"
#include "preprocessors/FrequencyTable.hpp"
namespace bwtc { int verbosity = 0; }
using namespace bwtc;

static std::string ops;
static void told(const char *o, int k, long n, int res, FrequencyTable &t) {
  Json j;
  std::vector<long> keys, freqs, by;
  for (size_t i = 0; i < t.size(); ++i) { keys.push_back(t.getKey(i)); freqs.push_back(t.getFrequency(i)); }
  for (int i = 0; i < 256; ++i) by.push_back(t.getFrequencyWithKey(i));
  j.str("o", o).num("k", k).num("n", n).num("told", res).seq("keys", keys).seq("freqs", freqs).seq("bykey", by);
  ops += (ops.empty() ? "" : ",") + j.text();
}
int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string f, w, x;
    in >> f;
    size_t fr[256];
    std::vector<long> start;
    std::istringstream fs(f);
    for (int i = 0; i < 256; ++i) { std::getline(fs, x, ','); fr[i] = atol(x.c_str()); start.push_back(fr[i]); }
    ops = "";
    FrequencyTable *t = new FrequencyTable(fr);
    told("n", 0, 0, 0, *t);
    while (in >> w) {
      int k = w.size() > 1 ? atoi(w.c_str() + 2) : 0;
      long n = 0;
      size_t p = w.find(':', 2);
      if (w.size() > 1 && p != std::string::npos) n = atol(w.c_str() + p + 1);
      int res = 0;
      if (w[0] == 'i') t->increase(k, n);
      else if (w[0] == 'd') res = t->decrease(k, n);
      else if (w[0] == 'r') t->remove(k);
      else if (w[0] == 'c') { FrequencyTable *u = new FrequencyTable(*t); delete t; t = u; }
      else { FrequencyTable *u = new FrequencyTable(); *u = *t; delete t; t = u; }
      told(std::string(1, w[0]).c_str(), k, n, res, *t);
    }
    delete t;
    Json j;
    j.str("ev", "freq").seq("start", start).raw("ops", "[" + ops + "]").print();
  }
}
