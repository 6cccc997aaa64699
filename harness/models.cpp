// Probability models.  Line: kind ops; kind B b u m M, i (integer codes) or g (gaps);
// ops: string of 0 1 (update) 2 3 (updateState) 4 (reset), as in ModelsTrace.tla
#include "h.hpp"
#include "globaldefs.hpp"
#include "probmodels/ProbabilityModel.hpp"
namespace bwtc { int verbosity = 0; }
using namespace bwtc;

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string kind, ops;
    in >> kind >> ops;
    if (ops == "-") ops = "";
    ProbabilityModel *m = kind == "i" ? giveModelForIntegerCodes() : kind == "g" ? giveModelForGaps()
                          : giveProbabilityModel(kind[0]);
    std::vector<int> probs, o;
    probs.push_back(m->probabilityOfOne());
    for (size_t i = 0; i < ops.size(); ++i) {
      int c = ops[i] - '0';
      o.push_back(c);
      if (c < 2) m->update(c); else if (c < 4) m->updateState(c - 2); else m->resetModel();
      probs.push_back(m->probabilityOfOne());
    }
    delete m;
    Json j;
    j.str("ev", "model").str("kind", kind == "i" ? "int" : kind == "g" ? "gap" : kind).seq("ops", o).seq("probs", probs).print();
  }
}
