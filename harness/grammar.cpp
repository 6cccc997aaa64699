// Grammar and Postprocessor.  Line: rounds  freed|news|frees|x:y,x:y  (lists of numbers with
// commas), separated by blanks, then texts  t<hex>
#include "mem.hpp"
#include "preprocessors/Grammar.hpp"
#include "preprocessors/Postprocessor.hpp"
namespace bwtc { int verbosity = 0; }
using namespace bwtc;

static std::vector<long> numbers(const std::string &s, char sep) {
  std::vector<long> v;
  std::istringstream in(s);
  std::string x;
  while (std::getline(in, x, sep)) if (!x.empty()) v.push_back(atol(x.c_str()));
  return v;
}
static std::vector<bwtc::byte> bytesOf(const std::vector<long> &v) { return std::vector<bwtc::byte>(v.begin(), v.end()); }
static std::string list(const std::vector<std::string> &v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + v[i];
  return s + "]";
}
static std::string state(const Grammar &g) {
  Json j;
  std::vector<long> sp, isp, fr;
  for (uint32 i = 0; i < g.numberOfSpecialSymbols(); ++i) sp.push_back(g.specialPair(i * i) & 255);
  for (int c = 0; c < 256; ++c) { if (g.isSpecial(c)) isp.push_back(c); fr.push_back(g.frequencies()[c]); }
  std::vector<std::string> rules, freed;
  for (uint32 i = 0; i < g.numberOfRules(); ++i) {
    Grammar::Rule r = g.getRule(i);
    std::vector<long> var, rhs(r.begin(), r.end());
    if (r.isLarge()) var.push_back(r.variable() >> 8);
    var.push_back(r.variable() & 255);
    rules.push_back(Json().num("large", r.isLarge()).seq("var", var).seq("rhs", rhs).text());
  }
  std::vector<std::pair<uint16, bwtc::byte> > f;
  g.freedSymbols(f);
  for (size_t i = 0; i < f.size(); ++i) {
    std::vector<long> t;
    t.push_back(f[i].first >> 8); t.push_back(f[i].first & 255); t.push_back(f[i].second);
    freed.push_back(Json().seq("x", t).text());
  }
  return j.seq("specials", sp).seq("isspecial", isp).seq("freqs", fr).num("left", g.specialSymbolPairsLeft())
      .num("nfreed", g.numberOfFreedSymbols()).raw("rules", list(rules)).raw("freed", list(freed)).text();
}
int main() {
  std::string line, w, x;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    Grammar g;
    std::vector<std::string> rounds, texts;
    while (in >> w && w[0] != 't') {
      std::vector<std::string> p;
      std::istringstream ws(w);
      while (std::getline(ws, x, '|')) p.push_back(x);
      p.resize(4);
      std::vector<long> freed = numbers(p[0], ','), news = numbers(p[1], ','), frees = numbers(p[2], ',');
      std::vector<long> repl = freed, flat;
      repl.insert(repl.end(), frees.begin(), frees.end());
      std::istringstream ps(p[3]);
      g.beginUpdatingRules();
      size_t i = 0;
      std::vector<std::string> pairs;
      while (std::getline(ps, x, ',')) {
        std::vector<long> xy = numbers(x, ':');
        g.addRule(repl[i++], xy[0], xy[1]);
        pairs.push_back(Json().seq("x", xy).text());
      }
      std::vector<uint16> next;
      std::vector<bwtc::byte> fb = bytesOf(freed), nb = bytesOf(news), rb = bytesOf(repl);
      g.expandAlphabet(fb, nb, next);
      g.endUpdatingRules(rb);
      Mem out;
      long told = g.writeGrammar(&out);
      out.flushBuffer();
      Mem back(out.d);
      Bytes junk(7, 0xA5);
      back.d.insert(back.d.end(), junk.begin(), junk.end());
      Grammar h;
      h.readGrammar(&back);
      rounds.push_back(Json().seq("freed", freed).seq("news", news).seq("frees", frees).raw("pairs", list(pairs)).seq("next", next)
          .raw("state", state(g)).raw("back", state(h)).seq("written", out.d).num("told", told).num("used", back.pos).text());
    }
    Mem out;
    g.writeGrammar(&out);
    Mem back(out.d);
    Grammar h;
    h.readGrammar(&back);
    Postprocessor p1(false, g), p2(false, h);
    do {
      if (w.empty() || w[0] != 't') break;
      Bytes t = unhex(w.substr(1));
      t.push_back(0);
      Mem o1, o2;
      long n1 = p1.uncompress(&t[0], t.size() - 1, &o1), n2 = p2.uncompress(&t[0], t.size() - 1, &o2);
      t.pop_back();
      texts.push_back(Json().seq("in", t).seq("out", o1.d).seq("again", o2.d).num("told", n1).num("told2", n2).text());
    } while (in >> w);
    Json().str("ev", "grammar").raw("rounds", list(rounds)).raw("texts", list(texts)).print();
  }
}
