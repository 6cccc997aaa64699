"""C07: grammars keep the meaning of texts, also when written and read."""
from common import *
import corpus


def pairno(i, j):
    return i * i if i == j else i * (i + 1) + j + 1 if i > j else j * j + i + 1


class Gen:
    """Legal rounds.  Keeps only what is needed to know what is legal."""

    def __init__(self, r):
        self.r, self.sp, self.inuse = r, [], 0
        self.used = set()                       # bytes in rules (or in texts of earlier rounds)
        self.rounds = []
        self.words, self.vars = [], set()       # symbols that stand for rules

    def plain(self):
        return [c for c in range(256) if c not in self.sp]

    def round(self, nf, ne, hot):
        r = self.r
        need, ns, iu = 0, len(self.sp), self.inuse
        for _ in range(nf):
            if ns * ns == iu:
                need, ns, iu = need + 1, ns + 1, iu + 1
                if ns * ns == iu:
                    need, ns, iu = need + 1, ns + 1, iu + 1
            iu += 1
        pool = self.plain()
        r.shuffle(pool)
        # symbols of rules are taken often
        pool.sort(key=lambda c: 0 if c in self.used and r.random() < hot else 1)
        if r.random() < .25:
            pool.sort(key=lambda c: 0 if c in self.vars else 1)
        if r.random() < .3:
            pool.sort(key=lambda c: 0 if c in (0, 255) else 1)
        if len(pool) < nf + need + 4:
            return
        freed, news = pool[:nf], pool[nf:nf + need]
        rest = [c for c in pool[nf + need:] if c not in self.used and c not in self.sp]
        frees = rest[:ne]
        # symbols that may be on the right sides: not the new unused ones
        al = [c for c in self.plain() if c not in frees]
        some = r.sample(al, min(len(al), r.choice([2, 3, 10, 200]))) + freed + news
        some = [c for c in some + [c for c in self.used if c in al][:5] if c not in frees]
        pairs, n = [], nf + len(frees)
        for _ in range(n * 20):
            if len(pairs) == n:
                break
            p = (r.choice(some), r.choice(some))
            if p not in pairs:
                pairs.append(p)
        if len(pairs) < n or n == 0:
            return
        self.sp += news
        self.inuse = iu
        self.vars = (self.vars | set(freed) | set(frees)) - set(news)
        self.used |= set(freed) | set(news) | set(frees) | {c for p in pairs for c in p}
        # symbols of texts so far are in use, too: the free ones were never in any
        self.rounds.append(dict(freed=freed, news=news, frees=frees, pairs=pairs))
        self.words.append("%s|%s|%s|%s" % (",".join(map(str, freed)), ",".join(map(str, news)), ",".join(map(str, frees)),
                                           ",".join("%d:%d" % p for p in pairs)))

    def text(self, n, heavy=0):
        """heavy: how many of the symbols stand for rules"""
        r, out = self.r, bytearray()
        pl = self.plain()
        toks = [(self.sp[i], self.sp[j]) for i in range(len(self.sp)) for j in range(len(self.sp)) if pairno(i, j) < self.inuse]
        hv = [c for c in self.vars if c in pl]
        for _ in range(n):
            if heavy and hv and r.random() < heavy:
                out.append(r.choice(hv))
            elif toks and r.random() < .5:
                out += bytes(r.choice(toks))
            else:
                out.append(r.choice(pl if r.random() < .5 else [c for c in self.used if c in pl] or pl))
        return bytes(out)


def lines():
    k = 6 if THOROUGH else 1
    L = []
    for i in range(330 * k):
        r = corpus.rng("c07", i)
        g = Gen(r)
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 6, 9])):
            g.round(r.choice([0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 12]), r.choice([0, 0, 1, 1, 2, 3, 5]), r.choice([0, .2, .8, 1]))
        L.append(" ".join(g.words + ["t" + (g.text(r.choice([0, 1, 3, 30])).hex() or "-") for _ in range(3)]))
    for i in range(6 * k):                      # many rules: counts above 127, many special symbols
        r = corpus.rng("c07m", i)
        g = Gen(r)
        for _ in range(r.choice([1, 3])):
            g.round(r.choice([20, 40, 100, 200]), r.choice([0, 3, 20]), r.choice([0, .5]))
        L.append(" ".join(g.words + ["t" + g.text(60).hex()]))
    return L


def main():
    chk = Check("C07", "model_checking")
    build()
    chk.mc("rounds of the preprocessor keep the meaning; grammars survive writing and reading",
           tlc("GrammarMC", workers=CORES, cfg="GrammarMC%s.cfg" % ("Big" if THOROUGH else ""), timeout=3000, heap="8g"))
    exe = harness("grammar")
    if exe is None:
        chk.skip("grammars", "Grammar or Postprocessor changed its interface")
        return chk
    L = lines()
    recs = drive(exe, L)
    log("%d histories" % len(recs))
    bad, cnt = judge("GrammarTrace", recs, cost=lambda s: 20 + sum(20 + len(r["written"]) for r in s[0].get("rounds", [])))
    chk.traces("histories of a real Grammar", cnt, len(L), rounds=sum(len(r.get("rounds", [])) for r in recs),
               rules=sum(len(r["rounds"][-1]["state"]["rules"]) for r in recs if r.get("rounds")),
               large=sum(x["large"] for r in recs if r.get("rounds") for x in r["rounds"][-1]["state"]["rules"]))
    chk.sample(L[7][:300])
    for i, j, rec in bad[:5]:
        r2 = drive(exe, [L[i]])
        if judge("GrammarTrace", r2)[0]:
            chk.violation("Grammar: " + L[i][:300], dict(line=L[i]))
    chk.assumptions = ["rounds are legal as in the replacer: symbols all different and not special, free ones not in use"]
    return chk
