"""C09: probability models follow their specification and never exclude a bit."""
import itertools
from common import *
import corpus


def lines():
    k = 8 if THOROUGH else 1
    L = []
    for kind in "BbumMig":
        L.append(kind + " -")
        for n in range(1, 6 if THOROUGH else 5):
            for t in itertools.product("01234", repeat=n):
                L.append(kind + " " + "".join(t))
        for i in range(60 * k):
            r = corpus.rng("c09", kind, i)
            n = r.choice([30, 100, 300])
            m = r.randrange(6)
            if m == 0:
                s = [r.choice("01234") for _ in range(n)]
            elif m == 1:
                s = [r.choice("01") for _ in range(n)]
            elif m == 2:
                s = []
                while len(s) < n:
                    s += [r.choice("01")] * r.choice([1, 2, 5, 40, 150])
            elif m == 3:
                s = [r.choice("0000000001") for _ in range(n)] + [r.choice("1111111110") for _ in range(n)]
            elif m == 4:
                s = []
                while len(s) < n:
                    s += [r.choice("01234")] * r.choice([1, 1, 3, 20, 60])
            else:
                w = [r.choice("01") for _ in range(r.randrange(1, 12))]
                s = (w * n)[:n] + [r.choice("0123")] + (w * n)[:n // 2]
            L.append(kind + " " + "".join(s))
        for b in "01":
            L.append(kind + " " + b * 400 + ("1" if b == "0" else "0") * 200)
    # each context of the short history
    for c in range(256):
        w = format(c, "08b")
        L.append("m " + (w + "1" + w + "0") * 3 + w + "1" + w)
    for i in range(100 * k):
        r = corpus.rng("c09M", i)
        w = format(r.choice([0, 65535, 32768, r.randrange(65536)]), "016b")
        L.append("M " + (w + "1") * 3 + w + (("0" + w) * 5))
    return L


def main():
    chk = Check("C09", "model_checking")
    build()
    chk.mc("Predictors", tlc("PredictorMC", workers=CORES))
    chk.mc("Models", tlc("ModelsMC", workers=CORES, cfg="ModelsMC%s.cfg" % ("Big" if THOROUGH else ""), timeout=3000, heap="8g"))
    exe = harness("models")
    if exe is None:
        chk.skip("models", "giveProbabilityModel is not there")
        return chk
    L = lines()
    recs = drive(exe, L)
    bad, cnt = judge("ModelsTrace", recs, cost=lambda s: 10 + len(s[0].get("ops", [])))
    chk.traces("calls of real models", cnt, len(L), calls=sum(len(r.get("ops", [])) for r in recs))
    for i in (500, len(L) - 1):
        chk.sample(L[i][:200])
    for i, j, rec in bad[:5]:
        r2 = drive(exe, [L[i]])
        if judge("ModelsTrace", r2)[0]:
            chk.violation("probability model: " + L[i][:200], dict(line=L[i], rejected=r2[0]))
    chk.assumptions = ["sequences of calls up to length %d exhaustively, longer ones sampled" % (5 if THOROUGH else 4)]
    return chk
