"""C18: the frequency table keeps its order through every history of changes."""
from common import *
import corpus


def lines():
    k = 8 if THOROUGH else 1
    L = []
    for i in range(160 * k):
        r = corpus.rng("c18", i)
        m = r.randrange(5)
        f = [0 if m == 0 else r.randrange(3) if m == 1 else r.randrange(1000000) if m == 2 else c * 7 % 256 if m == 3 else r.choice([0, 0, 5, 1000, 70000])
             for c in range(256)]
        t = {c: f[c] for c in range(256)}
        ops = []
        for _ in range(r.choice([3, 10, 30])):
            if len(t) < 3:
                break
            c = r.random()
            key = r.choice([max(t, key=t.get), min(t, key=t.get), r.choice(sorted(t)), r.choice([x for x in (0, 255, 128) if x in t] or sorted(t))])
            n = r.choice([0, 1, 2, 1000, t[key], max(t.values()), max(0, max(t.values()) - t[key]) + r.choice([0, 1])])
            if c < .35:
                ops.append("i:%d:%d" % (key, n))
                t[key] += n
            elif c < .65:
                n = min(n, t[key])
                ops.append("d:%d:%d" % (key, n))
                t[key] -= n
            elif c < .9:
                for _ in range(r.choice([1, 1, 2, 5])):
                    if len(t) < 3:
                        break
                    ops.append("r:%d" % key)
                    del t[key]
                    key = r.choice([max(t, key=t.get), r.choice(sorted(t))])
            else:
                ops.append(r.choice("ca"))
            if max(t.values()) > 1 << 28:
                break
        L.append(",".join(map(str, f)) + " " + " ".join(ops))
    # removing most of the keys
    for i in range(3 * k):
        r = corpus.rng("c18r", i)
        f = [r.randrange(50) for _ in range(256)]
        ks = list(range(256))
        r.shuffle(ks)
        L.append(",".join(map(str, f)) + " " + " ".join("r:%d" % c for c in ks[:60]))
    return L


def main():
    chk = Check("C18", "model_checking")
    build()
    chk.mc("sorted array refines the table", tlc("FreqTableMC", workers=CORES, cfg="FreqTableMC%s.cfg" % ("Big" if THOROUGH else ""), timeout=3000, heap="8g"))
    exe = harness("freq")
    if exe is None:
        chk.skip("table", "FrequencyTable changed its interface")
        return chk
    L = lines()
    recs = drive(exe, L)
    bad, cnt = judge("FreqTrace", recs, cost=lambda s: len(s[0].get("ops", [])))
    chk.traces("histories of a real FrequencyTable", cnt, len(L), calls=sum(len(r.get("ops", [])) for r in recs))
    chk.sample(L[7][-200:])
    for i, j, rec in bad[:5]:
        r2 = drive(exe, [L[i]])
        if judge("FreqTrace", r2)[0]:
            chk.violation("FrequencyTable: ..." + L[i][-200:], dict(line=L[i]))
    chk.assumptions = ["a removed key is not changed any more, frequencies stay below 2^29"]
    return chk
