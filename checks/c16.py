"""C16: entropy coders as objects, whole compressors with small blocks."""
from common import *
import corpus

ENCS = "HBbumM"


def lines():
    k = 6 if THOROUGH else 1
    L = []
    for i in range(260 * k):                    # one or several objects, their blocks interleaved
        r = corpus.rng("c16", i)
        n = r.choice([1, 1, 1, 2, 2, 3])
        objs = [r.choice(ENCS) + r.choice("ds") + str(r.choice([1, 2, 8, 256, r.randrange(1, 257)])) for _ in range(n)]
        if i < 18:
            objs[0] = ENCS[i % 6] + objs[0][1:]
        if n > 1 and r.random() < .4:           # of the same kind
            objs = [objs[0][0] + o[1:] for o in objs]
        steps = []
        for _ in range(r.choice([1, 2, 3, 3, 5, 8])):
            x = corpus.some(r, r.choice([1, 2, 3, 20, 60, 255, 256, 257, 300, 500])) or b"z"
            if r.random() < .15:
                x = bytes([r.choice([0, 255, 97])]) * r.choice([1, 7, 128, 300])
            steps.append("%d:%s" % (r.randrange(n), x.hex()))
        L.append("E %s | %s" % (" ".join(objs), " ".join(steps)))
    for i in range(8 * k):                      # several sections in several blocks
        r = corpus.rng("c16s", i)
        c = ENCS[i % 6]
        L.append("E %sd8 | %s" % (c, " ".join("0:" + corpus.runs(r, r.choice([9999, 10000, 20001, 3000]), corpus.alphabet(r, r.choice([2, 3, 5]))).hex()
                                              for _ in range(3))))
    for i in range(300 * k):                    # whole runs: blocks and slices of a few hundred bytes
        r = corpus.rng("c16a", i)
        mem = r.choice([100, 101, 500, 997, 1000, 1400, 2000, 3000])
        x = corpus.some(r, r.choice([0, 1, 50, 300, 1000, 2000]))
        b = r.choice([mem * 185 // 1000, mem * 74 // 100])
        if b and r.random() < .3:
            x = corpus.some(r, b * r.choice([1, 2, 3]) + r.choice([-1, 0, 1]))
        L.append("A %s %s %d %d %s %s" % (r.choice(ENCS), r.choice(["-", "-", "p", "pp"]), mem, r.choice([1, 2, 8, 255, 256]), r.choice("ds"), x.hex() or "-"))
    for i in range(20 * k):                     # grammars, several blocks and slices
        r = corpus.rng("c16g", i)
        x = corpus.pairs_input(r, .25)[:r.choice([12000, 30000])]
        L.append("A %s %s %d 8 %s %s" % (r.choice("HB"), "p" * r.choice([1, 2, 3]), r.choice([9000, 14000, 20000]), r.choice("ds"), x.hex()))
    return L


def main():
    chk = Check("C16", "model_checking")
    build()
    chk.mc("encoders as objects: decoders stay in step", tlc("CodersMC", workers=CORES, cfg="CodersMC%s.cfg" % ("Big" if THOROUGH else ""), timeout=3000, heap="8g"))
    exe = harness("coders")
    if exe is None:
        chk.skip("coders", "interfaces of EntropyCoders.hpp or Compressor.hpp changed")
        return chk
    L = lines()
    recs = drive(exe, L)
    log("%d recorded" % len(recs))
    bad, cnt = judge("CodersTrace", recs, cost=lambda s: 40 + len(json.dumps(s[0])))
    chk.traces("objects and whole runs", cnt, len(L),
               blocks=sum(len(o["blocks"]) for r in recs for o in r.get("objs", [])))
    for i in (10, len(L) // 2, len(L) - 1):
        chk.sample(L[i][:200])
    for i, j, rec in bad[:4]:
        r2 = drive(exe, [L[i]])
        if judge("CodersTrace", r2)[0]:
            chk.violation("coders: " + L[i][:200], dict(line=L[i], rejected=r2[0]))
    chk.assumptions = ["memory limits from 100 bytes up (the tools start from a megabyte)"]
    return chk
