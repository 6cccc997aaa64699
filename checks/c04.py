"""C04: the forward transform is the Burrows-Wheeler transform, with both algorithms."""
from common import *
import corpus


def cases():
    """lines for the harness"""
    k = 4 if THOROUGH else 1
    L = []

    def add(op, alg, st, d):
        if d:
            L.append("%s %s %d %s" % (op, alg, st, d.hex()))
    for al, n in (([0, 255], 10 if THOROUGH else 9), ([0, 97, 98], 7 if THOROUGH else 6)):
        for i, s in enumerate(corpus.exhaustive(al, n)):
            add("FGT"[i % 3], "ds"[i % 2], [1, 8, 256][i % 3], s)
            add("F", "sd"[i % 2], 2, s)
    for n in range(1, 40):
        for alg in "dsa":
            r = corpus.rng("c04n", n, alg)
            add("F", alg, r.choice([1, 2, 8, 256]), corpus.some(r, n))
    # every number of starting points, with lengths that it does and does not divide
    for s in range(1, 257):
        for alg in "ds":
            r = corpus.rng("c04s", s, alg)
            n = r.choice([257, 258, 300, 511, 512, 513, 768, s * r.randrange(2, 4) + r.choice([-1, 0, 1])])
            add("F", alg, s, corpus.some(r, min(max(1, n), 800)))
    for s in (0, 257, 300, 1000, 100000):
        add("F", "d", s, corpus.some(corpus.rng("c04o", s), 700))
    for i in range(700 * k):
        r = corpus.rng("c04r", i)
        add(r.choice("FFFG"), r.choice("dsa"), r.choice([1, 2, 3, 7, 8, 16, 100, 255, 256]), corpus.some(r, maxn=r.choice([100, 600, 2500])))
    for i in range(60 * k):
        r = corpus.rng("c04b", i)
        d = r.choice([corpus.some(r, r.choice([5000, 9000, 12000])), corpus.big(r, 15000)[:15000]])
        for alg in "ds":
            add("F", alg, r.choice([1, 8, 100, 256]), d)
    for i in range(5 * k):
        r = corpus.rng("c04c", i)
        add("F", "ds"[i % 2], 8, corpus.big(r, 60000)[:60000])
    for alg, st, d in corpus.rare():
        for a in ("ds" if len(d) < 20000 else alg):
            add("F", a, st, d)
    for i in range(60 * k):
        r = corpus.rng("c04d", i)
        d = corpus.dense(r, 4)
        for a in "ds":
            add("F", a, r.choice([1, 8, 256]), d)
    return L


def main():
    chk = Check("C04", "model_checking")
    build()
    t = tlc("BwtMC", workers=8)
    chk.mc("BwtMC: all strings over 3 letters up to 6 bytes", t, exhaustive=True)
    exe = harness("bwt")
    if not exe:
        chk.skip("transforms", "the harness does not compile against this tree")
        return fallback(chk)
    L = cases()
    recs = drive(exe, L)
    log("%d transforms" % len(recs))
    bad, cnt = judge("BwtTrace", recs, cost=lambda s: 60 + len(s[0].get("in", [])))
    chk.traces("transforms", cnt, len(recs), bytes=sum(len(r.get("in", [])) for r in recs))
    long_blocks(chk)
    for i in (50, 999):
        chk.sample({k: v for k, v in recs[i].items() if k != "freqs"})
    for i in sorted({b[0] for b in bad})[:4]:
        again = drive(exe, [L[i]])
        b2, _ = judge("BwtTrace", again)
        if b2:
            chk.violation("transform %s of %d bytes" % (L[i][:8], len(L[i].split()[-1]) // 2), dict(harness="bwt", line=L[i], record=again[0]))
    return chk


def forms():
    """(kind, a, b, n, m): blocks that BwtRuns describes, up to and beyond 2^24 bytes"""
    r = corpus.rng("runs")
    F = [("two", 97, 98, 17000000, 3), ("two", 200, 5, 16777217, 9), ("alt", 1, 255, 16777300, 16777300), ("two", 0, 7, 16777216, 0)]
    for i in range(60 * (4 if THOROUGH else 1)):
        a, b = r.sample(range(256), 2)
        n, m = [r.choice([1, 2, 3, 255, 256, 257, 65535, 65536, 65537, r.randrange(1, 2000), r.randrange(1, 200000)]) for _ in "nm"]
        k = r.choice(["two", "two", "alt"])
        F.append((k, a, b, n, n if k == "alt" else r.choice([0, m, m, m])))
    for i in range(8 if THOROUGH else 2):
        a, b = r.sample(range(256), 2)
        n, m = r.randrange(1 << 20, 1 << 25), r.randrange(1, 1 << 24)
        k = r.choice(["two", "alt"])
        F.append((k, a, b, n, n if k == "alt" else m))
    return F


def long_blocks(chk):
    chk.mc("the long blocks' transforms against the definition, runs up to 9", tlc("BwtRunsMC"), exhaustive=True)
    exe = harness("runs")
    if not exe:
        chk.skip("long blocks", "the harness does not compile against this tree")
        return
    L = ["F %s %d %d %d %d %s %d" % (*f, alg, s) for i, f in enumerate(forms())
         for alg, s in (("d", (8, 1, 256)[i % 3]), ("s", (1, 256, 8, 100)[i % 4]))]
    recs = drive(exe, L)
    bad, cnt = judge("BwtRunsTrace", recs)
    chk.traces("transforms of blocks of up to %d bytes" % max(f[3] + f[4] for f in forms()), cnt, len(recs))
    for i in sorted({b[0] for b in bad})[:4]:
        again = drive(exe, [L[i]])
        if judge("BwtRunsTrace", again)[0]:
            chk.violation("transform of %s" % L[i], dict(harness="runs", line=L[i], record=again[0]))


def fallback(chk):
    """Through the tool: archives with a stored transform that inverts to the input"""
    import c02
    cs = [c for i, c in enumerate(c02.cases()) if i % 4 == 0]
    recs = pmap(c02.one, cs)
    bad, cnt = judge("ArchiveTrace", recs, cost=lambda s: 300 + len(s[0]["in"]) + 3 * len(s[0]["ar"]))
    chk.traces("archives", cnt, len(recs))
    for i in sorted({b[0] for b in bad})[:3]:
        chk.violation("archive with %r" % cs[i][1], dict(options=cs[i][1].args(), record=recs[i]))
    return chk
