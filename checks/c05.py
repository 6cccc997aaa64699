"""C05: the inverse transform recovers the block, for any number of starting points."""
import json as _json
from common import *
import corpus


def cases():
    """(text, number of starting points)"""
    k = 4 if THOROUGH else 1
    C = []
    for al, n in (([0, 255], 8), ([0, 97, 98], 5)):
        for i, s in enumerate(corpus.exhaustive(al, n)):
            if s:
                for c in {1, 2, len(s), len(s) + 1, (i % (len(s) + 1)) + 1}:
                    C.append((s, c))
    for n in range(1, 70):
        for c in range(1, min(n + 1, 256) + 1, max(1, n // 6)):
            C.append((corpus.some(corpus.rng("c05", n, c), n) or b"x", c))
    for c in range(1, 257):
        r = corpus.rng("c05c", c)
        n = r.choice([257, 258, 300, 511, 512, 513, c * 2, c * 2 + 1, c * 3 - 1, c * 3])
        C.append((corpus.some(r, max(c, n)) or b"y", c))
    for i in range(350 * k):
        r = corpus.rng("c05r", i)
        d = corpus.some(r, maxn=r.choice([60, 400, 900])) or b"z"
        C.append((d, r.choice([1, 2, 3, 8, 100, 255, 256])))
    return [(d, min(c, len(d) + 1, 256)) for d, c in C if d]


def main():
    chk = Check("C05", "model_checking")
    build()
    t = tlc("BwtMC", workers=8)
    chk.mc("BwtMC: all strings over 3 letters up to 6 bytes", t, exhaustive=True)
    exe = harness("bwt")
    if not exe:
        chk.skip("inverse transforms", "the harness does not compile against this tree")
        import c04
        return c04.fallback(chk)
    cs = cases()
    # transforms made by the specification; of long texts by the real code (C04), the
    # starting points by the specification all the same
    big = []
    for i in range(40 * (4 if THOROUGH else 1)):
        r = corpus.rng("c05b", i)
        n = r.choice([2000, 3001, 4096, 9000, 12000])
        big.append((corpus.some(r, n) or b"q", r.choice([1, 2, 3, 8, 17, 100, 255, 256])))
    fw = drive(exe, ["F d 1 " + d.hex() for d, _ in big])
    n0 = len(cs)
    gen = [dict(ev="gen", i=i, text=list(d), count=c) for i, (d, c) in enumerate(cs) if len(d) <= 48]
    extra = [i for i, (d, c) in enumerate(cs) if len(d) > 48]
    fx = drive(exe, ["F d 1 " + cs[i][0].hex() for i in extra])
    gen += [dict(ev="genrows", i=i, stored=f.get("out", []), eob=f.get("rows", [0])[0], count=cs[i][1])
            for i, f in zip(extra, fx) if f["ev"] == "fwd"]
    gen += [dict(ev="genrows", i=n0 + i, stored=f.get("out", []), eob=f.get("rows", [0])[0], count=big[i][1])
            for i, f in enumerate(fw) if f["ev"] == "fwd"]
    cs = cs + [(d, min(c, len(d) + 1)) for d, c in big]
    made = {}
    fixed = {g["i"]: g["stored"] for g in gen if "stored" in g}

    def work(k):
        p = write_trace(gen[k::CORES], "gen%d.ndjson" % k)
        t = tlc("BwtTrace", env={"TRACE": p})
        if not t.ok:
            raise ModelError(t.out[-2000:])
        for m in re.findall(r'<<"GEN", "(.*)">>', t.out):
            g = _json.loads(m.replace('\\"', '"'))
            made[g["i"]] = g
            g.setdefault("stored", fixed.get(g["i"]))
        return t
    ts = pmap(work, range(CORES))
    log("%d transforms generated from the specification" % len(made))
    ids = sorted(made)
    L = []
    for i in ids:
        g = made[i]
        for w in "01":
            L.append("I %s %s %s" % (w, ",".join(map(str, g["rows"])), bytes(g["stored"]).hex()))
    recs = drive(exe, L)
    for q, r in enumerate(recs):
        r["text"] = list(cs[ids[q // 2]][0])
    bad, cnt = judge("BwtTrace", recs, cost=lambda s: 60 + len(s[0].get("text", [])))
    cnt["states"] += sum(t.distinct for t in ts)
    cnt["transitions"] += sum(t.generated for t in ts)
    chk.traces("inverse transforms of what the specification produced", cnt, len(recs))
    long_blocks(chk)
    for i in (50, 999):
        chk.sample(recs[i])
    for i in sorted({b[0] for b in bad})[:4]:
        again = drive(exe, [L[i]])
        again[0]["text"] = recs[i]["text"]
        b2, _ = judge("BwtTrace", again)
        if b2:
            chk.violation("inverse transform %s, %d starting points, %d bytes" % (L[i][:3], L[i].count(",") + 1, len(recs[i]["text"])),
                          dict(harness="bwt", line=L[i], record=again[0]))
    return chk


def long_blocks(chk):
    """Columns described by BwtRuns, far longer than what can be spelled out"""
    import c04
    chk.mc("the long blocks' transforms against the definition, runs up to 9", tlc("BwtRunsMC"), exhaustive=True)
    exe = harness("runs")
    if not exe:
        chk.skip("long blocks", "the harness does not compile against this tree")
        return
    F = c04.forms()
    top = lambda f: min(256, f[3] + f[4] + 1)
    gen = [dict(ev="gen", i=i, kind=f[0], a=f[1], b=f[2], n=f[3], m=f[4], count=min(top(f), (8, 1, 256, 3, 100)[i % 5])) for i, f in enumerate(F)]
    t = tlc("BwtRunsTrace", env={"TRACE": write_trace(gen, "rungen.ndjson")})
    if not t.ok:
        raise ModelError(t.out[-2000:])
    made = [_json.loads(m.replace('\\"', '"')) for m in re.findall(r'<<"GEN", "(.*)">>', t.out)]
    L = []
    for g in made:
        for w in (0, 1):
            L.append("I %s %d %d %d %d %d %d %s %d %s" % (*F[g["i"]], w, len(g["stored"]), " ".join("%d %d" % tuple(x) for x in g["stored"]),
                                                      len(g["rows"]), " ".join(map(str, g["rows"]))))
    recs = drive(exe, L)
    bad, cnt = judge("BwtRunsTrace", recs)
    chk.traces("inverse transforms of columns of up to %d bytes" % max(f[3] + f[4] for f in F), cnt, len(recs))
    for i in sorted({b[0] for b in bad})[:4]:
        again = drive(exe, [L[i]])
        if judge("BwtRunsTrace", again)[0]:
            chk.violation("inverse transform of %s" % L[i][:60], dict(harness="runs", line=L[i], record=again[0]))
