"""C15: sizes told to the user are true."""
import re
from common import *
from tools import *
import corpus


def told(data, o):
    rc, a, err = deliver("compress", o.args() + ["-v", "1"], data)
    m = re.findall(rb"Compressed size is (\d+)", err)
    return {"ev": "told", "told": int(m[-1]) if m else -1, "size": len(a)}


def pretold(data, pp, b):
    rc, a, err = deliver("preprocess", (["--prepr", pp] if pp else []) + ["-b", str(b), "-v", "1"], data)
    m1 = re.findall(rb"Read (\d+) block", err)
    m2 = re.findall(rb"Total size: (\d+)B", err)
    return {"ev": "pretold", "pre": list(a), "n": len(data), "max": max(1, b) * 1024,
            "blocks": int(m1[-1]) if m1 else -1, "total": min(int(m2[-1]), 2000000000) if m2 else -1}


def cases():
    k = 4 if THOROUGH else 1
    encs = "HBbumM"
    for i, n in enumerate(list(range(0, 9)) + corpus.EDGES + corpus.BIG_EDGES):
        r = corpus.rng("c15", n)
        yield "told", corpus.some(r, n), Opts(encs[i % 6], r.choice(["", "p"]), r.choice([1, 8, 256]), r.choice("ds"), 1)
        yield "pre", corpus.some(r, n), ("p" * r.randrange(0, 3), r.choice([0, 1, 2, 16, 64, 128]))
    for i in range(700 * k):
        r = corpus.rng("c15r", i)
        yield "told", corpus.some(r, maxn=r.choice([300, 3000, 30000])), random_opts(r)
    for i in range(300 * k):
        r = corpus.rng("c15s", i)
        yield "pre", corpus.some(r, maxn=r.choice([300, 3000, 12000])), ("p" * r.randrange(0, 4), r.choice([0, 1, 1, 2, 3, 9]))
    for i in range(60 * k):
        r = corpus.rng("c15b", i)
        yield "told", corpus.big(r, r.choice([184999, 185000, 185001, 370000, 400000, 740001]))[:900000], \
            Opts(encs[i % 6], r.choice(["", "p", "pp"]), r.choice([1, 8, 256]), r.choice("ds"), 1)
    for i in range(30 * k):
        r = corpus.rng("c15p", i)
        yield "told", corpus.pairs_input(r), Opts(encs[i % 6], "pp", 8, "d", 1)
        yield "pre", corpus.pairs_input(r, .3), ("p" * r.randrange(1, 4), r.choice([10, 30, 1000]))
    for n in (1024, 2048, 10240, 1023, 1025, 2047, 2049):
        yield "pre", b"ab" * (n // 2) + b"c" * (n % 2), ("", 1)


def one(c):
    return told(c[1], c[2]) if c[0] == "told" else pretold(c[1], *c[2])


def main():
    chk = Check("C15", "model_checking")
    build()
    cs = list(cases())
    recs = pmap(one, cs)
    # a tree that does not tell the sizes any more breaks no promise about them
    if all(r["told"] < 0 for r in recs if r["ev"] == "told"):
        chk.skip("compress", "tells no size")
        keep = [i for i, r in enumerate(recs) if r["ev"] != "told"]
        cs, recs = [cs[i] for i in keep], [recs[i] for i in keep]
    if all(r["total"] < 0 and r["blocks"] < 0 for r in recs if r["ev"] == "pretold"):
        chk.skip("preprocess", "tells no size")
        keep = [i for i, r in enumerate(recs) if r["ev"] != "pretold"]
        cs, recs = [cs[i] for i in keep], [recs[i] for i in keep]
    log("%d runs" % len(recs))
    if not recs:
        return chk
    bad, cnt = judge("FrameTrace", recs, cost=lambda s: 100 + len(s[0].get("pre", [])))
    chk.traces("sizes told with -v 1", cnt, len(recs))
    for i in (0, len(recs) // 3, len(recs) // 2):
        chk.sample(dict(recs[i], pre=recs[i].get("pre", [])[:20], options=repr(cs[i][2])))
    for i in sorted({b[0] for b in bad})[:4]:
        again = one(cs[i])
        b2, _ = judge("FrameTrace", [again])
        if b2:
            chk.violation("%s of %d bytes, %r: told %s" % (cs[i][0], len(cs[i][1]), cs[i][2], {k: v for k, v in again.items() if k != "pre"}),
                          dict(options=repr(cs[i][2]), input_base64=b64(cs[i][1]), record={k: v for k, v in again.items() if k != "pre"}))
    return chk
