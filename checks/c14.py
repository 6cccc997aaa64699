"""C14: input of any size is handled block by block, within the memory asked for."""
from common import *
from tools import *
import corpus


def cases():
    k = 3 if THOROUGH else 1
    encs = "HBbumM"
    L = 185000
    # around the limits of blocks
    for mem in (1, 2, 3):
        for n in (L * mem - 1, L * mem, L * mem + 1, 2 * L * mem - 1, 2 * L * mem, 2 * L * mem + 1, 3 * L * mem):
            r = corpus.rng("c14", mem, n)
            yield corpus.runs(r, n, corpus.alphabet(r, 3)), Opts(r.choice(encs), "", r.choice([1, 8, 256]), r.choice("ds"), mem)
    for mem in (1, 2):
        for n in (740000 * mem - 1, 740000 * mem, 740000 * mem + 1, 1480000 * mem, 300000 * mem):
            r = corpus.rng("c14p", mem, n)
            yield corpus.periodic(r, n, corpus.alphabet(r, 9)), Opts(r.choice(encs), r.choice(["p", "pp"]), r.choice([1, 8, 256]), r.choice("ds"), mem)
    for i in range(40 * k):
        r = corpus.rng("c14r", i)
        mem = r.choice([1, 1, 1, 2, 4])
        n = r.choice([r.randrange(0, 2000), r.randrange(100000, 1200000)])
        kind = r.choice([corpus.runs, corpus.periodic, corpus.fibword, corpus.zeros_and_ff])
        yield kind(r, n, corpus.alphabet(r, r.choice([1, 2, 5, 256]))), \
            Opts(r.choice(encs), r.choice(["", "p", "p", "ppp"]), r.choice([1, 2, 8, 255, 256]), r.choice("ds"), mem)
    # preprocessed blocks that don't shrink: many slices
    for i in range(6 * k):
        r = corpus.rng("c14s", i)
        yield corpus.randbytes(r, r.choice([222221, 222222, 222223, 500000, 739999, 740001]), list(range(256))), \
            Opts(r.choice("HB"), "p", r.choice([1, 8, 256]), r.choice("ds"), 1)
    # preprocessed blocks that are about a whole number of slices
    for k2 in (1, 2, 3, 4, 5, 9):
        for rest in (-1, 0, 1, 2):
            n0 = int(k2 * 1000000 / (4.5 + k2))
            n = [n for n in range(n0 - 12, n0 + 12) if n - k2 * ((2 * (1000000 - n)) // 9) == rest]
            if n and n[0] <= 740000 and (THOROUGH or rest in (0, 1) or k2 < 3):
                r = corpus.rng("c14w", k2, rest)
                yield corpus.randbytes(r, n[0], list(range(256))), Opts(r.choice("HB"), "p", 8, "d", 1)
    # all numbers of starting points, lengths of slices around 256 and small ones
    for s in range(1, 257, 1 if THOROUGH else 3):
        r = corpus.rng("c14st", s)
        yield corpus.some(r, r.choice([1, 2, 255, 256, 257, 258, 300, 511, 512, 513, 1000])), Opts(r.choice(encs), "", s, r.choice("ds"), 1)
    for mem in (5, 7, 10, 50, 99, 100, 101, 500, 1000):
        r = corpus.rng("c14m", mem)
        yield corpus.runs(r, 40000, corpus.alphabet(r, 3)), Opts("B", "", 8, "d", mem)
    # the memory of another block does not count
    yield corpus.runs(corpus.rng("c14x"), 185000 * 5 + 7, [1, 2]), Opts("B", "", 8, "d", 5)


def one(c):
    d, o = c
    e, a = compress(d, o)
    return {"ev": "frame", "ar": list(a), "n": len(d), "mem": max(1, o.mem), "prepr": o.prepr != "", "starts": o.starts}


def budget(mem):
    """kilobytes of data memory that have to do; independent of the length of the input.
    The tree as it is needs less than 60 % of this."""
    return 5000 + 2300 * mem


def within_memory(c):
    """The same result in limited memory, however long the input is"""
    d, o = c
    f = tmp()
    with open(f, "wb") as h:
        h.write(d)
    ev = [{"ev": "begin"}]
    lim = ["prlimit", "--core=0", "--data=%d" % (budget(o.mem) * 1000)]
    for pre in ([], lim):
        r = run(pre + [tool("compress")] + o.args() + [f, f + ".c"], timeout=300)
        a = read(f + ".c")
        ev.append({"ev": "compress", "in": dig(d), "opt": o.key(0), "out": dig(a), "rc": r.rc})
    r = run(lim + [tool("uncompress"), f + ".c", f + ".o"], timeout=300)
    ev.append({"ev": "uncompress", "in": dig(a), "out": dig(read(f + ".o")), "rc": r.rc})
    pa = (["--prepr", o.prepr] if o.prepr else []) + ["-b", "300"]
    for pre in ([], lim):
        r = run(pre + [tool("preprocess")] + pa + [f, f + ".c"], timeout=300)
        a = read(f + ".c")
        ev.append({"ev": "preprocess", "in": dig(d), "opt": " ".join(pa), "out": dig(a), "rc": r.rc})
    r = run(lim + [tool("postprocess"), f + ".c", f + ".o"], timeout=300)
    ev.append({"ev": "postprocess", "in": dig(a), "out": dig(read(f + ".o")), "rc": r.rc})
    for x in (f, f + ".c", f + ".o"):
        if os.path.exists(x):
            os.remove(x)
    return ev


def main():
    chk = Check("C14", "model_checking")
    build()
    cs = list(cases())
    recs = pmap(one, cs)
    log("%d archives" % len(recs))
    bad, cnt = judge("FrameTrace", recs, cost=lambda s: 2000 + len(s[0]["ar"]))
    chk.traces("framing of archives", cnt, len(recs), bytes=sum(r["n"] for r in recs))
    for i in (3, 30):
        chk.sample(dict(options=repr(cs[i][1]), n=recs[i]["n"], archive_begins=recs[i]["ar"][:40]))
    for i in sorted({b[0] for b in bad})[:4]:
        again = one(cs[i])
        b2, _ = judge("FrameTrace", [again])
        if b2:
            chk.violation("%d bytes with %r are not divided as they should" % (len(cs[i][0]), cs[i][1]),
                          dict(options=cs[i][1].args(), input_base64=b64(cs[i][0]), record=dict(again, ar=again["ar"][:200])))
    log("framing judged")
    n = 12000000 if THOROUGH else 7000000
    ms = []
    for i, (e, pp, m) in enumerate((("B", "", 1), ("H", "", 1), ("M", "p", 1), ("u", "", 2), ("H", "pp", 2), ("b", "p", 4))):
        r = corpus.rng("c14mem", i)
        base = corpus.big(r, 200000)[:200000] + corpus.randbytes(r, 60000, list(range(256))) + b"".join(corpus.repo_texts())
        ms.append(((base * (n // len(base) + 1))[:n], Opts(e, pp, 8, "ds"[i % 2], m)))
    sess = pmap(within_memory, ms)
    bad, cnt = judge("PipelineTrace", sess, session=True, parts=1)
    chk.traces("%d MB within limited memory" % (n // 1000000), cnt, len(sess), budget_kb=[budget(c[1].mem) for c in ms])
    for i in sorted({b[0] for b in bad})[:3]:
        ev = within_memory(ms[i])
        b2, _ = judge("PipelineTrace", [ev], session=True)
        if b2:
            chk.violation("%d bytes with %r in %d kB of memory" % (len(ms[i][0]), ms[i][1], budget(ms[i][1].mem)),
                          dict(options=ms[i][1].args(), trace=ev, rejected=b2[0][2]))
    chk.assumptions = ["memory is limited with RLIMIT_DATA at about 1.7 times what the tree needs",
                       "-m at most 1000 (TLC's integers)"]
    return chk
