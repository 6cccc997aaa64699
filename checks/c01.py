"""C01: uncompress gives back exactly what compress was given."""
from common import *
from tools import *
import corpus


def cases():
    """(name, data, options)"""
    k = 4 if THOROUGH else 1
    # every short string over two or three letters, coders in turn
    encs = "HBbumM"
    for n, al in ((7 if not THOROUGH else 9, [0, 255]), (4 if not THOROUGH else 6, [0, 97, 98])):
        for i, s in enumerate(corpus.exhaustive(al, n)):
            yield "short", s, Opts(encs[i % 6], ["", "p"][(i // 6) % 2], [1, 8, 256][i % 3], "ds"[i % 2])
    # every length around the edges
    for i, n in enumerate(list(range(0, 40)) + corpus.EDGES + corpus.BIG_EDGES):
        for e in encs:
            r = corpus.rng("len", n, e)
            yield "edge%d" % n, corpus.some(r, n), Opts(e, r.choice(["", "p", "pp"]), r.choice([1, 2, 8, 255, 256]),
                                                   r.choice("ds"), r.choice([1, 100]))
    # random
    for i in range(3500 * k):
        r = corpus.rng("r", i)
        yield "random%d" % i, corpus.some(r, maxn=r.choice([300, 3000, 12000])), random_opts(r)
    # one for each number of starting points
    for s in range(1, 257):
        r = corpus.rng("s", s)
        yield "starts%d" % s, corpus.some(r, r.choice([250, 256, 257, 258, 300, 1000, 5000])), \
            Opts(r.choice(encs), "", s, r.choice("ds"), 1)
    # several blocks: 1 MB of memory means blocks of 185 kB
    for i in range(40 * k):
        r = corpus.rng("big", i)
        n = r.choice([184999, 185000, 185001, 370000, 200000, 250000, 400000, 600000, 739999, 740000, 740001, 800000])
        yield "big%d" % i, corpus.big(r, n)[:900000], \
            Opts(r.choice(encs), r.choice(["", "", "p", "pp"]), r.choice([1, 3, 8, 100, 256]), r.choice("ds"), r.choice([1, 1, 1, 2, 4]))
    for i in range(60 * k):
        r = corpus.rng("pair", i)
        yield "pairs%d" % i, corpus.pairs_input(r), \
            Opts(r.choice(encs), "p" * r.choice([1, 2, 3, 5, 8]), r.choice([1, 8, 256]), r.choice("ds"), r.choice([1, 1, 100]))
    for i in range(16 * k):
        r = corpus.rng("layer", i)
        yield "layered%d" % i, corpus.layered(r), Opts(r.choice(encs), "p" * r.choice([2, 3]), 8, r.choice("ds"), r.choice([1, 100]))
    for i in range(40 * k):
        r = corpus.rng("spent", i)
        yield "spent%d" % i, corpus.spent(r), Opts(r.choice(encs), "p" * r.choice([2, 3]), 8, r.choice("ds"), r.choice([1, 100]))
    # runs across the limits of the integer codes
    for i in range(250 * k):
        r = corpus.rng("runs", i)
        yield "runs%d" % i, corpus.sortedruns(r, r.choice([3000, 30000, 150000]), None), \
            Opts(r.choice("BBbumMH"), r.choice(["", "", "p"]), 1, "d", r.choice([1, 100]))
    for i in range(40 * k):
        r = corpus.rng("long", i)
        yield "longrun%d" % i, corpus.longrun(r, 24 if THOROUGH and i % 8 == 0 else 20), \
            Opts("BBbumMH"[i % 7], r.choice(["", "", "p"]), r.choice([1, 8, 256]), r.choice("ds"), r.choice([20, 100]))
    # texts that are hard to sort; blocks of more than 2^24 bytes
    for i, (alg, st, d) in enumerate(corpus.rare()):
        yield "rare%d" % i, d, Opts(encs[i % 6], ["", "p"][i % 2], st, alg, [1, 100][i // 2 % 2])
    for i in range(40 * k):
        r = corpus.rng("dense", i)
        yield "dense%d" % i, corpus.dense(r, 5), Opts(r.choice(encs), r.choice(["", "p"]), r.choice([1, 8, 256]), r.choice("ds"), r.choice([1, 100]))
    for i in range(2 * k):
        r = corpus.rng("huge", i)
        yield "huge%d" % i, corpus.hugerun(r), Opts("BHbumM"[i % 6], "", r.choice([1, 8, 256]), r.choice("ds"), 200)
    # sections: up to 256 in a slice
    for i, n in enumerate([126, 127, 128, 129, 200, 254, 255, 256]):
        for e in encs if THOROUGH else "HB":
            r = corpus.rng("sections", n, e)
            yield "sections%d" % n, corpus.manysections(r, n), Opts(e, "", r.choice([1, 8]), "d", 100)
    for i, t in enumerate(corpus.repo_texts()):
        for e in encs:
            yield "text%d" % i, t, Opts(e, "pp" if e in "BH" else "", 8)


def one(c):
    name, data, o = c
    e1, a = compress(data, o)
    e2, d = uncompress(a)
    return [{"ev": "begin"}, e1, e2]


def main():
    chk = Check("C01", "model_checking")
    build()
    import histories
    histories.model(chk)
    cs = list(cases())
    sess = pmap(one, cs)
    log("%d round trips recorded" % len(cs))
    bad, cnt = judge("PipelineTrace", sess, session=True, parts=4)
    chk.traces("roundtrips", cnt, len(sess))
    for i in (3, 777, len(cs) - 2):
        chk.sample(dict(case=cs[i][0], options=repr(cs[i][2]), bytes=len(cs[i][1]), trace=sess[i]))
    for i in sorted({b[0] for b in bad}):
        again = one(cs[i])
        b2, _ = judge("PipelineTrace", [again], session=True)
        if b2:
            chk.violation("round trip of %s (%d bytes) with %r" % (cs[i][0], len(cs[i][1]), cs[i][2]),
                          dict(options=cs[i][2].args(), input_base64=b64(cs[i][1]), trace=again))
            if len(chk.violations) > 3:
                break
    chk.assumptions = ["contents are compared by SHA-256",
                       "inputs up to some 2 MB; larger blocks behave as these do"]
    histories.run(chk)
    return chk
