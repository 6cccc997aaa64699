"""C06: postprocess gives back exactly what preprocess was given."""
from common import *
from tools import *
import corpus


def cases():
    """(data, prepr, block size in kB or None, decode with TLC)"""
    k = 4 if THOROUGH else 1
    for i, s in enumerate(corpus.exhaustive([0, 255], 8 if THOROUGH else 7)):
        yield s, "p" * (1 + i % 3), None, i % 3 == 0
    for i, s in enumerate(corpus.exhaustive([7, 97, 98], 5 if THOROUGH else 4)):
        yield s, "p" * (i % 3), None, i % 3 == 0
    for n in list(range(0, 20)) + corpus.EDGES + corpus.BIG_EDGES:
        r = corpus.rng("c06e", n)
        yield corpus.some(r, n), "p" * r.randrange(0, 4), r.choice([None, 0, 1, 2, 5]), n < 20000
    for i in range(900 * k):
        r = corpus.rng("c06r", i)
        yield corpus.some(r, maxn=r.choice([300, 3000, 12000])), "p" * r.choice([0, 1, 1, 1, 2, 3, 8]), \
            r.choice([None, None, 0, 1, 2, 3, 7]), i % 2 == 0
    for i in range(500 * k):
        r = corpus.rng("c06p", i)
        d = corpus.pairs_input(r, r.choice([.2, .5, 1, 2]))
        yield d, "p" * r.choice([1, 1, 2, 3, 5, 9]), r.choice([None, None, 5, 10, 30, 100]), len(d) < 45000 and i % 4 == 0
    for i in range(40 * k):
        r = corpus.rng("c06b", i)
        yield corpus.big(r, r.choice([70000, 200000, 500000])), "p" * r.choice([1, 2, 4]), r.choice([None, 10, 64, 199]), False
    # many different pairs: all the 254 replacements, symbols freed one after another
    for i in range(60 * k):
        r = corpus.rng("c06m", i)
        d = corpus.many_pairs(r)
        yield d, "p" * r.choice([1, 1, 2, 3]), None, i % 10 == 0 and len(d) < 200000
    for i in range(48 * k):
        r = corpus.rng("c06l", i)
        yield corpus.layered(r), "p" * r.choice([2, 2, 3, 4]), None, False
    for i in range(120 * k):
        r = corpus.rng("c06s", i)
        yield corpus.spent(r), "p" * r.choice([2, 2, 3, 4]), None, False


def one(c):
    data, pp, b, _ = c
    e1, p = preprocess(data, pp, b)
    e2, d = postprocess(p)
    return [{"ev": "begin"}, e1, e2], p


def rec(c, p):
    data, pp, b, _ = c
    mx = 100000 * 1024 if b is None else max(1, b) * 1024
    return {"pre": list(p), "in": list(data), "max": mx}


def main():
    chk = Check("C06", "model_checking")
    build()
    import histories
    histories.model(chk)
    cs = list(cases())
    res = pmap(one, cs)
    sess = [x[0] for x in res]
    log("%d recorded" % len(cs))
    bad, cnt = judge("PipelineTrace", sess, session=True, parts=4)
    chk.traces("round trips", cnt, len(sess))
    for i in (9, 1000, len(cs) - 3):
        chk.sample(dict(options=[cs[i][1], cs[i][2]], bytes=len(cs[i][0]), trace=sess[i]))
    for i in sorted({b[0] for b in bad})[:4]:
        ev, p = one(cs[i])
        b2, _ = judge("PipelineTrace", [ev], session=True)
        if b2:
            chk.violation("preprocess --prepr %s -b %s of %d bytes" % (cs[i][1], cs[i][2], len(cs[i][0])),
                          dict(input_base64=b64(cs[i][0]), prepr=cs[i][1], block=cs[i][2], trace=ev))
    sel = [i for i in range(len(cs)) if cs[i][3]]
    recs = [rec(cs[i], res[i][1]) for i in sel]
    bad, cnt = judge("ArchiveTrace", recs, cost=lambda s: 300 + len(s[0]["in"]), name="pre")
    chk.traces("outputs of preprocess decoded by the specification", cnt, len(recs),
               with_grammar=sum(1 for i in sel if len(res[i][1]) < len(cs[i][0])))
    for i in sorted({sel[b[0]] for b in bad})[:4]:
        ev, p = one(cs[i])
        b2, _ = judge("ArchiveTrace", [rec(cs[i], p)])
        if b2:
            chk.violation("preprocess --prepr %s -b %s of %d bytes: wrong by the specification of the format" % (cs[i][1], cs[i][2], len(cs[i][0])),
                          dict(input_base64=b64(cs[i][0]), prepr=cs[i][1], block=cs[i][2], output_base64=b64(p)))
    chk.assumptions = ["contents of the round trips are compared by SHA-256", "inputs up to about 1 MB"]
    return chk
