"""C02: archives are what the format says; an independent decoder (the TLA+ one) reads them."""
from common import *
from tools import *
import corpus


def cases():
    k = 5 if THOROUGH else 1
    encs = "HBbumM"
    for i, s in enumerate(corpus.exhaustive([0, 255], 6)):
        yield s, Opts(encs[i % 6], ["", "p"][(i // 6) % 2], [1, 8, 256][i % 3], "ds"[i % 2])
    for n in list(range(0, 20)) + corpus.EDGES:
        for e in encs:
            r = corpus.rng("c02", n, e)
            yield corpus.some(r, n), Opts(e, r.choice(["", "p"]), r.choice([1, 2, 8, 255, 256]), r.choice("ds"), 1)
    for i in range(700 * k):
        r = corpus.rng("c02r", i)
        yield corpus.some(r, maxn=r.choice([300, 1500])), random_opts(r)
    for i in range(120 * k):
        r = corpus.rng("c02runs", i)
        yield corpus.sortedruns(r, r.choice([300, 3000, 8000]), None), Opts(r.choice(encs), "", r.choice([1, 8]), "d", 1)
    # several sections, models carried over from one to the next
    for i in range(18 * k):
        r = corpus.rng("c02sec", i)
        n = r.choice([10050, 20001, 30500])
        d = r.choice([corpus.phrases, corpus.markov, corpus.runs])(r, n, corpus.alphabet(r, r.choice([2, 3, 4, 6])))
        yield d, Opts(encs[i % 6], "", r.choice([1, 8]), "d", 1)
    # grammars with special symbols
    for i in range(14 * k):
        r = corpus.rng("c02p", i)
        yield corpus.pairs_input(r, 0.25)[:40000], Opts(r.choice("HB"), "p" * r.choice([1, 2, 3]), 1, "d", 1)


    # too large to be expanded by the specification: sections and runs only
    for i, n in enumerate([126, 127, 128, 129, 200, 254, 255, 256]):
        for e in encs if THOROUGH else encs[i % 3::3]:
            r = corpus.rng("c02many", n, e)
            yield corpus.manysections(r, n, 0), Opts(e, "", r.choice([1, 8]), "d", 100)
    for i in range(30 * k):
        r = corpus.rng("c02long", i)
        yield corpus.longrun(r, 20, [50, 3000, 6000]), Opts(encs[i % 6], "", r.choice([1, 8]), r.choice("ds"), r.choice([1, 100]))


def one(c):
    data, o = c
    e, a = compress(data, o)
    if len(data) > 65536 and not o.prepr:
        n = [0] * 256
        for b in range(256):
            n[b] = data.count(bytes([b]))
        return dict(enc=ord(o.enc), ar=list(a), counts=n)
    return dict(enc=ord(o.enc), ar=list(a), **{"in": list(data)})


def main():
    chk = Check("C02", "model_checking")
    build()
    cs = list(cases())
    recs = pmap(one, cs)
    log("%d archives" % len(recs))
    bad, cnt = judge("ArchiveTrace", recs, cost=lambda s: 300 + len(s[0].get("in", [])) + 3 * len(s[0]["ar"]))
    chk.traces("archives decoded by the specification", cnt, len(recs),
               archive_bytes=sum(len(r["ar"]) for r in recs), bytes=sum(len(c[0]) for c in cs))
    for i in (5, 100, 333):
        chk.sample(dict(options=repr(cs[i][1]), input=list(cs[i][0][:40]), archive=recs[i]["ar"][:60]))
    for i in sorted({b[0] for b in bad})[:4]:
        again = one(cs[i])
        b2, _ = judge("ArchiveTrace", [again])
        if b2:
            chk.violation("archive of %d bytes with %r is not one by the specification" % (len(cs[i][0]), cs[i][1]),
                          dict(options=cs[i][1].args(), record=again))
    return chk
