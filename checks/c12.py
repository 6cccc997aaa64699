"""C12: no strict prefix of an archive passes for an archive."""
from common import *
from tools import *
import corpus


def cases():
    """(kind, data, options, all prefixes?)"""
    k = 3 if THOROUGH else 1
    encs = "HBbumM"
    for i, d in enumerate([b"", b"a", b"ab", b"\0", b"\xff" * 9, b"abracadabra" * 3, b"\0" * 300]):
        for e in encs:
            yield "arc", d, Opts(e, ["", "p"][i % 2], 8, "d", 1), True
        yield "pre", d, "p", True
    for i in range(90 * k):
        r = corpus.rng("c12", i)
        yield "arc", corpus.some(r, maxn=400), Opts(encs[i % 6], r.choice(["", "p"]), r.choice([1, 2, 8, 20]), "d", 1), True
    for i in range(30 * k):
        r = corpus.rng("c12p", i)
        yield "pre", corpus.some(r, maxn=300), r.choice(["", "p", "pp"]), True
    for i in range(60 * k):
        r = corpus.rng("c12b", i)
        n = r.choice([3000, 12000, 25000, 60000])
        yield "arc", corpus.some(r, n), Opts(encs[i % 6], r.choice(["", "pp"]), r.choice([1, 8, 256]), "d", 1), False
    for i in range(12 * k):
        r = corpus.rng("c12m", i)
        yield "arc", corpus.big(r, r.choice([185001, 400000])), Opts(encs[i % 6], r.choice(["", "", "p"]), 8, "d", 1), False
    for i in range(24 * k):
        r = corpus.rng("c12q", i)
        d = corpus.pairs_input(r, .3)
        if i % 2:
            yield "pre", d, r.choice(["p", "ppp"]), False
        else:
            yield "arc", d, Opts(encs[(i // 2) % 6], "p", 8, "d", 1), False


def cuts(n, al, r):
    if al and n <= (1200 if THOROUGH else 500):
        return list(range(n))
    c = set(range(min(n, 45))) | set(range(max(0, n - 40), n)) | {r.randrange(n) for _ in range(60)}
    for s in (4096, 8192, 32768, 65536):      # sizes that buffers tend to have
        for m in range(s, n, s):
            if m // s < 8:
                c |= {x for x in (m - 1, m, m + 1) if x < n}
    return sorted(c)


def one(ci):
    i, (kind, data, o, al) = ci
    r = corpus.rng("c12cut", i)
    if kind == "arc":
        e, a = compress(data, o)
        dec, d = uncompress(a)
    else:
        e, a = preprocess(data, o)
        dec, d = postprocess(a)
    ev = [{"ev": "begin"}, e, dec]
    for c in cuts(len(a), al, r):
        x, _ = (uncompress if kind == "arc" else postprocess)(a[:c])
        ev.append({"ev": "cut", "in": dig(a), "out": x["in"]})
        ev.append({"ev": "refuse", "in": x["in"], "rc": x["rc"], "length": c})
    return ev, a


def main():
    chk = Check("C12", "model_checking")
    build()
    import histories
    histories.model(chk)
    cs = list(cases())
    res = pmap(one, list(enumerate(cs)))
    sess = [x[0] for x in res]
    log("%d prefixes tried" % sum((len(s) - 3) // 2 for s in sess))
    bad, cnt = judge("PipelineTrace", sess, session=True)
    chk.traces("prefixes of archives given to the decoders", cnt, len(sess), prefixes=sum((len(s) - 3) // 2 for s in sess))
    for i in (8, 70):
        chk.sample(dict(kind=cs[i][0], options=repr(cs[i][2]), bytes=len(cs[i][0]), trace=sess[i][:9]))
    seen = set()
    for i, j, rec in bad:
        if i in seen or len(seen) > 3:
            continue
        seen.add(i)
        ev, a = one((i, cs[i]))
        b2, _ = judge("PipelineTrace", [ev], session=True)
        if b2:
            L = b2[0][2].get("length")
            chk.violation("%s: prefix of %s bytes of %d" % (cs[i][0], L, len(a)),
                          dict(options=repr(cs[i][2]), input_base64=b64(cs[i][1]), archive_base64=b64(a), prefix=L, rejected=b2[0][2]))
    log("judged")
    # the format itself leaves no room for that: by the decoder of the specification
    sel = [i for i in range(len(cs)) if cs[i][3] and len(res[i][1]) <= 130]
    recs = [{"whole": list(res[i][1]), "kind": cs[i][0]} for i in sel]
    bad, cnt = judge("ArchiveTrace", recs, cost=lambda s: len(s[0]["whole"]) ** 2, name="whole")
    chk.traces("prefixes judged by the specification of the format", cnt, len(recs), prefixes=sum(len(r["whole"]) for r in recs))
    for i, j, rec in bad[:3]:
        ev, a = one((sel[i], cs[sel[i]]))
        b2, _ = judge("ArchiveTrace", [{"whole": list(a), "kind": cs[sel[i]][0]}])
        if b2:
            chk.violation("a strict prefix of an archive is an archive", dict(archive=list(a), options=repr(cs[sel[i]][2])))
    chk.assumptions = ["all prefixes of archives up to 500 bytes; beginnings, ends, buffer boundaries and random places of longer ones"]
    return chk
