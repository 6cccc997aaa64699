"""C03: archives are a function of the content and the options only."""
from common import *
from tools import *
import corpus

FLAV = ["std", "O0", "rel", "pat", "clang"]


def variations(r, n):
    """Things that must not matter: [(label, dict)]"""
    v = [dict(), dict(), dict(bwt="d"), dict(bwt="s"), dict(bwt="a")]
    v += [dict(env={"MALLOC_PERTURB_": str(x)}) for x in r.sample([1, 85, 127, 170, 204, 254, 255], 2)]
    v += [dict(env={"MALLOC_PERTURB_": "90", "MALLOC_ARENA_MAX": "1", "MALLOC_TOP_PAD_": "0", "MALLOC_MMAP_THRESHOLD_": "4096",
                    "LC_ALL": r.choice(["C", "fi_FI", "tr_TR.UTF-8"]), "TZ": "Asia/Tokyo", "PADDING": "x" * r.randrange(3000)})]
    v += [dict(flavor=f, bwt=r.choice("dsa")) for f in FLAV[1:]]
    v += [dict(verb=r.choice([1, 2, 3, 5, 9])), dict(verb=-1)]
    for i in r.sample(IN_WAYS[1:], 2):
        v.append(dict(inway=i))
    for o in r.sample(OUT_WAYS[1:], 3):
        v.append(dict(outway=o))
    v.append(dict(inway=r.choice(IN_WAYS), outway=r.choice(OUT_WAYS), flavor=r.choice(FLAV), bwt=r.choice("ds"),
                  env={"MALLOC_PERTURB_": str(r.randrange(256))}))
    return v


def fullenv(e):
    d = dict(os.environ)
    d.update(e or {})
    return d


def cases():
    k = 4 if THOROUGH else 1
    encs = "HBbumM"
    for i in range(96 * k):
        r = corpus.rng("c03", i)
        n = r.choice([r.randrange(0, 60), r.randrange(200, 4000), r.randrange(4000, 30000)])
        yield corpus.some(r, n), Opts(encs[i % 6], r.choice(["", "", "p", "pp"]), r.choice([1, 2, 8, 100, 256]), "a", r.choice([1, 100])), r
    for i in range(12 * k):
        r = corpus.rng("c03b", i)
        yield corpus.pairs_input(r, 0.6), Opts(encs[i % 6], "p" * r.choice([1, 2, 4]), 8, "a", 1), r
    for i in range(8 * k):
        r = corpus.rng("c03c", i)
        yield corpus.big(r, r.choice([185001, 400000, 10001, 70000]))[:500000], Opts(encs[i % 6], r.choice(["", "p"]), 8, "a", 1), r


def one(c):
    data, o, r = c
    ev = [{"ev": "begin"}]
    lab = ["begin"]
    arc = b""
    for v in variations(r, len(data)):
        a = Opts(o.enc, o.prepr, o.starts, v.get("bwt", "a"), o.mem).args()
        if "verb" in v:
            a += ["-v", str(v["verb"])] if v["verb"] >= 0 else ["--verb=0"]
        rc, out, err = deliver("compress", a, data, v.get("inway", "file"), v.get("outway", "file"),
                               v.get("flavor", "std"), fullenv(v.get("env")))
        ev.append({"ev": "compress", "in": dig(data), "opt": o.key(len(data)), "out": dig(out), "rc": rc})
        lab.append(v)
        arc = out if len(ev) == 2 else arc
    for i in range(3):
        w = dict(inway=r.choice(IN_WAYS), outway=r.choice(OUT_WAYS), flavor=r.choice(FLAV))
        rc, out, err = deliver("uncompress", [], arc, w["inway"], w["outway"], w["flavor"],
                               fullenv({"MALLOC_PERTURB_": str(r.randrange(256))}))
        ev.append({"ev": "uncompress", "in": dig(arc), "out": dig(out), "rc": rc})
        lab.append(w)
    # the other pair of tools
    pa = ["--prepr", r.choice(["p", "pp", ""])] + r.choice([[], ["-b", "1"], ["-b", "0"], ["-b", "20"]])
    po = b""
    for i in range(4):
        w = dict(inway=r.choice(IN_WAYS), outway=r.choice(OUT_WAYS), flavor=FLAV[i] if i < 2 else r.choice(FLAV),
                 env={"MALLOC_PERTURB_": str(r.randrange(256))})
        rc, out, err = deliver("preprocess", pa + (["-v", str(i)] if i > 1 else []), data, w["inway"], w["outway"], w["flavor"], fullenv(w["env"]))
        ev.append({"ev": "preprocess", "in": dig(data), "opt": " ".join(pa), "out": dig(out), "rc": rc})
        lab.append(w)
        po = out if i == 0 else po
    w = dict(inway=r.choice(IN_WAYS), outway=r.choice(OUT_WAYS), flavor=r.choice(FLAV))
    rc, out, err = deliver("postprocess", [], po, w["inway"], w["outway"], w["flavor"], fullenv(None))
    ev.append({"ev": "postprocess", "in": dig(po), "out": dig(out), "rc": rc})
    lab.append(w)
    return ev, lab


def main():
    chk = Check("C03", "model_checking")
    def buildable(f):
        try:
            return build(f)
        except RuntimeError as e:
            if f == "std":
                raise
            log("no %s build: %s" % (f, str(e)[-300:]))
            chk.skip("flavor " + f, "does not build")
            return None
    ok = pmap(buildable, FLAV, 5)
    FLAV[:] = [f for f, b in zip(FLAV, ok) if b]
    log("built")
    import histories
    histories.model(chk)
    cs = list(cases())
    res = pmap(one, cs)
    sess = [x[0] for x in res]
    log("recorded")
    bad, cnt = judge("PipelineTrace", sess, session=True, parts=4)
    chk.traces("the same content and options, everything else varied", cnt, len(sess), runs=sum(len(s) - 1 for s in sess))
    for i in (3, 50):
        chk.sample(dict(options=repr(cs[i][1]), bytes=len(cs[i][0]), trace=sess[i][:8], varied=res[i][1][:8]))
    for i in sorted({b[0] for b in bad})[:4]:
        c = list(cases())[i]
        ev, lab = one(c)
        b2, _ = judge("PipelineTrace", [ev], session=True)
        if b2:
            chk.violation("%d bytes with %r: differs with %s" % (len(c[0]), c[1], lab[b2[0][1]]),
                          dict(options=c[1].args(), input_base64=b64(c[0]), trace=ev, varied=lab, rejected=b2[0][2]))
    chk.assumptions = ["compilers gcc and clang of this sandbox at -O0 to -O3, with and without NDEBUG",
                       "contents of fresh memory are varied with MALLOC_PERTURB_ and -ftrivial-auto-var-init=pattern"]
    return chk
