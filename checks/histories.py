"""Histories of runs: model checking of Pipeline, and random behaviours of it
replayed with the real tools."""
import json, re
from common import *
from tools import *
import corpus


def model(chk):
    t = tlc("PipelineMC", workers=4, args=())
    chk.mc("PipelineMC: all histories of 4 runs over 2 contents, 2 option sets, ideal codec", t, exhaustive=True)


def generate(num, depth, seed):
    t = tlc("PipelineGen", args=["-simulate", "num=%d" % num, "-depth", str(depth + 1), "-seed", str(seed)])
    hs = {}
    for m in re.findall(r'<<"HIST", "(.*)">>', t.out):
        h = json.loads(json.loads('"%s"' % m))
        hs[json.dumps(h[:-1])] = h          # siblings of the last step are printed, too
    hs = list(hs.values())
    if len(hs) < num // 2:
        raise ModelError("no behaviours from PipelineGen:\n" + t.out[-2000:])
    return hs[:num]


def replay(h, r):
    """Steps the real tools through a behaviour of the specification."""
    files = {}
    opts = {k: random_opts(r) for k in (1, 2, 3)}
    popts = {k: (r.choice(["", "p", "pp", "ppp"]), r.choice([None, 0, 1, 2])) for k in (1, 2, 3)}
    key = json.dumps
    ev = [{"ev": "begin"}]
    for tl, f, g, o in h:
        for x in (f, g):
            if x[0] == "raw" and key(x) not in files:
                files[key(x)] = corpus.some(r, maxn=2500)
        src = files[key(f)]
        if tl == "compress":
            e, d = compress(src, opts[o])
        elif tl == "uncompress":
            e, d = uncompress(src)
        elif tl == "preprocess":
            e, d = preprocess(src, *popts[o])
        elif tl == "postprocess":
            e, d = postprocess(src)
        elif tl == "cut":
            d = src[:r.randrange(len(src))] if src else b""
            e = {"ev": "cut", "in": dig(src), "out": dig(d)}
        else:
            e, d = (uncompress if tl == "refuse-uncompress" else postprocess)(src)
            e = {"ev": "refuse", "in": e["in"], "rc": e["rc"]}
            d = src
        ev.append(e)
        if tl in ("compress", "preprocess", "cut"):
            files[key(g)] = d
    return ev


def run(chk, num=None, depth=24, only=None):
    num = num or (400 if THOROUGH else 60)
    hs = generate(num, depth, SEED + 1000)

    def one(i):
        return replay(hs[i], corpus.rng("hist", chk.prop, i))
    sess = pmap(one, range(len(hs)))
    if only:
        pass
    bad, cnt = judge("PipelineTrace", sess, session=True, parts=2, name="hist")
    chk.traces("histories generated from the specification and replayed with the tools", cnt, len(sess),
               steps=sum(len(s) for s in sess))
    chk.sample(dict(case="history", behaviour=[x[0] for x in hs[0]], trace=sess[0][:6]))
    for i in sorted({b[0] for b in bad})[:3]:
        again = one(i)
        b2, _ = judge("PipelineTrace", [again], session=True, name="again")
        if b2:
            chk.violation("history %d, step %d" % (i, b2[0][1]), dict(behaviour=hs[i], trace=again, rejected=b2[0][2]))
