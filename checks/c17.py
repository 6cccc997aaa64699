"""C17: the decoders read every archive of the format, not only those of today's compress."""
from common import *
from tools import *
import corpus
from c07 import Gen
from c10 import lengths

ENCS = "HBbumM"


def column(text):
    """The last column (-1: sentinel); the specification checks it."""
    t = text[::-1]
    return [t[i - 1] if i else -1 for i in sorted(range(len(t) + 1), key=lambda i: t[i:])]


def code(r, syms):
    syms = sorted(syms)
    ls = [1] if len(syms) == 1 else lengths(r, len(syms), r.choice([27, 27, 20, 16]))
    if len(ls) < len(syms):
        ls = lengths(corpus.rng("flat", len(syms)), len(syms))
    return [[a, b] for a, b in zip(ls, syms)]


def sections(r, col, coder, pieces):
    s = col[:-1]
    if -1 in s:
        s[s.index(-1)] = col[-1]
    cuts = sorted(r.choice([0, len(s), r.randrange(len(s) + 1)]) if r.random() < .5 else r.randrange(len(s) + 1) for _ in range(pieces - 1))
    cuts = [0] + cuts + [len(s)]
    out = []
    for a, b in zip(cuts, cuts[1:]):
        x = s[a:b]
        runs = []
        for c in x:
            if runs and runs[-1][0] == c:
                runs[-1][1] += 1
            else:
                runs.append([c, 1])
        lens = sorted({n for _, n in runs})
        ip = []
        if coder != "H" and x and r.random() < .75:
            keep = [n for n in lens if r.random() < r.choice([.3, .8, 1])]
            if keep:
                ip = code(r, [0] + keep)
        out.append(dict(size=b - a, pairs=code(r, set(x)) if x else [], ipairs=ip, w=0 if coder == "H" else r.randrange(16)))
    return out


def block(r, coder, pre, size):
    rounds = []
    if r.random() < (.8 if pre else .35):
        g = Gen(r)
        for _ in range(r.choice([1, 1, 2, 3])):
            g.round(r.choice([0, 1, 1, 2, 3, 5, 7]), r.choice([0, 1, 1, 2, 4]), r.choice([0, .2, .8, 1]))
        rounds = g.rounds
        text = g.text(max(1, size // 2), .75)
    else:
        text = corpus.some(r, size)
    text = text or b"a"
    k = 1 if pre else r.choice([1, 1, 1, 2, 3, 5])
    k = min(k, len(text))
    cuts = [0] + sorted(r.sample(range(1, len(text)), k - 1)) + [len(text)]
    sl = []
    for a, b in zip(cuts, cuts[1:]):
        t = text[a:b]
        if pre:
            sl.append(dict(text=list(t), starts=1, sections=[]))
            continue
        top = min(256, len(t) + 1)
        n = r.choice([1, 1, 1, 2, 3, 4, 5, 7, 17])
        if r.random() < .02:
            n = r.choice([127, 128, 200, 255, 256])
        col = column(t)
        sl.append(dict(text=list(t), col=col, starts=min(top, r.choice([1, 8, 256, top, r.randrange(1, top + 1)])),
                       sections=sections(r, col, coder, n)))
    return dict(rounds=rounds, slices=sl)


def plans():
    k = 8 if THOROUGH else 1
    # all short texts, whole or in two parts
    for i, s in enumerate(corpus.exhaustive([0, 97, 255], 4)):
        if s:
            r = corpus.rng("c17x", i)
            c = ENCS[i % 6]
            yield dict(pre=0, coder=c, blocks=[dict(rounds=[], slices=[dict(text=list(s), starts=r.randrange(1, len(s) + 2),
                                                                           sections=sections(r, column(s), c, 1 + i % 2))])])
    for i in range(700 * k):
        r = corpus.rng("c17", i)
        pre = int(i % 6 == 5)
        c = ENCS[(i // 6) % 6]
        n = r.choice([0, 1, 1, 2, 2, 3])
        yield dict(pre=pre, coder=c, blocks=[block(r, c, pre, r.choice([1, 2, 5, 20, 80, 150, 300, 300, 900])) for _ in range(n)])


def one(p):
    ar = bytes(p["ar"])
    ev, got = (postprocess if p["pre"] else uncompress)(ar)
    return dict(ar=p["ar"], pre=p["pre"], rc=ev["rc"], got=list(got))


def written(ps):
    """The archives of the plans, by the specification."""
    n = min(CORES, len(ps))
    cost = lambda p: 30 + sum(8 * len(s["text"]) + 50 * len(s["sections"]) for b in p["blocks"] for s in b["slices"])
    load, idx = [0] * n, [[] for _ in range(n)]
    for i in sorted(range(len(ps)), key=lambda i: -cost(ps[i])):
        k = load.index(min(load))
        load[k] += cost(ps[i])
        idx[k].append(i)

    def work(k):
        f = write_trace([ps[i] for i in idx[k]], "plans%d.ndjson" % k)
        t = tlc("ArchiveGen", env={"TRACE": f, "OUT": f + ".out"}, timeout=800)
        if not t.ok or not os.path.exists(f + ".out"):
            raise ModelError("ArchiveGen: " + t.out[-3000:])
        with open(f + ".out") as h:
            for i, l in zip(idx[k], h):
                ps[i]["ar"] = json.loads(l)["ar"]
        return t.distinct
    pmap(work, range(n), n)


def main():
    chk = Check("C17", "model_checking")
    build()
    chk.mc("whatever codes, sections and starting points a writer chooses, the archive means the text",
           tlc("WriterMC", workers=CORES, cfg="WriterMC%s.cfg" % ("Big" if THOROUGH else ""), timeout=3000, heap="8g"))
    ps = list(plans())
    written(ps)
    ps = [p for p in ps if p["ar"]]
    log("%d archives written by the specification" % len(ps))
    recs = pmap(one, ps)
    bad, cnt = judge("MeaningTrace", recs, cost=lambda s: 50 + len(s[0]["ar"]) * 3)
    chk.traces("archives written by the specification, read by the real decoders", cnt, len(recs),
               grammars=sum(bool(b["rounds"]) for p in ps for b in p["blocks"]),
               sections=sum(len(s["sections"]) for p in ps for b in p["blocks"] for s in b["slices"]),
               archive_bytes=sum(len(p["ar"]) for p in ps))
    for i in (30, 200, 333):
        chk.sample(dict(coder=ps[i]["coder"], archive=ps[i]["ar"][:60]))
    for i in sorted({b[0] for b in bad})[:4]:
        again = one(ps[i])
        if judge("MeaningTrace", [again])[0]:
            chk.violation("%s of an archive of the format (coder %s)" % ("postprocess" if ps[i]["pre"] else "uncompress", ps[i]["coder"]),
                          dict(plan=ps[i], record=again))
    return chk
