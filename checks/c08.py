"""C08: the range coder returns the bits it was given."""
from common import *
import corpus

M = 0xFFFFFFFF


def split(lo, hi, p):
    r = hi - lo - 1
    return lo + (r >> 12) * p + (((r & 4095) * p + 2048) >> 12)


def narrowing(r, n, ps):
    """Bits and probabilities that keep the interval narrow and astride a
    boundary of the leading byte (only a generator: the oracle is the specification)."""
    lo, hi, out = 0, M, []
    for _ in range(n):
        p = r.choice(ps)
        best = None
        for b in (0, 1):
            s = split(lo, hi, p)
            l2, h2 = (lo, s) if b else (s + 1, hi)
            if (l2 ^ h2) & 0xFF000000 and h2 > l2:
                k = h2 - l2
                if best is None or k < best[0]:
                    best = (k, b, l2, h2)
        if best is None or r.random() < .02:
            b = r.randrange(2)
            s = split(lo, hi, p)
            lo, hi = (lo, s) if b else (s + 1, hi)
        else:
            _, b, lo, hi = best
        while not (lo ^ hi) & 0xFF000000:
            lo, hi = (lo << 8) & M, ((hi << 8) & M) | 255
        out.append((b, p))
    return out


def lines():
    k = 8 if THOROUGH else 1
    ext = [0, 1, 2, 3, 2047, 2048, 2049, 4094, 4095, 4096]
    L = []

    def seq(s):
        return ",".join("%d:%d" % x for x in s) or "-"
    # all sequences of two and three bits over extreme probabilities
    for b1 in (0, 1):
        for p1 in ext:
            L.append("C %s" % seq([(b1, p1)]))
            for b2 in (0, 1):
                for p2 in ext:
                    L.append("C %s" % seq([(b1, p1), (b2, p2)]))
    L.append("C - -")
    for i in range(250 * k):
        r = corpus.rng("c08", i)
        m = r.randrange(8)
        n = r.choice([3, 10, 40, 150])
        ss = []
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            if m == 0:
                s = [(r.randrange(2), r.choice(ext)) for _ in range(n)]
            elif m == 1:
                s = [(r.randrange(2), r.randrange(4097)) for _ in range(n)]
            elif m == 2:
                s = narrowing(r, n, ext)
            elif m == 3:
                s = narrowing(r, n, [2048, 1024, 3072, 4095, 4096])
            elif m == 4:
                s = narrowing(r, n, list(range(4097)))
            elif m == 5:
                b = r.randrange(2)
                s = [(b, 4096 * b)] * n + [(1 - b, 4096 * b)] * 2
            elif m == 6:
                s = [(r.random() < .97, r.choice([4094, 4000, 4095])) for _ in range(n)]
            else:
                s = []
            ss.append([(int(a), b) for a, b in s])
        L.append("C " + " ".join(seq(s) for s in ss))
    for i in range(120 * k):
        r = corpus.rng("c08r", i)
        d = bytes(r.choice([0, 255, 1, 128, r.randrange(256)]) for _ in range(r.choice([4, 8, 30])))
        n = r.choice([5, 30, 120])
        m = r.randrange(3)
        ps = [r.choice(ext) if m == 0 else r.randrange(4097) if m == 1 else r.choice([2048, 2000, 1]) for _ in range(n)]
        L.append("R %s %s" % (",".join(map(str, ps)), d.hex()))
    return L


def model(chk, cfg=None):
    t = tlc("RangeCoderMC", env={}, workers=CORES, cfg="RangeCoderMC%s.cfg" % ("Big" if THOROUGH else ""), timeout=3000, heap="8g")
    chk.mc("RangeCoder model", t)


def main():
    chk = Check("C08", "model_checking")
    build()
    model(chk)
    exe = harness("range")
    if exe is None:
        chk.skip("range coder", "BitEncoder/BitDecoder are not there")
        return chk
    L = lines()
    recs = drive(exe, L)
    bad, cnt = judge("RangeTrace", recs, cost=lambda s: len(json.dumps(s[0])))
    chk.traces("sequences coded by the real coder", cnt, len(L),
               bits=sum(sum(map(len, r.get("bits", []))) if r["ev"] == "code" else len(r.get("bits", [])) for r in recs))
    for i in (30, len(L) // 2, len(L) - 1):
        chk.sample(L[i][:300])
    for i, j, rec in bad[:5]:
        r2 = drive(exe, [L[i]])
        if judge("RangeTrace", r2)[0]:
            chk.violation("range coder: " + L[i][:200], dict(line=L[i], rejected=r2[0]))
    chk.assumptions = ["the coder is used through encode/finish and start/decode with probabilities 0..4096"]
    return chk
