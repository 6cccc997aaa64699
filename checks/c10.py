"""C10: integer codes and prefix codes."""
from common import *
import corpus


def lengths(r, n, cap=27):
    """Lengths of a random complete code with n words."""
    t = [0]
    shape = r.randrange(3)
    while len(t) < n:
        c = [i for i in range(len(t)) if t[i] < cap]
        if not c:
            break
        i = c[0] if shape == 0 and t[c[0]] < cap else r.choice(c) if shape == 1 else min(c, key=lambda k: t[k])
        d = t.pop(i)
        t = [d + 1, d + 1] + t
    r.shuffle(t)
    return t


def lines():
    k = 6 if THOROUGH else 1
    L = []
    nums = set(range(0, 300))
    for e in range(1, 56):
        for d in (-1, 0, 1):
            nums.add((1 << e) + d)
    r = corpus.rng("c10")
    for i in range(150 * k):
        nums.add(r.getrandbits(r.randrange(1, 57)))
        nums.add(r.choice([127, 128, 0x7f << 7, 0x3fff, 0x80 << 14, 1 << 49, (1 << 56) - 1]) >> r.randrange(3))
    L += ["P %d" % n for n in sorted(nums) if n < 1 << 56]
    small = sorted({n for n in nums if 0 < n < 1 << 27} | {r.randrange(1, 1 << 24) for _ in range(60 * k)})
    for n in small:
        L.append("G %d" % n)
        L.append("L %d" % n)
        for w in range(16) if n < 70 or THOROUGH else {0, 1, 5, 15, r.randrange(16)}:
            L.append("F %d %d" % (n, w))
        if n < 250:
            L.append("U %d" % n)
        b = r.randrange(1, 28)
        L.append("S %d %d" % (b, n))
        L.append("V %d %d" % (b, n))
    for lo in (0, 5):
        for w in range(1, 34):
            for v in range(w):
                L.append("B %d %d %d" % (lo + v, lo, lo + w - 1))
    for i in range(300 * k):
        w = r.choice([64, 65, 127, 128, 129, 255, 256, 257, 65535, 65536, 65537, 1 << 24, r.randrange(1, 1 << 26)])
        lo = r.choice([0, 0, 1, 77])
        L.append("B %d %d %d" % (lo + r.choice([0, w - 1, w // 2, r.randrange(w)]), lo, lo + w - 1))
    for m in range(1, 1 << 6):         # all the subsets of 0..5
        s = [i for i in range(6) if m >> i & 1]
        for hi in range(s[-1], 8):
            L.append("I 0 %d %s" % (hi, ",".join(map(str, s))))
    for i in range(250 * k):
        hi = r.choice([255, 255, 254, 100, 17, 300, 5000, 1 << 20])
        lo = 0 if hi < 256 else r.choice([0, 1, 0, 40])
        n = r.choice([1, 2, 3, r.randrange(1, 200)])
        if r.random() < .2 and hi < 300:
            n = hi - lo + 1 - r.randrange(3)
        s = sorted(r.sample(range(lo, hi + 1), min(n, hi - lo + 1)))
        if r.random() < .3:
            s = sorted(set(s[:len(s) // 2]) | {hi})
        if r.random() < .2:
            a = r.randrange(lo, hi + 1)
            s = list(range(a, min(hi, a + n) + 1))
        L.append("I %d %d %s" % (lo, hi, ",".join(map(str, s))))
    fib = [1, 1]
    while len(fib) < 26:
        fib.append(fib[-1] + fib[-2])
    for i in range(350 * k):
        how = i % 3
        n = r.choice([1, 2, 3, 4, 5, 8, 20, 60, r.randrange(1, 257)]) if i % 40 else 256
        m = r.randrange(6)
        f = [fib[j % 24] if m == 0 else 1 << (j % 17) if m == 1 else r.randrange(1, 6) if m == 2 else
             r.randrange(1, 40000) if m == 3 else 1 if m == 4 else r.choice([1, 1, 1, 2, 3, 1000]) for j in range(n)]
        if m in (0, 1) and n > 24:
            f = f[:24]
        r.shuffle(f)
        sy = sorted(r.sample(range(256), len(f))) if how != 1 else sorted(r.sample(range(3000), len(f)))
        L.append("H %d %s" % (how, ",".join("%d:%d" % x for x in zip(f, sy))))
    for i in range(80 * k):
        n = r.choice([1, 2, 3, 5, 30, 255, 256, r.randrange(1, 257)])
        ls = lengths(r, n) if n > 1 else [1]
        t = [0] * 256
        for c, x in zip(r.sample(range(256), len(ls)), ls):
            t[c] = x
        L.append("C " + ",".join(map(str, t)))
    L += ["R 00", "R 0000", "R 0001", "R 000001", "R 000101", "R ffff00", "R 00ff"]
    for i in range(60 * k):            # long runs: neighbours differ
        q = corpus.rng("c10q", i)
        t, c = [], -1
        for _ in range(q.choice([1, 2, 3, 5, 12])):
            c = q.choice([b for b in (0, 1, 97, 255, q.randrange(256)) if b != c])
            t.append("%d:%d" % (c, q.choice([1, 2, 255, 256, 257, 65535, 65536, 65537, 131072, q.randrange(1, 200000)])))
        L.append("Q " + ",".join(t))
    for i in range(150 * k):
        q = corpus.rng("c10r", i)
        x = corpus.some(q, 200)
        if x:
            L.append("R " + x.hex())
    return L


def main():
    chk = Check("C10", "model_checking")
    build()
    chk.mc("Codes", tlc("CodesMC", workers=CORES, cfg="CodesMC%s.cfg" % ("Big" if THOROUGH else ""), timeout=3000, heap="8g"))
    exe = harness("codes")
    if exe is None:
        chk.skip("codes", "interfaces of Utils.hpp or WaveletTree.hpp changed")
        return chk
    L = lines()
    recs = drive(exe, L)
    bad, cnt = judge("CodesTrace", recs, cost=lambda s: 40 + len(json.dumps(s[0])) * (30 if s[0]["ev"] == "huff" else 1))
    chk.traces("numbers, sets, frequencies and runs coded by the real code", cnt, len(L),
               kinds={c: sum(1 for x in L if x[0] == c) for c in sorted({x[0] for x in L})})
    for i in (100, len(L) // 2, len(L) - 1):
        chk.sample(L[i][:200])
    for i, j, rec in bad[:5]:
        r2 = drive(exe, [L[i]])
        if judge("CodesTrace", r2)[0]:
            chk.violation("code: " + L[i][:200], dict(line=L[i], rejected=r2[0]))
    chk.assumptions = ["numbers below 2^56 for packed integers, below 2^27 for the other codes"]
    return chk
