"""Inputs: generators seeded by VERIF_SEED.  Each returns bytes."""
import os, random
from common import REPO, SEED


def rng(*k):
    return random.Random("%d/%s" % (SEED, "/".join(map(str, k))))


def alphabet(r, n=None):
    n = n or r.choice([1, 2, 2, 3, 4, 5, 8, 16, 26, 100, 200, 255, 256])
    al = r.sample(range(256), n)
    if r.random() < .4 and 0 not in al:
        al[0] = 0
    if r.random() < .3 and 255 not in al:
        al[-1] = 255
    return al


def randbytes(r, n, al):
    return bytes(r.choices(al, k=n))


def phrases(r, n, al):
    ph = [randbytes(r, r.randrange(1, 14), al) for _ in range(r.randrange(1, 9))]
    out = bytearray()
    while len(out) < n:
        out += r.choice(ph)
    return bytes(out[:n])


def runs(r, n, al):
    rl = [r.randrange(1, r.choice([3, 4, 20, 300, 3000])) for _ in range(r.randrange(1, 7))]
    out = bytearray()
    while len(out) < n:
        out += bytes([r.choice(al)]) * r.choice(rl)
    return bytes(out[:n])


def sortedruns(r, n, al):
    """a^i b^j c^k ...: the transform keeps the runs"""
    ls = [r.choice([1, 2, 3, 5, 9, 17, 40, 100, 255, 256, 257, 300, 1000, 5000, 65535, 65536, 65537])
          for _ in range(r.randrange(1, 6))]
    reps = r.choice([1, 1, 2, 3, 9, 10, 11, 20])
    rr = ls * reps
    r.shuffle(rr)
    al = list(range(256))
    r.shuffle(al)
    out = bytearray()
    for i, l in enumerate(rr):
        if len(out) + l > max(n, 300):
            continue
        out += bytes([al[i % 256]]) * l
    return bytes(out)


def longrun(r, top=20, noise=(50, 3000, 40000)):
    """One or two very long runs among many that are short"""
    n = r.choice(noise)
    m = r.choice([256, 256, 20])
    out = bytearray(r.getrandbits(8) % m for _ in range(n))
    for _ in range(r.choice([1, 1, 2])):
        k = (1 << r.randrange(14, top + 1)) + r.choice([-2, -1, 0, 1, 2, 777])
        at = r.randrange(len(out))
        out[at:at] = bytes([r.randrange(m)]) * k
    return bytes(out)


def manysections(r, k, mix=.5):
    """k characters, each frequent enough for a section of its own"""
    out = bytearray()
    for c in r.sample(range(256), k):
        out += bytes([c]) * (10000 + r.choice([0, 0, 1, 50]))
    x = bytearray(out)
    r.shuffle(x) if r.random() < mix else None
    return bytes(x) + b"q" * r.choice([0, 1, 30])


def fibonacci_freqs(r, n, al):
    out = bytearray()
    x, y = 1, 1
    s = r.sample(range(256), 40)
    i = 0
    while len(out) + x <= n and i < 40:
        out += bytes([s[i]]) * x
        x, y = y, x + y
        i += 1
    l = list(out)
    r.shuffle(l)
    return bytes(l)


def periodic(r, n, al):
    p = randbytes(r, r.choice([1, 2, 3, 4, 5, 7, 8, 16, 50, 255, 256, 257]), al)
    d = p * (n // len(p) + 1)
    return d[:n]


def fibword(r, n, al):
    a, b = bytes([al[0]]), bytes([al[0], al[-1]])
    while len(b) < n:
        a, b = b, b + a
    return b[:n]


def thue(r, n, al):
    return bytes(al[0] if bin(i).count("1") % 2 else al[-1] for i in range(n))


def debruijn(r, n, al):
    k = min(len(al), 4)
    out, a = [], [0] * 64

    def db(t, p, m):
        if len(out) > n:
            return
        if t > m:
            if m % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p, m)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t, m)
    m = 2
    while k > 1 and k ** m < n:
        m += 1
    db(1, 1, m)
    return bytes(al[x] for x in out[:n])


def palin(r, n, al):
    h = phrases(r, n // 2 + 1, al)
    return (h + h[::-1])[:n]


def monotone(r, n, al):
    d = bytes(sorted(randbytes(r, n, al)))
    return d if r.random() < .5 else d[::-1]


def markov(r, n, al):
    nxt = {c: r.choices(al, k=3) for c in al}
    c = al[0]
    out = bytearray()
    for _ in range(n):
        c = r.choice(nxt[c]) if r.random() < .92 else r.choice(al)
        out.append(c)
    return bytes(out)


def copies(r, n, al):
    """a block and slightly edited copies of it"""
    b = bytearray(markov(r, max(1, n // r.randrange(2, 6)), al))
    out = bytearray(b)
    while len(out) < n and b:
        for _ in range(r.randrange(0, 3)):
            b[r.randrange(len(b))] = r.choice(al)
        out += b
    return bytes(out[:n])


def zeros_and_ff(r, n, al):
    return randbytes(r, n, r.choice([[0], [255], [0, 255], [0, 1], [254, 255], [0, 1, 254, 255]]))


def ramp(r, n, al):
    s = r.randrange(256)
    return bytes((s + i) & 255 for i in range(n))


KINDS = [randbytes, randbytes, phrases, phrases, runs, runs, sortedruns, fibonacci_freqs, periodic,
         fibword, thue, debruijn, palin, monotone, markov, markov, copies, zeros_and_ff, ramp]

EDGES = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513,
         1023, 1024, 1025]
BIG_EDGES = [4095, 4096, 4097, 9999, 10000, 10001, 16383, 16384, 16385, 19999, 20000, 20001, 32767, 32768,
             65534, 65535, 65536, 65537, 131071, 131072, 131073]


def some(r, n=None, maxn=3000):
    """An input of about n bytes of a random kind."""
    if n is None:
        n = r.choice([r.choice(EDGES), r.randrange(0, 24), r.randrange(0, 300), r.randrange(0, maxn),
                      r.randrange(0, maxn)])
        n = min(n, maxn)
    f = r.choice(KINDS)
    d = f(r, n, alphabet(r)) if n else b""
    return d


def pairs_input(r, scale=1.0):
    """Inputs on which the pair replacer has work to do: hot phrases on top of a
    (nearly) full alphabet, so that symbols have to be freed and special
    symbols taken into use."""
    na = r.choice([256, 256, 256, 255, 254, 250, 200, 60, 10])
    al = r.sample(range(256), na)
    base = r.choice([1, 2, 5, 20, 100, 300])
    body = []
    for c in al:
        body += [bytes([c])] * r.choice([0 if r.random() < .05 else 1, base, r.randrange(1, base + 1)])
    npair = r.randrange(1, 25)
    hot = r.sample(al, min(len(al), r.randrange(2, 30)))
    for _ in range(npair):
        L = r.choice([2, 2, 3, 4, 6, 8, 12, 16, 24])
        ph = bytes(r.choice(hot) for _ in range(L))
        if r.random() < .2:
            ph = bytes([ph[0]]) * r.randrange(2, 9)
        body += [ph] * int(r.randrange(200, r.choice([1500, 3000, 6000])) * scale)
    r.shuffle(body)
    d = b"".join(body)
    if r.random() < .3:
        d += bytes([r.choice(al)]) * r.randrange(0, 5)
    if r.random() < .3:
        d += bytes([0] * r.randrange(1, 3))
    return d


def layered(r, scale=1.0):
    """All the symbols are in use and the variables of the first round are among
    the least frequent ones of the next: variables get freed and become special
    symbols."""
    syms = r.sample(range(256), 256)
    nlow = r.choice([3, 4, 6, 9, 9, 9, 16, 16, 12])
    lows, rest = syms[:nlow], syms[nlow:]
    pair, base = r.randrange(1030, 1200), r.randrange(1150, 1600)
    out = []
    at = 0
    for _ in range(r.choice([1, 1, 2, 3])):
        L = r.choice([4, 4, 6, 8, 16])
        out += [bytes(rest[at:at + L])] * r.randrange(3500, 5000)
        at += L
    for _ in range(r.choice([1, 2, 4, 4, 8, 12])):
        out += [bytes(rest[at:at + 2])] * (pair + r.randrange(0, 60))
        at += 2
    for x in lows:
        out += [bytes([x])] * r.randrange(1, 20)
    for x in rest:
        out += [bytes([x])] * (base + r.randrange(50))
    r.shuffle(out)
    return b"".join(out)


def spent(r):
    """Symbols that are left only on the right sides of rules after the first round, while
    there is more to replace."""
    syms = r.sample(range(256), 256)
    for c in (0, 255):
        if r.random() < .6:
            syms.remove(c)
            syms.insert(r.randrange(2), c)
    k = r.choice([2, 3, 4, 6])
    gone, rest = syms[:k], syms[k:]
    base = r.choice([1, 3, 40, 200])
    out = []
    for c in rest:
        out += [bytes([c])] * r.randrange(1, base + 1)
    for i in range(r.choice([1, 2, 3])):
        ph = [r.choice(gone) if r.random() < .6 else r.choice(rest[:9]) for _ in range(r.choice([2, 4, 4, 4, 8]))]
        out += [bytes(ph)] * r.randrange(1500, 4000)
    ph = [c for g in gone for c in (g, r.choice(gone))]
    out += [bytes(ph)] * r.randrange(2500, 4500)
    r.shuffle(out)
    return b"".join(out)


def exhaustive(al, maxlen):
    """All strings over al up to the length."""
    level = [b""]
    for _ in range(maxlen + 1):
        yield from level
        level = [s + bytes([c]) for s in level for c in al]


def repo_texts():
    r = []
    for f in ("WaveletTree.hpp", "COPYING", "Utils.cpp", "bwtransforms/divsufsort.c", "preprocessors/PairReplacer.cpp"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            r.append(open(p, "rb").read())
    return r


def big(r, n):
    """Large inputs (hundreds of kilobytes) from cheap pieces."""
    k = r.randrange(9)
    al = alphabet(r)
    if k == 0:
        return randbytes(r, n, al)
    if k == 1:
        return markov(r, min(n, 60000), al) * (n // min(n, 60000) + 1)
    if k == 2:
        return periodic(r, n, al)
    if k == 3:
        return fibword(r, n, al)
    if k == 4:
        t = b"".join(repo_texts())
        return (t * (n // len(t) + 1))[:n]
    if k == 5:
        return runs(r, n, al)
    if k == 6:
        return copies(r, n, al)
    if k == 7:
        return phrases(r, n, al)
    b = bytearray()
    while len(b) < n:
        b += bytes([r.choice(al)]) * r.choice([1, 2, 10, 1000, 40000, 70000, 140000])
    return bytes(b[:n])


def many_pairs(r):
    """Hundreds of frequent pairs on alphabets of all sizes."""
    na = r.choice([256, 256, 254, 250, 128, 40])
    al = r.sample(range(256), na)
    np = r.choice([5, 30, 80, 150, 260, 300])
    fr = r.choice([1010, 1100, 1500, 2600])
    body = bytearray()
    units = []
    for _ in range(np):
        a, b = r.choice(al), r.choice(al)
        units.append((bytes([a, b]), fr + r.randrange(0, 400)))
    seq = []
    for u, f in units:
        seq += [u] * f
    for c in al:
        seq += [bytes([c])] * r.choice([0, 0, 1, 3])
    if r.random() < .7:
        r.shuffle(seq)
    return b"".join(seq)


def hugerun(r):
    """More than 2^24 of the same byte, and a little of others"""
    d = bytearray(bytes([r.randrange(256)]) * ((1 << 24) + r.randrange(1, 70000)))
    for _ in range(r.choice([1, 5])):
        i = r.randrange(len(d))
        d[i:i] = randbytes(r, r.choice([1, 3, 200]), list(range(256)))
    return bytes(d) + bytes([r.randrange(256)]) * r.choice([0, 1, 70000])


def noisy(r, n, al):
    d = bytearray(periodic(r, n, al))
    for _ in range(r.choice([1, 3, 10, 100, 1000])):
        d[r.randrange(n)] = r.choice(al)
    return bytes(d)


def repeated(r, n, al):
    k = r.choice([20, 300, 2000, n // 3])
    x = randbytes(r, max(k, 1), al)
    return (x * (n // max(1, len(x)) + 1))[:n]


GENS2 = [randbytes, phrases, runs, periodic, fibword, thue, debruijn, palin, monotone, markov, noisy, repeated, noisy, repeated]


def dense(r, top):
    """Texts on which the suffix sorters leave their usual paths"""
    n = int(10 ** r.uniform(2.5, top))
    al = alphabet(r, r.choice([1, 2, 2, 2, 3, 4, 5, 8, 30, 256]))
    return r.choice(GENS2)(r, n, al)


# Found by a search for inputs that reach further branches of the suffix sorters:
# greatest length (log), number, algorithm, starting points
RARE = [(4.2, 25, "d", 1), (4.2, 36, "d", 1), (4.2, 36, "s", 8), (4.2, 51, "d", 8), (4.2, 73, "d", 1), (4.2, 187, "d",
        1), (4.2, 372, "d", 256), (4.2, 643, "d", 256), (4.2, 732, "s", 256), (4.2, 745, "d", 256), (4.2, 758, "d",
        256), (4.2, 784, "d", 256), (4.2, 944, "d", 1), (4.2, 2201, "d", 1), (4.2, 2498, "s", 1), (4.2, 2533, "d", 8),
        (4.2, 3939, "d", 8), (4.2, 4001, "d", 8), (4.2, 4046, "d", 1), (4.2, 4501, "d", 1), (4.2, 4659, "d", 1), (4.2,
        4975, "d", 1), (4.2, 5062, "d", 1), (4.2, 5334, "d", 8), (4.2, 7208, "d", 8), (4.2, 7775, "d", 1), (4.2, 7800,
        "d", 8), (4.2, 8839, "d", 8), (4.2, 8906, "d", 1), (4.2, 9075, "d", 1), (4.2, 10151, "d", 256), (4.2, 12718,
        "d", 256), (4.2, 16537, "d", 256), (4.2, 16742, "s", 1), (4.2, 18535, "d", 8), (4.2, 25663, "s", 1), (4.2,
        85093, "d", 8), (4.2, 96974, "d", 1), (4.2, 108742, "d", 256), (4.7, 109333, "d", 1), (4.7, 121898, "d", 1),
        (4.7, 145833, "d", 256), (5.5, 161914, "d", 256), (5.5, 162007, "d", 256), (5.5, 162052, "d", 256)]


def rare(longest=400000):
    """(algorithm, starting points, text); the same for every seed"""
    for top, i, alg, s in RARE:
        d = dense(random.Random("1/cov/B/%d" % i), top)
        if len(d) <= longest:
            yield alg, s, d
