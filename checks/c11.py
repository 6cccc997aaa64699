"""C11: streams deliver every byte and bit once and in order."""
from common import *
import corpus

BUF = 65536


def sizes(r):
    return r.choice([0, 1, 2, 3, 5, 6, 7, 100, 4095, 4096, 4097, BUF - 7, BUF - 2, BUF - 1, BUF, BUF + 1, BUF + 6, 2 * BUF - 1, 2 * BUF,
                     3 * BUF + 5, r.randrange(1, 200), r.randrange(1, BUF), r.randrange(1, 2 * BUF)])


def outs(r, mode, calm=False):
    """A legal sequence of calls."""
    ops, total, marks = [], 0, []
    for _ in range(r.choice([2, 5, 10, 25])):
        c = r.random()
        if c < .3:
            n = r.choice([1, 1, 2, 7, 30])
            for _ in range(n):
                ops.append("B:%d" % r.randrange(256))
            total += n
        elif c < .62:
            n = r.choice([0, 1, 3, 6, 20, 90]) if calm else sizes(r)
            if r.random() < .2:
                n = max(0, BUF * r.randrange(1, 3) - total % BUF - r.choice([0, 1, 2, -1]))   # exactly to the end of a buffer
            if n > 3 * BUF + 10:
                n = 9
            ops.append("K:%d:%d" % (r.randrange(256), n))
            total += n
        elif c < .72:
            ops.append("F")
        elif c < .85:
            ops.append("P")
            marks.append(total)
            if r.random() < .7:
                ops.append("K:0:6")
                total += 6
        else:
            ok = [k for k, m in enumerate(marks) if m + 6 <= total]
            if ok:
                k = r.choice(ok[-3:])
                ops.append("W:%d:%s" % (k + 1, ":".join(str(r.choice([0, 255, r.randrange(256)])) for _ in range(6))))
    return "O %s %s" % (mode, " ".join(ops))


def ins(r, mode):
    n = r.choice([0, 1, 2, 5, 6, 13, 100, BUF - 1, BUF, BUF + 1, 2 * BUF, 2 * BUF + 3, 70000, r.randrange(1, 3 * BUF)])
    segs, left = [], n
    while left > 0 and len(segs) < 12:
        k = left if len(segs) == 11 else min(left, r.choice([1, 1, 5, left, max(1, left - 3), BUF]))
        segs.append("%d:%d" % (r.randrange(256), k))
        left -= k
    if mode == "pipe":
        mode = "pipe:" + ",".join(str(r.choice([1, 2, 7, 100, 4096, 4097, 60000, 65536])) for _ in range(6))
    ops, bit, end = [], 0, 8 * n
    stop = r.random() < .6          # before the end of the data
    for _ in range(r.choice([4, 12, 40])):
        c = r.random()
        if c < .4:
            k = r.choice([1, 1, 3, 8, 9])
            o, w = ["b"] * k, k
        elif c < .6:
            o, w = ["y"], 8
        elif c < .7:
            o, w = ["f"], -bit % 8
        else:
            if bit % 8:
                o, w = ["f"], -bit % 8
            elif c < .78:
                o, w = ["q"], 48
            else:
                z = sizes(r)
                if r.random() < .4:
                    z = max(0, BUF - (bit // 8) % BUF - r.choice([0, 1, 2, -1]))
                if r.random() < .2:
                    z = max(0, (end - bit) // 8 - r.choice([0, 1, 2]))
                o, w = ["k:%d" % z], 8 * min(z, (end - bit) // 8)
        if bit + w > end and stop:
            break
        ops += o
        bit += w
        if bit > end:
            break
    return "I %s %s %s" % (mode, ",".join(segs) or "-", " ".join(ops) or "f")


def lines():
    k = 8 if THOROUGH else 1
    L = []
    for i in range(400 * k):
        r = corpus.rng("c11o", i)
        L.append(outs(r, ["file", "file", "std", "pipe", "append", "offset"][i % 6], i % 4 == 1))
    for i in range(450 * k):
        r = corpus.rng("c11i", i)
        L.append(ins(r, ["file", "std", "pipe"][i % 3]))
    # through every position of the buffer's end
    for d in range(-7, 8):
        L.append("O file K:0:%d B:9 B:8 P K:1:6 W:1:1:2:3:4:5:6 B:7 K:3:%d F B:1" % (BUF + d, BUF + d))
        L.append("O pipe K:0:%d P K:1:6 B:7 K:3:%d W:1:1:2:3:4:5:6 B:1" % (BUF + d, BUF - d))
        L.append("I file 5:%d k:%d q b b b y y b b b b b y f k:100" % (BUF + 20, BUF + d - 5))
        L.append("I pipe:4096,1 5:%d k:%d b y b y f y k:9 k:9" % (BUF + 8, BUF + d - 1))
    return L


def main():
    chk = Check("C11", "model_checking")
    build()
    b = "Big" if THOROUGH else ""
    chk.mc("buffered output refines Streams", tlc("StreamsMC", workers=CORES, cfg="StreamsMC%s.cfg" % b, timeout=3000, heap="12g"))
    chk.mc("buffered input refines Streams", tlc("InStreamMC", workers=CORES, cfg="InStreamMC%s.cfg" % b, timeout=3000, heap="8g"))
    exe = harness("streams")
    if exe is None:
        chk.skip("streams", "RawOutStream or RawInStream changed their interfaces")
        return chk
    L = lines()
    os.chdir(scratch())
    recs = drive(exe, L)
    bad, cnt = judge("StreamsTrace", recs, cost=lambda s: len(s[0].get("ops", [])))
    chk.traces("calls of real streams", cnt, len(L), calls=sum(len(r.get("ops", [])) for r in recs))
    for i in (3, 410, len(L) - 1):
        chk.sample(L[i][:300])
    for i, j, rec in bad[:5]:
        r2 = drive(exe, [L[i]])
        if judge("StreamsTrace", r2)[0]:
            chk.violation("stream: " + L[i][:200], dict(line=L[i], rejected=r2[0]))
    os.chdir(VERIF)
    chk.assumptions = ["blocks and 48-bit numbers are read at byte boundaries, as the decoders do"]
    return chk
