"""Recording runs of the four tools as events of Pipeline."""
import os, itertools
from common import *

_n = itertools.count()


def tmp(suffix=""):
    return os.path.join(scratch(), "f%d%s" % (next(_n), suffix))


class Opts:
    """Options of compress."""

    def __init__(self, enc="B", prepr="", starts=8, bwt="a", mem=100):
        self.enc, self.prepr, self.starts, self.bwt, self.mem = enc, prepr, starts, bwt, mem

    def args(self):
        a = ["-e", self.enc, "-s", str(self.starts), "--bwt", self.bwt, "-m", str(self.mem)]
        if self.prepr:
            a += ["--prepr", self.prepr]
        return a

    def key(self, n):
        """The options that may influence the archive of n bytes"""
        return "%s/%s/%d/%d" % (self.enc, self.prepr, self.starts, self.mem)

    def __repr__(self):
        return " ".join(self.args())


def random_opts(r, n=0):
    from corpus import rng
    return Opts(r.choice("HmMubB"), r.choice(["", "", "", "p", "pp", "ppp", "p" * r.randrange(4, 9)]),
                r.choice([1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 64, 100, 128, 255, 256, r.randrange(1, 257)]),
                r.choice("dsa"), r.choice([1, 1, 2, 3, 100]))


def compress(data, o, flavor="std", env=None, timeout=TIMEOUT):
    """-> (event, archive bytes)"""
    f = tmp()
    with open(f, "wb") as h:
        h.write(data)
    r = run([tool("compress", flavor)] + o.args() + [f, f + ".c"], env=env, timeout=timeout)
    a = read(f + ".c")
    for x in (f, f + ".c"):
        if os.path.exists(x):
            os.remove(x)
    return {"ev": "compress", "in": dig(data), "opt": o.key(len(data)), "out": dig(a), "rc": r.rc}, a


def uncompress(arc, flavor="std", env=None, timeout=TIMEOUT):
    f = tmp()
    with open(f, "wb") as h:
        h.write(arc)
    r = run([tool("uncompress", flavor), f, f + ".o"], env=env, timeout=timeout)
    d = read(f + ".o")
    for x in (f, f + ".o"):
        if os.path.exists(x):
            os.remove(x)
    return {"ev": "uncompress", "in": dig(arc), "out": dig(d), "rc": r.rc}, d


def preprocess(data, prepr="p", block=None, flavor="std", env=None):
    f = tmp()
    with open(f, "wb") as h:
        h.write(data)
    c = [tool("preprocess", flavor)] + (["--prepr", prepr] if prepr else []) + (["-b", str(block)] if block is not None else [])
    r = run(c + [f, f + ".p"], env=env)
    a = read(f + ".p")
    for x in (f, f + ".p"):
        if os.path.exists(x):
            os.remove(x)
    return {"ev": "preprocess", "in": dig(data), "opt": "%s/%s" % (prepr, block), "out": dig(a), "rc": r.rc}, a


def postprocess(pre, flavor="std", env=None):
    f = tmp()
    with open(f, "wb") as h:
        h.write(pre)
    r = run([tool("postprocess", flavor), f, f + ".o"], env=env)
    d = read(f + ".o")
    for x in (f, f + ".o"):
        if os.path.exists(x):
            os.remove(x)
    return {"ev": "postprocess", "in": dig(pre), "out": dig(d), "rc": r.rc}, d


def b64(d):
    import base64
    return base64.b64encode(d).decode()


# ---------------------------------------------------------------------------
# Ways of delivering the bytes in and out of a tool.
# ---------------------------------------------------------------------------
IN_WAYS = ["file", "stdin", "pipe", "dribble", "named-stdin", "cwd"]
OUT_WAYS = ["file", "longer", "stdout-file", "stdout-pipe", "fifo", "append", "offset", "long-option"]


def deliver(name, args, data, inway="file", outway="file", flavor="std", env=None, timeout=TIMEOUT):
    """Runs a tool, its input and output connected as told; -> (rc, bytes, stderr)"""
    import threading
    exe = tool(name, flavor)
    f = tmp()
    with open(f, "wb") as h:
        h.write(data)
    o = f + ".o"
    a = [exe] + list(args)
    kw = {}
    keep = b""
    pos_in = f
    if inway == "file":
        pass
    elif inway == "cwd":
        kw["cwd"] = os.path.dirname(f)
        pos_in = os.path.basename(f)
    elif inway == "stdin":                 # a file as the standard input
        a.append("-i")
        kw["stdin"] = open(f, "rb")
    elif inway == "named-stdin":           # as -i, the name is ignored
        a.append("--stdin")
        kw["stdin"] = open(f, "rb")
        pos_in = f + ".not-there"
    else:                                  # pipe: bytes come in pieces
        a.append("-i")
        rfd, wfd = os.pipe()
        kw["stdin"] = os.fdopen(rfd, "rb")
        step = 65536 if inway == "pipe" else max(1, len(data) // 37 + 1)

        def feed():
            try:
                with os.fdopen(wfd, "wb", 0) as w:
                    for i in range(0, len(data), step):
                        w.write(data[i:i + step])
                        if inway == "dribble":
                            import time
                            time.sleep(0.0004)
            except OSError:
                pass
        threading.Thread(target=feed, daemon=True).start()
    got = []
    reader = None
    if outway in ("file", "longer", "cwd"):
        if outway == "longer":
            with open(o, "wb") as h:
                h.write(b"\xa5" * (len(data) * 2 + 5000))
        tail = [pos_in, o]
        if inway in ("stdin", "pipe", "dribble"):
            tail = ["--output-file", o]
    elif outway == "long-option":
        tail = ["--output-file=" + o, "--input-file=" + pos_in]
    elif outway == "fifo":
        os.mkfifo(o)
        fd = os.open(o, os.O_RDWR)         # keeps the tool from blocking if it never opens
        tail = [pos_in, o]
        if inway in ("stdin", "pipe", "dribble"):
            tail = ["--output-file", o]
    else:
        tail = ["-c"] + ([pos_in] if inway in ("file", "cwd", "named-stdin") else [])
        if outway == "stdout-file":
            kw["stdout"] = open(o, "wb")
        elif outway == "append":
            keep = b"before"
            with open(o, "wb") as h:
                h.write(keep)
            kw["stdout"] = open(o, "ab")
        elif outway == "offset":           # standard output not at the beginning of its file
            keep = b"0123456789"
            h = open(o, "wb", 0)
            h.write(keep)
            kw["stdout"] = h
        else:
            kw["stdout"] = subprocess.PIPE
    if outway == "fifo":
        def drain():
            rd = os.open(o, os.O_RDONLY)
            os.close(fd)
            while True:
                b = os.read(rd, 65536)
                if not b:
                    break
                got.append(b)
            os.close(rd)
        # the reader stays until the tool has closed; our own write end goes away
        # only when the tool has had time to open
        wr = os.open(o, os.O_WRONLY)
        reader = threading.Thread(target=drain, daemon=True)
        reader.start()
        r = run(a + tail, env=env, timeout=timeout, **kw)
        os.close(wr)
        reader.join(20)
        out = b"".join(got)
    else:
        r = run(a + tail, env=env, timeout=timeout, **kw)
        out = r.out if outway == "stdout-pipe" else read(o)
        if keep:
            out = out[len(keep):] if out.startswith(keep) else b"LOST" + out
    for k in ("stdin", "stdout"):
        if hasattr(kw.get(k), "close"):
            kw[k].close()
    for x in (f, o):
        if os.path.lexists(x):
            os.remove(x)
    return r.rc, out, r.err
