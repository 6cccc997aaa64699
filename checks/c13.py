"""C13: what the tools could not do is told by the exit status."""
import ctypes, mmap
from common import *
from tools import *
import corpus

TOOLS = ("compress", "uncompress", "preprocess", "postprocess")
SYSCALLS = {"read": ["EIO", "EINTR"], "write": ["ENOSPC", "EIO", "EINTR"], "openat": ["EACCES", "EMFILE"],
            "lseek": ["EINVAL"], "close": ["EIO"]}
# the values other variants of the same calls may have
SAME = {"read": "read,readv,pread64", "write": "write,writev,pwrite64", "openat": "open,openat,creat",
        "lseek": "lseek", "close": "close"}


def strace_works():
    f = tmp()
    try:
        r = run(["strace", "-qq", "-o", f, "-e", "trace=write", "-e", "inject=write:error=EIO:when=1", "/bin/echo", "x"], timeout=20)
    except OSError:
        return False
    ok = "INJECTED" in read(f).decode(errors="replace")
    if os.path.exists(f):
        os.remove(f)
    return ok


class Base:
    """A content with its archive etc., so that the result of every tool is known."""

    def __init__(self, data, o, pre):
        self.data, self.o, self.pre = data, o, pre
        self.ec, self.arc = compress(data, o)
        self.eu, _ = uncompress(self.arc)
        self.ep, self.pro = preprocess(data, pre, 20)
        self.eq, _ = postprocess(self.pro)
        self.head = [{"ev": "begin"}, self.ec, self.eu, self.ep, self.eq]

    def args(self, t):
        if t == "compress":
            return self.o.args()
        if t == "preprocess":
            return (["--prepr", self.pre] if self.pre else []) + ["-b", "20"]
        return []

    def inp(self, t):
        return {"compress": self.data, "preprocess": self.data, "uncompress": self.arc, "postprocess": self.pro}[t]

    def out(self, t):
        return {"compress": self.arc, "preprocess": self.pro, "uncompress": self.data, "postprocess": self.data}[t]

    def event(self, t, out, rc):
        e = {"compress": self.ec, "uncompress": self.eu, "preprocess": self.ep, "postprocess": self.eq}[t]
        return dict(e, ev=t + "?", out=dig(out), rc=rc)


def injected(b, t, call, err, n, which, transport):
    """One run with the n:th such call on the file failing; None if it was not reached."""
    f = tmp()
    src, dst, lg = f + ".i", f + ".o", f + ".l"
    with open(src, "wb") as h:
        h.write(b.inp(t))
    path = src if which == "in" else dst
    cmd = ["strace", "-qq", "-o", lg, "-P", path, "-e", "trace=" + SAME[call],
           "-e", "inject=%s:error=%s:when=%d" % (SAME[call], err, n), tool(t)] + b.args(t)
    kw = {}
    if transport == "std":
        cmd += ["-i", "-c"]
        kw = dict(stdin=open(src, "rb"), stdout=open(dst, "wb"))
    else:
        cmd += [src, dst]
    r = run(cmd, timeout=60, **kw)
    for x in kw.values():
        x.close()
    hit = "INJECTED" in read(lg).decode(errors="replace")
    out = read(dst)
    for x in (src, dst, lg):
        if os.path.exists(x):
            os.remove(x)
    if not hit:
        return None
    return dict(b.event(t, out, r.rc), fault="%s of %s %d.: %s" % (call, which, n, err), tool=t, via=transport)


def points(b, t, call, err, which, transport):
    """All the calls: one after another until there are no more."""
    ev = []
    n = 1
    while n <= 400:
        e = injected(b, t, call, err, n, which, transport)
        if e is None:
            break
        ev.append(e)
        n += 1 if n < 12 else (2 if n < 30 else 17)
    return ev


def limited(b, t, n, transport="file"):
    """The file may grow to n bytes only (the write error of a full disk, at any byte)"""
    f = tmp()
    with open(f, "wb") as h:
        h.write(b.inp(t))
    cmd = ["env", "--ignore-signal=XFSZ", "prlimit", "--fsize=%d" % n, tool(t)] + b.args(t)
    if transport == "file":
        r = run(cmd + [f, f + ".o"])
    else:
        with open(f + ".o", "wb") as o:
            r = run(cmd + ["-c", f], stdout=o)
    out = read(f + ".o")
    for x in (f, f + ".o"):
        if os.path.exists(x):
            os.remove(x)
    if n >= len(b.out(t)):
        return dict(b.event(t, out, r.rc), ev=t, fault="limit of %d bytes, not reached" % n, tool=t)
    return {"ev": "fault", "rc": r.rc, "fault": "limit of %d bytes, %s" % (n, transport), "tool": t}


def starved(b, t, kb):
    """No more than kb kilobytes of memory for data"""
    f = tmp()
    with open(f, "wb") as h:
        h.write(b.inp(t))
    r = run(["prlimit", "--core=0", "--data=%d" % (kb * 1000), tool(t)] + b.args(t) + [f, f + ".o"])
    out = read(f + ".o")
    for x in (f, f + ".o"):
        if os.path.exists(x):
            os.remove(x)
    return dict(b.event(t, out, r.rc), ev=t + "!", fault="memory limit of %d kB" % kb, tool=t)


def mem_stdin(b, t, keep):
    """Standard input that fails with EIO after the first `keep` bytes: /proc/self/mem
    at the end of a mapping.  None when that is not possible here."""
    data = b.inp(t)[:keep]
    page = mmap.PAGESIZE
    n = (len(data) + page - 1) // page * page
    libc = ctypes.CDLL(None, use_errno=True)
    libc.mmap.restype = ctypes.c_void_p
    libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t] + [ctypes.c_int] * 3 + [ctypes.c_long]
    libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
    adr = libc.mmap(None, n + page, mmap.PROT_READ | mmap.PROT_WRITE, mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS, -1, 0)
    if adr in (None, ctypes.c_void_p(-1).value):
        return None
    ctypes.memmove(adr + n - len(data), data, len(data))
    libc.munmap(adr + n, page)
    try:
        fd = os.open("/proc/self/mem", os.O_RDONLY)
    except OSError:
        return None
    try:
        os.lseek(fd, adr + n - len(data), os.SEEK_SET)
        try:
            os.pread(fd, 1, adr + n)
            return None                    # somebody mapped it again
        except OSError:
            pass
        f = tmp()
        r = run([tool(t)] + b.args(t) + ["-i", "--output-file", f], stdin=fd)
        try:
            os.pread(fd, 1, adr + n)
            return None
        except OSError:
            pass
        if os.path.exists(f):
            os.remove(f)
        return {"ev": "fault", "rc": r.rc, "fault": "EIO after %d bytes of standard input" % len(data), "tool": t}
    finally:
        os.close(fd)
        if n:
            libc.munmap(adr, n)


BAD_OPTIONS = {
    "compress": [["-s", "0"], ["-s", "257"], ["-s", "1000"], ["-s", "x"], ["-s", "65537"], ["-s", "4294967297"], ["-e", "x"], ["-e", "h"], ["-e", "HH"], ["-e", ""],
                 ["-e", "A"], ["-e", "U"], ["-e", "n"], ["-e", "0"], ["--bwt", "x"], ["--bwt", "D"], ["--bwt", "da"], ["--bwt", "b"], ["--prepr", "q"], ["--prepr", "pq"],
                 ["--prepr", "px"], ["--prepr", "P"], ["--prepr", "ppppc"], ["--prepr", "p p"], ["--prepr", "cp"],
                 ["-m", "x"], ["-m", "1x"], ["--frobnicate"], ["-Z"], ["-v", "loud"], ["-m"], ["third"]],
    "uncompress": [["--frobnicate"], ["-Z"], ["-v", "loud"], ["third"], ["-m", "1"]],
    "preprocess": [["--prepr", "q"], ["--prepr", "pq"], ["--prepr", "xp"], ["--prepr", "ppr"], ["-b", "x"], ["--frobnicate"], ["third"], ["-v", "loud"]],
    "postprocess": [["--frobnicate"], ["-Z"], ["-v", "loud"], ["third"]],
}


def odd_runs(b):
    """Faults that need no help: [(fault event)]"""
    ev = []
    for t in TOOLS:
        f = tmp()
        with open(f, "wb") as h:
            h.write(b.inp(t))
        exe, a = tool(t), b.args(t)
        d = f + ".d"
        os.mkdir(d)

        def add(what, cmd, **kw):
            r = run(cmd, timeout=60, **kw)
            ev.append({"ev": "fault", "rc": r.rc, "fault": what, "tool": t})
        o = d + "/o"
        add("no such input", [exe] + a + [f + ".missing", o])
        add("input is a directory", [exe] + a + [d, o])
        add("standard input is a directory", [exe] + a + ["-i", "--output-file", o], stdin=os.open(d, os.O_RDONLY))
        add("no such directory for output", [exe] + a + [f, d + "/x/y"])
        add("output is a directory", [exe] + a + [f, d])
        add("input below a file", [exe] + a + [f + "/x", o])
        add("read of /proc/self/mem", [exe] + a + ["/proc/self/mem", o])
        if b.out(t):
            add("output to a full device", [exe] + a + [f, "/dev/full"])
            with open("/dev/full", "wb") as full:
                add("standard output to a full device", [exe] + a + ["-c", f], stdout=full)
        add("standard input not open", ["sh", "-c", 'exec "$@" <&-', "sh", exe] + a + ["-i", "--output-file", o])
        if b.out(t):
            add("standard output not open", ["sh", "-c", 'exec "$@" >&-', "sh", exe] + a + ["-c", f])
            add("standard output open for reading only", ["sh", "-c", 'exec "$@" 1<"$0"', f, exe] + a + ["-c", f])
            # a pipe nobody reads; SIGPIPE ignored, so writing is an error
            rd, wr = os.pipe()
            os.close(rd)
            add("broken pipe", ["env", "--ignore-signal=PIPE", exe] + a + ["-c", f], stdout=wr)
            os.close(wr)
        if t in ("uncompress", "postprocess"):
            with open(f, "wb"):
                pass
            add("empty file is no archive", [exe, f, o])
        for bad in BAD_OPTIONS[t]:
            with open(f, "wb") as h:
                h.write(b.inp(t))
            add("options " + " ".join(bad), [exe, f, o] + bad)
        shutil.rmtree(d, ignore_errors=True)
        for x in (f,):
            if os.path.exists(x):
                os.remove(x)
    return ev


def main():
    chk = Check("C13", "fault_enumeration")
    build()
    import histories
    histories.model(chk)
    st = strace_works()
    if not st:
        chk.skip("system calls failing under strace", "strace cannot inject here")
    jobs = []
    small = [Base(b"abracadabra" * 9, Opts("B", "", 2, "d", 1), "p"),
             Base(corpus.some(corpus.rng("c13", 1), 700), Opts("H", "p", 8, "s", 1), ""),
             Base(b"", Opts("u", "", 8, "d", 1), "p"),
             Base(b"x", Opts("m", "p", 8, "d", 1), "p")]
    r = corpus.rng("c13big")
    big = [Base(corpus.randbytes(r, 230000, list(range(256))), Opts("B", "", 8, "d", 1), "p"),
           Base(corpus.big(corpus.rng("c13b2"), 300000), Opts("H", "p", 8, "d", 1), "pp"),
           Base(corpus.randbytes(r, 90000, list(range(200))), Opts("M", "", 8, "s", 1), "")]
    if THOROUGH:
        for i in range(6):
            q = corpus.rng("c13t", i)
            small.append(Base(corpus.some(q, 500), random_opts(q), "p"))
            big.append(Base(corpus.big(q, 250000), Opts("HBbumM"[i], "", 8, "d", 1), "p"))
    for bi, b in enumerate(small + big):
        for t in TOOLS:
            if st:
                for tr in ("file", "std"):
                    for call, errs in SYSCALLS.items():
                        for w in (("in",) if call == "read" else ("out",) if call == "write" else ("in", "out")):
                            if tr == "std" and call in ("openat", "close"):
                                continue
                            for err in errs if b in small[:2] or THOROUGH else errs[:1]:
                                jobs.append((bi, t, lambda b=b, t=t, c=call, e=err, w=w, tr=tr: points(b, t, c, e, w, tr)))
            n = len(b.out(t))
            if b in small:
                lim = range(n + 1) if n < 250 or THOROUGH else sorted({r.randrange(n) for _ in range(60)} | {0, 1, 2, n - 1, n})
            else:
                lim = {0, 1, 6, 7, 100, 4095, 4096, 4097, 8192, 65535, 65536, 65537, n // 2, n - 4097, n - 2, n - 1, n} | {r.randrange(n) for _ in range(6)}
            for x in sorted(lim):
                if x >= 0:
                    jobs.append((bi, t, lambda b=b, t=t, x=x: [limited(b, t, x)]))
                    if x % 3 == 0:
                        jobs.append((bi, t, lambda b=b, t=t, x=x: [limited(b, t, x, "stdout")]))
            if b not in small:
                step = 60 if THOROUGH else 250
                for kb in range(300, 6500, step):
                    jobs.append((bi, t, lambda b=b, t=t, kb=kb: [starved(b, t, kb)]))
        if b in small[:2]:
            jobs.append((bi, "odd", lambda b=b: odd_runs(b)))
    bases = small + big

    def work(j):
        return j[2]()
    res = pmap(work, jobs)
    # read errors in the middle of standard input
    eio = []
    for b in bases:
        for t in TOOLS:
            n = len(b.inp(t))
            for keep in sorted({0, 1, n // 2, max(0, n - 1), n, min(n, 4096), min(n, 65536), min(n, 65537), min(n, 5)}):
                e = mem_stdin(b, t, keep)
                if e is None:
                    continue
                eio.append((b, e))
    if not eio:
        chk.skip("read errors of standard input", "/proc/self/mem is of no help here")
    log("%d runs with faults" % (sum(map(len, res)) + len(eio)))
    # one history for each fault: what happened without it, then the run with it
    sess, src = [], []
    for j, evs in zip(jobs, res):
        for e in evs:
            sess.append(bases[j[0]].head + [e])
            src.append(j)
    for b, e in eio:
        sess.append(b.head + [e])
        src.append(None)
    bad, cnt = judge("PipelineTrace", sess, session=True)
    kinds = {}
    for s in sess:
        w = s[-1]["fault"]
        k = w.split(" ")[0] + (":" + w.split(": ")[1] if ": " in w else "")
        kinds[k] = kinds.get(k, 0) + 1
    chk.traces("runs with faults", cnt, len(sess), kinds=kinds)
    chk.cov["faults_injected"] = len(sess)
    for i in (5, len(sess) // 2, len(sess) - 1):
        chk.sample(sess[i][-1])
    n = 0
    for i in sorted({b[0] for b in bad}):
        if n > 3:
            break
        j = src[i]
        if j is None:
            b2 = [1]       # judged from one run; repeated below with the same base
            again = sess[i]
        else:
            evs = [e for e in j[2]() if e["fault"] == sess[i][-1]["fault"] and e["tool"] == sess[i][-1]["tool"]]
            if not evs:
                continue
            again = bases[j[0]].head + evs[:1]
            b2, _ = judge("PipelineTrace", [again], session=True)
        if b2:
            n += 1
            chk.violation("%s: %s" % (again[-1]["tool"], again[-1]["fault"]), dict(trace=again))
    chk.assumptions = ["faults are errors returned by system calls on the input and output files, limits on the size of files, "
                       "unusable files, meaningless options and limits on memory"]
    return chk
