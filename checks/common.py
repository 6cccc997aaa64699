"""Shared machinery: building /repo, running TLC, recording events, reporting.

The verdicts are TLC's: Python runs the real code, writes down what happened as
ndjson records and lets a TLA+ module of /verif/spec judge them.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, fcntl, atexit, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
CACHE = os.path.join(VERIF, ".cache")
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
CORES = 8
T0 = time.time()

_scratch = None


def scratch():
    """Private directory for everything this run writes; removed at exit."""
    global _scratch
    if _scratch is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 4e9 else None
        _scratch = tempfile.mkdtemp(prefix="bwtcverif.", dir=base)
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def _term(sig, frm):
    sys.exit(3)


signal.signal(signal.SIGTERM, _term)


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


# --------------------------------------------------------------------------
# Building
# --------------------------------------------------------------------------
FLAVORS = {
    "std": ("gcc", "g++", "-O2"),
    "O0": ("gcc", "g++", "-O0"),
    "rel": ("gcc", "g++", "-O3 -fomit-frame-pointer -DNDEBUG"),
    "pat": ("gcc", "g++", "-O1 -ftrivial-auto-var-init=pattern"),
    "clang": ("clang", "clang++", "-O1 -Wno-reserved-user-defined-literal"),
}
LIBS = ["libcommon.a", "preprocessors/libpreprocessors.a", "bwtransforms/libbwtransforms.a",
        "probmodels/libprobmodels.a"]


def source_files():
    r = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in (".git", "_build"))
        r += [os.path.join(d, f) for f in sorted(fs)
              if f.endswith((".cpp", ".hpp", ".c", ".h", ".hxx", ".cc", "CMakeLists.txt", ".cmake"))]
    return r


_hash = None


def tree_hash():
    global _hash
    if _hash is None:
        h = hashlib.sha256()
        for f in source_files():
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read())
            h.update(b"\0")
        _hash = h.hexdigest()[:20]
    return _hash


def build(flavor="std"):
    """Builds the tools and the libraries of /repo's working tree; returns the
    build directory."""
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, "%s-%s" % (flavor, tree_hash()))
    lock = open(out + ".lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(os.path.join(out, "done")):
            return out
        shutil.rmtree(out, ignore_errors=True)
        cc, cxx, fl = FLAVORS[flavor]
        args = ["cmake", "-S", REPO, "-B", out, "-G", "Ninja", "-Wno-dev",
                "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
                "-DCMAKE_C_COMPILER=/usr/bin/" + cc, "-DCMAKE_CXX_COMPILER=/usr/bin/" + cxx]
        for l in ("C", "CXX"):
            for t in ("DEBUG", "RELWITHDEBINFO"):
                args.append("-DCMAKE_%s_FLAGS_%s=%s" % (l, t, fl))
        for cmd in (args, ["ninja", "-C", out, "-j8", "compress", "uncompress", "preprocess", "postprocess"]):
            p = subprocess.run(cmd, capture_output=True, text=True)
            if p.returncode:
                raise RuntimeError("build failed:\n" + p.stdout[-3000:] + p.stderr[-3000:])
        # executables may be left in bin/ of the build directory or of the source directory
        if not os.path.exists(os.path.join(out, "bin", "compress")):
            raise RuntimeError("no executables in " + out)
        open(os.path.join(out, "done"), "w").close()
        return out
    finally:
        lock.close()


def tool(name, flavor="std"):
    return os.path.join(build(flavor), "bin", name)


def harness(name, flavor="std", extra=""):
    """Compiles harness/<name>.cpp against the libraries; None if the
    interfaces it uses are not there any more."""
    out = build(flavor)
    src = os.path.join(HARNESS, name + ".cpp")
    h = hashlib.sha256(open(src, "rb").read())
    for f in os.listdir(HARNESS):
        if f.endswith(".hpp"):
            h.update(open(os.path.join(HARNESS, f), "rb").read())
    exe = os.path.join(out, "h_%s_%s" % (name, h.hexdigest()[:12]))
    if os.path.exists(exe):
        return exe
    cc, cxx, fl = FLAVORS[flavor]
    tmp = exe + ".tmp%d" % os.getpid()
    cmd = [cxx, "-std=gnu++14", "-w"] + fl.split() + ["-I", REPO, "-I", HARNESS, src]
    for s in re.findall(r"^// sources: (.*)$", open(src).read(), re.M):
        cmd += [os.path.join(REPO, x) for x in s.split()]
    libs = [os.path.join(out, l) for l in LIBS]
    cmd += ["-o", tmp, "-Wl,--start-group"] + [l for l in libs if os.path.exists(l)] + ["-Wl,--end-group"]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        log("harness %s does not compile against this tree; its part is skipped:\n%s" % (name, p.stderr[-1500:]))
        return None
    os.rename(tmp, exe)
    return exe


# --------------------------------------------------------------------------
# Running the tools
# --------------------------------------------------------------------------
TIMEOUT = 120


class Res:
    __slots__ = ("rc", "out", "err")

    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err


def run(cmd, inp=None, timeout=TIMEOUT, env=None, **kw):
    """rc: exit status, -signal, or -999 for no answer in time."""
    try:
        kw.setdefault("stdout", subprocess.PIPE)
        kw.setdefault("stderr", subprocess.PIPE)
        if inp is None and "stdin" not in kw:
            kw["stdin"] = subprocess.DEVNULL
        p = subprocess.run(cmd, input=inp, timeout=timeout, env=env, **kw)
        return Res(p.returncode, p.stdout, p.stderr)
    except subprocess.TimeoutExpired:
        return Res(-999, b"", b"timeout")


def dig(b):
    return hashlib.sha256(b).hexdigest()[:24]


def read(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except OSError:
        return b""


def pmap(f, xs, workers=CORES):
    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(f, xs))


def drive(exe, lines, timeout=100, parts=CORES, env=None):
    """Feeds lines to a harness (dealt to several processes) and returns for each line the
    JSON record it printed, or {"ev": "crash", ...} for the one it died on (the following
    ones are then given to a new process)."""
    n = max(1, min(parts, len(lines) // 4))
    out = [None] * len(lines)

    def work(k):
        idx = list(range(k, len(lines), n))
        crashes = 0
        while idx:
            r = run([exe], inp=("\n".join(lines[i] for i in idx) + "\n").encode(), timeout=timeout, env=env)
            got = [x for x in r.out.split(b"\n")]
            if r.rc == 0 and len(got) == len(idx) + 1:
                for i, g in zip(idx, got):
                    out[i] = json.loads(g)
                return
            m = min(len(got) - 1, len(idx))           # complete lines
            for i, g in zip(idx[:m], got[:m]):
                try:
                    out[i] = json.loads(g)
                except ValueError:
                    out[i] = {"ev": "crash", "rc": r.rc}
            if m < len(idx):
                out[idx[m]] = {"ev": "crash", "rc": r.rc, "line": lines[idx[m]][:400],
                               "err": r.err[-300:].decode(errors="replace")}
                crashes += 1
            idx = idx[m + 1:]
            if crashes > 20 or r.rc == -999:
                for i in idx:
                    out[i] = {"ev": "crash", "rc": -1000}
                return
    pmap(work, range(n), n)
    return out


# --------------------------------------------------------------------------
# TLC
# --------------------------------------------------------------------------
class Tlc:
    """Result of one TLC run."""

    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m.group(1).replace(",", "")) if m else 0
        self.distinct = int(m.group(2).replace(",", "")) if m else 0
        self.ok = rc == 0 and "Model checking completed. No error has been found" in out \
            or rc == 0 and "Finished in" in out and "Error:" not in out
        self.violated = "is violated" in out or "Invariant" in out and "violated" in out
        self.prints = re.findall(r'^<<"([A-Z]+)", (.*)>>\s*$', out, re.M)


def tlc(module, cfg=None, env=None, args=(), workers=1, timeout=600, heap="3g"):
    """module: name in /verif/spec."""
    e = dict(os.environ)
    e.update(env or {})
    meta = tempfile.mkdtemp(prefix="tlc.", dir=scratch())
    cmd = ["timeout", "-k", "5", str(timeout), "java", "-Xss256m", "-Xmx" + heap,
           "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC", "-noTE", "-deadlock",
           "-workers", str(workers), "-metadir", meta,
           "-config", cfg or module + ".cfg", *args, module + ".tla"]
    p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True)
    shutil.rmtree(meta, ignore_errors=True)
    return Tlc(p.returncode, p.stdout + p.stderr)


class ModelError(Exception):
    pass


def write_trace(recs, name):
    p = os.path.join(scratch(), name)
    with open(p, "w") as f:
        for r in recs:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")
    return p


def judge(module, recs, name=None, parts=CORES, timeout=600, session=None, cost=None, env=None):
    """Lets the trace module judge the records.  Every such module has a
    variable l, the number of the record to be consumed next, refuses to step
    over a record that the specification does not allow and prints
    <<"REJECT", l>> for it.

    The records are dealt to `parts` runs of TLC; a session (a list of records
    depending on each other: recs is then a list of lists) goes undivided.
    Returns the list of rejected (session/record index, record index, record)
    and the counts."""
    if not recs:
        return [], dict(records=0, states=0, transitions=0)
    sess = recs if session else [[r] for r in recs]
    n = max(1, min(parts, len(sess)))
    buckets = [[] for _ in range(n)]
    load = [0.0] * n
    cost = cost or (lambda s: len(s))
    for i in sorted(range(len(sess)), key=lambda i: -cost(sess[i])):
        b = load.index(min(load))
        buckets[b].append(i)
        load[b] += cost(sess[i])
    for b in buckets:
        b.sort()

    def work(k):
        idx, flat = [], []
        for i in buckets[k]:
            for j, r in enumerate(sess[i]):
                idx.append((i, j))
                flat.append(r)
        bad, st, tr = [], 0, 0
        p = write_trace(flat, "%s.%d.ndjson" % (name or module, k))
        ev = {"TRACE": p}
        ev.update(env or {})
        t = tlc(module, env=ev, timeout=timeout)
        rej = [int(v) for kk, v in t.prints if kk == "REJECT"]
        done = [int(v) for kk, v in t.prints if kk == "DONE"]
        if t.ok and done == [len(flat)] or t.ok and rej:
            for l in rej:
                bad.append((idx[l - 1][0], idx[l - 1][1], flat[l - 1]))
            os.remove(p)
            return bad, t.distinct, t.generated
        if t.rc in (150, 255) or "Parsing or semantic analysis failed" in t.out or "OutOfMemoryError" in t.out:
            raise ModelError("TLC failed on %s:\n%s" % (module, t.out[-3000:]))
        # TLC could not evaluate something: find the session
        m = re.findall(r"l = (\d+)", t.out)
        return ("error", k, t, [buckets[k], flat, idx, m])

    bad, st, tr, errs = [], 0, 0, []
    for r in pmap(work, range(n), n):
        if r[0] == "error":
            errs.append(r)
        else:
            bad += r[0]
            st += r[1]
            tr += r[2]
    for _, k, t, (bk, flat, idx, m) in errs:
        # An evaluation error is a rejection if it is the doing of one session and
        # repeats when that session is judged alone, while the others pass.
        log("TLC gave no verdict on part %d (rc %d); judging its sessions separately" % (k, t.rc))
        found = bisect_errors(module, [(i, sess[i]) for i in bk], env, timeout)
        if found is None:
            raise ModelError("TLC failed on %s:\n%s" % (module, t.out[-3000:]))
        b2, s2 = found
        bad += b2
        st += s2
    return bad, dict(records=sum(len(s) for s in sess), states=st, transitions=tr)


def bisect_errors(module, items, env, timeout):
    """items: [(index, session)]; splits until failing sessions are alone."""
    bad, st = [], 0
    queue = [items]
    budget = 60
    while queue:
        it = queue.pop()
        if budget == 0:
            return None
        budget -= 1
        flat, idx = [], []
        for i, s in it:
            for j, r in enumerate(s):
                flat.append(r)
                idx.append((i, j))
        p = write_trace(flat, "bisect.%d.ndjson" % budget)
        ev = {"TRACE": p}
        ev.update(env or {})
        t = tlc(module, env=ev, timeout=min(timeout, 120))
        rej = [int(v) for kk, v in t.prints if kk == "REJECT"]
        done = [int(v) for kk, v in t.prints if kk == "DONE"]
        if t.ok and (done == [len(flat)] or rej):
            st += t.distinct
            for l in rej:
                bad.append((idx[l - 1][0], idx[l - 1][1], flat[l - 1]))
        elif len(it) > 1:
            queue += [it[:len(it) // 2], it[len(it) // 2:]]
        else:
            t2 = tlc(module, env=ev, timeout=min(timeout, 120))
            if t2.ok:
                return None
            r = dict(flat[0])
            r["_evaluation"] = t2.out[-600:]
            bad.append((it[0][0], 0, r))
            if len(bad) >= 3:
                break
    return bad, st


# --------------------------------------------------------------------------
# Reporting
# --------------------------------------------------------------------------
KNOWN = os.path.join(VERIF, "known-findings.json")


class Check:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.parts = {}
        self.violations = []
        self.assumptions = []
        self.skipped = []

    def mc(self, name, t, **kw):
        """Books a model checking run of the specification alone."""
        self.cov["states"] += t.distinct
        self.cov["transitions"] += t.generated
        self.parts[name] = dict(kind="exhaustive model checking", states=t.distinct,
                                transitions=t.generated, **kw)
        if not t.ok:
            raise ModelError("model %s: TLC says\n%s" % (name, t.out[-4000:]))

    def traces(self, name, counts, ntraces, **kw):
        self.cov["states"] += counts["states"]
        self.cov["transitions"] += counts["transitions"]
        self.cov["traces_validated_against_impl"] += ntraces
        self.parts[name] = dict(kind="conformance", traces=ntraces, **counts, **kw)

    def sample(self, s):
        if len(self.cov["samples"]) < 12:
            self.cov["samples"].append(s)

    def skip(self, what, why):
        self.skipped.append(dict(part=what, why=why))

    def violation(self, what, replay):
        """replay: dict written out for reproducing."""
        os.makedirs(REPLAYS, exist_ok=True)
        body = json.dumps(dict(property=self.prop, what=what, **replay), indent=1, default=str)
        p = os.path.join(REPLAYS, "%s-%s.json" % (self.prop, dig(body.encode())[:10]))
        with open(p, "w") as f:
            f.write(body)
        self.violations.append((what, p))

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        self.cov["parts"] = self.parts
        if self.skipped:
            self.cov["skipped"] = self.skipped
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - T0, 2),
                  violations=len(self.violations))
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        try:
            known = json.load(open(KNOWN))["findings"]
        except (OSError, ValueError, KeyError):
            known = []
        for k in known:
            if k["property"] == self.prop:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        for w, p in self.violations[:5]:
            print("rejected: " + w)
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        sys.stdout.flush()
        return 1 if self.violations else 0
