"""Planted bugs.  python3 tools/seed.py confirm|check|all ID... [-- PROP...]
confirm: applies, builds, passes the stable tests, demo fails with and passes without it
check:   the checks (of its property, or those named) report it"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = "/verif/seeded"
W = "/tmp/seed"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def scripts():
    os.makedirs(W + "/vp", exist_ok=True)


def copy(i, patch=True):
    d = "%s/%s" % (W, i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(W, exist_ok=True)
    assert sh("git clone -q /repo %s" % d).returncode == 0
    for s in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + s).read().replace("/opt/vp/build.sh", d + "/.vp-build.sh").replace("/repo", d)
        open("%s/.vp-%s" % (d, s), "w").write(t)
    if patch:
        r = sh("git apply %s/%s/patch.diff" % (V, i), cwd=d)
        if r.returncode:
            return None, r.stderr
    r = sh("bash ./.vp-build.sh", cwd=d)
    if r.returncode:
        return None, r.stdout[-1500:] + r.stderr[-1500:]
    return d, ""


def confirm(i):
    d, e = copy(i)
    if not d:
        return "%s: FAIL %s" % (i, e)
    out = []
    files = sh("git diff --name-only", cwd=d).stdout.split()
    if any(f.startswith("test/") or f.endswith("CMakeLists.txt") for f in files):
        out.append("touches " + str(files))
    sh("bash ./.vp-test.sh %s/.vp-out.json" % d, cwd=d)
    res = json.load(open(d + "/.vp-out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base.get("stable") or base.get("passed") or base.get("pass") or base
    lost = [t for t in want if t not in res["passed"]]
    if lost:
        out.append("tests fail: %s" % lost[:4])
    demo = "%s.demo" % d
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree("%s/%s" % (V, i), demo)
    os.remove(demo + "/patch.diff")
    r = sh("timeout 300 bash %s/demo.sh" % demo, cwd=d)
    if r.returncode == 0:
        out.append("demo passes with the bug")
    sh("git checkout -q -- .", cwd=d)
    sh("bash ./.vp-build.sh", cwd=d)
    r = sh("timeout 300 bash %s/demo.sh" % demo, cwd=d)
    if r.returncode:
        out.append("demo fails without the bug: " + r.stdout[-300:] + r.stderr[-300:])
    shutil.rmtree(demo, ignore_errors=True)
    shutil.rmtree(d, ignore_errors=True)
    return "%s: %s" % (i, "; ".join(out) or "ok")


def check(i, props):
    d, e = copy(i)
    if not d:
        return "%s: FAIL %s" % (i, e)
    res = []
    for p in props or [json.load(open("%s/%s/meta.json" % (V, i)))["property"]]:
        r = sh("VERIF_REPO=%s python3 /verif/checks/run.py %s" % (d, p), cwd="/verif")
        v = [l for l in r.stdout.splitlines() if l.startswith(("rejected", "VIOLATION"))]
        res.append("%s exit %d %s" % (p, r.returncode, " | ".join(x[:110] for x in v[:2]) if r.returncode == 1 else r.stdout[-400:] if r.returncode else ""))
        print(i, res[-1], flush=True)
    sh("rm -rf /verif/.cache/*-$(cd /verif/checks; VERIF_REPO=%s python3 -c 'import common; print(common.tree_hash())')*" % d)
    shutil.rmtree(d, ignore_errors=True)
    return "%s: %s" % (i, "; ".join(res))


if __name__ == "__main__":
    what, ids = sys.argv[1], sys.argv[2:]
    props = []
    if "--" in ids:
        props = ids[ids.index("--") + 1:]
        ids = ids[:ids.index("--")]
    if not ids:
        ids = sorted(os.listdir(V))
    if what == "confirm":
        with ThreadPoolExecutor(3) as ex:
            for r in ex.map(confirm, ids):
                print(r, flush=True)
    else:
        for i in ids:
            check(i, props)
