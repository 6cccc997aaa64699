"""mk(id, property, [(file, old, new)], demo, needs, breaks): writes seeded/<id>."""
import json, os, subprocess, shutil
V = "/verif/seeded"


def mk(i, prop, edits, demo, needs, breaks):
    d = "/tmp/mkseed"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    for f, old, new in edits:
        s = open("%s/%s" % (d, f)).read()
        n = s.count(old)
        if n != 1:
            raise SystemExit("%s: %d matches in %s: %r" % (i, n, f, old))
        open("%s/%s" % (d, f), "w").write(s.replace(old, new))
    p = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True).stdout
    o = "%s/%s" % (V, i)
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(p)
    open(o + "/demo.sh", "w").write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + "/meta.json", "w"), indent=1)
    shutil.rmtree(d)


PY = """#!/bin/bash
# run in the repository after the build
exec python3 - "$(cd "$(dirname "$0")" && pwd)" <<'EOF'
import os, subprocess, sys, tempfile, shutil, random
HERE = sys.argv[1]
B = os.path.join(os.getcwd(), "_build", "bin")
D = tempfile.mkdtemp()
def tool(name, args, data):
    i, o = os.path.join(D, "in"), os.path.join(D, "out")
    open(i, "wb").write(data)
    if os.path.exists(o): os.remove(o)
    p = subprocess.run([os.path.join(B, name)] + args + [i, o], stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
    return p.returncode, open(o, "rb").read() if os.path.exists(o) else b"", p.stderr
def main():
%s
try:
    sys.exit(0 if main() else 1)
finally:
    shutil.rmtree(D, ignore_errors=True)
EOF
"""


def py(body):
    import textwrap
    return PY % textwrap.indent(textwrap.dedent(body).strip("\n"), "    ")
