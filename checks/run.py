#!/usr/bin/env python3
"""python3 checks/run.py <property>      runs the check of one property
   python3 checks/run.py setup           prepares a fresh sandbox
   python3 checks/run.py all             all of them, one after another"""
import importlib, json, os, subprocess, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common


def setup():
    """Parses every module of the specification and builds the tree once."""
    bad = 0
    for f in sorted(os.listdir(common.SPEC)):
        if f.endswith(".tla"):
            p = subprocess.run(["java", "-cp", common.CP, "tla2sany.SANY", f], cwd=common.SPEC,
                               capture_output=True, text=True)
            if p.returncode or "Fatal" in p.stdout or "Could not parse" in p.stdout:
                print(p.stdout)
                bad = 1
    common.build()
    return bad


def main():
    what = sys.argv[1]
    if what == "setup":
        return setup()
    if what == "all":
        man = json.load(open(os.path.join(common.VERIF, "MANIFEST.json")))
        worst = 0
        for c in man["checks"]:
            rc = subprocess.run([sys.executable, __file__, c["property"]]).returncode
            print("==", c["property"], "exit", rc, flush=True)
            worst = max(worst, rc)
        return worst
    if "--thorough" in sys.argv:
        common.TIER, common.THOROUGH = "thorough", True
    try:
        m = importlib.import_module(what.lower())
        chk = m.main()
        return chk.finish()
    except common.ModelError as e:
        print("ERROR of the check:", e)
        return 2
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
