"""seed.py DEFS.py [ID...]: plants each bug of DEFS (list SEEDS) in a scratch copy of /repo, confirms that it parses, passes the
tests, fails its demo and leaves the demo passing without it, and writes seeded/<id>/.  With --run the property's check is run as well."""
import importlib.util, json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=os.path.join(cwd, "src"))
    e.update(env or {})
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    spec = importlib.util.spec_from_file_location("defs", args[0])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    W = "/tmp/seedwt"
    for s in m.SEEDS:
        if args[1:] and s["id"] not in args[1:]:
            continue
        shutil.rmtree(W, ignore_errors=True)
        shutil.copytree("/repo", W, symlinks=True)
        out = os.path.join(H, "seeded", s["id"])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        with open(os.path.join(out, "demo.py"), "w") as f:
            f.write("import os, sys\nsys.path.insert(0, os.path.join(os.getcwd(), 'src'))\nimport warnings, logging\nwarnings.simplefilter('ignore')\nlogging.disable(50)\n"
                    "import numpy as np\nimport pygmm\nfrom pygmm.model import Scenario\n" + s["demo"].strip("\n") + "\n")
        with open(os.path.join(out, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        ok0, o0 = sh("bash %s/demo.sh" % out, W)
        for fn, old, new in s["edits"]:
            p = os.path.join(W, "src/pygmm", fn)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "edit does not apply: %d matches" % t.count(old)); sys.exit(1)
            open(p, "w").write(t.replace(old, new))
        _, d = sh("git diff -- src", W)
        with open(os.path.join(out, "patch.diff"), "w") as f:
            f.write(d)
        ok1, o1 = sh("bash %s/demo.sh" % out, W)
        okt, ot = sh(PY + " -m pytest -q -x -p no:cacheprovider --no-cov 2>&1 | tail -5", W)
        passed = "401 passed" in ot and "failed" not in ot
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
        good = ok0 == 0 and ok1 != 0 and passed
        print(s["id"], "OK" if good else "REJECTED", "demo clean %d, demo patched %d, tests %s" % (ok0, ok1, ot.strip().splitlines()[-1] if ot.strip() else ""))
        if not good:
            print(o0[-600:], o1[-300:] if ok1 else "", ot[-900:])
            shutil.rmtree(out)
            continue
        if "--run" in sys.argv:
            rc, o = sh("./check.py " + s["property"], H, dict(PYGMM_SRC=os.path.join(W, "src")))
            print("   check:", rc, [l[:160] for l in o.splitlines() if l.startswith("VIOLATION")][:2], o.splitlines()[0][:200] if o else "")
    shutil.rmtree(W, ignore_errors=True)


main()
