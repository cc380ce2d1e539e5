"""apply.py EDITS DIR: make a scratch copy of /repo at DIR with the edits; runs its tests"""
import runpy, subprocess, sys
edits, d = sys.argv[1:3]
assert d.startswith("/tmp/")
subprocess.run(["rm", "-rf", d], check=True)
subprocess.run(["cp", "-a", "/repo", d], check=True)
for f, old, new in runpy.run_path(edits)["R"]:
    p = d + "/src/pygmm/" + f
    s = open(p).read()
    if old not in s:
        print("NOT FOUND", f, old[:80])
        continue
    open(p, "w").write(s.replace(old, new, 1))
r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "tests"], cwd=d, env=dict(PYTHONPATH=d + "/src", PATH="/usr/bin:/bin", HOME="/root"), capture_output=True, text=True)
print(r.stdout.strip().splitlines()[-1])
