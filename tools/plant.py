#!/usr/bin/env python3
"""plant.py ID...: confirm seeded bugs in a scratch copy bound over nothing: applies the patch in a scratch
copy of /repo, builds, runs the stable tests there, runs demo before/after. plant.py --check ID...: applies
the patch to /repo, runs the property's check, undoes it."""
import json, os, subprocess, sys, shutil, re
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def confirm(i):
    d = f"{V}/seeded/{i}"
    s = f"/tmp/plant-{i}"
    shutil.rmtree(s, ignore_errors=True)
    sh(f"cp -a /repo {s}")
    env = open("/opt/vp/env.sh").read().replace("cd /repo", f"cd {s}")
    os.makedirs(s + "-vp")
    open(s + "-vp/env.sh", "w").write(env)
    for f in ("build.sh", "test.sh"):
        open(f"{s}-vp/{f}", "w").write(open("/opt/vp/" + f).read().replace("/opt/vp/env.sh", s + "-vp/env.sh").replace("/opt/vp/logs", s + "-vp/logs"))
    sh(f"cp -r {d} {s}-vp/demo; sed -i 's#/opt/vp/env.sh#{s}-vp/env.sh#; s#cd /repo#cd {s}#; s#\"/repo/zzdemo#\"{s}/zzdemo#' {s}-vp/demo/demo.sh")
    try:
        a = sh(f"bash {s}-vp/demo/demo.sh")
        p = sh(f"git -C {s} apply {d}/patch.diff")
        if p.returncode: return "patch does not apply: " + p.stderr
        b = sh(f"bash {s}-vp/build.sh")
        if b.returncode: return "build: " + b.stderr
        t = sh(f"bash {s}-vp/test.sh {s}-vp/out.json")
        o = json.load(open(f"{s}-vp/out.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        want = base if isinstance(base, list) else base.get("passed") or base.get("stable") or list(base.values())[0]
        lost = [x for x in want if x not in o["passed"]]
        c = sh(f"bash {s}-vp/demo/demo.sh")
        return f"demo clean rc={a.returncode} patched rc={c.returncode} tests lost={lost} " + ("OK" if a.returncode == 0 and c.returncode and not lost else "BAD") + "\n   " + (a.stdout + a.stderr)[-200:] + " | " + (c.stdout + c.stderr)[-300:].replace("\n", " ")
    finally:
        shutil.rmtree(s, ignore_errors=True); shutil.rmtree(s + "-vp", ignore_errors=True)
def check(i, props=None):
    d = f"{V}/seeded/{i}"
    m = json.load(open(d + "/meta.json"))
    p = sh(f"git -C /repo apply {d}/patch.diff")
    if p.returncode: return "patch does not apply"
    try:
        r = sh(f"cd {V} && timeout 890 python3 check.py {props or m['property']}")
    finally:
        sh("git -C /repo checkout -- .")
    return f"{m['property']} rc={r.returncode} " + ("CAUGHT" if r.returncode == 1 and f"VIOLATION property={props or m['property']}" in r.stdout else "MISSED") + "\n   " + r.stdout[-700:].replace("\n", "\n   ")
a = sys.argv[1:]
if a[0] == "--check":
    ids = a[1:] or sorted(os.listdir(V + "/seeded"))
    for i in ids: print(i, check(i), flush=True)
else:
    for i in a: print(i, confirm(i), flush=True)
