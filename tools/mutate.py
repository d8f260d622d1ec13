#!/usr/bin/env python3
"""mutate.py FILE [-j N] [--only ID,..] : bulk planting. FILE holds entries
   ### ID PROP[,PROP] path        (then blocks  <<<< old ==== new >>>>, '@ path' switches the file)
Each is applied to a scratch copy of /repo, built, and the properties' quick checks run on that copy (never on /repo)."""
import sys, os, re, subprocess, shutil, concurrent.futures as cf
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
a = sys.argv[1:]
J = int(a[a.index("-j") + 1]) if "-j" in a else 2
only = a[a.index("--only") + 1].split(",") if "--only" in a else None
ents = []
for part in re.split(r"^### ", open(a[0]).read(), flags=re.M)[1:]:
    head, body = part.split("\n", 1)
    i, props, f = head.split()
    if not only or i in only: ents.append((i, props.split(","), f, body))
def one(e):
    i, props, f, body = e
    s = "/tmp/mut-" + i
    shutil.rmtree(s, ignore_errors=True)
    subprocess.run(f"cp -a /repo {s}", shell=True, check=True)
    try:
        n = 0
        for m in re.finditer(r"^@ (\S+)$|<<<<\n(.*?)\n====\n(.*?)\n?>>>>", body, re.S | re.M):
            if m.group(1): f = m.group(1); continue
            t = open(f"{s}/{f}").read()
            if t.count(m.group(2)) != 1: return f"{i}: BAD EDIT ({t.count(m.group(2))} matches) {m.group(2)[:60]!r}"
            open(f"{s}/{f}", "w").write(t.replace(m.group(2), m.group(3))); n += 1
        if not n: return f"{i}: no edit"
        e2 = dict(os.environ, GOFLAGS="-mod=mod -modfile=/opt/vp/arpc.mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off")
        r = subprocess.run(["go", "build", ".", "./util", "./codec", "./extension/pubsub", "./extension/listener", "./extension/micro", "./extension/arpchttp"], cwd=s, env=dict(e2, PATH="/opt/veriftools/go1.23.12/bin:" + os.environ["PATH"]), capture_output=True, text=True)
        if r.returncode: return f"{i}: BUILD {r.stderr[:400]}"
        out = []
        for p in props:
            ev = s + "-ev"; os.makedirs(ev, exist_ok=True)
            r = subprocess.run(["timeout", "880", "python3", V + "/check.py", p], env=dict(os.environ, VP_REPO=s, VP_EVID=ev), capture_output=True, text=True)
            msg = [l for l in r.stdout.splitlines() if ": assert:" in l or ": crash" in l or ": hang" in l or re.match(r"c\d\d\.\w+: \w", l)]
            nt = [l for l in r.stdout.splitlines() if l.startswith("NOTE")]
            out.append(f"{p}:{'CAUGHT' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'RC%d' % r.returncode} {len(msg)} {msg[0][:150] if msg else ''} {(nt[0][:200] if nt and not msg else '')} {r.stdout[-300:] + r.stderr[-300:] if r.returncode > 1 else ''} {r.stdout.splitlines()[-1].split('wall')[-1][:12] if r.stdout else ''}")
            shutil.rmtree(ev, ignore_errors=True)
        return f"{i}: " + " | ".join(out)
    finally:
        shutil.rmtree(s, ignore_errors=True)
with cf.ThreadPoolExecutor(J) as ex:
    for r in ex.map(one, ents): print(r, flush=True)
