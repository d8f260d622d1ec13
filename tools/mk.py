#!/usr/bin/env python3
"""mk.py ID PROP FILE: reads from stdin: the needs line, the breaks line, then blocks
<<<< old ==== new >>>> for FILE (or '@ path' lines switching file), makes the patch; demo.go must be put beside it."""
import sys, os, re, json, subprocess, shutil
i, prop = sys.argv[1:3]
src = sys.stdin.read()
needs, breaks, rest = src.split("\n", 2)
d = f"/verif/seeded/{i}"
os.makedirs(d, exist_ok=True)
s = f"/tmp/mk-{i}"
shutil.rmtree(s, ignore_errors=True)
subprocess.run(f"git -C /repo worktree list >/dev/null; cp -a /repo {s}", shell=True, check=True)
f = sys.argv[3] if len(sys.argv) > 3 else None
for m in re.finditer(r"^@ (\S+)$|<<<<\n(.*?)\n====\n(.*?)\n?>>>>", rest, re.S | re.M):
    if m.group(1): f = m.group(1); continue
    p = f"{s}/{f}"
    t = open(p).read()
    assert t.count(m.group(2)) == 1, (f, t.count(m.group(2)), m.group(2))
    open(p, "w").write(t.replace(m.group(2), m.group(3)))
o = subprocess.run(["git", "-C", s, "diff"], capture_output=True, text=True).stdout
open(d + "/patch.diff", "w").write(o)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
shutil.copy("/verif/tools/demo.sh", d + "/demo.sh")
shutil.rmtree(s)
print(len(o.splitlines()), "diff lines")
