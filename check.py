#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only FN] [-v]
   check.py --replay FILE

Decides one property with the symbolic engine (engine/): every harness function under harness/ whose
directive says prop=PROPERTY is executed symbolically over /repo's current source.
Exit 0: held on everything explored (bounds in evidence/PROPERTY.json); exit 1: a VIOLATION line."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")  # the override is for tools/mutate.py only
GO123 = "/opt/veriftools/go1.23.12/bin"
HARD = 840          # seconds for a whole quick check
T0 = time.time()


def genv(**kw):
    e = dict(os.environ)
    e.update(GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", CGO_ENABLED="0")
    e.update(kw)
    return e


def build_engine():
    """Builds the engine from its committed source into a scratch directory."""
    d = os.path.join(V, ".build")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "engine-%d" % os.getpid())
    r = subprocess.run(["go", "build", "-o", out, "."], cwd=os.path.join(V, "engine"),
                       env=genv(GOFLAGS="-mod=mod"), capture_output=True, text=True)
    if r.returncode != 0:
        print("engine build failed:\n" + r.stderr)
        return None
    return out


def harnesses(prop, tier):
    out = []
    hd = os.path.join(V, "harness")
    for pkg in sorted(os.listdir(hd)):
        for f in sorted(os.listdir(os.path.join(hd, pkg))):
            if not f.endswith(".go"):
                continue
            doc = []
            for line in open(os.path.join(hd, pkg, f)):
                if line.startswith("//"):
                    doc.append(line[2:].strip())
                    continue
                m = re.match(r"func (\w+)\(\)", line)
                if m and doc:
                    d = {}
                    for l in doc:
                        if l.startswith("vp:"):
                            for kv in l[3:].split():
                                k, _, v = kv.partition("=")
                                d[k] = v
                    if prop in d.get("prop", "").split(",") and (d.get("tier") != "thorough" or tier == "thorough"):
                        b = d.get("budget", "60")
                        b = b.split("/")[1 if tier == "thorough" and "/" in b else 0]
                        out.append({"pkg": pkg, "fn": m.group(1), "dir": d, "budget": int(b),
                                    "doc": " ".join(l for l in doc if not l.startswith("vp:"))})
                doc = []
    return out


def known_for(prop):
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop and k["status"] == "known"]


def run_engine(eng, h, tier, known, tmp, cap):
    name = h["pkg"] + "." + h["fn"]
    out = os.path.join(tmp, name + ".json")
    b = max(5, min(h["budget"], int(cap)))
    cmd = [eng, "-pkg", h["pkg"], "-fn", h["fn"], "-tier", tier, "-out", out, "-budget", str(b),
           "-hdir", os.path.join(V, "harness"), "-repo", REPO]
    ks = [k["match"] for k in known if k.get("harness") in (None, name)]
    if ks:
        kf = os.path.join(tmp, name + ".known")
        open(kf, "w").write("\n".join(ks))
        cmd += ["-known", kf]
    try:
        r = subprocess.run(cmd, env=genv(GOMEMLIMIT="6GiB"), capture_output=True, text=True, timeout=b * 2 + 120)
        if os.path.exists(out):
            o = json.load(open(out))
            o["budget"] = b
            return o
        msg = (r.stderr or r.stdout)[-2000:]
        return {"harness": name, "status": "error", "rc": r.returncode, "err": msg}
    except subprocess.TimeoutExpired:
        return {"harness": name, "status": "error", "rc": -1, "err": "engine timeout"}


native_lock = threading.Lock()
native_bins = {}


def std_stubs(dir):
    """The standard-library packages a harness replaces by abstract models (stub/std/<import path>)."""
    out = []
    root = os.path.join(dir, "stub", "std")
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(".go"):
                rel = os.path.relpath(d, root)
                gd = os.path.join(GO123[:-4], "src", rel)
                names = sorted(n for n in os.listdir(gd) if n.endswith(".go") and not n.endswith("_test.go"))
                for i, n in enumerate(names):
                    out.append((os.path.join(gd, n), open(os.path.join(d, f)).read() if i == 0 else "package %s\n" % os.path.basename(rel)))
    pj = os.path.join(dir, "stub", "patch.json")
    if os.path.exists(pj):
        for p in json.load(open(pj)):
            f = os.path.join(GO123[:-4], "src", p["file"])
            out.append((f, open(f).read().replace(p["old"], p["new"])))
    return out


def mod_stubs(dir, tmp):
    """The module file: /opt/vp/arpc.mod, with the modules modelled under stub/mod replaced."""
    root = os.path.join(dir, "stub", "mod")
    rep = ["replace %s => %s\n" % (os.path.relpath(d, root), d) for d, _, fs in os.walk(root) if "go.mod" in fs]
    if not rep:
        return "/opt/vp/arpc.mod"
    out = os.path.join(tmp, "arpc.mod")
    open(out, "w").write(open("/opt/vp/arpc.mod").read() + "\n" + "".join(rep))
    shutil.copy("/opt/vp/arpc.sum", os.path.join(tmp, "arpc.sum"))
    return out


def native_build(pkg, fn, tmp):
    """Compiles the harness with the real code (overlay; nothing is written in /repo)."""
    key = pkg + "." + fn
    with native_lock:
        if key in native_bins:
            return native_bins[key]
        d = os.path.join(tmp, "native-" + key)
        os.makedirs(d, exist_ok=True)
        rep = {}
        ext = False
        for p in ("vp", "fake", pkg):
            for f in os.listdir(os.path.join(V, "harness", p)):
                if f.endswith(".go"):
                    src = os.path.join(V, "harness", p, f)
                    rep[os.path.join(REPO, "zzverif", p, f)] = src
                    if p == pkg and "//vp:ext" in open(src).read():
                        ext = True
                elif f.startswith("stub_"):
                    pass
        for i, (dst, content) in enumerate(std_stubs(os.path.join(V, "harness", pkg))):
            src = os.path.join(d, "stub%d.go" % i)
            open(src, "w").write(content)
            rep[dst] = src
        main = os.path.join(d, "main.go")
        open(main, "w").write('package main\n\nimport h "github.com/lesismal/arpc/zzverif/%s"\n\nfunc main() { h.%s() }\n' % (pkg, fn))
        rep[os.path.join(REPO, "zzverif", "run", "main.go")] = main
        ov = os.path.join(d, "overlay.json")
        json.dump({"Replace": rep}, open(ov, "w"))
        flags = "-mod=readonly" + (" -modfile=" + mod_stubs(os.path.join(V, "harness", pkg), d) if ext else "")
        out = os.path.join(d, "run")
        r = subprocess.run(["go", "build", "-overlay", ov, "-o", out, "./zzverif/run"], cwd=REPO,
                           env=genv(GOFLAGS=flags, PATH=GO123 + ":" + os.environ["PATH"]), capture_output=True, text=True)
        native_bins[key] = out if r.returncode == 0 else None
        if r.returncode != 0:
            print("native build of %s failed: %s" % (key, r.stderr[-1500:]))
        return native_bins[key]


def native_run(binp, model, tmp, timeout=20, pause=None, procs=None):
    """Runs the compiled harness on a model. Returns (outcome, output)."""
    fd, mf = tempfile.mkstemp(dir=tmp, suffix=".model")
    os.write(fd, json.dumps(model).encode())
    os.close(fd)
    e = genv(VP_MODEL=mf)
    if pause:
        e["VP_PAUSE_MS"] = str(pause)
    if procs:
        e["GOMAXPROCS"] = str(procs)
    try:
        r = subprocess.run([binp], env=e, capture_output=True, text=True, timeout=timeout, cwd=tmp, errors="replace")
    except subprocess.TimeoutExpired:
        return "hang", ""
    out = (r.stdout + r.stderr)[-3000:]
    if r.returncode == 42:
        return "assert", out
    if r.returncode == 0:
        return ("assume" if "VP-ASSUME-FAILED" in out else "ok"), out
    if "all goroutines are asleep" in out:
        return "hang", out
    return "crash", out


def replay(h, o, v, tmp):
    """Replays a counterexample against the compiled code. Returns (confirmed, text)."""
    if "noreplay" in h["dir"]:
        return None, "not replayable natively (%s)" % h["dir"].get("noreplay", "")
    b = native_build(h["pkg"], h["fn"], tmp)
    if not b:
        return None, "native build failed"
    det = o["mode"] == "det"
    tries = [(None, None), (150, None)] if det else [(None, None), (None, 1), (None, 2), (100, 4), (None, 8), (20, 1)]
    last = ""
    for pause, procs in tries:
        k, out = native_run(b, v["model"], tmp, timeout=25 if v["kind"] == "hang" else 20, pause=pause, procs=procs)
        last = k
        if k in ("assert", "crash", "hang") and (k == v["kind"] or v["kind"] in ("pool-uaf", "double-put", "stack-overflow", "huge-alloc")):
            return True, "native run: %s\n%s" % (k, out[-1200:])
        if k in ("assert", "crash", "hang"):
            return True, "native run: %s (engine: %s)\n%s" % (k, v["kind"], out[-1200:])
    return False, "native run did not show it (%s)" % last


def main():
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        rf = json.load(open(a[1]))
        tmp = tempfile.mkdtemp(prefix="vprep")
        h = {"pkg": rf["pkg"], "fn": rf["fn"], "dir": rf["directives"]}
        ok, txt = replay(h, {"mode": rf["mode"]}, rf["violation"], tmp)
        print("\n".join(rf["violation"]["trace"] or []))
        print(rf["violation"]["kind"], rf["violation"]["msg"])
        print("confirmed natively:", ok, "\n" + txt)
        shutil.rmtree(tmp)
        return 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    only = a[a.index("--only") + 1] if "--only" in a else None
    verbose = "-v" in a
    hard = HARD if tier == "quick" else 6 * 3600
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tmp = tempfile.mkdtemp(prefix="vp-" + prop)
    eng = None
    try:
        return run(prop, tier, only, verbose, hard, seed, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        try:
            os.unlink(os.path.join(V, ".build", "engine-%d" % os.getpid()))
        except OSError:
            pass


def run(prop, tier, only, verbose, hard, seed, tmp):
    evd = os.environ.get("VP_EVID") or os.path.join(V, "evidence")
    os.makedirs(evd, exist_ok=True)
    for f in os.listdir(evd):
        if f.startswith(prop + ".replay"):
            os.unlink(os.path.join(evd, f))
    eng = build_engine()
    hs = [h for h in harnesses(prop, tier) if not only or h["fn"] == only or h["pkg"] + "." + h["fn"] == only]
    known = known_for(prop)
    hs.sort(key=lambda h: -h["budget"])
    ncpu = 8 if tier == "quick" else 6
    left = lambda: hard - (time.time() - T0) - 90
    res = {}
    if eng:
        with cf.ThreadPoolExecutor(ncpu) as ex:
            def job(h):
                if left() < 10:
                    return {"harness": h["pkg"] + "." + h["fn"], "status": "error", "rc": -2, "err": "no time left"}
                return run_engine(eng, h, tier, known, tmp, left())
            for h, o in zip(hs, ex.map(job, hs)):
                res[h["pkg"] + "." + h["fn"]] = (h, o)
    viols, knowns, problems, notes = [], [], [], []
    validated = 0
    mism = []
    for name, (h, o) in res.items():
        if o["status"] == "error":
            problems.append("%s: engine gave no answer (rc %s): %s" % (name, o.get("rc"), o.get("err", "")[-400:]))
            continue
        for v in o.get("violations") or []:
            if v["known"]:
                knowns.append((name, v))
                continue
            ok, txt = (None, "not attempted: no time left")
            if time.time() - T0 < hard:
                ok, txt = replay(h, o, v, tmp)
            if ok:
                validated += 1
            if ok is False and o["mode"] == "det" and o.get("goroutines", 1) <= 1 and v["kind"] in ("assert", "crash"):
                problems.append("%s: counterexample NOT confirmed by the compiled code, discarded: %s %s" % (name, v["kind"], v["msg"]))
                continue
            viols.append((name, h, o, v, ok, txt))
        # a loop that goes on beyond its bound is only a violation if the compiled code shows one on that input
        for v in (o.get("unwound") or []) if not o.get("violations") else []:
            if time.time() - T0 < hard:
                ok, txt = replay(h, o, v, tmp)
                if ok and txt.startswith(("native run: hang", "native run: crash")):
                    validated += 1
                    viols.append((name, h, o, v, ok, txt))
                    break
        miss = [l for l in o.get("want") or [] if l not in o["reached"]]
        if miss and not o.get("violations"):
            problems.append("%s: witness points not reached within the bound: %s" % (name, ",".join(miss)))
        for u, n in (o.get("unsupported") or {}).items():
            problems.append("%s: not encodable (%d paths cut): %s" % (name, n, u[:300]))
        cut = {k: n for k, n in (o.get("path_ends") or {}).items() if k not in ("done", "assume", "violation", "infeasible", "exit", "unsupported")}
        if cut and not o.get("violations"):
            problems.append("%s: paths cut: %s %s" % (name, cut, o.get("notes") or ""))
        if (o.get("closing_query") or {}).get("verdict") == "sat":
            problems.append("%s: the closing query found inputs on none of the explored paths (an error of the engine)" % name)
        if o["status"] == "bounded" and not o.get("unsupported"):
            problems.append("%s: time budget %ss reached; explored part only" % (name, o.get("budget")))
    # validate the encoding: run witness models of completed paths through the compiled code
    if not viols:
        jobs = []
        for name, (h, o) in res.items():
            if o["status"] in ("error", "violation") or o.get("mode") != "det" or "noreplay" in h["dir"]:
                continue
            for w in (o.get("witnesses") or [])[:3]:
                jobs.append((name, h, w))
        def vjob(j):
            name, h, w = j
            if time.time() - T0 > hard - 60:
                return None
            b = native_build(h["pkg"], h["fn"], tmp)
            if not b:
                return None
            return native_run(b, w["model"], tmp, timeout=20)
        with cf.ThreadPoolExecutor(4) as ex:
            for (name, h, w), r in zip(jobs, ex.map(vjob, jobs)):
                if r is None:
                    continue
                if r[0] in ("ok", "assume"):
                    validated += 1
                else:
                    mism.append("%s: witness %s: native run gave %s: %s" % (name, w["label"], r[0], r[1][-300:]))
    tot = lambda k: sum(o.get(k) or 0 for _, o in res.values() if o["status"] != "error")
    funcs = sorted({f for _, o in res.values() for f in (o.get("functions") or [])})
    samples = []
    for name, (h, o) in res.items():
        if o["status"] == "error":
            continue
        samples.append({"harness": name, "what": h["doc"], "mode": o["mode"], "status": o["status"],
                        "bounds": {"unwind": o["unwind"],
                                   "preemptions": "n/a" if o["mode"] == "det" else ("unlimited (exhaustive)" if o["preempt_completed"] == -1 else o["preempt_completed"])},
                        "states": o["states"], "transitions": o["transitions"], "paths": o["paths"], "asserts": o["asserts"],
                        "queries": o["queries"], "sat": o["sat"], "unsat": o["unsat"], "unknown": o["unknown"],
                        "solver_s": round(o["solver_s"], 2), "wall_s": round(o["wall_s"], 2), "reached": o["reached"],
                        "closing_query": o.get("closing_query"), "racy_fields": o.get("racy_fields"), "cut": o.get("bounded"), "notes": o.get("notes"), "path_ends": o.get("path_ends")})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": tot("states"), "transitions": tot("transitions"), "traces_validated_against_impl": validated,
                       "samples": samples, "paths": tot("paths"), "assertions_checked": tot("asserts"),
                       "solver_queries": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"),
                       "solver_s": round(tot("solver_s"), 2), "functions_encoded": funcs,
                       "closing_queries": {v: sum(1 for x in samples if (x["closing_query"] or {}).get("verdict") == v) for v in sorted({(x["closing_query"] or {}).get("verdict", "none") for x in samples})},
                       "closing_solver_s": round(sum((x["closing_query"] or {}).get("solver_s", 0) for x in samples), 2),
                       "bounds_reduced": problems, "encoding_mismatches": mism,
                       "exhaustive": bool(res) and not problems},
          "assumptions": ["sync.Pool is a LIFO free list; sequentially consistent memory with data-race discovery making racy fields visible",
                          "net.Conn, listener, dialer, codec, logger are the stubs in harness/fake (and in the harness)",
                          "timers fire at any moment after being armed (time itself is not modelled)",
                          "bounds: loop unwinding, sizes and thread counts as stated per harness in samples"],
          "wall_s": round(time.time() - T0, 2), "violations": len(viols)}
    json.dump(ev, open(os.path.join(evd, prop + ".json"), "w"), indent=1)
    for p in problems + mism:
        print("NOTE " + p)
    if verbose:
        for s in samples:
            print("%-28s %-9s %s states=%d paths=%d asserts=%d queries=%d solver=%.1fs wall=%.1fs reached=%s cut=%s pre=%s" % (
                s["harness"], s["status"], s["mode"], s["states"], s["paths"], s["asserts"], s["queries"], s["solver_s"], s["wall_s"], s["reached"], s["cut"], s["bounds"]["preemptions"]))
    printed = set()
    for name, v in knowns:
        for k in known:
            if k["match"] in v["kind"] + ":" + v["msg"] and k.get("harness") in (None, name) and k["what"] not in printed:
                printed.add(k["what"])
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for i, (name, h, o, v, ok, txt) in enumerate(viols):
        rp = os.path.join(evd, "%s.replay%d.json" % (prop, i))
        json.dump({"property": prop, "pkg": h["pkg"], "fn": h["fn"], "directives": h["dir"], "mode": o["mode"], "violation": v,
                   "confirmed_natively": ok, "native": txt,
                   "how": "python3 check.py --replay %s  (runs the harness natively on the model; the trace is the schedule)" % rp}, open(rp, "w"), indent=1)
        print("%s: %s: %s\n   at %s\n   native replay: %s" % (name, v["kind"], v["msg"], v["site"][:400], (txt or "").split("\n")[0]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    print("%s %s: %d harnesses, %d states, %d paths, %d queries, solver %.1fs, wall %.1fs: %s" % (
        prop, tier, len(res), tot("states"), tot("paths"), tot("queries"), tot("solver_s"), time.time() - T0,
        "VIOLATED" if viols else "held on everything explored"))
    if viols:
        return 1
    if not res or all(o["status"] == "error" for _, o in res.values()):
        print("no harness gave an answer")
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except KeyboardInterrupt:
        raise
    sys.exit(rc)
