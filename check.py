#!/usr/bin/env python3
"""Driver of all the monitors.

  python3 check.py C01          run the check of a property (tier and seed from VERIF_TIER, VERIF_SEED)
  python3 check.py --setup      warm the build cache
  python3 check.py --all        run every check (not used by MANIFEST.json)

The monitor of a property is a Go program in harness/<id>/. It is injected into the module with
'go build -overlay', so it is compiled together with the current working tree of /repo, which itself stays
untouched. Exit 0: held on everything observed; 1: violated; 2: no verdict (build or harness failure,
too few observations).
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
RACE = {"c16", "c18", "c19", "c20", "c40"}
# packages that have to live elsewhere in the module because of Go's internal rule
PLACE = {"c17": "router/virtual/zzverif_c17"}
STANDINS = {"github.com/indigo-web/utils": "utils", "github.com/indigo-web/chunkedbody": "chunkedbody"}
RUN_LIMIT = {"quick": 780, "thorough": 6000}


def modfile(tmp):
    mod = open(os.path.join(REPO, "go.mod")).read()
    for name, d in STANDINS.items():
        if name in mod:
            mod += "\nreplace %s => %s\n" % (name, os.path.join(HERE, "standins", d))
    with open(os.path.join(tmp, "go.mod"), "w") as f:
        f.write(mod)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(tmp, "go.sum"))
    return os.path.join(tmp, "go.mod")


def overlay(tmp, pid):
    rep = {}
    for d in ("vlib", "vsrv", pid):
        src = os.path.join(HERE, "harness", d)
        dst = os.path.join(REPO, PLACE.get(d, "internal/zzverif/" + d))
        for fn in sorted(os.listdir(src)):
            if fn.endswith(".go"):
                rep[os.path.join(dst, fn)] = os.path.join(src, fn)
    p = os.path.join(tmp, "overlay.json")
    with open(p, "w") as f:
        json.dump({"Replace": rep}, f)
    return p


def env(tmp):
    e = dict(os.environ)
    home = e.get("HOME") or "/root"
    cache = e.get("GOCACHE") or os.path.join(home, ".cache", "go-build")
    try:
        os.makedirs(cache, exist_ok=True)
        if not os.access(cache, os.W_OK):
            raise OSError
    except OSError:
        cache = os.path.join(tmp, "gocache")
    gopath = e.get("GOPATH") or os.path.join(home, "go")
    for k in ("GOFLAGS", "GOROOT", "GOEXPERIMENT", "GODEBUG"):
        e.pop(k, None)
    e.update(GOCACHE=cache, GOPATH=gopath, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off",
             GONOSUMDB="*", GOWORK="off", CGO_ENABLED="1", GOTMPDIR=tmp, TMPDIR=tmp)
    return e


def build(tmp, pid):
    out = os.path.join(tmp, "monitor")
    cmd = ["go", "build", "-buildvcs=false", "-modfile=" + modfile(tmp), "-overlay=" + overlay(tmp, pid), "-o", out]
    if pid in RACE:
        cmd.insert(2, "-race")
    cmd.append("./" + PLACE.get(pid, "internal/zzverif/" + pid))
    p = subprocess.run(cmd, cwd=REPO, env=env(tmp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return (out if p.returncode == 0 else None), p.stdout


def known(prop):
    out = {}
    p = os.path.join(HERE, "KNOWN_FINDINGS.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k.get("property") == prop and k.get("status") == "known":
                    out[k["kind"]] = k["what"]
    return out


def repo_frame(text):
    """A frame of the repository that isn't the monitor's."""
    for m in re.finditer(r"^\s+(\S+\.go):\d+", text, re.M):
        f = m.group(1)
        if f.startswith(REPO + "/") and "zzverif" not in f:
            return True
    return False


def crash(stderr):
    """Crash or race reports of the process, as violations; None if it isn't the monitored code's fault."""
    vs = []
    for blk in re.findall(r"={18}\nWARNING: DATA RACE\n.*?\n={18}", stderr, re.S):
        if repo_frame(blk):
            vs.append({"kind": "data-race", "detail": blk[:6000]})
    m = re.search(r"^(panic: |fatal error: |unexpected fault address|SIG[A-Z]+: )", stderr, re.M)
    if m:
        tail = stderr[m.start():]
        # the first goroutine printed is the crashing one, except for deadlocks
        parts = tail.split("\n\n")
        n = next((i for i, b in enumerate(parts) if re.match(r"goroutine \d+", b)), 1)
        first = "\n\n".join(parts[:n + 1])
        if "monitor panic:" not in first and repo_frame(first):
            vs.append({"kind": "crash", "detail": tail[:6000]})
    return vs


def run_check(prop):
    t0 = time.time()
    pid = prop.lower()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in RUN_LIMIT:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        binary, log = build(tmp, pid)
        if binary is None:
            print("the monitor of %s does not build:\n%s" % (prop, log))
            return 2
        tb = time.time()
        scratch = os.path.join(tmp, "scratch")
        os.mkdir(scratch)
        out = os.path.join(tmp, "result.json")
        kn = known(prop)
        e = env(tmp)
        for k in ("GOFLAGS", "GOCACHE", "GOPATH"):
            e.pop(k, None)
        e.update(VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_SCRATCH=scratch, VERIF_OUT=out, VERIF_REPO=REPO,
                 VERIF_KNOWN="\n".join(kn), HOME=scratch, XDG_CACHE_HOME=scratch, GOTRACEBACK="all",
                 GORACE="halt_on_error=0 exitcode=66 history_size=3")
        errp = os.path.join(tmp, "stderr")
        timed_out = False
        with open(errp, "w") as ef, open(os.path.join(tmp, "stdout"), "w") as of:
            p = subprocess.Popen([binary], cwd=scratch, env=e, stdout=of, stderr=ef, stdin=subprocess.DEVNULL)
            try:
                rc = p.wait(timeout=RUN_LIMIT[tier])
            except subprocess.TimeoutExpired:
                timed_out = True
                p.kill()
                rc = p.wait()
        stderr = open(errp, errors="replace").read()
        res = {}
        if os.path.exists(out):
            res = json.load(open(out))
        vs = (res.get("violations") or []) + crash(stderr)
        inconcl = list(res.get("inconclusive") or [])
        if not res and not vs:
            inconcl.append("the monitor ended without a result (exit %s%s)" % (rc, ", time limit" if timed_out else ""))
        if rc == 66 and not any(v["kind"] == "data-race" for v in vs):
            inconcl.append("the race detector reported something outside of the repository")
        cov = {"evaluations": res.get("evaluations", 0), "distinct_nontrivial": res.get("distinct_nontrivial", 0),
               "rule": res.get("rule", ""), "samples": res.get("samples") or [], "events": res.get("counters") or {},
               "race_detector": pid in RACE}
        if res.get("exhaustive"):
            cov["exhaustive"] = True
        if inconcl:
            cov["inconclusive"] = inconcl
        known_seen = res.get("known") or []
        cov["known_findings_seen"] = known_seen
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": (res.get("assumptions") or []) + [
                  "indigo-web/utils and indigo-web/chunkedbody are offline stand-ins (standins/)"],
              "wall_s": round(time.time() - t0, 2), "build_s": round(tb - t0, 2), "violations": len(vs)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k in known_seen:
            print("KNOWN-FINDING: property=%s %s" % (prop, kn.get(k, k)))
        if vs:
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            rp = os.path.join(HERE, "replays", prop + ".json")
            with open(rp, "w") as f:
                json.dump({"property": prop, "seed": seed, "tier": tier,
                           "replay_cmd": "cd %s && VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s" % (HERE, seed, tier, prop),
                           "violations": vs, "stderr_tail": stderr[-4000:]}, f, indent=1)
                f.write("\n")
            for v in vs[:5]:
                print("  %s: %s" % (v["kind"], v["detail"][:600]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            return 1
        if inconcl or rc != 0:
            print("no verdict for %s: %s\n%s" % (prop, "; ".join(inconcl) or "exit %s" % rc, stderr[-3000:]))
            return 2
        print("%s held: %d evaluations, %d distinct, %s (%.1f s)" % (
            prop, cov["evaluations"], cov["distinct_nontrivial"],
            ", ".join("%s=%d" % kv for kv in sorted(cov["events"].items())), time.time() - t0))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def props():
    return sorted(d.upper() for d in os.listdir(os.path.join(HERE, "harness")) if re.match(r"c\d\d$", d))


def main():
    if len(sys.argv) != 2:
        print(__doc__)
        return 2
    arg = sys.argv[1]
    if arg == "--setup":
        for p in props():
            tmp = tempfile.mkdtemp(prefix="verif-setup-")
            try:
                binary, log = build(tmp, p.lower())
                if binary is None:
                    print("the monitor of %s does not build:\n%s" % (p, log))
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        return 0
    if arg == "--all":
        rcs = {p: run_check(p) for p in props()}
        print({p: rc for p, rc in rcs.items() if rc})
        return max(rcs.values())
    if arg not in props():
        print("no such check: " + arg)
        return 2
    return run_check(arg)


sys.exit(main())
