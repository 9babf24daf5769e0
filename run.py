#!/usr/bin/env python3
"""Runs the check of one property.

usage: run.py <property>                 (VERIF_TIER, VERIF_SEED in the environment)
       run.py <property> --replay FILE   (runs one recorded case again)

Exit status: 0 the property held, 1 it is broken (with a VIOLATION line),
anything else is an error of the check itself.
"""
import base64, concurrent.futures, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
GOBIN = "/opt/veriftools/go1.23.12/bin"
ERR_BUILD, ERR_RUN, ERR_TIMEOUT, ERR_VACUOUS = 3, 4, 5, 6
LIMIT = {"quick": 780, "thorough": 860}


def go_env(scratch):
    e = dict(os.environ)
    for k in ("GOEXPERIMENT", "GODEBUG", "GOOS", "GOARCH", "GOROOT", "GOBIN", "GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE"):
        e.pop(k, None)
    if os.path.isdir(GOBIN):
        e["PATH"] = GOBIN + ":" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOTOOLCHAIN="local", GONOSUMDB="*", GONOSUMCHECK="1", GOSUMDB="off",
             GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_NOSYSTEM="1", LC_ALL="C")
    e.update(CGO_ENABLED="1")
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


def sh(cmd, cwd, env, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def build(scratch, env, pid):
    """Builds the test binary and the commands from the current working tree."""
    h = os.path.join(VERIF, "harness")
    mod = os.path.join(scratch, "go.mod")
    text = open(os.path.join(h, "go.mod")).read()
    text = text.replace("=> /repo", "=> " + REPO)
    open(mod, "w").write(text)
    shutil.copy(os.path.join(h, "go.sum"), os.path.join(scratch, "go.sum"))
    os.mkdir(os.path.join(scratch, "bin"))
    cmds = [["go", "test", "-modfile=" + mod, "-vet=off", "-c", "-o", os.path.join(scratch, "checks.test"), "./checks"],
            ["go", "build", "-modfile=" + mod, "-o", os.path.join(scratch, "bin") + "/", "github.com/google/capslock/cmd/capslock", "github.com/google/capslock/cmd/capslock-git-diff"]]
    if pid == "C21":
        cmds.append(["go", "build", "-race", "-modfile=" + mod, "-o", os.path.join(scratch, "bin") + "/", "./cmd/conc"])
    for cmd in cmds:
        r = sh(cmd, h, env)
        if r.returncode != 0:
            print("build failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
            sys.exit(ERR_BUILD)


def run_one(job):
    """Runs one test in one process; returns its output and exit status."""
    test, shard, nshards, scratch, env, deadline, extra = job
    e = dict(env)
    out = os.path.join(scratch, "out")
    cwd = os.path.join(scratch, "cwd", "%s.%d" % (test, shard))
    tmp = os.path.join(cwd, "tmp")
    os.makedirs(tmp)
    e.update(VERIF_OUT=out, VERIF_SHARD=str(shard), VERIF_SHARDS=str(nshards), VERIF_BIN=os.path.join(scratch, "bin"), VERIF_REPO=REPO,
             VERIF_DIR=VERIF, TMPDIR=tmp, GOMAXPROCS=e.get("VERIF_GOMAXPROCS", "3"))
    left = max(5, deadline - time.time())
    cmd = [os.path.join(scratch, "checks.test"), "-test.run=^%s$" % test, "-test.timeout=0"] + extra
    logf = os.path.join(out, "%s.%d.log" % (test, shard))
    with open(logf, "w") as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            rc = p.wait(timeout=left)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    fail = None
    d = os.path.join(cwd, "testdata", "rapid", test)
    if os.path.isdir(d):
        fs = sorted(os.listdir(d))
        if fs:
            fail = open(os.path.join(d, fs[-1]), "rb").read()
    return test, shard, rc, open(logf, errors="replace").read(), fail


def main():
    pid = sys.argv[1]
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in LIMIT:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    deadline = t0 + LIMIT[tier]
    scratch = tempfile.mkdtemp(prefix="verif-" + pid + "-")
    try:
        return check(pid, replay, tier, seed, t0, deadline, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(pid, replay, tier, seed, t0, deadline, scratch):
    env = go_env(scratch)
    env["VERIF_TIER"], env["VERIF_SEED"] = tier, str(seed % (1 << 31))
    os.mkdir(os.path.join(scratch, "out"))
    try:
        build(scratch, env, pid)
    except subprocess.TimeoutExpired:
        print("build timed out")
        return ERR_BUILD
    r = sh([os.path.join(scratch, "checks.test"), "-test.list", "^Test%s_" % pid], scratch, env)
    tests = [l for l in r.stdout.split() if l.startswith("Test%s_" % pid)]
    if not tests:
        print("no tests for %s\n%s" % (pid, r.stdout))
        return ERR_RUN
    # A test whose name ends in a digit after X runs in that many processes.
    jobs = []
    extra = []
    if replay:
        rec = json.load(open(replay))
        tests = [rec["test"]]
        env["VERIF_SEED"] = str(rec["seed"] % (1 << 31))
        env["VERIF_TIER"] = rec["tier"]
        if rec.get("failfile"):
            ff = os.path.join(scratch, "failfile")
            open(ff, "wb").write(base64.b64decode(rec["failfile"]))
            extra = ["-rapid.failfile=" + ff]
        jobs = [(rec["test"], rec["shard"], rec["shards"], scratch, env, deadline, extra)]
    else:
        for t in tests:
            m = re.search(r"X(\d+)$", t)
            n = int(m.group(1)) if m else 6
            for i in range(n):
                jobs.append((t, i, n, scratch, env, deadline, extra))
    workers = int(os.environ.get("VERIF_JOBS", "6"))
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        results = list(ex.map(run_one, jobs))
    out = os.path.join(scratch, "out")
    violations, errors = [], []
    timeout = False
    for test, shard, rc, log, fail in results:
        base = os.path.join(out, "%s.%d" % (test[4:], shard))
        if os.path.exists(base + ".violation"):
            violations.append((test, shard, open(base + ".violation", errors="replace").read(), fail))
        elif rc is None:
            timeout = True
            errors.append("%s shard %d: timed out" % (test, shard))
        elif rc != 0 or not os.path.exists(base + ".stats"):
            errors.append("%s shard %d: exit status %s\n%s" % (test, shard, rc, log[:3000] + "\n...\n" + log[-3000:]))
    # Coverage, measured.
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "classes": {}, "tests": {}}
    known = {}
    rules, hashes = {}, {}
    for f in sorted(os.listdir(out)):
        if f.endswith(".stats"):
            s = json.load(open(os.path.join(out, f)))
            cov["evaluations"] += s["Evaluations"]
            rules[s["Test"]] = s["Rule"]
            t = cov["tests"].setdefault(s["Test"], {"evaluations": 0, "distinct_nontrivial": 0})
            t["evaluations"] += s["Evaluations"]
            for k, v in (s["Classes"] or {}).items():
                k = s["Test"] + "/" + k
                cov["classes"][k] = cov["classes"].get(k, 0) + v
            have = sum(1 for x in cov["samples"] if x["test"] == s["Test"])
            for x in (s["Samples"] or [])[:max(0, 2 - have)]:
                cov["samples"].append({"test": s["Test"], "case": x})
            for k, v in (s["Known"] or {}).items():
                known[k] = known.get(k, 0) + v
        elif f.endswith(".hashes"):
            test = f.rsplit(".", 2)[0].split("_", 1)[1]
            hashes.setdefault(test, set()).update(open(os.path.join(out, f)).read().split())
    for test, hs in hashes.items():
        cov["distinct_nontrivial"] += len(hs)
        cov["tests"].setdefault(test, {"evaluations": 0})["distinct_nontrivial"] = len(hs)
    cov["rule"] = "; ".join("%s: %s" % kv for kv in sorted(rules.items()))
    cov["classes"] = dict(sorted(cov["classes"].items()))
    status = 0
    listed = [l.strip() for l in open(os.path.join(VERIF, "known_findings.txt"))]
    for k in sorted(known):
        # The tests excuse nothing by themselves: a finding must be listed.
        if "known: property=%s %s" % (pid, k) in listed:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        else:
            violations.append((tests[0], 0, "not listed in known_findings.txt: " + k, None))
    for test, shard, text, fail in violations[:1]:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%d.json" % (pid, tier, seed))
        n = next((int(m.group(1)) for m in [re.search(r"X(\d+)$", test)] if m), 6)
        json.dump({"property": pid, "test": test, "shard": shard, "shards": n, "seed": seed, "tier": tier,
                   "failfile": base64.b64encode(fail).decode() if fail else None, "case": text.split("\n")}, open(path, "w"), indent=1)
        print(text[:8000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        status = 1
    for e in errors:
        print("ERROR " + e)
    if status == 0 and errors:
        status = ERR_TIMEOUT if timeout else ERR_RUN
    if status == 0 and not replay and cov["distinct_nontrivial"] == 0:
        print("ERROR nothing non-trivial was checked")
        status = ERR_VACUOUS
    if not replay:
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "wall_s": round(time.time() - t0, 2), "violations": len(violations),
              "assumptions": ["the Go type checker, SSA builder and VTA call graph of golang.org/x/tools at the pinned version", "generated programs are bounded in size (see DESIGN.md)"]}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s tier=%s seed=%d: %d evaluations, %d distinct non-trivial, %.1fs, exit %d" % (pid, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0, status))
    return status


if __name__ == "__main__":
    sys.exit(main())
