#!/usr/bin/env python3
"""Development aid: changes the repository in many small ways in scratch copies
and lists the changes that a reduced run of the checks does not notice.

usage: mutants.py OUT PERCENT SEED FILE...   (files relative to the repository)
"""
import concurrent.futures, os, random, re, resource, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import run as R

out, pct, seed, files = sys.argv[1], float(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
H = os.path.join(R.VERIF, "harness")
TESTS = os.environ.get("MUT_TESTS", "C(01|02|03|04|05|06|07|08|09|10|11|13|14|15|17|18)_|C16_Table")
SCALE = os.environ.get("MUT_SCALE", "5")
env = R.go_env(None)
top = tempfile.mkdtemp(prefix="mut-")
mut = os.path.join(top, "mutate")
BASE = os.path.join(top, "base")
subprocess.run(["git", "clone", "-q", "/repo", BASE], check=True)
subprocess.run(["go", "build", "-o", mut, "./cmd/mutate"], cwd=H, env=env, check=True)
todo = []
rnd = random.Random(seed)
only = os.environ.get("MUT_ONLY")
for f in files:
    for l in subprocess.run([mut, BASE + "/" + f], capture_output=True, text=True).stdout.splitlines():
        k, what = l.split(" ", 1)
        if (rnd.random() * 100 < pct) if not only else (f + " " + k) in open(only).read().split("\n"):
            todo.append((f, k, what))
print(len(todo), "changes")


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    os.setsid()


def one(job):
    f, k, what = job
    d = tempfile.mkdtemp(dir=top)
    try:
        repo = os.path.join(d, "repo")
        shutil.copytree(BASE, repo, ignore=shutil.ignore_patterns(".git"))
        src = subprocess.run([mut, BASE + "/" + f, k], capture_output=True, text=True).stdout
        open(os.path.join(repo, f), "w").write(src)
        open(os.path.join(d, "go.mod"), "w").write(open(H + "/go.mod").read().replace("=> /repo", "=> " + repo))
        shutil.copy(H + "/go.sum", d)
        os.mkdir(d + "/bin")
        os.mkdir(d + "/tmp")
        os.mkdir(d + "/out")
        e = dict(env, VERIF_BIN=d + "/bin", VERIF_REPO=repo, TMPDIR=d + "/tmp", VERIF_SCALE=SCALE, VERIF_SEED=str(seed), GOMAXPROCS="2", VERIF_DIR=R.VERIF, VERIF_OUT=d + "/out")
        for cmd in (["go", "test", "-modfile=" + d + "/go.mod", "-vet=off", "-c", "-o", d + "/checks.test", "./checks"],
                    ["go", "build", "-modfile=" + d + "/go.mod", "-o", d + "/bin/", "github.com/google/capslock/cmd/capslock", "github.com/google/capslock/cmd/capslock-git-diff"]):
            r = subprocess.run(cmd, cwd=H, env=e, capture_output=True, text=True)
            if r.returncode:
                return job, "no build"
        with open(d + "/log", "w") as lf:
            p = subprocess.Popen([d + "/checks.test", "-test.failfast", "-test.run", TESTS], cwd=d, env=e, stdout=lf, stderr=subprocess.STDOUT, preexec_fn=limit)
            try:
                rc = p.wait(timeout=600)
            except subprocess.TimeoutExpired:
                rc = "timeout"
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            p.wait()
        log = open(d + "/log", errors="replace").read()
        m = re.search(r"--- FAIL: Test(\w+)", log)
        return job, ("survived" if rc == 0 else "%s %s" % (rc, m.group(1) if m else log[-200:].replace("\n", " ")))
    finally:
        shutil.rmtree(d, ignore_errors=True)


n = {}
with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("MUT_WORKERS", "7"))) as ex, open(out, "w") as o:
    for fut in concurrent.futures.as_completed([ex.submit(one, j) for j in todo]):
        (f, k, what), res = fut.result()
        n[res.split()[0]] = n.get(res.split()[0], 0) + 1
        o.write("%s %s | %s | %s\n" % (f, k, res, what))
        o.flush()
shutil.rmtree(top, ignore_errors=True)
print(n)
