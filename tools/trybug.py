#!/usr/bin/env python3
"""usage: trybug.py [-j N] [-c CHECK,...] ID...

Applies each planted bug to a copy of /repo and runs the build, the tests, the
demo and the check of its property (or the checks given) on the copy.
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args, jobs, checks = sys.argv[1:], 2, None
while args[0].startswith("-"):
    if args[0] == "-j":
        jobs = int(args[1])
    if args[0] == "-c":
        checks = args[1].split(",")
    args = args[2:]
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
top = tempfile.mkdtemp(prefix="try-")
snap = top + "/verif"
shutil.copytree(V, snap, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))


def sh(cmd, cwd, timeout=900, **kw):
    try:
        return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, "timeout", str(e.stdout)[-300:])


def one(id):
    d = os.path.join(V, "seeded", id)
    prop = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(dir=top)
    repo = w + "/repo"
    shutil.copytree(d, w + "/seed")
    subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
    a = sh("bash %s/seed/demo.sh" % w, repo, 300).returncode
    r = sh("git apply %s/seed/patch.diff && go build ./..." % w, repo)
    if r.returncode:
        return "%s: does not apply or build: %s" % (id, r.stdout[-300:])
    passed = set()
    for l in sh("go test -json -vet=off -count=1 -timeout 10m ./...", repo).stdout.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("Action") == "pass" and e.get("Test"):
            passed.add(e["Package"] + "/" + e["Test"])
    t = "ok" if stable <= passed else "FAILED %s" % sorted(stable - passed)
    c = sh("bash %s/seed/demo.sh" % w, repo, 300).returncode
    out = "%s property=%s demo-clean=%s tests=%s demo-patched=%s" % (id, prop, a, t, c)
    for ch in checks or [prop]:
        v = w + "/v" + ch
        shutil.copytree(snap, v)
        r = sh("python3 run.py " + ch, v, env=dict(os.environ, VERIF_REPO=repo))
        m = re.search("VIOLATION property=.*", r.stdout)
        out += "\n    %s exit=%s %s %s" % (ch, r.returncode, "caught" if r.returncode == 1 and m else "MISSED", r.stdout.strip().split("\n")[-1])
    shutil.rmtree(w, ignore_errors=True)
    return out


with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
    for f in concurrent.futures.as_completed([ex.submit(one, i) for i in args]):
        print(f.result(), flush=True)
shutil.rmtree(top, ignore_errors=True)
