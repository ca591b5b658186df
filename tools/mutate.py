#!/usr/bin/env python3
"""Development tool: apply small source changes to a scratch copy of /repo, see whether the stable tests notice, and run checks on it.
usage: mutate.py MUTANTS.py [id-regex]      (MUTANTS.py defines M = [(id, properties, [(file, old, new), ...]), ...])"""
import json, os, re, shutil, subprocess, sys, time
W = "/tmp/mut"
R = W + "/repo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
pat = re.compile(sys.argv[2] if len(sys.argv) > 2 else ".")
res_p = W + "/results.json"
res = json.load(open(res_p)) if os.path.exists(res_p) else {}
os.makedirs(W, exist_ok=True)
if not os.path.exists(R):
    subprocess.check_call(["cp", "-a", "/repo", R])
    for f in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + f).read().replace("/repo", R).replace("/opt/vp/build.sh", W + "/build.sh")
        open(W + "/" + f, "w").write(s)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for mid, props, edits in ns["M"]:
    if not pat.search(mid):
        continue
    subprocess.check_call("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (R, R), shell=True)
    bad = None
    for f, old, new in edits:
        p = os.path.join(R, f)
        s = open(p).read()
        if s.count(old) != 1:
            bad = "%s: pattern occurs %d times" % (f, s.count(old))
            break
        open(p, "w").write(s.replace(old, new))
    if bad:
        print(mid, "BAD EDIT", bad, flush=True)
        continue
    diff = subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE, text=True).stdout
    t0 = time.time()
    key = subprocess.run(["sha1sum"], input=diff, stdout=subprocess.PIPE, text=True).stdout[:12]
    old = res.get(mid, {})
    if old.get("key") == key:
        tests = old["tests"]
    else:
        subprocess.run(["bash", W + "/test.sh", W + "/o.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        passed = set(json.load(open(W + "/o.json"))["passed"])
        tests = sorted(stable - passed)
    out = {"key": key, "tests": tests, "checks": old.get("checks", {}) if old.get("key") == key else {}}
    open(W + "/%s.diff" % mid, "w").write(diff)
    msg = []
    for pr in props:
        if not tests or os.environ.get("MUT_FORCE"):
            t1 = time.time()
            p = subprocess.run([V + "/check", pr], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_REPO=R))
            m = re.findall(r"^\[\S+\] (\S+): .* FAILED", p.stdout, re.M)
            out["checks"][pr] = [p.returncode, round(time.time() - t1, 1), m]
            msg.append("%s rc=%d %s %.0fs" % (pr, p.returncode, ",".join(m), time.time() - t1))
            open(W + "/%s.%s.log" % (mid, pr), "w").write(p.stdout)
    res[mid] = out
    json.dump(res, open(res_p, "w"), indent=1)
    print(mid, "TESTS FAIL %d %s" % (len(tests), tests[:2]) if tests else "tests pass", "| " + "; ".join(msg), flush=True)
