#!/usr/bin/env python3
"""Development tool: random operator mutants of /repo's sources; stable tests first, then the checks mapped to the file, until one reports.
usage: automut.py N SEED WORKERS [file-regex]   (results: /tmp/aw/results.jsonl)"""
import json, os, random, re, shutil, subprocess, sys, time, threading, hashlib
N, SEED, K = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
FR = re.compile(sys.argv[4] if len(sys.argv) > 4 else ".")
W = "/tmp/aw"; V = os.environ.get("AW_VERIF", "/verif")
MAP = [("thts.cpp", "C01 C02 C03 C25 C20"), ("include/thts.h", "C01 C02 C03 C25"), ("mc_eval", "C19 C25 C26"), ("thts_logger|_logger", "C20"), ("thts_env_context", "C22 C03"), ("thts_env\\.", "C28 C19 C22 C04"),
  ("thts_types", "C21 C27 C26"), ("thts_manager", "C17 C18 C05 C15 C25"), ("helper", "C17 C08 C10 C16"), ("distributions", "C16"), ("uct/", "C06 C07 C08 C04 C28 C29 C27 C20"),
  ("tents/", "C11 C08 C10 C24 C29 C27"), ("rents/", "C12 C08 C29 C27"), ("dents/", "C14 C13 C15 C10 C08 C27 C29"), ("est/", "C13 C10 C08 C27 C29 C20"), ("ments/", "C09 C10 C15 C08 C28 C27 C29"),
  ("decaying_temp", "C15"), ("common/dp", "C13 C08 C25 C27"), ("common/ent", "C14 C25 C27"), ("common/emp", "C13 C14 C08 C25 C27"), ("thts_decision_node", "C04 C05 C27 C25 C26 C23"), ("thts_chance_node", "C04 C05 C27 C25 C26 C23")]
OPS = [(r"(?<![<>=\-])<(?![<=])", "<="), (r"<=", "<"), (r"(?<![->=])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r"\+= ", "-= "), (r"-= ", "+= "), (r"\+\+", "--"), (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "2"), (r"\b1\.0\b", "0.0"), (r"\b0\.0\b", "1.0"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bmax\(", "min("), (r"\bmin\(", "max("), (r"!(?=[a-z_(])", "")]
def cands():
    out = []
    fs = subprocess.run("git -C /repo ls-files src include", shell=True, stdout=subprocess.PIPE, text=True).stdout.split()
    for f in fs:
        if "README" in f or "templates/thts" in f or not FR.search(f): continue
        L = open("/repo/" + f).read().split("\n"); blk = False
        for i, l in enumerate(L):
            s = l.strip()
            if s.startswith("/*"): blk = True
            if blk or s.startswith(("//", "*", "#", "using", "template", "throw", "namespace")):
                if "*/" in s: blk = False
                continue
            code = l.split("//")[0]
            for pat, rep in OPS:
                if pat.startswith("(?<!") and ("<" in code and re.search(r"(template|cast|_ptr|make_|vector|unordered|map|pair|hash|function)<", code) or "include" in code): continue
                for m in re.finditer(pat, code):
                    if "->" in code[max(0, m.start()-1):m.end()+1] or '"' in code[:m.start()] and code[:m.start()].count('"') % 2: continue
                    
                    if rep in ("<=", ">=") and not re.search(r"\b(if|while|for|return|\?)", code): continue
                    out.append((f, i, l[:m.start()] + rep + l[m.end():], "op"))
            if re.match(r"^[\w:>\-.\[\]()*&, ]+(\(|[-+*/]?=|\+\+).*;$", s) and not re.match(r"^(return|throw|auto|const|int|double|bool|shared_ptr|std::|string|void|virtual|for|if)", s):
                out.append((f, i, re.match(r"\s*", l).group() + ";", "del"))
            m = re.match(r"^(\s*(?:else )?(?:\} else )?if ?)\((.*)\)( ?\{?)\s*$", code)
            if m: out.append((f, i, m.group(1) + "(!(" + m.group(2) + "))" + m.group(3), "neg")); out.append((f, i, m.group(1) + "((" + m.group(2) + ") && false)" + m.group(3), "off"))
    return out
C = cands(); print(len(C), "candidates", flush=True)
rnd = random.Random(SEED); rnd.shuffle(C)
# spread over files
by = {}
for c in C: by.setdefault(c[0], []).append(c)
sel = []
while len(sel) < N and by:
    for f in list(by):
        k = 1 + len(by[f]) // 60
        for _ in range(min(k, len(by[f]))): sel.append(by[f].pop())
        if not by[f]: del by[f]
sel = sel[:N]; rnd.shuffle(sel)
done = set()
if os.path.exists(W + "/results.jsonl"):
    for l in open(W + "/results.jsonl"): done.add(json.loads(l)["id"])
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); lock = threading.Lock(); it = iter(sel)
def worker(k):
    D = "%s/%d" % (W, k); R = D + "/repo"; Vc = D + "/verif"; os.makedirs(D, exist_ok=True)
    if not os.path.exists(R):
        subprocess.check_call(["cp", "-a", "/repo", R])
        for f in ("build.sh", "test.sh"): open(D + "/" + f, "w").write(open("/opt/vp/" + f).read().replace("/repo", R).replace("/opt/vp/build.sh", D + "/build.sh").replace("-j8", "-j3"))
    subprocess.check_call("mkdir -p %s; rsync -a --delete --exclude work --exclude .git --exclude seeded --exclude build --exclude evidence %s/ %s/" % (Vc, V, Vc), shell=True)
    while True:
        with lock:
            c = next(it, None)
        if c is None: return
        f, i, new, kind = c; mid = hashlib.sha1(("%s:%d:%s" % (f, i, new)).encode()).hexdigest()[:10]
        if mid in done: continue
        subprocess.check_call("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (R, R), shell=True)
        p = R + "/" + f; L = open(p).read().split("\n"); old = L[i]; L[i] = new; open(p, "w").write("\n".join(L))
        r = {"id": mid, "file": f, "line": i + 1, "old": old.strip(), "new": new.strip(), "kind": kind}; t0 = time.time()
        try: subprocess.run(["timeout", "200", "bash", D + "/test.sh", D + "/o.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL); passed = set(json.load(open(D + "/o.json"))["passed"])
        except Exception: passed = set()
        if stable - passed: r["res"] = "tests"
        else:
            r["res"] = "MISSED"; r["ran"] = []
            for pat, cs in MAP:
                if re.search(pat, f):
                    for pr in cs.split():
                        q = subprocess.run([Vc + "/check", pr], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_REPO=R, VERIF_SEED="1")); r["ran"].append((pr, q.returncode))
                        if q.returncode == 1 and "VIOLATION property=" + pr in q.stdout: r["res"] = "caught " + pr; break
                        if q.returncode not in (0, 1): r["res"] = "ODD %s" % pr; r["out"] = q.stdout[-600:]; break
                    break
            # keep the build cache small
            if int(subprocess.run("du -sm %s/build | cut -f1" % Vc, shell=True, stdout=subprocess.PIPE, text=True).stdout or 0) > 5000: shutil.rmtree(Vc + "/build", ignore_errors=True)
        r["s"] = round(time.time() - t0)
        with lock:
            open(W + "/results.jsonl", "a").write(json.dumps(r) + "\n"); print(r["res"], f, i + 1, "|", r["old"][:90], "=>", r["new"][:90], r["s"], flush=True)
T = [threading.Thread(target=worker, args=(k,)) for k in range(K)]
for t in T: t.start()
for t in T: t.join()
