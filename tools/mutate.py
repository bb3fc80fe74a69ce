#!/usr/bin/env python3
"""mutate.py FILE PROPS [LINES]: mutates /repo's header FILE line by line in scratch copies, runs the quick checks of PROPS (comma separated)
and reports the mutants that no check and no existing test notices. A tool to find gaps; nothing of it is registered."""
import json, os, re, shutil, subprocess, sys, queue, threading, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = "include/dice/template-library/"
f, props = sys.argv[1], sys.argv[2].split(",")
rng = [int(x) for x in sys.argv[3].split("-")] if len(sys.argv) > 3 else [1, 10**9]
limit = int(os.environ.get("LIMIT", "10000"))
W = int(os.environ.get("WORKERS", "3"))
src = open("/repo/" + INC + f).read().split("\n")
RULES = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
         (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r"\+\+", "--"), (r"--", "++"), (r"\+=", "-="), (r"-=", "+="),
         (r"std::move\(([^()]*)\)", r"\1"), (r"std::forward<[^<>]*>\(([^()]*)\)", r"\1"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
         (r"\bif \((?!constexpr)(.*)\) (\[\[\w+\]\] )?\{$", r"if (false) {"), (r"\bif \((?!constexpr)(.*)\) (\[\[\w+\]\] )?\{$", r"if (true) {"),
         (r"std::exchange\(([^,]*), [^()]*\)", r"\1"), (r"notify_all", "notify_one"), (r"notify_one", "notify_all"),
         (r"memory_order_(acq_rel|acquire|release|seq_cst)", "memory_order_relaxed"), (r"First", "Second"), (r"Second", "First"),
         (r"\bas_const\(([^()]*)\)", r"\1"), (r"noexcept\(.*\) *\{$", "noexcept {"), (r"noexcept\(.*\)$", "noexcept"), (r"\) \{$", ") noexcept {"), (r" \?(.*):(.*)", r" ?\2:\1")]
muts, seen, incomment = [], set(), False
for i, l in enumerate(src):
    s = l.strip()
    if s.startswith("/*"): incomment = True
    if incomment:
        if "*/" in s: incomment = False
        continue
    if not (rng[0] <= i + 1 <= rng[1]) or not s or s.startswith(("//", "#", "*", "static_assert", "namespace", "template", "using", "requires", "struct", "class", "friend struct")) or "assert(" in s or "static_assert" in s: continue
    code = l.split(" //")[0]
    for a, b in RULES:
        for m in re.finditer(a, code):
            n = code[:m.start()] + m.expand(b) + code[m.end():]
            if n != code and (i, n) not in seen:
                seen.add((i, n)); muts.append((i, n))
    if re.match(r"^[a-zA-Z_(*+-].*;$", s) and not re.match(r"^(return|using|typename|static|constexpr|struct|friend|\[\[|template|std::\w+(<.*>)? \w+;|break|throw|continue|case|default|bool|auto|size_t|typedef)", s) and "=default" not in s and "= default" not in s and "= delete" not in s:
        muts.append((i, "/* dropped */"))
random.seed(1); 
if len(muts) > limit: muts = random.sample(muts, limit)
out = open("/tmp/mut/%s.log" % f, "a")
q = queue.Queue()
for m in muts: q.put(m)
lock = threading.Lock()
print(len(muts), "mutants"); sys.stdout.flush()
tally = {}
def worker(k):
    repo, ver = "/tmp/mut/repo_%s_%d" % (f, k), "/tmp/mut/verif_%s_%d" % (f, k)
    for d in repo, ver: shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    subprocess.run(["rsync", "-a", "--exclude", "seeded", "--exclude", ".git", V + "/", ver + "/"], check=False) if shutil.which("rsync") else subprocess.run("mkdir -p %s && cd %s && tar cf - --exclude=./seeded --exclude=./.git . | tar xf - -C %s" % (ver, V, ver), shell=True, check=True)
    while True:
        try: i, n = q.get_nowait()
        except queue.Empty: break
        t = list(src); t[i] = n
        open(repo + "/" + INC + f, "w").write("\n".join(t))
        res = None
        for p in props:
            r = subprocess.run(["python3", ver + "/tools/check.py", p], env=dict(os.environ, DTL_REPO=repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                res = "caught"; break
            if "incomplete" in r.stdout or "unsupported" in r.stdout or "note:" in r.stdout.lower():
                res = "notes: " + "; ".join(x for x in r.stdout.split("\n") if "incomplete" in x or "unsupported" in x)[:200]
        if res != "caught":
            # survivors: do the existing tests notice?
            sh = "mount --bind %s /repo && bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh %s/t.json >/dev/null 2>&1" % (repo, ver)
            if not os.environ.get("NOTEST"):
                with lock if False else open(os.devnull):
                    if os.path.exists(ver + "/t.json"): os.remove(ver + "/t.json")
                    subprocess.run(["unshare", "-rm", "bash", "-c", sh])
                    try:
                        b = json.load(open("/opt/vp/BASELINE.json"))["stable"]; j = json.load(open(ver + "/t.json"))
                        pa = set(j.get("passed") or [k for k, v in j.get("results", {}).items() if v in ("pass", "passed")])
                        if any(x not in pa for x in b): res = "tests only " + (res or "")
                    except FileNotFoundError: res = "no test result"
            res = res or "SURVIVED"
        with lock:
            tally[res.split()[0]] = tally.get(res.split()[0], 0) + 1
            if res != "caught":
                out.write("%s:%d: %s\n    - %s\n    + %s\n" % (f, i + 1, res, src[i].strip(), n.strip())); out.flush()
    for d in repo, ver: shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
out.write("== %s %s %s\n" % (f, props, tally)); print(f, tally)
