#!/usr/bin/env python3
"""Decide one property: compile its harnesses from /repo's current headers, execute them symbolically,
replay every counterexample on the real code, write the evidence file."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DTL_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ENGINE = os.path.join(BUILD, "dtlsym")
RT = os.path.join(VERIF, "runtime")
INC = ["-I" + RT, "-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(REPO, "include")]
SAN = "signed-integer-overflow,shift,integer-divide-by-zero,unreachable,return,bool,enum,bounds,null,float-cast-overflow,builtin"
CXX_SYM = ["clang++-18", "-std=c++23", "-O1", "-Xclang", "-disable-llvm-passes", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS",
           "-gline-tables-only", "-fno-discard-value-names", "-w", "-fsanitize=" + SAN, "-fsanitize-trap=all", "-DDTL_SYMBOLIC"]
CXX_NAT = ["g++-14", "-std=c++23", "-O1", "-g1", "-w", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
           "-fno-sanitize=vptr", "-fno-omit-frame-pointer"]
CXX_NATVG = ["g++-14", "-std=c++23", "-O0", "-g1", "-w", "-D_GLIBCXX_ASSERTIONS"]
CXX_NATMT = ["clang++-18", "-std=c++23", "-O0", "-g1", "-w", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fsanitize=thread", "-DDTL_MT"]
NCPU = os.cpu_count() or 4


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def ensure_engine():
    """builds the engine and the runtime model if needed"""
    os.makedirs(BUILD, exist_ok=True)
    r = sh(["make", "-C", os.path.join(VERIF, "engine"), "-j4"])
    if r.returncode:
        print(r.stdout + r.stderr); sys.exit(2)
    for m in "model", "model_io":
        src, bc = os.path.join(RT, m + ".cpp"), os.path.join(BUILD, m + ".bc")
        if not os.path.exists(bc) or os.path.getmtime(bc) < os.path.getmtime(src):
            r = sh(["clang++-18", "-std=c++23", "-O1", "-Xclang", "-disable-llvm-passes", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-gline-tables-only", "-w",
                    "-fno-builtin", "-c", "-emit-llvm", src, "-o", bc + ".tmp"])
            if r.returncode:
                print(r.stderr); sys.exit(2)
            os.rename(bc + ".tmp", bc)


class Harness:
    def __init__(self, path, tier):
        self.path = path
        self.name = os.path.splitext(os.path.basename(path))[0]
        self.src = open(path).read()
        self.mt = "// MT" in self.src
        self.io = "// IO" in self.src
        self.opts, self.parts, self.reach, self.defs, self.skip, self.bounds, self.known = {}, {}, {}, [], set(), [], {}
        for m in re.finditer(r"^//\s*@(\w+)\s+(.*)$", self.src, re.M):
            k, rest = m.group(1), m.group(2).strip()
            w = rest.split()
            if k == "parts": self.parts[w[0]] = int(w[1])
            elif k == "tparts" and tier == "thorough": self.parts[w[0]] = int(w[1])
            elif k == "reach": self.reach.setdefault(w[0], []).extend(w[1:])
            elif k == "opt": self.opts.setdefault(w[0], []).extend(w[1:])
            elif k == "topt" and tier == "thorough": self.opts.setdefault(w[0], []).extend(w[1:])
            elif k == "thorough_only" and tier != "thorough": self.skip.update(w)
            elif k == "quick_only" and tier == "thorough": self.skip.update(w)
            elif k == "bound": self.bounds.append(rest)
            elif k == "tbound" and tier == "thorough": self.bounds.append(rest)
            elif k == "qbound" and tier != "thorough": self.bounds.append(rest)
            elif k == "known": self.known[w[0]] = w[1]
        if tier == "thorough": self.defs.append("-DTHOROUGH")

    def sym_cmd(self, out):
        extra = re.findall(r"^//\s*@cxx\s+(.*)$", self.src, re.M)
        mt = ["-D_GLIBCXX_TSAN=1"] if self.mt else []  # shared_ptr: the same release path as in the replay
        return CXX_SYM + mt + sum([e.split() for e in extra], []) + self.defs + INC + ["-c", "-emit-llvm", self.path, "-o", out]

    def nat_cmd(self, out, vg=False):
        extra = sum([e.split() for e in re.findall(r"^//\s*@cxx\s+(.*)$", self.src, re.M)], [])
        extra += sum([e.split() for e in re.findall(r"^//\s*@natcxx\s+(.*)$", self.src, re.M)], [])
        if self.mt:
            return CXX_NATMT + extra + self.defs + INC + ["-c", self.path, "-o", out + ".o"]
        if vg: return CXX_NATVG + extra + self.defs + INC + [self.path, os.path.join(RT, "native.cpp"), "-rdynamic", "-o", out, "-ldl"]
        return CXX_NAT + extra + self.defs + INC + [self.path, os.path.join(RT, "native.cpp"), "-rdynamic", "-o", out, "-ldl"]


def link_mt(out):
    r = sh(["g++-14", "-std=c++23", "-O1", "-g1", "-w", "-DDTL_MT", "-rdynamic", out + ".o", os.path.join(RT, "native.cpp"), os.path.join(RT, "native_mt.cpp"), "-o", out, "-ldl", "-lpthread"])
    return r


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=43:allocator_may_return_null=1:detect_stack_use_after_return=1:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0",
           UBSAN_OPTIONS="halt_on_error=1:exitcode=43:print_stacktrace=0")


def run_native(binary, entry, recs, workdir, timeout=600):
    """recs: list of (part, inputs, sched). returns list of (status, obs)"""
    if not recs: return []
    fd, fn = tempfile.mkstemp(dir=workdir, suffix=".rec")
    with os.fdopen(fd, "w") as f:
        for part, inputs, sched in recs:
            f.write(f"R {part}\n")
            for v in inputs: f.write(f"i {v}\n")
            for t in sched: f.write(f"s {t}\n")
            f.write("E\n")
    try:
        r = subprocess.run([binary, entry, fn], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=ENV, timeout=timeout)
    except subprocess.TimeoutExpired:
        return [("timeout", [])] * len(recs), ""
    out = []
    for l in r.stdout.splitlines():
        if l.startswith("RES\t"):
            p = l.split("\t")
            out.append((p[2], p[3].split() if len(p) > 3 else []))
    while len(out) < len(recs): out.append(("exit:lost", []))
    return out, r.stderr


def uses_uninitialised(h, entry, recs, workdir):
    """index of the first record on which the real code, without sanitizers and under valgrind, depends on uninitialised memory"""
    if h.mt or not recs or not shutil.which("valgrind"): return None, ""
    out = os.path.join(workdir, h.name + ".vg")
    if not os.path.exists(out) and sh(h.nat_cmd(out, vg=True)).returncode: return None, ""
    for k, rec in enumerate(recs):
        fn = os.path.join(workdir, f"{h.name}.{entry}.{k}.vgrec")
        with open(fn, "w") as f: f.write(f"R {rec[0]}\n" + "".join(f"i {v}\n" for v in rec[1]) + "".join(f"s {t}\n" for t in rec[2]) + "E\n")
        try:
            r = sh(["valgrind", "--leak-check=no", "--track-origins=yes", out, entry, fn], errors="replace", timeout=100)
        except subprocess.TimeoutExpired: continue
        if re.search(r"depends on uninitialised value|Use of uninitialised value", r.stderr): return k, r.stderr
    return None, ""


def bad_status(st):
    """does this native status show a violation?"""
    return st.startswith("check:") or st.startswith("signal:") or st.startswith("exit:43") or st.startswith("exit:1") or st in ("timeout", "uninitialised")


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--entry") + 1] if "--entry" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if prop == "setup":
        ensure_engine()
        return 0
    ensure_engine()
    work = tempfile.mkdtemp(prefix="dtl_" + prop + "_", dir=BUILD)
    try:
        return check(prop, tier, seed, t0, work, only)
    finally:
        if "--keep" not in sys.argv: shutil.rmtree(work, ignore_errors=True)
        else: print("workdir", work)


def check(prop, tier, seed, t0, work, only):
    files = sorted(f for f in os.listdir(os.path.join(VERIF, "harness")) if f.lower().startswith(prop.lower() + "_") and f.endswith(".cpp"))
    hs = [Harness(os.path.join(VERIF, "harness", f), tier) for f in files]
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))
    known = [k for k in known.get("findings", []) if k["property"] == prop]
    budget = 640.0 if tier == "quick" else 6 * 3600.0
    per_entry = 200.0 if tier == "quick" else 3600.0
    violations, knownhits, problems, results = [], [], [], []
    replay_dir = os.path.join(BUILD, "replays"); os.makedirs(replay_dir, exist_ok=True)
    ex = cf.ThreadPoolExecutor(max_workers=NCPU)

    def compile_sym(h):
        out = os.path.join(work, h.name + ".bc")
        return h, out, sh(h.sym_cmd(out))

    def compile_nat(h):
        out = os.path.join(work, h.name + ".nat")
        r = sh(h.nat_cmd(out))
        if h.mt and r.returncode == 0: r = link_mt(out)
        return h, out, r

    fs = [ex.submit(compile_sym, h) for h in hs]
    fn = [ex.submit(compile_nat, h) for h in hs]
    nat = {}
    jobs = []
    compile_fail = []
    for f in fs:
        h, bc, r = f.result()
        if r.returncode:
            compile_fail.append((h, r, "symbolic")); continue
        r = sh([ENGINE, bc, "--entry", "list"])
        ents = [e for e in r.stdout.split() if e.startswith("h_")]
        if not ents: problems.append(f"{h.name}: no entries")
        for e in ents:
            if e[2:] in h.skip or (only and e[2:] != only): continue
            for p in range(h.parts.get(e[2:], 1)): jobs.append((h, bc, e, p))

    def run_job(j):
        h, bc, e, p = j
        left = budget - (time.time() - t0)
        out = os.path.join(work, f"{h.name}.{e}.{p}.json")
        mt = max(5.0, min(per_entry, left))
        cmd = [ENGINE, bc, os.path.join(BUILD, "model.bc")] + ([os.path.join(BUILD, "model_io.bc")] if h.io else []) + ["--entry", f"{e}:{p}", "--out", out, "--max-time", str(mt), "--seed", str(seed)] + h.opts.get("*", []) + h.opts.get(e[2:], [])
        try:
            r = sh(cmd, timeout=mt + 120)
        except subprocess.TimeoutExpired:
            return j, None, "engine did not stop in time"
        if r.returncode or not os.path.exists(out): return j, None, f"engine exit {r.returncode}: {r.stderr[-2000:]}"
        return j, json.load(open(out)), r.stderr

    done = list(ex.map(run_job, jobs))
    for f in fn:
        h, out, r = f.result()
        if r.returncode: compile_fail.append((h, r, "native"))
        else: nat[h.name] = out
    for h, r, which in compile_fail:
        # a harness uses only the public interface: if it stops compiling, user code stops compiling
        path = os.path.join(replay_dir, f"{prop}-{h.name}-compile-{which}.txt")
        with open(path, "w") as f: f.write(" ".join(h.sym_cmd("/dev/null")) + "\n" + r.stderr[:20000])
        first = next((l for l in r.stderr.splitlines() if "error" in l), "")
        violations.append(dict(entry=h.name, kind="compile", msg="a program using the public interface no longer compiles: " + first[:300], path=path, where=""))

    tot = dict(paths=0, states=0, instructions=0, checks=0, checks_symbolic=0, queries=0, q_sat=0, q_unsat=0, q_unknown=0, q_cached=0, forks=0, paths_assumed_away=0)
    solver_s, functions, incomplete, mismatches, validated, samples, unconfirmed = 0.0, set(), [], [], 0, [], []
    entries = []
    covers, cover_s, cover_leaves = {}, 0.0, 0
    reach_all = {}
    confirm_jobs = []
    for (h, bc, e, p), res, err in done:
        if res is None:
            problems.append(f"{h.name}/{e}:{p}: {err}"); incomplete.append(f"{e}:{p}: engine failure"); continue
        for k in tot: tot[k] += res[k]
        solver_s += res["solver_s"]
        functions.update(res["functions"])
        if res["timed_out"]: incomplete.append(f"{e}:{p}: exploration stopped by its time/state budget after {res['paths']} paths")
        if res["solver_unknown"]: incomplete.append(f"{e}:{p}: a solver query was not decided in time")
        covers[res["cover"]] = covers.get(res["cover"], 0) + 1
        cover_s += res["cover_s"]
        cover_leaves += res["cover_leaves"]
        if res["cover"] == "gap" and not res["solver_unknown"]: incomplete.append(f"{e}:{p}: the explored paths do not cover every input")
        for u in res["unsupported"]: incomplete.append(f"{e}:{p}: unsupported: {u}")
        r0 = reach_all.setdefault((h.name, e[2:]), {})
        for k, v in res["reach"].items(): r0[k] = r0.get(k, 0) + v
        entries.append(dict(entry=f"{e}:{p}", paths=res["paths"], states=res["states"], queries=res["queries"], solver_s=round(res["solver_s"], 3), wall_s=round(res["wall_s"], 2), violations=len(res["violations"])))
        if h.name in nat: confirm_jobs.append((h, e, p, res))

    def confirm(j):
        h, e, p, res = j
        binary = nat[h.name]
        out = []
        # counterexamples
        vs = res["violations"]
        ps = res["path_samples"]
        recs = [(p, [i["value"] for i in v["inputs"]], v["sched"]) for v in vs]
        rv = run_native(binary, e, recs, work) if recs else ([], "")
        pr = [(p, [i["value"] for i in v["inputs"]], v["sched"]) for v in ps]
        rp = run_native(binary, e, pr, work) if pr else ([], "")
        return j, rv, rp

    for (h, e, p, res), (rv, rverr), (rp, rperr) in ex.map(confirm, confirm_jobs):
        groups = {}
        for v, (st, obs) in zip(res["violations"], rv):
            key = (v["kind"], v["where"] if v["kind"] == "memory" else v["msg"])
            groups.setdefault(key, []).append((v, st))
        for key, lst in groups.items():
            good = [(v, st) for v, st in lst if bad_status(st)]
            if not good and (any(v["kind"] == "uninit" for v in res["violations"]) or all(st == "ok" for v, st in lst)): # the sanitizers do not see it
                k, err = uses_uninitialised(h, e, [(p, [i["value"] for i in v["inputs"]], v["sched"]) for v, st in lst], work)
                if k is not None: good = [(lst[k][0], "uninitialised")]; rverr = err
            if not good:
                v, st = lst[0]
                unconfirmed.append(dict(entry=e, kind=v["kind"], msg=v["msg"], where=v["where"], native=st, inputs=v["inputs"], stack=v["stack"][:6]))
                continue
            v, st = good[0]
            hid = hashlib.sha1(repr((h.name, e, p, key)).encode()).hexdigest()[:8]
            path = os.path.join(replay_dir, f"{prop}-{e[2:]}-{hid}.json")
            rec = dict(property=prop, tier=tier, harness=h.name, entry=e, part=p, kind=v["kind"], msg=v["msg"], where=v["where"], stack=v["stack"], inputs=v["inputs"], sched=v["sched"], native_status=st,
                       native_stderr=rverr[-6000:], how="tools/replay.py " + path)
            k = next((k for k in known if k["entry"] == e[2:] and re.search(k["match"], v["msg"] + " @ " + v["where"])), None)
            if k:
                knownhits.append((k, v)); continue
            json.dump(rec, open(path, "w"), indent=1)
            violations.append(dict(entry=e, kind=v["kind"], msg=v["msg"], path=path, where=v["where"], native=st, inputs=v["inputs"]))
        for s, (st, obs) in zip(res["path_samples"], rp):
            if st == "ok" and obs == s["obs"]: validated += 1
            elif bad_status(st) and not h.mt: # with threads the replayed schedule may diverge: only a mismatch
                k = next((k for k in known if k["entry"] == e[2:] and re.search(k["match"], st)), None)
                if k: continue
                hid = hashlib.sha1(repr((h.name, e, p, s["inputs"])).encode()).hexdigest()[:8]
                path = os.path.join(replay_dir, f"{prop}-{e[2:]}-{hid}.json")
                json.dump(dict(property=prop, tier=tier, harness=h.name, entry=e, part=p, kind="native", msg="the real code fails on an assignment of an explored path: " + st, inputs=s["inputs"], sched=s["sched"], native_status=st, native_stderr=rperr[-6000:]), open(path, "w"), indent=1)
                if any(v["entry"] == e for v in violations) or any(g[0]["entry"] == e[2:] for g in knownhits): continue
                violations.append(dict(entry=e, kind="native", msg="real code fails where the encoding does not: " + st, path=path, where="", native=st, inputs=s["inputs"]))
            else:
                mismatches.append(dict(entry=f"{e}:{p}", native=st, obs=obs[:20], expected=s["obs"][:20], inputs=s["inputs"][:20]))
        if res["path_samples"] and len(samples) < 12:
            s = res["path_samples"][-1]
            samples.append(dict(entry=f"{e}:{p}", inputs={f"{k}:{i['name']}": i["value"] for k, i in enumerate(s["inputs"][:24])}, schedule=s["sched"][:60], observed=s["obs"][:16]))

    # vacuity: every declared witness must have been reached
    vacuous = []
    if not only:
        for h in hs:
            for ent, labels in h.reach.items():
                if ent in h.skip: continue
                got = reach_all.get((h.name, ent), {})
                for l in labels:
                    if not got.get(l): vacuous.append(f"{h.name}/{ent}: witness '{l}' not reached")
    for k in known:
        if not any(g[0] is k for g in knownhits) and not only:
            print(f"note: known finding no longer observed: {k['entry']}: {k['what']}")

    wall = time.time() - t0
    cov = dict(states=tot["states"], transitions=tot["instructions"], traces_validated_against_impl=validated, samples=samples or [dict(note="no path completed")],
               paths=tot["paths"], forks=tot["forks"], assertions_evaluated=tot["checks"], assertions_symbolic=tot["checks_symbolic"],
               solver_queries=tot["queries"], solver_sat=tot["q_sat"], solver_unsat=tot["q_unsat"], solver_unknown=tot["q_unknown"], solver_cache_hits=tot["q_cached"], solver_time_s=round(solver_s, 2),
               covering_query=dict(what="per entry: is there an input, fault or schedule within the bounds that no explored path covers? unsat = the paths cover everything", entries=covers, regions=cover_leaves, solver_s=round(cover_s, 2)),
               functions_encoded=sorted(functions)[:400], functions_encoded_count=len(functions), bounds=sum([h.bounds for h in hs], []), entries=entries,
               exhaustive=not incomplete and not problems, incomplete=incomplete, vacuity_witnesses_missing=vacuous, unconfirmed_counterexamples=unconfirmed, encoding_mismatches=mismatches, problems=problems)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, wall_s=round(wall, 2), violations=len(violations),
              assumptions=["clang 18 lowering of the harness and of /repo's headers to LLVM IR is faithful", "models of libstdc++/libc/pthread functions that live outside the headers (runtime/model.cpp, engine/ext.cpp)",
                           "sequentially consistent interleavings; weaker memory orders only through happens-before race detection", "anything beyond the listed bounds is outside the claim"])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not only: json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop} {tier}: {len(jobs)} entries, {tot['paths']} paths, {tot['states']} states, {tot['queries']} solver queries ({solver_s:.1f}s), covering {covers} ({cover_s:.1f}s), {validated} traces validated on the real code, {wall:.1f}s")
    for i in incomplete[:20]: print("INCOMPLETE:", i)
    for i in problems[:10]: print("PROBLEM:", i)
    for i in vacuous[:20]: print("VACUOUS:", i)
    for u in unconfirmed[:20]: print("UNCONFIRMED:", u["entry"], u["kind"], u["msg"], u["where"], "native:", u["native"], [(i["name"], i["value"]) for i in u["inputs"]][:20])
    for m in mismatches[:10]: print("MISMATCH:", m)
    if only or "-v" in sys.argv:
        for e in sorted(entries, key=lambda x: -x["wall_s"]): print("   ", e)
    seen = set()
    for k, v in knownhits:
        if id(k) in seen: continue
        seen.add(id(k))
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for v in violations[:40]:
        print(f"  {v['entry']}: [{v['kind']}] {v['msg']} ({v['where']}) native={v.get('native', '')} inputs={[(i['name'], i['value']) for i in v.get('inputs', [])][:24]}")
        print(f"VIOLATION property={prop} replay={v['path']}")
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
