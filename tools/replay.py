#!/usr/bin/env python3
"""tools/replay.py FILE: run one recorded counterexample against the real code of the current /repo."""
import json, os, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check as C


def main():
    if sys.argv[1].endswith(".txt"):
        print(open(sys.argv[1]).read()); return 1
    rec = json.load(open(sys.argv[1]))
    os.makedirs(C.BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="replay_", dir=C.BUILD)
    try:
        h = C.Harness(os.path.join(C.VERIF, "harness", rec["harness"] + ".cpp"), rec.get("tier", "quick"))
        out = os.path.join(work, "nat")
        r = C.sh(h.nat_cmd(out))
        if h.mt and r.returncode == 0: r = C.link_mt(out)
        if r.returncode: print(r.stderr); return 2
        res, err = C.run_native(out, rec["entry"], [(rec["part"], [i["value"] for i in rec["inputs"]], rec["sched"])], work)
        print("property", rec["property"], "entry", rec["entry"], "part", rec["part"])
        print("expected to fail:", rec["kind"], rec["msg"], "@", rec.get("where", "?"))
        for i in rec["inputs"]: print("  input", i["name"], "=", i["value"])
        if rec["sched"]: print("  schedule", rec["sched"])
        print("native result:", res[0][0]); print(err[-4000:])
        if not C.bad_status(res[0][0]) and rec.get("native_status") == "uninitialised":
            k, err = C.uses_uninitialised(h, rec["entry"], [(rec["part"], [i["value"] for i in rec["inputs"]], rec["sched"])], work)
            print(err[-6000:])
            return 0 if k is None else 1
        return 1 if C.bad_status(res[0][0]) else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
