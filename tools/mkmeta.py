#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (tools/props.py)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = "include/dice/template-library/"
NOTE = ("Bounded: every path of the compiled code (clang 18 IR of /repo's headers, regenerated on every run) within the bounds stated in the harness is executed symbolically, "
        "each branch and assertion decided by Z3 over all inputs of the path; counterexamples are replayed on the real code built by gcc with sanitizers before they are reported. "
        "Trusted: clang lowering, the engine, the models of libstdc++/libc functions outside the headers. Nothing is claimed beyond the bounds.")
checks, na = [], []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        o = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                 anchors=dict(files=[INC + x for x in p["files"]], state=[dict(name=n, meaning=m, where=w) for n, m, w in p.get("state", [])],
                              mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p.get("obs", ["return values, thrown exceptions and memory effects of the public interface"]), hook_needed=None))
        assert len(o["title"]) <= 80, o["id"]
        f.write(json.dumps(o) + "\n")
        if p.get("na"):
            na.append(dict(property=p["id"], reason=p["na"])); continue
        checks.append(dict(property=p["id"], quick_cmd=f"python3 tools/check.py {p['id']} --tier quick", thorough_cmd=f"python3 tools/check.py {p['id']} --tier thorough",
                           technique=p.get("technique", "symbolic execution of the compiled headers (LLVM IR) with an SMT solver (Z3), bounded; counterexamples replayed natively"),
                           level="model_checking", level_note=NOTE + (" " + p["note"] if p.get("note") else "")))
m = dict(version=1, setup_cmd="python3 tools/check.py setup", checks=checks, not_applicable=na,
         notes="All checks are tools/check.py <property>; harness/<property>_*.cpp hold the assertions and the bounds. No hooks are needed in /repo.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
