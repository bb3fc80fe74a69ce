#!/usr/bin/env python3
"""mkseed.py SPEC.py...: writes seeded/<id>/ from a spec (id, prop, edits=[(file, old, new)], needs, breaks, demo)."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = "include/dice/template-library/"
DEMO = '''#!/bin/bash
# exit 0: the property holds on this demonstration
set -e
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++-14 -std=c++23 -O1 -g -w %s -I include "$d/demo.cpp" -o "$t/demo" %s
cd "$t"; timeout 240 ./demo
'''
for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns["SEEDS"]:
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp()
        subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r"], check=True)
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(w, "r", INC + f)
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            diff = subprocess.run(["git", "-C", w + "/r", "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
        finally:
            subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"], check=True)
            shutil.rmtree(w)
        open(d + "/patch.diff", "w").write(diff)
        san = s.get("san", "-fsanitize=address,undefined -fno-sanitize-recover=all")
        open(d + "/demo.sh", "w").write(DEMO % (san, s.get("libs", "")))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.cpp", "w").write(s["demo"].lstrip("\n"))
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        print("wrote", s["id"])
