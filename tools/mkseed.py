#!/usr/bin/env python3
"""mkseed.py FILE.json : {id, property, needs, what_it_breaks, edits:[[file,old,new],...], demo: "C++ source"} -> seeded/<id>/ ; verifies apply + demo in a scratch copy."""
import sys, json, os, subprocess, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def demo_sh(): return '''#!/bin/bash
# exit 0: behaviour as documented; non-zero: broken. Run with cwd = the repository.
D="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -fopenmp -I src "$D/demo.cpp" -o "$T/demo" || exit 3
cd "$T" && timeout 100 "$T/demo"
'''
for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns["SEEDS"]:
        d = os.path.join(HERE, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp(prefix="seed_"); r = os.path.join(w, "r")
        subprocess.check_call(["git", "clone", "-q", "/repo", r])
        for f, old, new in s["edits"]:
            p = os.path.join(r, f); raw = open(p, newline="").read(); t = raw.replace("\r\n", "\n")
            assert t.count(old) == 1, (s["id"], f, old, t.count(old))
            t = t.replace(old, new)
            if "\r\n" in raw: t = t.replace("\n", "\r\n")
            open(p, "w", newline="").write(t)
        diff = subprocess.check_output(["git", "-C", r, "diff", "--binary"])
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.cpp"), "w").write(s["demo"]); open(os.path.join(d, "demo.sh"), "w").write(demo_sh())
        json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd="/repo", capture_output=True, text=True)
        b = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=r, capture_output=True, text=True)
        print(s["id"], "clean", a.returncode, "patched", b.returncode, "" if (a.returncode == 0 and b.returncode not in (0, 3)) else "PROBLEM " + a.stdout[-500:] + a.stderr[-800:] + b.stderr[-500:])
        env = dict(os.environ, VERIF_REPO=r, VERIF_EVID=os.path.join(w, "ev"))
        if "--nocheck" not in os.environ.get("SEED", ""):
            c = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), s["property"]], env=env, capture_output=True, text=True)
            print("   check rc", c.returncode, [l for l in c.stdout.splitlines() if "VIOLATION" in l][:2], c.stdout[-300:] if c.returncode not in (1,) else "")
        shutil.rmtree(w)
