#!/usr/bin/env python3
"""runseeds.py [--tests] [id ...]: apply each planted change in a scratch clone, run the property's check on it (and, with --tests, the stable tests); print and remember the result."""
import sys, json, os, subprocess, shutil, tempfile, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tests = "--tests" in sys.argv; ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(HERE + "/seeded"))
RES = HERE + "/tools/seed_results.json"
for i in ids:
    d = f"{HERE}/seeded/{i}"; m = json.load(open(d + "/meta.json")); w = tempfile.mkdtemp(prefix="seed_"); r = w + "/r"
    subprocess.check_call(["cp", "-a", "/repo", r]) if tests else subprocess.check_call(["git", "clone", "-q", "/repo", r])
    subprocess.check_call(["git", "-C", r, "apply", d + "/patch.diff"])
    if tests:
        v = w + "/vp"; os.makedirs(v)
        for f in os.listdir("/opt/vp"):
            p = "/opt/vp/" + f
            if os.path.isfile(p):
                t = open(p).read().replace("/repo", r).replace("/opt/vp", v); open(v + "/" + f, "w").write(t)
        b = subprocess.run(["bash", v + "/build.sh"], capture_output=True, text=True)
        subprocess.run(["bash", v + "/test.sh", w + "/out.json"], capture_output=True, text=True)
        base = json.load(open("/opt/vp/BASELINE.json")); out = json.load(open(w + "/out.json"))
        st = base["stable"]; ok = set(out.get("passed", out))
        miss = [x for x in st if x not in ok]
        print(i, "build", b.returncode, "tests missing:", miss[:5], flush=True)
    else:
        env = dict(os.environ, VERIF_REPO=r, VERIF_EVID=w + "/ev")
        c = subprocess.run([sys.executable, HERE + "/check.py", m["property"]], env=env, capture_output=True, text=True)
        vs = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        e = sorted({re.sub(r"\.json$", "", os.path.basename(l.split("replay=")[1].split()[0])) for l in vs})
        print(i, m["property"], "rc", c.returncode, e[:3], "" if c.returncode == 1 else c.stdout[-400:], flush=True)
        res = json.load(open(RES)) if os.path.exists(RES) else {}
        res[i] = ("caught" if c.returncode == 1 and vs else f"missed (rc {c.returncode})"); json.dump(res, open(RES, "w"), indent=1, sort_keys=True)
    shutil.rmtree(w)
