#!/usr/bin/env python3
"""Fills tools/DESIGN.tmpl.md -> DESIGN.md (entry bounds from the harnesses, findings, seeds, costs from tools/costs.json)."""
import json, os, re, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(H, p)).read()
props = [json.loads(l) for l in rd("properties.jsonl").splitlines() if l.strip()]
idx = json.loads(rd("harness/index.json")); man = json.loads(rd("MANIFEST.json"))
det = {}
exec(rd("tools/detail.py"), det); D = det["D"]
costs = json.loads(rd("tools/costs.json")) if os.path.exists(os.path.join(H, "tools/costs.json")) else {}
for f in glob.glob(os.path.join(H, "evidence/*.json")):
    try:
        e = json.load(open(f)); i = os.path.basename(f)[:-5]; 
        if e.get("tier", "quick") == "quick":
            w = e.get("wall_s") or e.get("coverage", {}).get("wall_s")
            if w: costs[i] = round(w)
    except Exception: pass
json.dump(costs, open(os.path.join(H, "tools/costs.json"), "w"), indent=0, sort_keys=True)
out = []
for q in props:
    i = q["id"]
    if i not in idx: continue
    out.append("### %s %s" % (i, q["title"]))
    out.append(D.get(i, "") + (" Cost: about %s s." % costs[i] if i in costs else ""))
    for h in idx[i]["harness"]:
        src = rd("harness/" + h); es = re.findall(r"^//@([^|\n]*)\|([^\n]*)\nVC_ENTRY (\w+)", src, re.M)
        for o, b, n in es: out.append("* `%s`%s: %s" % (n, " (thorough)" if "thorough" in o else "", b.strip()))
    out.append("")
for n in man.get("not_applicable", []): out.append("### %s (not applicable)\n%s\n" % (n["property"], n["reason"]))
kf = json.loads(rd("known_findings.json"))
fixed = ["* " + k["what"] for k in kf if k["status"] == "fixed"]
known = ["* %s / `%s`: %s" % (k["property"], k["entry"], k["what"]) for k in kf if k["status"] == "known"]
res = json.loads(rd("tools/seed_results.json")) if os.path.exists(os.path.join(H, "tools/seed_results.json")) else {}
seeds = ["| seed | property | what it breaks | needs | check |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(H, "seeded/*/meta.json"))):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    seeds.append("| %s | %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"], m["needs"], res.get(n, "?")))
t = rd("tools/DESIGN.tmpl.md")
for k, v in [("@DETAIL@", out), ("@FIXED@", fixed), ("@KNOWN@", known), ("@SEEDS@", seeds)]: t = t.replace(k, "\n".join(v))
open(os.path.join(H, "DESIGN.md"), "w").write(t)
