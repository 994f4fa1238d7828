#!/usr/bin/env python3
"""Decide one property by symbolic execution of /repo's current code.
usage: check.py <PROPERTY> [--tier quick|thorough] [--entry NAME] [--keep]
Exit 0: every obligation discharged. Exit 1: VIOLATION (replayed on the real code). Exit 2: no answer."""
import sys, os, re, json, subprocess, time, tempfile, shutil, hashlib, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(HERE, "build")
EVID = os.environ.get("VERIF_EVID") or os.path.join(HERE, "evidence")
NCPU = os.cpu_count() or 4
SYMFLAGS = ["-fno-pic", "-fno-pie", "-std=c++17", "-O1", "-fno-inline", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
            "-ffp-contract=off", "-fno-math-errno", "-fopenmp", "-D_GLIBCXX_ASSERTIONS", "-DVC_SYM", "-w", "-I" + os.path.join(HERE, "harness", "omp")]


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def of_repo(f):
    """Is this demangled signature a function of /repo (not of the standard library)?"""
    if not re.search(r"PANSFEM2|\b(CSR|LILCSR)<", f): return False
    depth, start = 0, 0
    for i, c in enumerate(f):
        if c == "<": depth += 1
        elif c == ">": depth -= 1
        elif depth == 0 and c == " ": start = i + 1
        elif depth == 0 and c == "(": break
    return not re.match(r"(std|__gnu_cxx|operator new|bool std)::", f[start:])


def parse_entries(path):
    out, opts = [], None
    for line in open(path):
        m = re.match(r"//@\s*(.*)", line)
        if m:
            opts = m.group(1); continue
        m = re.match(r"VC_ENTRY\s+(\w+)\s*\(", line)
        if m:
            e = {"name": m.group(1), "bounds": "", "tier": "quick", "jobs": 2, "time": 240, "solver": 10000, "maxpaths": 20000, "poly": "4e8", "steps": "400000000"}
            if opts:
                for k, v in re.findall(r"(\w+)=(\S+)", opts.split("|")[0]):
                    e[k] = int(v) if v.isdigit() and k not in ("poly", "steps") else v
                if "|" in opts: e["bounds"] = opts.split("|", 1)[1].strip()
            out.append(e); opts = None
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = args[0]
    tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]; args = [a for a in args if a != tier]
    only = None
    if "--entry" in sys.argv:
        only = sys.argv[sys.argv.index("--entry") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    r = sh(["bash", os.path.join(HERE, "engine/build.sh"), BUILD])
    if r.returncode:
        print(r.stdout); print("engine build failed"); sys.exit(2)
    props = json.load(open(os.path.join(HERE, "harness/index.json")))
    spec = props[prop]
    known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json"))) if k["property"] == prop and k.get("status") != "fixed"]
    work = tempfile.mkdtemp(prefix="vc_%s_" % prop, dir=os.environ.get("VERIF_TMP", "/tmp"))
    try:
        rc = run(prop, tier, only, seed, spec, known, work, t0)
    finally:
        if "--keep" not in sys.argv: shutil.rmtree(work, ignore_errors=True)
        else: print("work:", work)
    sys.exit(rc)


def run(prop, tier, only, seed, spec, known, work, t0):
    thorough = tier == "thorough"
    defs = ["-DVC_THOROUGH"] if thorough else []
    jobs, compile_fail = [], []

    def comp(h):
        src = os.path.join(HERE, "harness", h)
        bc = os.path.join(work, h + ".bc")
        t = time.time()
        r = sh(["clang++-18"] + SYMFLAGS + defs + ["-I" + os.path.join(HERE, "harness"), "-I" + SRC, "-emit-llvm", "-c", src, "-o", bc])
        return h, bc, r, time.time() - t
    with ThreadPoolExecutor(NCPU) as ex:
        comps = list(ex.map(comp, spec["harness"]))
    entries = []
    for h, bc, r, _ in comps:
        if r.returncode:
            compile_fail.append((h, r.stdout[-3000:])); continue
        for e in parse_entries(os.path.join(HERE, "harness", h)):
            if e["tier"] == "thorough" and not thorough: continue
            if only and e["name"] != only: continue
            e["bc"], e["h"] = bc, h; entries.append(e)
    if compile_fail:
        for h, o in compile_fail: print("harness %s does not compile against the current tree:\n%s" % (h, o))
        # white-box harnesses (they name private members) may stop compiling after a refactoring: the rest still decides
        if len(compile_fail) == len(comps) or any(h not in spec.get("optional", []) for h, _ in compile_fail): return 2
    budget = 820 if not thorough else 7000
    deadline = t0 + budget * 0.8

    def symx(e):
        rep = os.path.join(work, e["name"] + ".jsonl")
        cmd = [os.path.join(BUILD, "symx"), e["bc"], e["name"], rep, "--jobs", str(e["jobs"]), "--timeout", str(e["solver"] * (3 if thorough else 1)),
               "--maxpaths", str(e["maxpaths"] * (5 if thorough else 1)), "--seed", str(seed), "--polylimit", e["poly"], "--steps", str(e["steps"])]
        t = time.time()
        lim = max(10, min(e["time"] * (4 if thorough else 1), deadline - time.time()))
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True, cwd=work)
        to = False
        try: p.wait(lim)
        except subprocess.TimeoutExpired:
            to = True
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        p.wait()
        evs = []
        if os.path.exists(rep):
            for l in open(rep, errors="replace"):
                try: evs.append(json.loads(l))
                except ValueError: pass
        e["wall"] = time.time() - t
        return e, evs, to
    entries.sort(key=lambda e: -e["time"])
    with ThreadPoolExecutor(max(1, NCPU // 2)) as ex:
        results = list(ex.map(symx, entries))

    tot = dict(paths=0, forks=0, obligations=0, trivial=0, queries=0, lra=0, sat=0, unsat=0, unknown=0, solver_s=0.0, steps=0, assumed_domain=0)
    functions, per_entry, viols, incon = set(), [], [], [(h, "white-box harness does not compile against the current tree") for h, _ in compile_fail]
    for e, evs, to in results:
        s = next((x for x in evs if x["ev"] == "summary"), None)
        if s:
            for k in tot: tot[k] += s[k]
            functions.update(s["functions"])
            if s["reach"] == 0 and s["violations"] == 0: incon.append((e["name"], "vacuous: no path reached the obligations"))
        else:
            incon.append((e["name"], "time limit" if to else "engine ended without a summary"))
        for x in evs:
            if x["ev"] == "violation": viols.append((e, x))
            elif x["ev"] == "inconclusive": incon.append((e["name"], x.get("what", "") + " @ " + x.get("stack", "")[:300]))
        per_entry.append({"entry": e["name"], "harness": e["h"], "bounds": e["bounds"], "wall_s": round(e["wall"], 2), **({k: s[k] for k in ("paths", "obligations", "queries", "unsat", "sat", "unknown", "solver_s", "steps")} if s else {})})
    # replay
    confirmed, unconfirmed = [], []
    if viols: confirmed, unconfirmed = replay(prop, viols, work, defs)
    new, kn = [], []
    for e, x, path in confirmed:
        k = next((k for k in known if k["entry"] == e["name"] and re.fullmatch(k["label"], x["label"])), None)
        (kn if k else new).append((e, x, path, k))
    for msg in sorted(set("KNOWN-FINDING: property=%s %s" % (prop, k["what"]) for _, _, _, k in kn)): print(msg)
    ukn = [u for u in unconfirmed if not any(k["entry"] == u[0]["name"] and re.fullmatch(k["label"], u[1]["label"]) for k in known)]
    seen = set((e["name"], x["label"]) for e, x, _, _ in new)
    unres = [(e["name"], "solver counterexample did not reproduce in doubles: %s: %s" % (x["label"], x["detail"][:200])) for e, x in ukn if (e["name"], x["label"]) not in seen]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
          "coverage": {"explanation": "symbolic execution of the LLVM IR of the harness + /repo/src (T=double); obligations decided by z3 over all inputs within the bounds",
                       "states": tot["paths"], "transitions": tot["steps"], "traces_validated_against_impl": len(confirmed),
                       "queries_discharged": tot["queries"], "queries_unsat": tot["unsat"], "queries_sat": tot["sat"], "queries_unknown": tot["unknown"],
                       "linear_abstraction_queries": tot["lra"], "solver_time_s": round(tot["solver_s"], 2), "obligations": tot["obligations"],
                       "obligations_constant_after_normalisation": tot["trivial"], "forks": tot["forks"], "domain_assumptions": tot["assumed_domain"],
                       "functions_encoded": sorted(f for f in functions if of_repo(f))[:400],
                       "entries": per_entry, "samples": [{"entry": p["entry"], "bounds": p["bounds"]} for p in per_entry][:6],
                       "inconclusive": [list(i) for i in (incon + unres)][:20]},
          "assumptions": spec.get("assumptions", []) + ["real-number semantics for operations on symbolic doubles (IEEE rounding outside the claim; concrete doubles are IEEE)", "z3 5.3.2, clang 18 front end and the executor in /verif/engine are trusted", "z3 answers of unknown on branch feasibility are explored as feasible"],
          "wall_s": round(time.time() - t0, 2),
          "violations": [{"entry": e["name"], "label": x["label"], "kind": x["kind"], "model": x["model"], "detail": x["detail"], "replay": p} for e, x, p, _ in new]}
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    print("%s %s: %d entries, %d paths, %d obligations, %d queries (%d unsat/%d sat/%d unknown), solver %.1fs, wall %.1fs" % (prop, tier, len(entries), tot["paths"], tot["obligations"], tot["queries"], tot["unsat"], tot["sat"], tot["unknown"], tot["solver_s"], time.time() - t0))
    if new:
        for e, x, p, _ in new[:10]:
            print("  %s/%s [%s] %s" % (e["name"], x["label"], x["kind"], x["detail"][:300])); print("    in " + x.get("stack", "")[:300])
        print("VIOLATION property=%s replay=%s" % (prop, new[0][2]))
        return 1
    if incon or unres:
        for n, w in (incon + unres)[:12]: print("INCONCLUSIVE %s: %s" % (n, w))
        bad = set(n for n, _ in incon + unres)
        if all(e["name"] in bad for e in entries): return 2
        print("held on everything that was decided; %d of %d entries not fully decided (see evidence)" % (len(bad), len(entries)))
    return 0


def replay(prop, viols, work, defs):
    rdir = os.path.join(EVID, "replay"); os.makedirs(rdir, exist_ok=True)
    bins, lock = {}, threading.Lock()

    def build(h, kind):
        key = (h, kind)
        with lock:
            if key in bins: return bins[key]
        src = os.path.join(HERE, "harness", h)
        ents = [e["name"] for e in parse_entries(src)]
        m = os.path.join(work, h + ".main.cpp")
        with open(m, "w") as f:
            f.write('#include "%s"\n#include <cstring>\nint main(int c,char**v){ ' % src)
            for e in ents: f.write('if(!strcmp(v[1],"%s")) %s(); ' % (e, e))
            f.write('fflush(0); return vc_fails()?1:0; }\n')
        out = os.path.join(work, h + "." + kind)
        fl = {"plain": ["-O3", "-fopenmp"], "asan": ["-O1", "-g", "-fopenmp", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"]}[kind]
        r = sh(["g++", "-std=c++17", "-w", "-DVC_REPLAY"] + fl + defs + ["-I" + os.path.join(HERE, "harness"), "-I" + SRC, m, "-o", out])
        if r.returncode: print(r.stdout[-2000:])
        with lock: bins[key] = out if r.returncode == 0 else None
        return bins[key]
    conf, unconf, cnt = [], [], {}
    concr_end = time.time() + 60
    for i, (e, x) in enumerate(viols):
        k = (e["name"], x["label"])
        if any(c[0]["name"] == k[0] and c[1]["label"] == k[1] for c in conf): continue
        if cnt.get(k, 0) >= 6: continue
        if len(conf) >= 12: break
        cnt[k] = cnt.get(k, 0) + 1
        inp = os.path.join(rdir, "%s-%s-%d.txt" % (prop, e["name"], i))
        with open(inp, "w") as f:
            f.write("".join("%s %.17g\n" % (n, v) for n, v in x["model"].items()))
        ok, why = False, ""
        kinds = ["plain", "asan"] if x["kind"] in ("eq", "le", "assert", "race") else ["asan", "plain"]
        for kd in kinds:
            b = build(e["h"], kd)
            if not b: continue
            env = dict(os.environ, VC_INPUTS=inp, MALLOC_PERTURB_="165", UBSAN_OPTIONS="print_stacktrace=0", ASAN_OPTIONS="detect_leaks=0:max_malloc_fill_size=1000000:malloc_fill_byte=165")
            if x["kind"] == "race": env["OMP_NUM_THREADS"] = "8"
            try: r = subprocess.run([b, e["name"]], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd=work, timeout=60)
            except subprocess.TimeoutExpired:
                if x["kind"] == "nontermination": ok, why = True, "hang"
                continue
            err = r.stderr.decode(errors="replace")
            labs = re.findall(r"REPLAY-VIOLATION label=(.*?) got", err)
            if x["kind"] in ("eq", "le", "assert", "uninitialised", "domain", "race") and labs: ok, why = True, err[:500]
            elif x["kind"] == "domain" and ("nan" in err or "inf" in err): ok, why = True, err[:500]
            elif r.returncode not in (0, 1, 7): ok, why = True, "exit %d: %s" % (r.returncode, err[:500])
            if ok: break
        if not ok and x["kind"] in ("eq", "le") and cnt[k] <= 2 and bins.get((e["h"], "plain")) and time.time() < concr_end:
            # the solver's counterexample may rely on values of an uninterpreted (transcendental) function: search near it for one the real functions take
            drawn = inp[:-4] + ".drawn"
            for t in range(1, 301):
                if time.time() > concr_end: break
                if os.path.exists(drawn): os.unlink(drawn)
                try: r = subprocess.run([bins[(e["h"], "plain")], e["name"]], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=dict(os.environ, VC_INPUTS=inp, VC_PERTURB=str(t), VC_DRAWN=drawn), cwd=work, timeout=20)
                except subprocess.TimeoutExpired: break
                err = r.stderr.decode(errors="replace")
                got = [l for l in re.findall(r"REPLAY-VIOLATION label=(.*?) got=(\S+) expected=(\S+)", err) if l[0] == x["label"] and all(abs(float(v)) < 1e300 for v in l[1:])]
                if got and os.path.exists(drawn):
                    for l in open(drawn):
                        n, v = l.rsplit(" ", 1); x["model"][n] = float(v)
                    with open(inp, "w") as f: f.write("".join("%s %.17g\n" % (n, v) for n, v in x["model"].items()))
                    ok, why = True, err[:500]; break
            if os.path.exists(drawn): os.unlink(drawn)
        if ok:
            sf = inp[:-4] + ".json"
            json.dump({"property": prop, "harness": e["h"], "entry": e["name"], "label": x["label"], "kind": x["kind"], "detail": x["detail"], "model": x["model"], "observed": why, "inputs": inp,
                       "how": "g++ -std=c++17 -O3 -fopenmp -DVC_REPLAY (asan for memory kinds) the harness, run with VC_INPUTS=<inputs> and the entry name"}, open(sf, "w"), indent=1)
            conf.append((e, x, sf))
        else: unconf.append((e, x))
    return conf, unconf


if __name__ == "__main__":
    main()
