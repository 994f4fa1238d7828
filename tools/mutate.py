#!/usr/bin/env python3
"""Development aid: random syntactic mutants of one header, judged by the checks of the properties anchored there.
   mutate.py FILE N SEED PROP[,PROP...] [--lines a-b]   -> one line per mutant on stdout: CAUGHT prop / SURVIVED / NOCOMPILE + diff"""
import sys, re, random, subprocess, os, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f, n, seed, props = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4].split(",")
lo, hi = 1, 10**9
if "--lines" in sys.argv: lo, hi = map(int, sys.argv[sys.argv.index("--lines") + 1].split("-"))
raw = open(os.path.join("/repo", f), encoding="latin-1", newline="").read(); lines = raw.split("\n")
R = random.Random(seed)
def cand(l):
    c = l.split("//")[0]; out = []
    if re.match(r"\s*(#|template|class|assert|std::cout|using|namespace|public|private)", c) or not c.strip(): return out
    for m in re.finditer(r"(?<=[\w\)\]])( ?)([-+*/])( ?)(?=[\w\(\-])", c):
        if c[m.end(2)-2:m.end(2)] in ("->",) or c[m.start(2):m.start(2)+2] in ("->", "++", "--", "+=", "-=", "*=", "/=", "*>", "//"): continue
        if m.group(2) == "*" and re.search(r"(T|double|int|char)\s*$", c[:m.start(2)]): continue
        for r in {"+": "-", "-": "+", "*": "/", "/": "*"}[m.group(2)]: out.append((m.start(2), m.end(2), r))
    for m in re.finditer(r" (<=|>=|<|>|==|!=) ", c):
        if "template" in c or "std::vector<" in c[:m.start()] and m.group(1) in "<>": continue
        for r in {"<": ["<="], ">": [">="], "<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="]}[m.group(1)]: out.append((m.start(1), m.end(1), r))
    for m in re.finditer(r"(\+=|-=)", c): out.append((m.start(), m.end(), "-=" if m.group() == "+=" else "+="))
    for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", c):
        v = int(m.group(1))
        if v <= 8: out.append((m.start(), m.end(), str(R.choice([v + 1, max(0, v - 1)] if v else [1]))))
    for m in re.finditer(r"(?<![\w.])(\d+\.\d+)(?!e)", c): out.append((m.start(), m.end(), R.choice(["0.0", "1.0", "2.0", "0.5"])))
    for m in re.finditer(r"&&|\|\|", c): out.append((m.start(), m.end(), "||" if m.group() == "&&" else "&&"))
    for m in re.finditer(r"\b([ijkl])\b(?=[\])])", c):
        o = [x for x in "ijkl" if x != m.group(1) and re.search(r"\b%s\b" % x, c)]
        if o: out.append((m.start(), m.end(), R.choice(o)))
    if re.match(r"\s*[\w\]\[\(\)>.\-:,\s\+]+(=|\+=|\()[^{}]*;\s*$", c) and not re.match(r"\s*(return|auto|int|T|Vector|Matrix|std::vector|const|double|for)\b", c): out.append((len(c) - len(c.lstrip()), len(c.rstrip()), ";"))
    return [(a, b, r) for a, b, r in out if c[a:b] != r]
C = [(i, *x) for i, l in enumerate(lines) if lo <= i + 1 <= hi for x in cand(l)]
R.shuffle(C); seen = set(); done = 0
for i, a, b, r in C:
    if done >= n: break
    if (i, a) in seen: continue
    seen.add((i, a)); done += 1
    w = tempfile.mkdtemp(prefix="mut_"); rp = os.path.join(w, "r"); os.makedirs(rp)
    shutil.copytree("/repo/src", os.path.join(rp, "src"))
    L = list(lines); L[i] = L[i][:a] + r + L[i][b:]
    open(os.path.join(rp, f), "w", encoding="latin-1", newline="").write("\n".join(L))
    res = "SURVIVED"
    for p in props:
        c = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), p], env=dict(os.environ, VERIF_REPO=rp, VERIF_EVID=os.path.join(w, "ev")), capture_output=True, text=True)
        if c.returncode == 1: res = "CAUGHT " + p; break
        if c.returncode == 2: res = ("NOCOMPILE " if "does not compile" in c.stdout else "NOANSWER ") + p; break
        if "INCONCLUSIVE" in c.stdout: res = "SURVIVED(inconclusive)"
    shutil.rmtree(w)
    print("%s %s:%d | %s  -->  %s" % (res, os.path.basename(f), i + 1, lines[i].strip()[:150], L[i].strip()[:150]), flush=True)
