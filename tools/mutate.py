#!/usr/bin/env python3
"""Mutation study (development only): small systematic changes of a header; which ones do the engines not see?

  mutate.py HEADER [-j N] [--only a-b] [--list] [--redo FILE]
Survivors are written to /tmp/mut/<HEADER>.surv
"""
import os, re, sys, json, shutil, subprocess, threading, queue, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
H = sys.argv[1]
SRC = open(f"/repo/gmlc/containers/{H}").read()
A = lambda e, m, n, **p: (e, "asan", m, n, p)
FB = lambda m, n, **p: ("conc", "fiberasan", m, n, p)
FT = lambda m, n, **p: ("conc", "fibertsan", m, n, p)
BUF_S = [A("buffers", "stackraw", 6000), A("buffers", "stackown", 8000), A("buffers", "stackown", 5000, slots=3)]
BUF_C = [A("buffers", "circraw", 6000), A("buffers", "circown", 8000), A("buffers", "circown", 5000, slots=3)]
V = [A("blocks", "vector", 2500, focus=f) for f in (0, 1, 2, 3, 4)]
D = [A("blocks", "deque", 2500, focus=f) for f in (0, 1, 2, 3, 4)]
M1 = [A("mapped", "single", 2000, focus=f) for f in (0, 1, 2, 3)]
M2 = [A("mapped", "dual", 2000, focus=f) for f in (0, 1, 2, 3)]
def qs(m):
    return [A("seqq", m, 5000), FB(m, 12000, focus=0), FB(m, 12000, focus=1), FB(m, 12000, focus=2), FB(m, 12000, focus=3), FB(m, 12000, focus=4), FT(m, 5000, focus=0), FT(m, 5000, focus=3), FT(m, 5000, focus=4)]
PLAN = {
    "StackBuffer.hpp": BUF_S, "CircularBuffer.hpp": BUF_C, "StableBlockVector.hpp": V, "StableBlockDeque.hpp": D, "BlockIterator.hpp": V + D,
    "MappedVector.hpp": M1, "StringMappedVector.hpp": M1, "MappedPointerVector.hpp": M1, "MapTraits.hpp": M1 + M2,
    "DualMappedVector.hpp": M2, "DualStringMappedVector.hpp": M2, "DualMappedPointerVector.hpp": M2, "mapOps.hpp": [A("mapped", "mapfind", 5000)],
    "SimpleQueue.hpp": qs("simple"), "BlockingQueue.hpp": qs("blocking"), "BlockingPriorityQueue.hpp": qs("priority"),
    "AirLock.hpp": [A("seqq", "airlock", 5000), FB("airlock", 12000, focus=0), FB("airlock", 12000, focus=1), FT("airlock", 6000, focus=0)],
    "WorkQueue.hpp": [A("seqq", "workblock", 5000)] + [FB("work", 6000, focus=f) for f in (0, 1, 2, 3, 4)] + [FT("work", 5000, focus=f) for f in (0, 1, 2, 3)],
}

def mutants():
    out, seen = [], set()
    def add(a, b, new, what):
        t = SRC[:a] + new + SRC[b:]
        if t not in seen and t != SRC:
            seen.add(t)
            out.append((SRC.count("\n", 0, a) + 1, what, t))
    # blank out comments/strings for matching
    code = re.sub(r"/\*.*?\*/|//[^\n]*", lambda m: re.sub(r"[^\n]", " ", m.group(0)), SRC, flags=re.S)
    code = re.sub(r"(?m)^\s*#.*$", lambda m: " " * len(m.group(0)), code)
    def each(rx, f, what):
        for m in re.finditer(rx, code):
            for r in f(m) or []:
                add(m.start(), m.end(), r, f"{what}: {m.group(0)!r} -> {r!r}")
    each(r" (<=|>=|==|!=|<|>) ", lambda m: {"<=": [" < ", " > "], ">=": [" > ", " < "], "==": [" != "], "!=": [" == "], "<": [" <= ", " >= "], ">": [" >= ", " <= "]}[m.group(1)], "rel")
    each(r" (\+|-|\*|/|%) ", lambda m: {"+": [" - "], "-": [" + "], "*": [" + "], "/": [" * "], "%": [" / "]}[m.group(1)], "arith")
    each(r" (\+=|-=) ", lambda m: [" -= " if m.group(1) == "+=" else " += ", " = "], "asg")
    each(r"\+\+|--", lambda m: ["--" if m.group(0) == "++" else "++"], "inc")
    each(r"&&|\|\|", lambda m: ["||" if m.group(0) == "&&" else "&&"], "logic")
    each(r"\btrue\b|\bfalse\b", lambda m: ["false" if m.group(0) == "true" else "true"], "bool")
    each(r"(?<![\w.'])\d+(?![\w.'])", lambda m: {"0": ["1"], "1": ["0", "2"]}.get(m.group(0), [str(int(m.group(0)) + 1)]), "num")
    each(r"notify_all\(\)", lambda m: ["notify_one()"], "notify")
    each(r"std::move\(([\w.\[\]>*-]+)\)", lambda m: [m.group(1)], "move")
    each(r"memory_order_(acquire|release|acq_rel|seq_cst)", lambda m: ["memory_order_relaxed"], "order")
    for m in re.finditer(r"\b(if|while) \(", code):
        i, d = m.end(), 1
        while d:
            d += {"(": 1, ")": -1}.get(code[i], 0); i += 1
        add(m.end(), i - 1, "!(" + SRC[m.end():i - 1] + ")", f"neg: {SRC[m.start():i]!r}"[:150])
    # statement deletion: from previous ; { } to next ;
    for m in re.finditer(r";", code):
        a = max(code.rfind(c, 0, m.start()) for c in ";{}") + 1
        st = code[a:m.end()]
        if "for (" in st or not st.strip(" \n;") or re.match(r"\s*(using|template|typedef|return;|default|case|public|private|#|friend|class|struct)", st):
            continue
        if code[a - 1] == ";" and code.rfind("for (", 0, a) > code.rfind(")", 0, a):
            continue
        lead = len(st) - len(st.lstrip())
        add(a + lead, m.end(), ";", "del: " + " ".join(st.split())[:110])
        if re.match(r"\s*return ", st): continue
    return out

MU = mutants()
if "--list" in sys.argv:
    for i, (l, w, t) in enumerate(MU): print(i, l, w)
    sys.exit()
N = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 8
sel = list(range(len(MU)))
if "--only" in sys.argv:
    a, b = sys.argv[sys.argv.index("--only") + 1].split("-"); sel = sel[int(a):int(b)]
if "--redo" in sys.argv:
    want = {(l.split(" | ")[1], l.split(" | ")[2].strip()) for l in open(sys.argv[sys.argv.index("--redo") + 1]) if " | " in l}
    sel = [i for i in sel if (str(MU[i][0]), MU[i][1]) in want]
q = queue.Queue()
for i in sel: q.put(i)
res, lk, t0 = {}, threading.Lock(), time.time()

SUB = {"MappedVector.hpp": [0, 1, 2, 4], "StringMappedVector.hpp": [5, 7, 20, 6], "MappedPointerVector.hpp": [8, 9], "DualMappedVector.hpp": [10, 11, 12, 22],
       "DualStringMappedVector.hpp": [13, 15, 21], "DualMappedPointerVector.hpp": [16, 17], "mapOps.hpp": [0], "MapTraits.hpp": [3, 17],
       "StableBlockVector.hpp": [0, 2, 7, 12], "StableBlockDeque.hpp": [0, 2, 7, 12], "BlockIterator.hpp": [0, 2, 5, 10]}
CHILD = r"""
import sys, os, json
sys.path.insert(0, %r)
import check, jobs
sub = json.loads(sys.argv[3])
if sub:   # fewer configurations, to build faster
    for e in ("blocks", "mapped"):
        jobs.ENGINES[e]["tus"] = jobs.ENGINES[e]["tus"][:1] + [jobs.ENGINES[e]["tus"][1 + i] for i in sub if 1 + i < len(jobs.ENGINES[e]["tus"])]
plan = json.loads(sys.argv[1]); wd = sys.argv[2]
os.makedirs(check.BUILD, exist_ok=True)
ENV = dict(check.ENV)
for k, (e, f, m, n, p) in enumerate(plan):
    try: exe, _ = check.build(e, f)
    except check.BuildError as x:
        print("NOBUILD", str(x)[:300].replace("\n", " ")); sys.exit(0)
    a = ["--mode", m, "--seed", str(1000 + k), "--cases", str(n), "--out", wd + "/o.json", "--cur", wd + "/c.bin", "--tmp", wd, "--secs", "40", "--maxlen", "320" if e == "conc" else "1024"]
    for kk, v in p.items(): a += ["--param", "%%s=%%s" %% (kk, v)]
    rc, out = check.run_engine(exe, a, 90)
    if rc != 0:
        cur = check.read_cur(wd + "/c.bin")
        print("KILLED", m, p, (cur or {}).get("key") or check.san_key(out) or rc); sys.exit(0)
print("SURVIVED")
""" % ROOT

def work(w):
    d = f"/tmp/mut/{H}-{w}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/wd")
    subprocess.run(["cp", "-a", "/repo/gmlc", d + "/"])
    subprocess.run(f"mkdir -p {d}/repo && mv {d}/gmlc {d}/repo/", shell=True)
    while True:
        try: i = q.get_nowait()
        except queue.Empty: break
        open(f"{d}/repo/gmlc/containers/{H}", "w").write(MU[i][2])
        env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_BUILD=d + "/build", VERIF_NCPU="1")
        r = subprocess.run([sys.executable, "-c", CHILD, json.dumps(PLAN[H]), d + "/wd", json.dumps(SUB.get(H, []))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        o = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else "?"
        subprocess.run(["find", d + "/build", "-mindepth", "1", "-delete"])
        with lk:
            res[i] = o
            print(f"{len(res)}/{len(sel)} {time.time()-t0:.0f}s | {MU[i][0]} | {MU[i][1]} | {o}", flush=True)
    shutil.rmtree(d, ignore_errors=True)

ts = [threading.Thread(target=work, args=(w,)) for w in range(N)]
[t.start() for t in ts]; [t.join() for t in ts]
from collections import Counter
print(Counter(o.split()[0] for o in res.values()))
with open(f"/tmp/mut/{H}.surv", "w") as f:
    for i in sorted(res):
        if not res[i].startswith(("KILLED", "NOBUILD")):
            f.write(f"{i} | {MU[i][0]} | {MU[i][1]}\n")
