#!/usr/bin/env python3
"""Development helper (no check uses it): confirm planted bugs.

  plant.py new FILE.py          create /verif/seeded/<id>/ from the specifications in FILE.py
                                BUGS = [dict(id=,prop=,edits=[(file,old,new)..],demo=C++ text,needs=,breaks=,flags=optional)]
  plant.py verify [-j N] ID..   patch applies + touches original lines, builds, tests pass, demo discriminates,
                                the check of the property reports it
Scratch copies live in /tmp/plant/<n> and are removed by the caller.
"""
import json, os, re, subprocess, sys, threading, queue, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")
BASE = "f38284e"
ENV = dict(os.environ, CC="gcc", CXX="g++", LC_ALL="C.UTF-8")
DEMO_SH = """#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
g++ -std=c++17 -O1 -g %s -I. "$here/demo.cpp" -o "$d/demo" -lpthread -ldl
rc=$?
if [ $rc -eq 0 ]; then timeout 200 "$d/demo"; rc=$?; fi
unlink "$d/demo"; rmdir "$d"
exit $rc
"""
PRE = """#include <cstdio>
#include <cstdlib>
#define CHECK(x) do { if (!(x)) { std::printf("FAILED line %d: %s\\n", __LINE__, #x); std::fflush(stdout); std::_Exit(1); } } while (0)
"""


def run(c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def mk(spec):
    d = os.path.join(SEED, spec["id"])
    os.makedirs(d, exist_ok=True)
    tmp = f"/tmp/plant/new"
    shutil.rmtree(tmp, ignore_errors=True)
    run(["git", "clone", "-q", "-s", "/repo", tmp])
    for f, old, new in spec["edits"]:
        p = os.path.join(tmp, "gmlc/containers", f)
        t = open(p).read()
        n = 1
        if isinstance(old, tuple):
            old, n = old   # n-th occurrence
            parts = t.split(old)
            if len(parts) <= n:
                return f"occurrence {n} not found ({len(parts)-1})"
            t = old.join(parts[:n]) + new + old.join(parts[n:])
        else:
            if t.count(old) != 1:
                return f"old text found {t.count(old)} times in {f}"
            t = t.replace(old, new)
        open(p, "w").write(t)
    diff = run(["git", "-C", tmp, "diff"]).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    shutil.rmtree(tmp)
    open(os.path.join(d, "demo.cpp"), "w").write(PRE + spec["demo"].strip() + "\n")
    p = os.path.join(d, "demo.sh")
    open(p, "w").write(DEMO_SH % spec.get("flags", ""))
    os.chmod(p, 0o755)
    json.dump({"property": spec["prop"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    return None


def original_lines(patch):
    """removed lines of the patch and whether they are lines of the base commit"""
    f, ln, orig, own, added = None, 0, 0, 0, 0
    cache = {}
    for l in open(patch):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            if f not in cache:
                b = run(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", f]).stdout.splitlines()
                cache[f] = [x.startswith("^" + BASE[:7]) or x.startswith(BASE) for x in b]
        elif l.startswith("@@"):
            ln = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("+++") or l.startswith("diff") or l.startswith("index"):
            continue
        elif l.startswith("-"):
            if cache[f][ln - 1]:
                orig += 1
            else:
                own += 1
            ln += 1
        elif l.startswith("+"):
            added += 1
        elif f:
            ln += 1
    return orig, own, added


def prepare(w):
    d = f"/tmp/plant/{w}"
    if not os.path.exists(d + "/repo"):
        os.makedirs(d, exist_ok=True)
        run(["git", "clone", "-q", "/repo", d + "/repo"])
        run(["bash", "-c", f"cp -a /repo/_build/_deps {d}/ 2>/dev/null; true"])
        r = run(["cmake", "-S", d + "/repo", "-B", d + "/b", "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_CXX_FLAGS=-Wno-error",
                 "-DGMLC_CONTAINERS_TEST=ON", "-DGMLC_CONTAINERS_BENCHMARK=OFF", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
                 "-DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest"], env=ENV)
        if r.returncode:
            print(r.stdout[-2000:]); sys.exit(1)
        run(["ninja", "-C", d + "/b"], env=ENV)
    else:
        run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."])
        run(["git", "-C", d + "/repo", "pull", "-q"])
    return d


def verify(w, bid, lock, only_check=False):
    d = prepare(w)
    repo = d + "/repo"
    sd = os.path.join(SEED, bid)
    meta = json.load(open(sd + "/meta.json"))
    res = []
    o, own, add = original_lines(sd + "/patch.diff")
    res.append(f"orig-={o} own-={own} +={add}" + ("" if o else " NO-ORIGINAL-LINE"))
    dm = f"{d}/demo"
    if not only_check:
        shutil.rmtree(dm, ignore_errors=True)
        shutil.copytree(sd, dm)
        for x in ("patch.diff", "meta.json"):
            os.unlink(os.path.join(dm, x))
        r = run(["bash", dm + "/demo.sh"], cwd=repo)
        res.append("demo-clean=" + str(r.returncode) + ("" if r.returncode == 0 else " BAD " + r.stdout[-700:]))
    r = run(["git", "-C", repo, "apply", sd + "/patch.diff"])
    if r.returncode:
        res.append("APPLY FAILED " + r.stdout)
        return res
    try:
        if not only_check:
            r = run(["ninja", "-C", d + "/b"], env=ENV)
            if r.returncode:
                res.append("BUILD FAILED " + r.stdout[-1500:])
                return res
            rep = d + "/report.txt"
            if os.path.exists(rep):
                os.unlink(rep)
            run(["python3", "/opt/vp/run_cases.py", d + "/b", "^(BlockingQueueTests|PriorityBlockingQueueTests)$", rep], env=ENV)
            run(["python3", "/opt/vp/results.py", d + "/out.json", "lines:" + rep])
            out = json.load(open(d + "/out.json"))
            passed = set(out.get("passed", []))
            stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            miss = stable - passed
            res.append("tests ok" if not miss else f"TESTS FAIL {sorted(miss)[:4]} ({len(miss)})")
            r = run(["bash", dm + "/demo.sh"], cwd=repo)
            res.append(f"demo-bug={r.returncode}" + (" DEMO-SILENT" if r.returncode == 0 else " " + r.stdout.strip().splitlines()[-1][-120:] if r.stdout.strip() else ""))
        with lock:
            r = run(["python3", os.path.join(ROOT, "check.py"), meta["property"]], env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
        hit = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + meta["property"])]
        res.append(("CAUGHT" if r.returncode == 1 and hit else f"MISSED(rc={r.returncode})") + " " + meta["property"])
        open(f"/tmp/plant/{bid}.log", "w").write(r.stdout)
    finally:
        run(["git", "-C", repo, "checkout", "-q", "--", "."])
    return res


def main():
    if sys.argv[1] == "new":
        g = {}
        exec(open(sys.argv[2]).read(), g)
        for b in g["BUGS"]:
            e = mk(b)
            print(b["id"], e or "written")
        return
    args = sys.argv[2:]
    n = 3
    if args and args[0] == "-j":
        n = int(args[1]); args = args[2:]
    only = sys.argv[1] == "check"
    ids = args or sorted(os.listdir(SEED))
    q = queue.Queue()
    for i in ids:
        q.put(i)
    lock = threading.Semaphore(2)
    pl = threading.Lock()

    def work(w):
        while True:
            try:
                i = q.get_nowait()
            except queue.Empty:
                return
            try:
                r = verify(w, i, lock, only)
            except Exception as e:
                r = [repr(e)]
            with pl:
                print(i, "|", " | ".join(r), flush=True)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]


main()
