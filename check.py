#!/usr/bin/env python3
"""Driver of the /verif checks.

  check.py <PROPERTY> [--thorough]      run the check (honours VERIF_SEED, VERIF_TIER)
  check.py --replay <file> [--trace]    re-run a recorded violation
  check.py --setup                      verify that the toolchain is usable
Exit: 0 held, 1 violation (line VIOLATION property=.. replay=..), 2 the check itself could not decide.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(ROOT, "build")
REPLAYS = os.path.join(ROOT, "replays") if REPO == "/repo" else os.path.join(BUILD, "replays")
EVID = os.path.join(ROOT, "evidence") if REPO == "/repo" else os.path.join(BUILD, "evidence")  # scratch copies do not touch the evidence
NCPU = int(os.environ.get("VERIF_NCPU") or min(8, os.cpu_count() or 8))
sys.path.insert(0, ROOT)
from jobs import ENGINES, FLAVORS, PROPS, RULES, SOFT  # noqa: E402

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "exitcode=99:detect_leaks=0:quarantine_size_mb=24:malloc_context_size=12:hard_rss_limit_mb=5000:detect_stack_use_after_return=0:allocator_may_return_null=1"
ENV["UBSAN_OPTIONS"] = "exitcode=99:print_stacktrace=1"
ENV["TSAN_OPTIONS"] = "exitcode=99:halt_on_error=1:history_size=4:detect_deadlocks=1:second_deadlock_stack=1:report_signal_unsafe=0"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


# ------------------------------------------------------------------ building
def source_hash(extra):
    h = hashlib.sha256()
    files = sorted(glob.glob(os.path.join(REPO, "gmlc", "**", "*.hpp"), recursive=True)) + sorted(glob.glob(os.path.join(ROOT, "harness", "*")))
    for f in files:
        h.update(f.encode())
        h.update(open(f, "rb").read())
    h.update(extra.encode())
    return h.hexdigest()[:16]


class BuildError(Exception):
    pass


def build(engine, flavor):
    e, f = ENGINES[engine], FLAVORS[flavor]
    base = [f["cxx"]] + f["flags"] + ["-I" + REPO, "-I" + os.path.join(ROOT, "harness")] + e.get("flags", [])
    hid = source_hash(repr((e, f)))
    d = os.path.join(BUILD, f"{engine}-{flavor}-{hid}")
    exe = os.path.join(d, "engine")
    if os.path.exists(exe):
        return exe, 0.0
    for old in glob.glob(os.path.join(BUILD, f"{engine}-{flavor}-*")):
        try:
            if time.time() - os.path.getmtime(old) > 3600:
                shutil.rmtree(old, ignore_errors=True)
        except OSError:
            pass
    tmp = d + f".tmp{os.getpid()}"
    os.makedirs(tmp, exist_ok=True)
    t0 = time.time()

    def comp(i_tu):
        i, tu = i_tu
        o = os.path.join(tmp, f"o{i}.o")
        flags = list(base)
        if tu.get("nosan"):
            flags = [f["cxx"], "-std=c++17", "-O2", "-fno-builtin", "-g1", "-fno-omit-frame-pointer", "-I" + REPO, "-I" + os.path.join(ROOT, "harness")]
        r = sh(flags + tu.get("defs", []) + ["-c", os.path.join(ROOT, "harness", tu["src"]), "-o", o])
        return r, o

    objs = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for r, o in ex.map(comp, enumerate(e["tus"])):
            if r.returncode != 0:
                shutil.rmtree(tmp, ignore_errors=True)
                raise BuildError(r.stdout[-6000:])
            objs.append(o)
    link = [f["cxx"]] + f["flags"] + objs + f.get("ldflags", []) + e.get("ldflags", []) + ["-lpthread", "-o", os.path.join(tmp, "engine")]
    r = sh(link)
    if r.returncode != 0:
        shutil.rmtree(tmp, ignore_errors=True)
        raise BuildError(r.stdout[-6000:])
    for o in objs:
        os.unlink(o)
    try:
        os.rename(tmp, d)
    except OSError:
        if not os.path.exists(exe):
            raise
        shutil.rmtree(tmp, ignore_errors=True)
    return exe, time.time() - t0


# ------------------------------------------------------------------ running
CUR_HDR = 8 + 4 + 4 + 8 + 96 + 1024


def read_cur(path):
    try:
        d = open(path, "rb").read()
        n, active = struct.unpack_from("<II", d, 8)
        idx = struct.unpack_from("<Q", d, 16)[0]
        key = d[24:120].split(b"\0")[0].decode(errors="replace")
        msg = d[120:120 + 1024].split(b"\0")[0].decode(errors="replace")
        return dict(case=d[CUR_HDR:CUR_HDR + n], active=active, index=idx, key=key, msg=msg)
    except (OSError, struct.error):
        return None


def san_key(text):
    """a stable name for what a sanitizer (or the C++ runtime) reported"""
    m = re.search(r"ORACLE ([\w.\-]+):", text)
    if m:
        return m.group(1)
    m = re.search(r"SUMMARY: (\w+Sanitizer): ([\w\-]+)", text)
    if m:
        k = m.group(2)
        if m.group(1) == "UndefinedBehaviorSanitizer":
            m2 = re.search(r"runtime error: ([^\n]{0,60})", text)
            return "ubsan: " + re.sub(r"0x[0-9a-f]+|\d+", "N", m2.group(1)) if m2 else "ubsan"
        return f"{m.group(1)}: {k}"
    m = re.search(r"Assertion '([^']*)' failed", text)
    if m:
        return "libstdc++ assertion: " + m.group(1)[:60]
    if "terminate called" in text:
        return "std::terminate"
    if "HANG" in text:
        return "hang"
    return ""


def interesting(text):
    out = []
    for l in text.splitlines():
        if re.search(r"ORACLE|ERROR|WARNING: ThreadSanitizer|runtime error|SUMMARY|Assertion|terminate|what\(\)|HANG|^\s+#\d+ .*gmlc", l):
            out.append(l.strip()[:300])
    return out[:40]


def run_engine(exe, args, timeout, env=None):
    try:
        p = subprocess.Popen([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env or ENV, start_new_session=True)
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return "timeout", out.decode(errors="replace")


def replay_args(job, path):
    a = ["--mode", job["mode"], "--replay", path]
    for k, v in job.get("params", {}).items():
        a += ["--param", f"{k}={v}"]
    return a


def replay_once(exe, job, data, wd, n=[0], trace=False, timeout=90):
    n[0] += 1
    f = os.path.join(wd, f"rp{os.getpid()}_{n[0]}_{id(data) & 0xffff}.bin")
    open(f, "wb").write(data)
    rc, out = run_engine(exe, replay_args(job, f) + (["--trace"] if trace else []), timeout)
    os.unlink(f)
    return rc, out


def minimise(exe, job, data, key, wd, budget=40.0):
    """ddmin over the case bytes, keeping the same failure key"""
    t0 = time.time()

    def bad(d):
        rc, out = replay_once(exe, job, d, wd, timeout=40)
        return rc != 0 and rc != 3 and san_key(out) == key

    step = max(1, len(data) // 2)
    while step >= 1 and time.time() - t0 < budget:
        cands = [data[:i] + data[i + step:] for i in range(0, len(data), step)]
        hit = False
        for i in range(0, len(cands), NCPU):
            if time.time() - t0 > budget:
                break
            chunk = cands[i:i + NCPU]
            with cf.ThreadPoolExecutor(NCPU) as ex:
                res = list(ex.map(bad, chunk))
            for c, b in zip(chunk, res):
                if b:
                    data, hit = c, True
                    break
            if hit:
                break
        if not hit or step > len(data):
            step = step // 2 if step <= len(data) else len(data) // 2
    return data


def known_findings(prop):
    """lines  'known: property=ID key=<failure key> match=<regex on the message>'"""
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(.*?) match=(.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3))))
    return out


def main_check(prop, tier, seed):
    t0 = time.time()
    spec = PROPS[prop]
    thorough = tier == "thorough"
    wd = os.path.join(BUILD, f"run-{prop}-{os.getpid()}")
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    os.makedirs(EVID, exist_ok=True)
    exes, build_s = {}, 0.0
    try:
        todo = [(ji, j) for ji, j in enumerate(spec["jobs"]) if j["cases"][1 if thorough else 0]]
        kinds = sorted({(j["engine"], j["flavor"]) for _, j in todo})
        with cf.ThreadPoolExecutor(3) as ex:
            for k, (exe, _) in zip(kinds, ex.map(lambda k: build(*k), kinds)):
                exes[k] = exe
        build_s = time.time() - t0
    except BuildError as x:
        print(x)
        print(f"check {prop}: the harness does not build against {REPO}")
        return 2
    runs = []
    for ji, j in todo:
        for k in range(j.get("procs", 1)):
            runs.append((ji, j, k))
    # long jobs first
    runs.sort(key=lambda r: -r[1].get("weight", 1))
    limit = spec.get("limit", 260) if not thorough else spec.get("tlimit", 700)

    def one(r):
        ji, j, k = r
        name = f"{ji}-{k}"
        rwd = os.path.join(wd, name)
        os.makedirs(rwd)
        s = int.from_bytes(hashlib.sha256(f"{seed}/{prop}/{ji}/{k}".encode()).digest()[:6], "little")
        cases = j["cases"][1] if thorough else j["cases"][0]
        a = ["--mode", j["mode"], "--seed", str(s), "--out", rwd + "/out.json", "--cur", rwd + "/cur.bin", "--tmp", rwd, "--secs", str(limit),
             "--maxlen", str(j.get("maxlen", 1024))]
        a += ["--fuzz" if j.get("fuzz") else "--cases", str(cases)]
        for kk, v in j.get("params", {}).items():
            a += ["--param", f"{kk}={v}"]
        env = dict(ENV)
        env.update(j.get("env", {}))
        rc, out = run_engine(exes[(j["engine"], j["flavor"])], a, limit + 120, env)
        return dict(job=j, ji=ji, k=k, rc=rc, out=out, wd=rwd, seed=s, args=a)

    with cf.ThreadPoolExecutor(spec.get("par", NCPU)) as ex:
        results = list(ex.map(one, runs))

    # ---- statistics
    total = dict(evaluations=0, counters={}, maxima={}, samples=[])
    cases, states, jobs_cov = set(), set(), []
    for r in results:
        try:
            st = json.load(open(r["wd"] + "/out.json"))
        except (OSError, ValueError):
            st = None
        r["st"] = st
        if st:
            total["evaluations"] += st["evaluations"]
            for c, v in st["counters"].items():
                total["counters"][c] = total["counters"].get(c, 0) + v
            for c, v in st["maxima"].items():
                total["maxima"][c] = max(total["maxima"].get(c, 0), v)
            if len(total["samples"]) < 6:
                total["samples"] += [f"{r['job']['mode']}: {x}" for x in st["samples"][:1] if x]
            cases |= {(r["ji"], x) for x in st["case_hashes"]}
            states |= {(r["job"]["mode"], x) for x in st["state_hashes"]}
        jobs_cov.append(dict(engine=r["job"]["engine"], build=r["job"]["flavor"], mode=r["job"]["mode"], params=r["job"].get("params", {}),
                             libfuzzer=bool(r["job"].get("fuzz")), seed=r["seed"], evaluations=st["evaluations"] if st else 0, exit=r["rc"]))

    # ---- failures
    violations, inconclusive, broken, known = [], [], [], []
    handled = set()
    kf = known_findings(prop)
    for r in results:
        if r["rc"] == 0:
            continue
        exe = exes[(r["job"]["engine"], r["job"]["flavor"])]
        cur = read_cur(r["wd"] + "/cur.bin")
        key = (cur or {}).get("key") or san_key(r["out"])
        msg = (cur or {}).get("msg") or "; ".join(interesting(r["out"])[:6])
        if r["rc"] == 3 or cur is None:
            broken.append(r["out"][-2000:])
            continue
        if r["rc"] in (71,) or (r["rc"] == -9 and not key):
            inconclusive.append(f"{r['job']['mode']}: engine killed (memory)")
            continue
        if r["rc"] == "timeout":
            key = "hang"
        if r["rc"] == 70:
            key = "hang"
        if (r["ji"], key) in handled:
            continue
        handled.add((r["ji"], key))
        data = cur["case"]
        confirmed, rout = False, ""
        det = FLAVORS[r["job"]["flavor"]].get("deterministic", True)
        rc2, rout = replay_once(exe, r["job"], data, wd, timeout=150)
        if rc2 != 0 and rc2 != 3:
            confirmed = True
            key = san_key(rout) or ("hang" if rc2 == "timeout" else key) or f"exit {rc2}"
            mm = re.search(r"ORACLE [\w.\-]+: (.*)", rout)
            if mm:
                msg = mm.group(1)
        if not confirmed and key == "hang":
            inconclusive.append(f"{r['job']['mode']}: a case exceeded its time limit once and finished when run again")
            continue
        if not confirmed and det:
            # state carried over between cases: repeat the whole run
            rc3, out3 = run_engine(exe, r["args"], limit + 120, dict(ENV, **r["job"].get("env", {})))
            if rc3 == 0:
                inconclusive.append(f"{r['job']['mode']}: {key or r['rc']} was not reproducible")
                continue
        if not key:
            key = f"exit {r['rc']}"
        if any(key == k and rx.search(msg) for k, rx in kf):
            known.append(f"{key}: {msg}")
            continue
        if confirmed and det and key != "hang" and len(violations) < 2 and not r["job"].get("nomin"):
            data = minimise(exe, r["job"], data, key, wd)
            rc2, rout = replay_once(exe, r["job"], data, wd, trace=True)
            mm = re.search(r"ORACLE [\w.\-]+: (.*)", rout)
            if mm:
                msg = mm.group(1)
        os.makedirs(REPLAYS, exist_ok=True)
        tr = re.search(r"TRACE (.*)", rout)
        rec = dict(property=prop, engine=r["job"]["engine"], flavor=r["job"]["flavor"], mode=r["job"]["mode"], params=r["job"].get("params", {}),
                   key=key, message=msg, confirmed_by_replay=confirmed, case_hex=data.hex(), run_args=r["args"], trace=tr.group(1)[:4000] if tr else "",
                   report=interesting(rout or r["out"]), output_tail=(rout or r["out"])[-6000:])
        path = os.path.join(REPLAYS, f"{prop}-{hashlib.sha256(json.dumps([key, data.hex(), r['seed']]).encode()).hexdigest()[:10]}.json")
        json.dump(rec, open(path, "w"), indent=1)
        violations.append(dict(key=key, message=msg, replay=path, report=rec["report"][:10]))

    absent = [c for c in spec.get("need", []) if not total["counters"].get(c)]
    missing = [c for c in absent if c not in SOFT]
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get("level", "exploration"),
              coverage=dict(evaluations=total["evaluations"], distinct_nontrivial=len(cases), rule=RULES[spec["rule"]],
                            samples=total["samples"], distinct_states=len(states), observed=dict(sorted(total["counters"].items())),
                            maxima=total["maxima"], runs=jobs_cov, inconclusive=inconclusive, build_s=round(build_s, 1)),
              assumptions=spec.get("assumptions", ["the model in harness/ states the intended behaviour", "clang 18 sanitizer runtimes report correctly"]),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    if known:
        ev["coverage"]["known_findings"] = known
    if absent:
        ev["coverage"]["not_observed"] = absent
    json.dump(ev, open(os.path.join(EVID, f"{prop}.json"), "w"), indent=1)
    shutil.rmtree(wd, ignore_errors=True)
    for k in sorted(set(known)):
        print(f"KNOWN-FINDING: property={prop} {k}")
    print(f"{prop} [{tier}, seed {seed}]: {total['evaluations']} cases, {len(cases)} distinct non-trivial, {len(states)} states, "
          f"{sum(total['counters'].values())} events, build {build_s:.1f}s, total {time.time() - t0:.1f}s")
    for x in inconclusive:
        print("inconclusive:", x)
    if absent and not missing:
        print("note: this implementation gave no occasion for:", ", ".join(absent))
    if violations:
        for v in violations:
            print(f"  {v['key']}: {v['message']}")
            for l in v["report"][:8]:
                print("    ", l)
            print(f"VIOLATION property={prop} replay={v['replay']}")
        return 1
    if broken:
        print("engine failure:", broken[0])
        return 2
    if missing:
        print("the run observed none of:", ", ".join(missing))
        return 2
    return 0


def main_replay(path, trace):
    rec = json.load(open(path))
    exe, _ = build(rec["engine"], rec["flavor"])
    wd = os.path.join(BUILD, f"replay-{os.getpid()}")
    os.makedirs(wd, exist_ok=True)
    if rec.get("confirmed_by_replay"):
        rc, out = replay_once(exe, rec, bytes.fromhex(rec["case_hex"]), wd, trace=trace, timeout=200)
    else:
        a = list(rec["run_args"])
        for opt, val in (("--out", wd + "/out.json"), ("--cur", wd + "/cur.bin"), ("--tmp", wd)):
            a[a.index(opt) + 1] = val
        rc, out = run_engine(exe, a, 900)
    shutil.rmtree(wd, ignore_errors=True)
    print(out[-12000:])
    print("replay exit:", rc)
    if rc not in (0, 3):
        print(f"VIOLATION property={rec['property']} replay={path}")
        return 1
    return 0 if rc == 0 else 2


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    os.makedirs(BUILD, exist_ok=True)
    if a[0] == "--setup":
        for t in ("clang++",):
            if not shutil.which(t):
                print("missing tool", t)
                return 2
        print("toolchain present; every check builds what it needs from", REPO)
        return 0
    if a[0] == "--replay":
        return main_replay(a[1], "--trace" in a)
    tier = "thorough" if "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return main_check(a[0], tier, seed)


if __name__ == "__main__":
    sys.exit(main())
