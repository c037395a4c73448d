#!/usr/bin/env python3
"""dev helper: dev.py ENGINE FLAVOR mode[,mode] [cases] [seed] [k=v ...] -> run each mode once, show the first failure minimised"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check, time, re
e, f, modes = sys.argv[1:4]
cases = sys.argv[4] if len(sys.argv) > 4 else "2000"
seed = sys.argv[5] if len(sys.argv) > 5 else "1"
params = [x for x in sys.argv[6:] if "=" in x]
os.makedirs(check.BUILD, exist_ok=True)
try:
    exe, t = check.build(e, f)
except check.BuildError as x:
    print(x); sys.exit(2)
print("build %.1fs" % t)
wd = os.path.join(check.BUILD, "dev"); os.makedirs(wd, exist_ok=True)
for m in modes.split(","):
    a = ["--mode", m, "--seed", seed, "--cases", cases, "--out", wd + "/o.json", "--cur", wd + "/c.bin", "--tmp", wd]
    for p in params: a += ["--param", p]
    t0 = time.time()
    rc, out = check.run_engine(exe, a, 600)
    print("==", m, "rc", rc, "%.1fs" % (time.time() - t0), open(wd + "/o.json").read()[:900] if rc == 0 else "")
    if rc != 0:
        cur = check.read_cur(wd + "/c.bin")
        job = dict(mode=m, params=dict(x.split("=") for x in params))
        rc2, o2 = check.replay_once(exe, job, cur["case"], wd)
        key = check.san_key(o2)
        print("replay rc", rc2, "key", key, "| first:", check.san_key(out))
        if rc2 not in (0,):
            d = check.minimise(exe, job, cur["case"], key, wd, 30) if key != "hang" else cur["case"]
            rc3, o3 = check.replay_once(exe, job, d, wd, trace=True)
            print("\n".join(check.interesting(o3)))
            m2 = re.search(r"TRACE (.*)", o3)
            print(len(d), "bytes", m2.group(1)[:1500] if m2 else o3[-1500:])
        else:
            print(out[-3000:])
