#!/usr/bin/env python3
"""run.py WORKERS [name-substring]: apply each hand-written defect to a scratch copy of /repo and run its property's check there; prints missed ones."""
import sys, os, subprocess, glob, importlib.util, threading, queue, time
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
N = int(sys.argv[1]); sub = sys.argv[2] if len(sys.argv) > 2 else ""
jobs = queue.Queue()
for f in sorted(glob.glob(V + "/tools/hand/[a-z].py")):
    s = importlib.util.spec_from_file_location("m", f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    for r in m.R:
        if any(x in r[0] for x in sub.split(",")): jobs.put(r)
out = threading.Lock()
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def work(i):
    d = f"/tmp/hd{i}"; os.makedirs(d + "/verif", exist_ok=True)
    sh(f"cd {V} && tar cf - --exclude=.git --exclude=seeded --exclude=./.work --exclude=evidence . | tar xf - -C {d}/verif")
    if not os.path.exists(d + "/verif/.work"): sh(f"cp -a {V}/.work {d}/verif/.work")
    sh(f"rm -rf {d}/repo; git clone -q /repo {d}/repo; cp /repo/Cargo.lock {d}/repo/ 2>/dev/null")
    env = dict(os.environ, FACTRS_REPO=d + "/repo", SA_VERBOSE="1")
    while True:
        try: name, prop, edits = jobs.get_nowait()
        except queue.Empty: return
        sh(f"git -C {d}/repo checkout -q -- .")
        bad = []
        for f, old, new in edits:
            p = f"{d}/repo/{f}"; t = open(p).read()
            if t.count(old) < 1: bad.append(old[:60]); continue
            open(p, "w").write(t.replace(old, new))
        if bad:
            with out: print(f"{name}: EDIT NOT FOUND {bad}", flush=True)
            continue
        res = []
        for c in prop.split(","):
            t0 = time.time()
            r = sh(f"cd {d}/verif && timeout 900 ./check {c}", env=env)
            ls = (r.stdout + r.stderr).splitlines()
            if "factrs does not compile" in r.stdout: res.append("DOES NOT COMPILE " + " ".join(l for l in ls if "error" in l or "-->" in l)[:300]); break
            u = [l.strip()[:140] for l in ls if l.strip().startswith("undecided")]
            res.append(f"{c} {'caught' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'EXIT ' + str(r.returncode)} ({time.time()-t0:.0f}s)" + (f" undecided {len(u)}: {u[:2]}" if u else ""))
        with out: print(f"{name}: " + "; ".join(res), flush=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(N)]
[t.start() for t in ts]; [t.join() for t in ts]
