#!/usr/bin/env python3
"""run.py WORKERS [name-substring] [checks]: apply each behaviour-preserving edit to a scratch copy of /repo and run the checks on it there.
Needs /tmp/rf<i>/{verif,repo} copies (made here on first use)."""
import sys, os, subprocess, glob, importlib.util, threading, queue, time
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
N = int(sys.argv[1]); sub = sys.argv[2] if len(sys.argv) > 2 else ""
CHECKS = sys.argv[3].split(",") if len(sys.argv) > 3 else ["C%02d" % i for i in list(range(1, 24)) + [26]]
jobs = queue.Queue()
for f in sorted(glob.glob(V + "/tools/refac/[a-z].py")):
    s = importlib.util.spec_from_file_location("m", f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    for r in m.R:
        if any(x in r[0] for x in sub.split(",")):
            jobs.put(r)
out = threading.Lock()
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def work(i):
    d = f"/tmp/rf{i}"; os.makedirs(d, exist_ok=True)
    sh(f"rsync -a --delete --exclude .git --exclude seeded --exclude .work --exclude evidence {V}/ {d}/verif/") if sh("which rsync").returncode == 0 else sh(f"mkdir -p {d}/verif && cd {V} && tar cf - --exclude=.git --exclude=seeded --exclude=./.work --exclude=evidence . | tar xf - -C {d}/verif")
    if not os.path.exists(d + "/verif/.work"): sh(f"cp -a {V}/.work {d}/verif/.work")
    sh(f"rm -rf {d}/repo; git clone -q /repo {d}/repo; cp /repo/Cargo.lock {d}/repo/ 2>/dev/null")
    env = dict(os.environ, FACTRS_REPO=d + "/repo", SA_VERBOSE="1")
    while True:
        try: name, edits = jobs.get_nowait()
        except queue.Empty: return
        sh(f"git -C {d}/repo checkout -q -- .")
        bad = []
        for f, old, new in edits:
            p = f"{d}/repo/{f}"; t = open(p).read()
            if t.count(old) < 1: bad.append(old[:60]); continue
            open(p, "w").write(t.replace(old, new))
        res = []
        if bad: res.append("  EDIT NOT FOUND " + repr(bad))
        for c in CHECKS:
            t0 = time.time()
            r = sh(f"cd {d}/verif && timeout 900 ./check {c}", env=env)
            ls = [l for l in (r.stdout + r.stderr).splitlines()]
            if "factrs does not compile" in r.stdout: res.append("  DOES NOT COMPILE " + " ".join(l for l in ls if "error" in l or "-->" in l)[:400]); break
            if r.returncode != 0: res.append(f"  {c} EXIT {r.returncode} ({time.time()-t0:.0f}s)\n" + "\n".join("      " + l[:300] for l in ls[-5:]))
            else:
                u = [l.strip() for l in ls if l.strip().startswith(("undecided", "agrees"))]
                if u: res.append(f"  {c} {len(u)} not proved: " + " | ".join(x[:180] for x in u[:4]))
                if time.time() - t0 > 150: res.append(f"  {c} slow {time.time()-t0:.0f}s")
        with out:
            print(f"== {name}: " + ("quiet" if not res else ""), flush=True)
            for x in res: print(x, flush=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(N)]
[t.start() for t in ts]; [t.join() for t in ts]
