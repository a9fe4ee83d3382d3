#!/usr/bin/env python3
"""mutate.py OUTDIR WORKERS SEED COUNT [file-substring]: sample token-level mutants of /repo/src, drop those that do not compile or that the
repository's tests kill, run the checks on the rest (in scratch copies), and list the survivors for manual triage."""
import sys, os, re, random, subprocess, threading, queue, json, glob, time
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
out, N, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
sub = sys.argv[5] if len(sys.argv) > 5 else ""
os.makedirs(out, exist_ok=True)
OPS = [(r"(?<=[\w\])]) \+ (?=[\w(&\-])", [" - "]), (r"(?<=[\w\])]) - (?=[\w(&])", [" + "]), (r"(?<=[\w\])]) \* (?=[\w(&])", [" / "]), (r"(?<=[\w\])]) / (?=[\w(&])", [" * "]),
  (r"(?<=[(\[,= ])-(?=[a-zA-Z(&])", [""]), (r" <= ", [" < ", " >= "]), (r" < (?=[\w])", [" <= ", " > "]), (r" >= ", [" > "]), (r" > (?=[\w])", [" >= ", " < "]),
  (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
  (r"\+= ", ["-= "]), (r"-= ", ["+= "]), (r"\*= ", ["/= "]), (r"/= ", ["*= "]),
  (r"(?<![\w.])(\d+)(?![\w.])", "int"), (r"(?<![\w.])(\d+\.\d+|\d+e-\d+)(?![\w.])", "float"),
  (r"\.x\b(?!\()", [".y"]), (r"\.y\b(?!\()", [".z", ".x"]), (r"\.z\b(?!\()", [".y"]), (r"\.w\b(?!\()", [".x"]),
  (r"\bself\.(?=\w+\.(?:compose|apply|inverse))", ["other."]), (r"\bkey1\b", ["key2"]), (r"\bkey2\b", ["key1"]),
  (r"\bq(\d)\b", "var"), (r"\bm(\d\d)\b", "mvar"), (r"\b(gyro|accel)\b", "ga"), (r"\.transpose\(\)", [""]), (r"\.inverse\(\)", [".clone()"]),
  (r"\.sqrt\(\)", [""]), (r"\.abs\(\)", [""]), (r"\.sin\(\)", [".cos()"]), (r"\.cos\(\)", [".sin()"]), (r"\bnrows\b", ["ncols"]), (r"\bncols\b", ["nrows"]),
  (r"\bLower\b", ["Upper"]), (r"\bidx\b(?=\])", ["0"]), (r"_left\(", ["_right("]), (r"_right\(", ["_left("]), (r"\bxi_pos\b", ["xi_vel"]), (r"\bxi_vel\b", ["xi_pos"]),
  (r"\blambda_min\b", ["lambda_max"]), (r"\blambda_max\b", ["lambda_min"]), (r"error_tol_absolute", ["error_tol"]), (r"error_tol_relative", ["error_tol_absolute"]),
  (r"\berror_old\b", ["error_new"]), (r"\berror_new\b", ["error_old"]), (r"norm_squared\(\)", ["norm()"]), (r"\.norm\(\)", [".norm_squared()"]),
  (r"^(\s*)([\w.\[\](), ]+ [+\-*/]?= .*;|self\.[\w.]+\(.*\);|[\w.]+\.(?:push|insert|add_factor|notify|oplus_mut|copy_from)\(.*\);)\s*$", "del")]
SK = re.compile(r"^\s*(//|#\[|use |pub use |pub mod |mod |write!|writeln!|log::|println!)")
muts = []
for f in sorted(glob.glob("/repo/src/**/*.rs", recursive=True) + glob.glob("/repo/factrs-proc/src/*.rs")):
    if sub and sub not in f: continue
    if f.endswith(("variables/macros.rs", "optimizers/macros.rs")): continue
    L = open(f).read().split("\n")
    intest = False
    for n, l in enumerate(L):
        if "#[cfg(test)]" in l: break
        if SK.match(l) or "type " in l and "=" in l or "expect(" in l and "=" not in l: continue
        code = l.split("//")[0]
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                s = m.group(0)
                if reps == "int": rs = [str(int(s) + 1)] + ([str(int(s) - 1)] if int(s) > 0 else [])
                elif reps == "float": rs = [repr(float(s) * 2) if float(s) else "1.0"]
                elif reps == "var": rs = ["q%d" % ((int(m.group(1)) + 1) % 4)]
                elif reps == "mvar": rs = ["m" + m.group(1)[::-1]] if m.group(1) != m.group(1)[::-1] else ["m12"]
                elif reps == "ga": rs = ["accel" if s == "gyro" else "gyro"]
                elif reps == "del": rs = [m.group(1) + ";"]
                else: rs = reps
                if reps in ("int",) and re.search(r"Const<|VectorVar\d|Matrix\d|<\d", code[max(0, m.start() - 6):m.end()]): continue
                for r in rs: muts.append((f[6:], n, l, code[:m.start()] + r + code[m.end():]))
random.Random(seed).shuffle(muts)
print(len(muts), "mutants in total", flush=True)
muts = muts[:count]
MAP = {"src/variables/": "C01,C02,C03,C04,C05,C20,C23,C19,C17", "src/linalg/numerical": "C06", "src/linalg/forward": "C05,C07,C11", "src/linalg/": "C05,C06,C07,C12,C16", "src/containers/factor": "C07,C11,C12,C10",
  "src/containers/graph": "C07,C12,C16,C17", "src/containers/order": "C12,C13,C16", "src/containers/symbol": "C18,C17,C10", "src/containers/values": "C17,C04,C07,C10,C16", "src/linear/": "C07,C12,C13,C14,C16,C17", "src/optimizers/": "C15,C16,C14",
  "src/noise": "C09,C07,C22", "src/robust": "C08,C22,C07", "src/residuals/imu": "C19,C05", "src/residuals": "C20,C11,C05,C22", "src/utils": "C21", "src/rerun": "C23", "factrs-proc": "C11,C22,C10,C04"}
jobs = queue.Queue(); [jobs.put((i, m)) for i, m in enumerate(muts)]
lock = threading.Lock()
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def work(i):
    d = f"/tmp/mw{i}"; os.makedirs(d, exist_ok=True)
    sh(f"rsync -a --delete --exclude .git --exclude seeded --exclude .work --exclude evidence {V}/ {d}/verif/")
    if not os.path.exists(d + "/verif/.work"): sh(f"cp -a {V}/.work {d}/verif/.work")
    sh(f"rm -rf {d}/repo; git clone -q /repo {d}/repo; cp -a /opt/vp/pkg {d}/ 2>/dev/null; for n in {d}/pkg/* {d}/pkg/.git*; do [ -L $n ] && ln -sfn {d}/repo/$(basename $n) $n; done")
    env = dict(os.environ, FACTRS_REPO=d + "/repo", SA_LIMIT="600")
    tenv = f". /opt/vp/lib/env.sh; export CARGO_TARGET_DIR={d}/target; cd {d}/pkg"
    while True:
        try: k, (f, n, old, new) = jobs.get_nowait()
        except queue.Empty: return
        sh(f"git -C {d}/repo checkout -q -- .")
        p = f"{d}/repo/{f}"; L = open(p).read().split("\n")
        assert L[n] == old; L[n] = new; open(p, "w").write("\n".join(L))
        rr = "rerun" in f
        r = sh(f"{tenv}; timeout 300 cargo test --no-run --offline --lib --tests 2>&1 | tail -3; exit ${{PIPESTATUS[0]}}", executable="/bin/bash") if not rr else sh(f"{tenv}; timeout 600 cargo check --offline --features rerun --lib", executable="/bin/bash")
        st = None; det = ""
        if r.returncode: st = "nocompile"
        elif not rr:
            r = sh(f"{tenv}; timeout 120 cargo test --offline --lib --tests -- --test-threads 4 2>&1", executable="/bin/bash")
            if r.returncode: st = "test-killed"
        if st is None:
            cs = next(v for q, v in MAP.items() if q in f)
            got = []; und = []
            for c in cs.split(","):
                r = sh(f"cd {d}/verif && timeout 900 ./check {c}", env=env)
                if "VIOLATION" in r.stdout: got.append(c); break
                if r.returncode: und.append(f"{c}:exit{r.returncode}")
                m = re.search(r"'undecided': (\d+)", r.stdout)
                if m: und.append(f"{c}:{m.group(1)}und")
            st = "CAUGHT " + ",".join(got) if got else "SURVIVED " + " ".join(und)
        with lock:
            with open(out + "/log", "a") as o: o.write(f"{st} | {f}:{n+1} | {old.strip()}  ==>  {new.strip()}\n")
ts = [threading.Thread(target=work, args=(i,)) for i in range(N)]
[t.start() for t in ts]; [t.join() for t in ts]
open(out + "/log", "a").write("DONE\n")
