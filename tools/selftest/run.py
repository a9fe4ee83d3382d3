#!/usr/bin/env python3
"""Test of the analyser's library summaries (development only, no check runs it): every function of harness/src/st.rs is evaluated
symbolically, the result evaluated at numbers, and compared with what the compiled function returns."""
import signal, sys, os, subprocess, ast, random, re
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.path.insert(0, ROOT)
from sa import build, alg, spec as SP, hooks
from sa.interp import *
from sa import laws
from sa.laws import leaves, Env
def num(x, env):
    for path, leaf in leaves(x) if isinstance(x, Ite) else [((), x)]:
        if all(env.cond(a) == v for a, v in path):
            return float(leaf) if isinstance(leaf, (int, bool)) else float(env.expr(alg.lift(leaf)))
rnd = random.Random(5)
ps = [[round(rnd.uniform(-0.9, 0.9), 3) or 0.5 for _ in range(12)] for _ in range(4)]
os.chdir(ROOT + "/tools/selftest")
subprocess.run(["python3", "gen.py"], check=True); subprocess.run("cargo build -q --offline 2>/dev/null", shell=True, check=True)
out = subprocess.run(["./target/debug/selftest"] + ["=" + ",".join(map(str, p)) if False else ",".join(map(str, p)) for p in ps], capture_output=True, text=True).stdout
exp = {}
for l in out.splitlines():
    n, v = l.split(" ", 1); exp.setdefault(n, []).append(ast.literal_eval(v.replace("NaN", "1e999").replace("inf", "1e999")))
p = Prog(build.dump("st")); ok = 0
only = sys.argv[1] if len(sys.argv) > 1 else ""
for n in exp:
    if only and only not in n: continue
    root = [r for r in p.roots if r.endswith("st::" + n)][0]
    it = Interp(p); hooks.install(it)
    signal.signal(signal.SIGALRM, lambda *_: (_ for _ in ()).throw(TimeoutError())); signal.alarm(20)
    try:
        xs = [alg.var(f"p{i}", None, (-0.95, 0.95)) for i in range(12)]
        r = SP.plain(it.rst(it.call(root, [Seq(xs)])))
    except Exception as e:
        if os.environ.get("SA_DEBUG"): raise
        print("UNDECIDED", n, type(e).__name__, str(e)[:150]); continue
    for q, want in zip(ps, exp[n]):
        env = Env("s", fixed={f"p{i}": v for i, v in enumerate(q)})
        try:
            got = r
            for path, leaf in leaves(r) if isinstance(r, Ite) else [((), r)]:
                if all(env.cond(a) == v for a, v in path): got = leaf
            got = [num(x, env) for x in got]
        except Exception as e:
            if os.environ.get("SA_DEBUG"): raise
            print("EVAL", n, type(e).__name__, str(e)[:150], str(r)[:100]); break
        if not isinstance(got, list) or len(got) != len(want) or any(g is None or abs(g - w) > 1e-9 * (1 + abs(w)) for g, w in zip(got, want)):
            print("MISMATCH", n, str(got)[:200], str(want)[:200]); break
    else: ok += 1
print(ok, "agree of", len(exp))
