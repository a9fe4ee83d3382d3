"""Stopping: the value graph of Optimizer::optimize over an uninterpreted step, error, initialisation and symbolic tolerances, for max_iterations 0 to 3 (4 thorough), equals that of the documented contract: the result kind, the values returned, and the term that records every step call with its arguments."""
from sa import spec as SP, alg
from sa.values import *


def run(ctx):
    x, t = SP.vec("x", 1), SP.vec("t", 3, (0, 2))
    for n in ["n%d" % i for i in range(5)] + ["nan%d" % i for i in range(5)] + ["inf%d" % i for i in range(3)]:
        got = ctx.eval("opt", f"opt::{n}::run", [x[0]] + SP.args(t), ob=f"{n}")
        want = ctx.eval("opt", f"opt::{n}::want", [x[0]] + SP.args(t), ob=f"{n}/contract")
        if got is None or want is None:
            continue
        for q, g, w in zip(("kind", "values", "calls", "init"), got.fs, want.fs):
            ctx.eq(f"{n}/{q}", "Optimizer::optimize", g, w)
    for n in ctx.sizes([12]):
        for nm, args in (("free", [x[0]] + SP.args(t)),) if n <= 20 else ():
            got = ctx.eval("opt", "opt::sized_run", [n] + args, ob=f"size{n}")
            want = ctx.eval("opt", "opt::sized_want", [n] + args, ob=f"size{n}/contract")
            if got is not None and want is not None:
                for q, g, w in zip(("kind", "values", "calls", "init"), got.fs, want.fs):
                    ctx.eq(f"size{n}/{q}", "Optimizer::optimize", g, w)
        for stop in (n // 2, n, n + 1):
            calm(ctx, n, stop, x[0])
    for n, stop in ((100, 101), (100, 100), (150, 149), (1000, 300)):
        calm(ctx, n, stop, x[0])
    F = alg.Fraction
    for tag, e, t in scripts():
        got = ctx.eval("opt", "opt::script_run", SP.args([alg.const(F(v)) for v in e], [alg.const(F(v)) for v in t]), ob=f"errors/{tag}")
        ctx.eq(f"errors/{tag}", "Optimizer::optimize", got, contract([F(v) for v in e], [F(v) for v in t]))
    g = ctx.eval("opt", "opt::default_params", [], ob="defaults")
    ctx.eq("defaults", "OptParams::default", g, [100, alg.const(alg.Fraction(1, 10**6)), alg.const(alg.Fraction(1, 10**6)), SP.Z])


def calm(ctx, n, stop, x):
    for mode in range(3):
        ob = f"calm{n}/{stop}/{mode}"
        got = ctx.eval("opt", "opt::calm_run", [n, stop, mode, x], ob=ob)
        ctx.eq(ob, "Optimizer::optimize", got, ctx.eval("opt", "opt::calm_want", [n, stop, x], ob=ob + "/contract"))


def contract(e, t):
    if e[0] <= t[0]:
        return [0, 0, 0]
    for k in range(1, 4):
        d = e[k - 1] - e[k]
        if e[k] <= t[0] or d <= t[1] or d / e[k - 1] <= t[2]:
            return [0, k, k]
    return [1, 3, 3]


def scripts():
    """error histories on one scale each, with a single tolerance in force that lies just above or just below what one of the steps reaches"""
    off = ("-1e18", "-1e18", "-1e18")
    for s in ("1e-15", "1e-13", "1e-9", "1e-6", "1e-3", "1", "1e3", "1e6", "1e9", "1e12", "1e15"):
        q = alg.Fraction(s)
        for nm, h in (("fall", (8, 4, 2, 1)), ("slow", (100, 99, 98, 97)), ("rise", (1, 2, 4, 8)), ("bounce", (4, 2, 3, 1)), ("still", (4, 3, 3, 1)), ("zero", (4, 2, 1, 0))):
            e = [q * v for v in h]
            for k in (1, 2, 3):
                d = e[k - 1] - e[k]
                for side in (-1, 1):
                    near = alg.Fraction(1000 + side, 1000) if d > 0 else alg.Fraction(1000 - side, 1000)
                    z = side * q / 1000 if d == 0 else 0
                    yield f"{s}/{nm}/{k}/{side}/tol", e, (e[k] * alg.Fraction(1000 + side, 1000) + (side * q / 1000 if e[k] == 0 else 0), off[1], off[2])
                    yield f"{s}/{nm}/{k}/{side}/abs", e, (off[0], d * near + z, off[2])
                    yield f"{s}/{nm}/{k}/{side}/rel", e, (off[0], off[1], d / e[k - 1] * near + (alg.Fraction(side, 1000) if d == 0 else 0))
