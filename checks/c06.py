"""Numerical differentiation: the value graphs of NumericalDiff::jacobian_N, gradient_N and jacobian_variable_N on an uninterpreted function are the central differences with step 10^-PWR, one column per tangent coordinate, arguments in order, the other arguments unperturbed."""
from fractions import Fraction
from sa import spec as SP, alg
from sa.values import *
from checks.c05 import OFF

WIDTH = [1, 2, 3, 1, 2, 1]


def bump(x, j, h):
    return [e + alg.const(h) if i == j else e for i, e in enumerate(x)]


def run(ctx):
    p = SP.vec("p", 10)
    for cfg in ("diff", "diff+left"):
        tag = "/left" if cfg.endswith("left") else ""
        h = Fraction(1, 10 ** 6)
        for i, w in OFF.items():
            x = p[:w]

            def cd(name, j):
                return (alg.fn(name, *bump(x, j, h)) - alg.fn(name, *bump(x, j, -h))) * alg.const(1 / (2 * h))
            got = ctx.eval(cfg, f"diff::num::j{i}", SP.args(p), ob=f"jacobian_{i}{tag}")
            ctx.eq(f"jacobian_{i}{tag}", f"NumericalDiff::jacobian_{i}", got,
                   [[alg.fn(f"u20{i}_{c}", *x) for c in range(2)], [2, w], [cd(f"u20{i}_{c}", j) for j in range(w) for c in range(2)]])
            got = ctx.eval(cfg, f"diff::num::g{i}", SP.args(p), ob=f"gradient_{i}{tag}")
            ctx.eq(f"gradient_{i}{tag}", f"NumericalDiff::gradient_{i}", got,
                   [alg.fn(f"s20{i}", *x), w, [cd(f"s20{i}", j) for j in range(w)]])
        # variable-valued output: columns are (plus ominus minus) / 2h with h = 1e-4
        h4 = Fraction(1, 10 ** 4)
        for i, w in OFF.items():
            x = p[:w]

            def ominus(a, b):
                # a ominus b = log(b^-1 a) on the right, log(a b^-1) on the left
                inv = [alg.fn(f"u101_{c}", *b) for c in range(2)]
                m = [alg.fn(f"u102_{c}", *(list(a) + inv if tag else inv + list(a))) for c in range(2)]
                return [alg.fn(f"u104_{c}", *m) for c in range(2)]

            def f(y):
                return [alg.fn(f"u20{i}_{c}", *y) for c in range(2)]
            want = [e * alg.const(1 / (2 * h4)) for j in range(w) for e in ominus(f(bump(x, j, h4)), f(bump(x, j, -h4)))]
            got = ctx.eval(cfg, f"diff::numvar::j{i}", SP.args(p), ob=f"variable_{i}{tag}")
            ctx.eq(f"variable_{i}{tag}", f"NumericalDiff::jacobian_variable_{i}", got, [f(x), [2, w], want])
            if i != 2:
                continue
            for k in (0, 1, 2, 3, 5, 7, 8, 9, 10, 12):
                hk = Fraction(1, 10 ** k)
                got = ctx.eval(cfg, f"diff::pj{k}", SP.args(p), ob=f"power{k}{tag}")
                ctx.eq(f"power{k}{tag}", "NumericalDiff::jacobian_2", got, [f(x), [2, w], [(a - b) * alg.const(1 / (2 * hk)) for j in range(w) for a, b in zip(f(bump(x, j, hk)), f(bump(x, j, -hk)))]])
                got = ctx.eval(cfg, f"diff::pv{k}", SP.args(p), ob=f"power{k}/variable{tag}")
                ctx.eq(f"power{k}/variable{tag}", "NumericalDiff::jacobian_variable_2", got,
                       [f(x), [2, w], [e * alg.const(1 / (2 * hk)) for j in range(w) for e in ominus(f(bump(x, j, hk)), f(bump(x, j, -hk)))]])
        # a group-valued argument: perturbation by oplus
        a, b, c = SP.elem("so3", "a"), SP.elem("v2", "b"), SP.elem("se2", "c")
        ar = dict(a=("so3", a), b=("v2", b), c=("se2", c))

        def pert(k, x, j, hh):
            """coordinates of x oplus hh e_j, as the analysed oplus computes them (its meaning is C04's and C02's subject)"""
            d = [SP.Z] * SP.DIM[k]
            d[j] = alg.const(hh)
            r = ctx.eval(cfg, f"vars::{k}::oplus", SP.args(x, d), ob=f"mix/oplus{tag}")
            if r is None:
                raise Undecided("oplus")
            return r.xs
        try:
            mix(ctx, cfg, tag, ar, pert, h)
        except Undecided:
            pass
    h = Fraction(1, 10 ** 6)

    def cd(name, x, j):
        return (alg.fn(name, *bump(x, j, h)) - alg.fn(name, *bump(x, j, -h))) * alg.const(1 / (2 * h))
    for n in ctx.sizes([0, 1, 7, 40], cap=200):
        got = ctx.eval("diff", "diff::num::rows", SP.args(p) + [n], ob=f"rows{n}")
        ctx.eq(f"rows{n}", "NumericalDiff::jacobian_2", got, [[alg.fn(f"u208_{c}", *p[:3]) for c in range(n)], [n, 3], [cd(f"u208_{c}", p[:3], j) for j in range(3) for c in range(n)]])
    P, Q = SP.vec("P", 40), SP.vec("Q", 2)
    got = ctx.eval("diff", "diff::num::cols", SP.args(P, Q), ob="cols")
    ctx.eq("cols", "NumericalDiff::jacobian_2", got, [[alg.fn("u209_0", *(P + Q))], [1, 42], [cd("u209_0", P + Q, j) for j in range(42)]])
    got = ctx.eval("diff", "diff::num::gcols", SP.args(P, Q), ob="gcols")
    ctx.eq("gcols", "NumericalDiff::gradient_2", got, [alg.fn("s209", *(P + Q)), 42, [cd("s209", P + Q, j) for j in range(42)]])
    X = P + Q
    got = ctx.eval("diff", "diff::num::wide6", SP.args(X), ob="wide6")
    ctx.eq("wide6", "NumericalDiff::jacobian_6", got, [[alg.fn("u211_0", *X)], [1, 42], [cd("u211_0", X, j) for j in range(42)]])
    got = ctx.eval("diff", "diff::num::gwide6", SP.args(X), ob="gwide6")
    ctx.eq("gwide6", "NumericalDiff::gradient_6", got, [alg.fn("s211", *X), 42, [cd("s211", X, j) for j in range(42)]])
    t, e = alg.var("x"), alg.var("h", "+")
    got = ctx.eval("diff", "diff::num_scalar", [t, e], ob="scalar")
    ctx.eq("scalar", "numerical_derivative", got, [alg.fn("s210", t), (alg.fn("s210", t + e) - alg.fn("s210", t - e)) / (e * alg.const(2))])


def mix(ctx, cfg, tag, ar, pert, h):
    want, base = [], {k: SP.obs(*v) for k, v in ar.items()}
    names = list(ar)
    full = [e for n in names for e in base[n]]
    for n in names:
        k, x = ar[n]
        for j in range(SP.DIM[k]):
            P = [e for m in names for e in (pert(k, x, j, h) if m == n else base[m])]
            M = [e for m in names for e in (pert(k, x, j, -h) if m == n else base[m])]
            for q in range(2):
                want.append((alg.fn(f"u207_{q}", *P) - alg.fn(f"u207_{q}", *M)) * alg.const(1 / (2 * h)))
    got = ctx.eval(cfg, "diff::num::mix", SP.args(*[v for _, v in ar.values()]), ob=f"mix{tag}")
    ctx.eq(f"mix{tag}", "NumericalDiff::jacobian_3 of (SO3, VectorVar2, SE2)", got, [[alg.fn(f"u207_{q}", *full) for q in range(2)], [2, 8], want])
