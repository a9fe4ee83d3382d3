"""Steps: the value graph of GaussNewton::step (every linear solver, two scalars and three uninterpreted residual rows) satisfies the normal equations J^T J d = J^T r at the current values; the value graph of LevenMarquardt::step over an uninterpreted linear solver, with concrete damping limits and symbolic acceptance, equals that of the documented method (damped system, acceptance, lambda schedule over one and two steps, failure), for some column order; the observers' terms record exactly one notification per successful step with the new values and the iteration number."""
from sa import spec as SP, alg, laws, scalar as S
from sa.spec import plain
from sa.values import *
from checks.c14 import matvec, cols


def probe(ctx):
    """initial damping, from the first damped diagonal"""
    x = SP.vec("x", 3)
    r = ctx.eval("opt", "opt::lm_probe", SP.args(x), ob="lm/initial")
    if r is None:
        return None
    v = plain(r)[0]
    J = [alg.fn(f"D0_u553_{c}", *x) for c in range(2)] + [alg.fn("D0_u554_0", *x[:2])]
    q = SP.Z
    for e in J:
        q = q + e * e
    for _, l in leaves(v) if isinstance(v, Ite) else [(None, v)]:
        d = l - q
        if d.is_const() and d.cval() != 0:
            return d
    ctx.note("lm/initial", "undecided", "initial damping is not a constant", "LevenMarquardt::new")
    return None


def run(ctx):
    x, x0 = SP.vec("x", 2), SP.vec("z", 2)
    r = [alg.fn("u551_0", *x), alg.fn("u551_1", *x), alg.fn("u552_0", x[1])]
    J = [[alg.fn(f"D{j}_u551_{i}", *x) for j in range(2)] for i in range(2)] + [[SP.Z, alg.fn("D0_u552_0", x[1])]]
    t = cols(J)
    rhs = matvec(t, [-e for e in r])
    for s in ("chol", "qr", "lu"):
        for f, args, obs in (("step", x, True), ("later", x + x0, False)):
            got = ctx.eval("opt", f"opt::gn_{s}::{f}", list(args), ob=f"gn/{s}/{f}")
            if got is None:
                continue
            kind, v, a, b, n = plain(got)
            ctx.eq(f"gn/{s}/{f}/kind", "GaussNewton::step", [kind, n], [0, 2])
            d = [v[0] - x[0], v[2] - x[1]]
            ctx.eq(f"gn/{s}/{f}/normal", "GaussNewton::step", matvec(t, matvec(J, d)), rhs)
            if obs:
                w = [alg.fn(f"s{i}", SP.Z, v[0], v[1], v[2], alg.const(7)) for i in (561, 562)]
                ctx.eq(f"gn/{s}/observers", "OptObserverVec::notify", [a, b], w)
    for f in ("gn_error", "lm_error"):
        got = ctx.eval("opt", "opt::" + f, list(x), ob=f)
        if got is not None:
            h = r[0] * r[0] + r[1] * r[1] + r[2] * r[2]
            ctx.eq(f, "Optimizer::error", got, [h * SP.H2, h * SP.H2, 2])
    got = ctx.eval("opt", "opt::leven_defaults", [], ob="lm/defaults")
    if got is not None:
        ctx.eq("lm/defaults", "LevenParams::default", got, [SP.Z, alg.const(10**5), alg.const(10), 1])
    got = ctx.eval("opt", "opt::lm_nan", SP.args(SP.vec("x", 3)), ob="lm/nan")
    if got is not None:
        kind, v, a, b = plain(got)
        ctx.eq("lm/nan", "LevenMarquardt::step", [kind, a, b], [3, SP.Z, SP.Z])
    lam = probe(ctx)
    if lam is None:
        return
    ctx.eq("lm/initial", "LevenMarquardt::new", [lam], [alg.const(alg.Fraction(1, 10**5))])
    y, y0 = SP.vec("x", 3), SP.vec("z", 3)
    ms = ["once_diag", "once_ident", "edge", "many", "twice", "floor", "above", "other"]

    def both(ob, run, wants, anchor):
        if run is None:
            return
        ws = [ctx.eval("opt", w, SP.args(y) + [lam], ob=f"{ob}/contract", defined=False) for w in wants]
        if any(w is None for w in ws):
            return
        for i, q in enumerate(("kind", "values", "observer1", "observer2")):
            ctx.any(f"{ob}/{q}", anchor, [(run.fs[i], w.fs[i]) for w in ws])
    for m in ms:
        got = ctx.eval("opt", f"opt::{m}::run", SP.args(y), ob=f"lm/{m}")
        both(f"lm/{m}", got, [f"opt::{m}::want", f"opt::{m}::want2"], "LevenMarquardt::step")
    got = ctx.eval("opt", "opt::lm_later", SP.args(y, y0), ob="lm/later")
    both("lm/later", got, ["opt::lm_later_want", "opt::lm_later_want2"], "LevenMarquardt::step")
    sizes(ctx)


def sizes(ctx):
    """many variables, observers, steps and rejections; residuals (i+1) x_i, start s (n-i)"""
    s, F, c = alg.var("s", "+"), alg.Fraction, alg.const
    lam0 = F(1, 10**5)
    for n in ctx.sizes([1, 3, 34], cap=150):
        r = ctx.eval("opt", "opt::sized_gn", [n, s], ob=f"gn/size{n}")
        if r is not None:
            ctx.eq(f"gn/size{n}", "GaussNewton::step", r, [0, [SP.Z] * n, n, c(n * n)])
        for diag in (True, False):
            r = ctx.eval("opt", "opt::sized_lm", [n, s, diag], ob=f"lm/size{n}/{diag}")
            if r is not None:
                J2 = [F((i + 1) ** 2) for i in range(n)]
                w = [s * c((n - i) * (1 - q / (q + lam0 * (q if diag else 1)))) for i, q in enumerate(J2)]
                ctx.eq(f"lm/size{n}/{diag}", "LevenMarquardt::step", r, [0, w, n, c(n * n)])
        r = ctx.eval("opt", "opt::sized_steps", [n, s, SP.Z, False], ob=f"gn/steps{n}")
        if r is not None:
            ctx.eq(f"gn/steps{n}", "GaussNewton::step", r, [0, [SP.Z] * 2, 2, c(n * (n + 1) // 2)])
        # every step is accepted: the damping halves down to the floor
        m = min(n, 40)
        for floor in (F(1, 10**6), F(1, 10**10), F(1, 10**15), F(0), F(3)):
            r = ctx.eval("opt", "opt::sized_steps", [m, s, c(floor), True], ob=f"lm/steps{n}/{floor}")
            if r is None:
                continue
            x, lam = F(1), lam0
            for _ in range(m):
                x *= lam / (1 + lam)
                lam = max(lam / 2, floor)
            # in units of the expected values, which are tiny
            ctx.eq(f"lm/steps{n}/{floor}", "LevenMarquardt::step", [r.fs[0], [S.mul(e, c(1 / x)) for e in laws.flatten(r.fs[1])], r.fs[2], r.fs[3]],
                   [0, [s * c(2), s], 2, c(m * (m + 1) // 2)])
    for f in (F(10), F(2), F(6, 5), F(11, 10), F(1500), F(2 * 10**8)):
        r = ctx.eval("opt", "opt::sized_rejections", [s, c(f)], ob=f"lm/rejections/{f}")
        if r is not None:
            x, lam = [F(2), F(1)], lam0
            for _ in range(2):
                while 1 + lam < 1000:
                    lam *= f
                x = [e * lam / (q + lam) for e, q in zip(x, (1, 4))]
                lam /= f
            ctx.eq(f"lm/rejections/{f}", "LevenMarquardt::step", r, [0, [s * c(e) for e in x], 2, c(3)])
    masks(ctx, s)


MASKS = {"a": 0x300, "b": 0x10, "c": 0x5554, "d": 0x70e2, "e": 0xf8, "f": 1}


def masks(ctx, s):
    """steps whose rejections come and go: the damping rises and falls again"""
    F, c = alg.Fraction, alg.const
    for m, bits in MASKS.items():
        for mn, mx, f, diag in ((F(0), F(10**5), F(10), True), (F(0), F(10**5), F(10), False), (F(1, 10**6), F(10), F(2), False), (F(3, 10**5), F(1), F(7), True), (F(0), F(1, 10**4), F(10), False)):
            nm = f"lm/mask-{m}/{mn}-{mx}-{f}-{'diag' if diag else 'ident'}"
            n = 12
            r = ctx.eval("opt", f"opt::mask_{m}", [n, s, c(mn), c(mx), c(f), diag], ob=nm)
            if r is None:
                continue
            x, lam, call, seen, failed = [F(2), F(1)], F(1, 10**5), 0, 0, False
            for k in range(1, n + 1):
                while True:
                    l, bad = lam, bits >> call & 1
                    call += 1
                    if not bad:
                        x = [e * l * (q if diag else 1) / (q + l * (q if diag else 1)) for e, q in zip(x, (1, 4))]
                        lam = max(lam / f, mn)
                        seen += k
                        break
                    lam *= f
                    if lam > mx:
                        failed = True
                        break
                if failed:
                    break
            if failed:
                ctx.eq(nm, "LevenMarquardt::step", r, [3, [], 0, c(seen)])
            else:
                ctx.eq(nm, "LevenMarquardt::step", [r.fs[0], [S.mul(e, c(1 / y)) for e, y in zip(laws.flatten(r.fs[1]), x)], r.fs[2], r.fs[3]], [0, [s, s], 2, c(seen)])
