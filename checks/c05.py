"""Automatic differentiation: dual seeds equal the first-order jet of exp, dual_convert keeps the coordinates, and the value graphs of ForwardProp::jacobian_N / gradient_N on an uninterpreted function are f and its partial derivatives in argument order; derivatives propagated through log, exp, inverse and compose equal the derivative of the value graph those functions compute."""
from sa import spec as SP, alg, laws, scalar as S
from sa.values import *
from checks.c01 import same

OFF = {1: 1, 2: 3, 3: 6, 4: 7, 5: 9, 6: 10}


def jet(k, d):
    H = SP.H2
    if k == "so2":
        return [SP.O, d[0]]
    if k == "so3":
        return [H * d[0], H * d[1], H * d[2], SP.O]
    if k == "se2":
        return [SP.O, d[0], d[1], d[2]]
    if k == "se3":
        return [H * d[0], H * d[1], H * d[2], SP.O, d[3], d[4], d[5]]
    return list(d)


def ujet(d):
    """first-order jet of the uninterpreted exponential at zero"""
    z = [SP.Z, SP.Z]
    return [(alg.fn(f"u103_{k}", *z), [alg.fn(f"D{j}_u103_{k}", *z) for j in range(2)]) for k in range(2)]


def rows(k, a, left):
    """(value, [derivative per tangent direction]) of every observed coordinate of a retracted by delta"""
    n = SP.DIM[k]
    if k == "uvar":
        J = ujet(None)
        e = [v for v, _ in J]
        ar = (e + list(a)) if left else (list(a) + e)
        off = 0 if left else 2
        out = []
        for c in range(2):
            out.append((alg.fn(f"u102_{c}", *ar), [sum((alg.fn(f"D{off + m}_u102_{c}", *ar) * J[m][1][j] for m in range(2)), SP.Z) for j in range(n)]))
        return out
    d = SP.vec("delta", n)
    o = SP.obs(k, a)
    j = jet(k, d)
    c = SP.o_compose(k, j, o) if left else SP.o_compose(k, o, j)
    zero = {alg.single_atom(x).id: SP.Z for x in d}
    return [(alg.subst(x, zero), [alg.subst(alg.diff(x, alg.single_atom(y)), zero) for y in d]) for x in c]


def split(v, n, idx):
    """dual coordinates -> value and derivative entries, as ordinary components"""
    def one(x):
        if not isinstance(x, Dual):
            return [alg.lift(x)] + [SP.Z] * n
        e = x.eps if x.eps is not None else [SP.Z] * n
        return [x.re] + list(e)
    return [y for x in v.xs for y in one(x)]


def padded(rs, n, idx):
    out = []
    for v, ds in rs:
        out.append(v)
        col = [SP.Z] * n
        for j, e in enumerate(ds):
            col[idx + j] = e
        out += col
    return out


def through(value, names, jets):
    """derivative columns of a value graph along the jets of its inputs: sum_i dvalue/dx_i * dx_i/ddelta_j"""
    def d(leaf, col):
        return sum((alg.diff(alg.lift(leaf), at) * w for at, w in zip(names, col) if not S.isz(w)), SP.Z)
    return [S.glift(lambda q: d(q, col), x) for col in jets for x in value.xs]


def run(ctx):
    for cfg in ("diff", "diff+left", "diff+fake_exp") if ctx.thorough else ("diff", "diff+left"):
        left = cfg.endswith("left")
        tag = "/" + cfg.split("+")[1] if "+" in cfg else ""
        for k in SP.TYPES:
            T, m, N = k.upper(), f"diff::{k}::", SP.DIM[k]
            a, b = SP.elem(k, "a"), SP.elem(k, "b")
            n = N + 2
            if not left:
                got = ctx.eval(cfg, m + "setup", [], ob=f"{k}/setup{tag}")
                if k == "uvar":
                    want = padded(ujet(None), n, 1)
                else:
                    d = SP.vec("delta", N)
                    zero = {alg.single_atom(x).id: SP.Z for x in d}
                    want = padded([(alg.subst(x, zero), [alg.diff(x, alg.single_atom(y)) for y in d]) for x in jet(k, d)], n, 1)
                ctx.eq(f"{k}/setup{tag}", f"{T}::dual_setup", got and split(got, n, 1), want)
                got = ctx.eval(cfg, m + "convert", SP.args(a), ob=f"{k}/convert{tag}")
                ctx.eq(f"{k}/convert{tag}", f"{T}::dual_convert", got and split(got, n, 1), padded([(x, []) for x in SP.obs(k, a)], n, 1))
            rs = rows(k, a, left)
            got = ctx.eval(cfg, m + "dual", SP.args(a), ob=f"{k}/dual{tag}")
            ctx.eq(f"{k}/dual{tag}", f"{T}::dual", got and split(got, n, 1), padded(rs, n, 1))
            got = ctx.eval(cfg, m + "ident", SP.args(a), ob=f"{k}/ident{tag}")
            ctx.eq(f"{k}/ident{tag}", f"ForwardProp::jacobian_1 of the coordinates of {T}", got and got.fs,
                   [[v for v, _ in rs], [ds[j] for j in range(N) for _, ds in rs]])
            if k == "uvar" or left:
                continue
            # propagation through the library's own functions
            ang = k in ("so2", "se2")
            an = [alg.single_atom(x) for x in a]

            def jets(k, p, lf):
                """derivative of the harness parameters of an element along its tangent directions"""
                N = SP.DIM[k]
                d = SP.vec("delta", N)
                if k == "so2":
                    return [[SP.O]]
                if k == "se2":
                    c, s = alg.cos(p[0]), alg.sin(p[0])
                    return [[SP.O, SP.Z, SP.Z], [SP.Z, c, s], [SP.Z, -s, c]]
                R = [alg.diff(x, alg.single_atom(y)) for y in d for x in SP.o_compose(k, SP.obs(k, p), jet(k, d))]
                m = len(p)
                return [R[j * m:(j + 1) * m] for j in range(N)]
            # free (not unit) quaternion parameters: the derivative identity holds off the sphere as well
            fa = [alg.var(f"fa{i}") for i in range(len(a))]
            fb = [alg.var(f"fb{i}") for i in range(len(a))]
            na, nb = [alg.single_atom(x) for x in fa], [alg.single_atom(x) for x in fb]
            ja, jb = jets(k, fa, left), jets(k, fb, left)
            z = [SP.Z] * len(fa)
            jobs = [("inv", [fa], na, ja), ("comp", [fa, fb], na + nb, [c + z for c in ja] + [z + c for c in jb])]
            if k != "se3" or ctx.thorough:
                jobs.append(("log_jac", [fa], na, ja))
            v = SP.vec("v", N)
            jobs.append(("exp", [v], [alg.single_atom(x) for x in v], SP.eye(N)))
            for f, ar, names, js in jobs:
                ob = f"{k}/{f}{tag}"
                got = ctx.eval(cfg, m + f, SP.args(*ar), ob=ob, defined=False)
                if got is None:
                    continue
                try:
                    want = through(got.fs[0], names, js)
                    got = got.fs[1]
                    if SP.quatpart(k) and f != "exp":
                        # back to unit quaternions: the directions are tangent to the sphere
                        mp = {x.id: y for x, y in zip(na + nb, a + b)}
                        got, want = laws.gsubst(got, mp), laws.gsubst(want, mp)
                except alg.TooBig:
                    ctx.note(ob, "undecided", "derivative too big")
                    continue
                ctx.eq(ob, f"derivative through {T}::{f.split('_')[0]}", got, want, small=[f"v{i}" for i in range(N)] + [f"{x}{i}" for i in "0123xyz" for x in ("fa", "a")])
        p = SP.vec("p", 10)
        for i, w in OFF.items():
            x = p[:w]
            got = ctx.eval(cfg, f"diff::fwd::j{i}", SP.args(p), ob=f"jacobian_{i}{tag}")
            ctx.eq(f"jacobian_{i}{tag}", f"ForwardProp::jacobian_{i}", got,
                   [[alg.fn(f"u20{i}_{c}", *x) for c in range(2)], [2, w], [alg.fn(f"D{j}_u20{i}_{c}", *x) for j in range(w) for c in range(2)]])
            got = ctx.eval(cfg, f"diff::fwd::g{i}", SP.args(p), ob=f"gradient_{i}{tag}")
            ctx.eq(f"gradient_{i}{tag}", f"ForwardProp::gradient_{i}", got,
                   [alg.fn(f"s20{i}", *x), w, [alg.fn(f"D{j}_s20{i}", *x) for j in range(w)]])
        a, b, c = SP.elem("so3", "a"), SP.elem("v2", "b"), SP.elem("se2", "c")
        rs = [rows("so3", a, left), rows("v2", b, left), rows("se2", c, left)]
        x = [v for r in rs for v, _ in r]
        want, off = [], 0
        for r, N in zip(rs, (3, 2, 3)):
            for j in range(N):
                for q in range(2):
                    want.append(sum((alg.fn(f"D{off + i}_u207_{q}", *x) * r[i][1][j] for i in range(len(r))), SP.Z))
            off += len(r)
        got = ctx.eval(cfg, "diff::fwd::mix", SP.args(a, b, c), ob=f"mix{tag}")
        ctx.eq(f"mix{tag}", "ForwardProp::jacobian_3 of (SO3, VectorVar2, SE2)", got, [[alg.fn(f"u207_{q}", *x) for q in range(2)], [2, 8], want])
        if not left:
            t = alg.var("x")
            got = ctx.eval(cfg, "diff::fwd_scalar", [t], ob=f"scalar{tag}")
            ctx.eq(f"scalar{tag}", "forward_prop_derivative", got, [alg.fn("s210", t), alg.fn("D0_s210", t)])
    p = SP.vec("p", 10)
    for n in ctx.sizes([0, 1, 7, 40], cap=200):
        got = ctx.eval("diff", "diff::fwd::rows", SP.args(p) + [n], ob=f"rows{n}")
        ctx.eq(f"rows{n}", "ForwardProp::jacobian_2", got, [[alg.fn(f"u208_{c}", *p[:3]) for c in range(n)], [n, 3], [alg.fn(f"D{j}_u208_{c}", *p[:3]) for j in range(3) for c in range(n)]])
    P, Q = SP.vec("P", 40), SP.vec("Q", 2)
    got = ctx.eval("diff", "diff::fwd::cols", SP.args(P, Q), ob="cols")
    ctx.eq("cols", "ForwardProp::jacobian_2", got, [[alg.fn("u209_0", *(P + Q))], [1, 42], [alg.fn(f"D{j}_u209_0", *(P + Q)) for j in range(42)]])
    got = ctx.eval("diff", "diff::fwd::gcols", SP.args(P, Q), ob="gcols")
    ctx.eq("gcols", "ForwardProp::gradient_2", got, [alg.fn("s209", *(P + Q)), 42, [alg.fn(f"D{j}_s209", *(P + Q)) for j in range(42)]])
    X = P + Q
    got = ctx.eval("diff", "diff::fwd::wide6", SP.args(X), ob="wide6")
    ctx.eq("wide6", "ForwardProp::jacobian_6", got, [[alg.fn("u211_0", *X)], [1, 42], [alg.fn(f"D{j}_u211_0", *X) for j in range(42)]])
    got = ctx.eval("diff", "diff::fwd::gwide6", SP.args(X), ob="gwide6")
    ctx.eq("gwide6", "ForwardProp::gradient_6", got, [alg.fn("s211", *X), 42, [alg.fn(f"D{j}_s211", *X) for j in range(42)]])
