"""Linear solvers: the value graph of solve_lst_sq on a symbolic 3x2 system satisfies A^T A x = A^T b, that of solve_symmetric on a symbolic symmetric system A x = b, also when the solver was used before on other numbers in the same pattern; typestate of the cached symbolic analysis: no factorization uses an analysis of another pattern, in either optimizer, when optimize runs again on values that give another pattern."""
from sa import spec as SP, alg
from sa.spec import plain
from sa.values import *


def matvec(A, x):
    out = []
    for row in A:
        t = SP.Z
        for a, e in zip(row, x):
            t = t + a * e
        out.append(t)
    return out


def cols(A):
    return [list(c) for c in zip(*A)]


def stale(ctx, ob, anchor, it):
    ev = [e for e in it.events if e.kind == "stale"]
    ctx.holds(ob + "/pattern", anchor, not ev, str(ev[0]) if ev else "")


def run(ctx):
    a, b, c, d = SP.vec("a", 6), SP.vec("b", 3), SP.vec("c", 6), SP.vec("d", 3)
    e = SP.vec("e", 4)
    A = [[a[0], a[1]], [a[2], a[3]], [a[4], a[5]]]
    S = [[a[0], a[1]], [a[1], a[2]]]
    for s, T in (("chol", "CholeskySolver"), ("qr", "QRSolver"), ("lu", "LUSolver")):
        for f, args, M, rhs in (("lst", [a, b], A, b), ("lst_again", [a, b, c, d], A, b), ("sym", [a[:3], b[:2]], S, b[:2]),
                                ("lst_third", [a, b, c, d], A, b),
                                ("sparse", [a, e], [[SP.Z, SP.Z, a[0]], [a[1], SP.Z, SP.Z], [SP.Z, a[2], a[5]], [a[3], a[4], SP.Z]], e),
                                ("square", [a[:4], b[:2]], [a[:2], a[2:4]], b[:2]), ("square_again", [a[:4], b[:2], c[:4]], [a[:2], a[2:4]], b[:2]), ("single", [a[:3], b], [[a[0]], [a[1]], [a[2]]], b),
                                ("sym_again", [a[:3], b[:2], c[:3], d[:2]], S, b[:2])):
            r, it = ctx.eval("linear", f"linear::{s}::{f}", SP.args(*args), ob=f"{s}/{f}", full=True)
            fn = T + ("::solve_lst_sq" if "sym" not in f else "::solve_symmetric")
            if r is None:
                continue
            nr, nc, x = plain(r)
            if [nr, nc] != [len(M[0]), 1]:
                ctx.fail(f"{s}/{f}/shape", fn, f"solution is {nr}x{nc}")
                continue
            ctx.ok(f"{s}/{f}/shape", fn)
            t = cols(M)
            if "sym" not in f:
                K, B = [e for r in t for e in matvec(t, r)], matvec(t, rhs)
                ctx.any(f"{s}/{f}", fn, [(x, [alg.fn(f"solve{len(t)}_{i}_0", *K, *B) for i in range(len(t))]), (matvec(t, matvec(M, x)), B)])
            else:
                ctx.eq(f"{s}/{f}", fn, matvec(M, x), rhs)
            stale(ctx, f"{s}/{f}", fn, it)
        for f, args, M, B in (("lst_many", [a, b, d], A, [b, d]), ("sym_many", [a[:3], b[:2], d[:2]], S, [b[:2], d[:2]])):
            r = ctx.eval("linear", f"linear::{s}::{f}", SP.args(*args), ob=f"{s}/{f}")
            fn = T + ("::solve_lst_sq" if f[0] == "l" else "::solve_symmetric")
            if r is None:
                continue
            nr, nc, *xs = plain(r)
            ctx.eq(f"{s}/{f}/shape", fn, [nr, nc], [2, 2])
            for j, (x, rhs) in enumerate(zip(xs, B)):
                t = cols(M) if f[0] == "l" else None
                ctx.eq(f"{s}/{f}/{j}", fn, matvec(t, matvec(M, x)) if t else matvec(M, x), matvec(t, rhs) if t else rhs)
    x, y = SP.vec("x", 4), SP.vec("y", 4)
    for o, T in (("gn", "GaussNewton"), ("lm", "LevenMarquardt")):
        for s in ("chol", "qr", "lu"):
            ob = f"{o}/{s}/again"
            r, it = ctx.eval("opt", f"opt::{o}_{s}_again::run", SP.args(x, y), ob=ob, full=True)
            if r is not None:
                stale(ctx, ob, f"{T}::init and step", it)
    # many unknowns
    s = SP.vec("s", 4)
    c = alg.const
    for n in ctx.sizes([3, 33], cap=150):
        for m, T in (("chol", "CholeskySolver"), ("qr", "QRSolver"), ("lu", "LUSolver")):
            r, it = ctx.eval("linear", f"linear::{m}::sized_lst", [n] + SP.args(s), ob=f"{m}/lst/{n}", full=True)
            if r is not None:
                nr, nc, x = plain(r)
                b = [s[2] * c(i + 1) + s[3] for i in range(n + 1)]
                if [nr, nc] != [n, 1]:
                    ctx.fail(f"{m}/lst/{n}", T + "::solve_lst_sq", f"solution is {nr}x{nc} instead of {n}x1")
                else:
                    w = [s[0] * s[0] * x[0] + s[1] * s[1] * x[0]] + [s[0] * c(i + 1) * x[i] for i in range(1, n)]
                    ctx.eq(f"{m}/lst/{n}", T + "::solve_lst_sq", w, [s[0] * b[0] + s[1] * b[n]] + b[1:n])
                    stale(ctx, f"{m}/lst/{n}", T + "::solve_lst_sq", it)
            r, it = ctx.eval("linear", f"linear::{m}::sized_sym", [n] + SP.args(s), ob=f"{m}/sym/{n}", full=True)
            if r is not None:
                nr, nc, x = plain(r)
                b = [s[2] * c(i + 1) + s[3] for i in range(2 * n)]
                if [nr, nc] != [2 * n, 1]:
                    ctx.fail(f"{m}/sym/{n}", T + "::solve_symmetric", f"solution is {nr}x{nc} instead of {2 * n}x1")
                else:
                    w = [e for i in range(n) for e in (s[0] * c(i + 1) * x[2 * i] + s[1] * x[2 * i + 1], s[1] * x[2 * i] + s[0] * x[2 * i + 1])]
                    ctx.eq(f"{m}/sym/{n}", T + "::solve_symmetric", w, b)
                    stale(ctx, f"{m}/sym/{n}", T + "::solve_symmetric", it)
