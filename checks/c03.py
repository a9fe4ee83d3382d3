"""Matrix Lie group operations of SO2, SO3, SE2, SE3: value graphs of to_matrix, from_matrix, apply, hat, vee, hat_swap, adjoint and dexp against their defining matrix identities; from_matrix is decided on every branch of its case split, including half-turn rotations."""
from sa import spec as SP, alg
from sa.values import *
from checks.c01 import same
from checks.c02 import tol_for, names_of

Z, O = SP.Z, SP.O


def matrix(k, p):
    o = SP.obs(k, p)
    if k == "so2":
        return [[o[0], -o[1]], [o[1], o[0]]]
    if k == "so3":
        return SP.quat_rot(o)
    if k == "se2":
        return [[o[0], -o[1], o[2]], [o[1], o[0], o[3]], [Z, Z, O]]
    R = SP.quat_rot(o[:4])
    return [R[i] + [o[4 + i]] for i in range(3)] + [[Z, Z, Z, O]]


def hat(k, v):
    if k == "so2":
        return [[Z, -v[0]], [v[0], Z]]
    if k == "so3":
        return SP.hat3(v)
    if k == "se2":
        return [[Z, -v[0], v[1]], [v[0], Z, v[2]], [Z, Z, Z]]
    H = SP.hat3(v[:3])
    return [H[i] + [v[3 + i]] for i in range(3)] + [[Z] * 4]


def adjoint(k, p):
    if k == "so2":
        return [[O]]
    m = matrix(k, p)
    if k == "so3":
        return m
    if k == "se2":
        return [[O, Z, Z], [p[2], m[0][0], m[0][1]], [-p[1], m[1][0], m[1][1]]]
    R = [r[:3] for r in m[:3]]
    tR = SP.mm(SP.hat3([r[3] for r in m[:3]]), R)
    return [R[i] + [Z] * 3 for i in range(3)] + [tR[i] + R[i] for i in range(3)]


def hat_swap(k, p):
    if k == "so2":
        return [[-p[1]], [p[0]]]
    if k == "so3":
        return SP.mscale(SP.hat3(p), alg.const(-1))
    if k == "se2":
        return [[-p[1], O, Z], [p[0], Z, O]]
    H = SP.mscale(SP.hat3(p), alg.const(-1))
    return [H[i] + SP.eye(3)[i] for i in range(3)]


NV = dict(so2=2, so3=3, se2=2, se3=3)


def halfturn(name):
    """unit quaternions with zero scalar part"""
    x, y = (alg.var(f"{name}{c}", None, (-0.7, 0.7)) for c in "xy")
    z = alg.var(f"{name}z")
    alg.single_atom(z).unit2 = O - x * x - y * y
    return [x, y, z, Z]


def run(ctx):
    cfg = "vars"
    for k in ("so2", "so3", "se2", "se3"):
        T, m = k.upper(), f"vars::{k}_lie::"
        a, b = SP.elem(k, "a"), SP.elem(k, "b")
        ev = lambda f, *ar: ctx.eval(cfg, m + f, SP.args(*ar), ob=f"{k}/{f}")
        ctx.eq(f"{k}/to_matrix", f"{T}::to_matrix", ev("to_matrix", a), matrix(k, a))
        ctx.eq(f"{k}/to_matrix_id", f"{T}::to_matrix of identity", ev("to_matrix_id"), SP.eye(len(matrix(k, a))))
        ctx.eq(f"{k}/to_matrix_prod", f"{T}::to_matrix of compose", ev("to_matrix_prod", a, b), SP.mm(matrix(k, a), matrix(k, b)))
        same(ctx, f"{k}/from_to", f"{T}::from_matrix", k, ev("from_to", a), SP.obs(k, a), tries=200)
        if k in ("so3", "se3"):
            cases = [("halfturn", halfturn("h"))] + [(f"halfturn-{'xyz'[i]}", [O if i == j else Z for j in range(3)] + [Z]) for i in range(3)]
            cases += [(f"halfturn-minus-{'xyz'[i]}", [-O if i == j else Z for j in range(3)] + [Z]) for i in range(3)]
            cases += [("identity", [Z, Z, Z, O])]
            for n, q in cases:
                p = q + a[4:]
                got = ctx.eval(cfg, m + "from_to", SP.args(p), ob=f"{k}/from_to/{n}")
                same(ctx, f"{k}/from_to/{n}", f"{T}::from_matrix", k, got, p, tries=200)
        v = SP.vec("v", NV[k])
        M = matrix(k, a)
        n = NV[k]
        want = [[sum((M[i][j] * v[j] for j in range(n)), Z) + (M[i][n] if len(M) > n else Z)] for i in range(n)]
        ctx.eq(f"{k}/apply", f"{T}::apply", ev("apply", a, v), want)
        x = SP.vec("x", SP.DIM[k])
        ctx.eq(f"{k}/hat", f"{T}::hat", ev("hat", x), hat(k, x))
        ctx.eq(f"{k}/vee_hat", f"{T}::vee", ev("vee_hat", x), x)
        ctx.eq(f"{k}/hat_swap", f"{T}::hat_swap", ev("hat_swap", v), hat_swap(k, v))
        ctx.eq(f"{k}/adjoint", f"{T}::adjoint", ev("adjoint", a), adjoint(k, a))
    w = [alg.var(f"w{i}", None, (-6, 6)) for i in range(3)]
    t2 = SP.norm2(w)
    th = alg.sqrt(t2)
    W = SP.hat3(w)
    want = SP.madd(SP.eye(3), SP.mscale(W, (alg.cos(th) - O) / t2), SP.mscale(SP.mm(W, W), (th - alg.sin(th)) / (t2 * th)))
    names = names_of(w)
    got = ctx.eval(cfg, "vars::misc::dexp", SP.args(w), small=names, ob="so3/dexp")
    ctx.eq("so3/dexp", "SO3::dexp", got, want, small=names, tol=tol_for(names))
    t = alg.var("t", None, (-3.1, 3.1))
    x, y = SP.vec("x", 2)
    ctx.eq("so2/to_theta", "SO2::to_theta", ctx.eval(cfg, "vars::misc::to_theta", [t]), t)
    ctx.eq("se2/theta", "SE2::theta", ctx.eval(cfg, "vars::misc::se2_theta", [t, x, y]), t)
    ctx.eq("se2/xy", "SE2::xy", ctx.eval(cfg, "vars::misc::se2_xy", [t, x, y]), [x, y])
