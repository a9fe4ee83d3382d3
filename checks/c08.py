"""Robust kernels: the value graphs of loss and weight of every kernel satisfy weight(d^2) d = d loss(d^2)/dd under every gate (symbolic derivative of the extracted loss), loss equals the documented formula, vanishes at 0, is continuous across its gates, weight is nonnegative; default() equals new() with the documented constant; dynamic dispatch reaches the same functions."""
from fractions import Fraction as Fr
from sa import spec as SP, alg, laws, scalar as S
from sa.values import *

C0 = dict(huber="1.345", fair="1.3998", cauchy="2.3849", geman="1.3998", welsch="2.9846", tukey="4.6851")
ALL = ["l2", "l1"] + list(C0)


def documented(k, d, c):
    h, o = SP.H2, SP.O
    le = cond_le(d, c)
    f = {
        "l2": lambda: d * d * h,
        "l1": lambda: d,
        "huber": lambda: pick(le, d * d * h, c * (d - c * h)),
        "fair": lambda: c * c * (d / c - alg.ln(o + d / c)),
        "cauchy": lambda: c * c * h * alg.ln(o + d * d / (c * c)),
        "geman": lambda: c * c * d * d * h / (c * c + d * d),
        "welsch": lambda: c * c * h * (o - alg.exp(-(d * d) / (c * c))),
        "tukey": lambda: pick(le, c * c / alg.const(6) * (o - (o - d * d / (c * c)) * (o - d * d / (c * c)) * (o - d * d / (c * c))), c * c / alg.const(6)),
    }
    return f[k]()


def cond_le(a, b):
    return notv(cond_pos(a - b))


def pick(c, t, f):
    return lift(lambda p, x, y: x if p else y, c, t, f)


def gates(v, acc):
    if isinstance(v, Ite):
        acc.add(v.a)
        gates(v.t, acc)
        gates(v.f, acc)
    return acc


def run(ctx):
    cfg = "robust"
    d, c = alg.var("d", "+"), alg.var("c", "+")
    da = alg.single_atom(d)
    small = ["d", "c"]
    for k in ALL:
        T = k.upper()
        loss = ctx.eval(cfg, f"robust::{k}::loss", [d * d, c], ob=f"{k}/loss", small=small)
        w = ctx.eval(cfg, f"robust::{k}::weight", [d * d, c], ob=f"{k}/weight", small=small)
        if loss is None or w is None:
            continue
        ctx.eq(f"{k}/documented", f"{T}::loss", loss, documented(k, d, c), small=small)
        dl = S.glift(lambda x: alg.diff(alg.lift(x), da), loss)
        lhs = S.glift(lambda x: alg.lift(x) * d, w)
        if k == "l1":
            # documented exception: constant weight where d^2 <= 1e-3
            near = cond_le(d * d, alg.const(Fr(1, 1000)))
            lhs, dl = pick(near, SP.Z, lhs), pick(near, SP.Z, dl)
        ctx.eq(f"{k}/derivative", f"{T}::weight is the derivative of {T}::loss", lhs, dl, small=small)
        z = ctx.eval(cfg, f"robust::{k}::loss", [SP.Z, c], ob=f"{k}/zero")
        ctx.eq(f"{k}/zero", f"{T}::loss(0)", z, SP.Z)
        w0 = ctx.eval(cfg, f"robust::{k}::weight", [SP.Z, c], ob=f"{k}/weight-at-zero")
        if w0 is not None:
            ctx.eq(f"{k}/weight-at-zero", f"{T}::weight(0)", w0, SP.O)
        for n, g in enumerate(sorted(gates(loss, set()), key=lambda a: a.id)):
            mp = laws.zero_subst([(CAtom_zero(g), True)])
            if not mp:
                continue
            a = restrict(loss, {g.id: True})
            b = restrict(loss, {g.id: False})
            ctx.eq(f"{k}/continuous{n}", f"{T}::loss at {g!r}", laws.gsubst(a, mp), laws.gsubst(b, mp))
        nonneg(ctx, f"{k}/weight-nonneg", T, w)
        both = ctx.eval(cfg, f"robust::{k}::dyn_both", [d * d, c], ob=f"{k}/dyn", small=small)
        ctx.eq(f"{k}/dyn", f"{T} behind dyn RobustCost", both, [loss, w], small=small)
        c0 = alg.const(Fr(C0.get(k, "1")))
        for f in ("loss", "weight"):
            a = ctx.eval(cfg, f"robust::{k}::default_{f}", [d * d], ob=f"{k}/default-{f}")
            b = ctx.eval(cfg, f"robust::{k}::{f}", [d * d, c0], ob=f"{k}/default-{f}")
            ctx.eq(f"{k}/default-{f}", f"{T}::default", a, b, small=small)


class CAtom_zero:
    """the boundary of a gate"""
    def __init__(self, a):
        self.kind, self.e, self.id = "zero", a.e, a.id


def nonneg(ctx, ob, T, w):
    bad = None
    proved = True
    for path, x in leaves(w):
        x = alg.lift(x)
        s = alg.sign(x)
        if s in ("+", "0+", "0") or alg.square_sign(x) in ("+", "0+", "0"):
            continue
        proved = False
        for t in range(40):
            env = laws.Env(f"{laws.SEED}/{ob}/{t}", laws.mk_scales(["d"])[t % 12])
            try:
                if all(env.cond(a) == v for a, v in path) and env.expr(x) < 0:
                    bad = env
                    break
            except (laws.EvalError, ZeroDivisionError, OverflowError):
                continue
    if bad is not None:
        ctx.fail(ob, f"{T}::weight", "the weight is negative", bad.assign(None))
    else:
        ctx.note(ob, "proved" if proved else "agrees", "" if proved else "sign not derived from the normal form", f"{T}::weight")
