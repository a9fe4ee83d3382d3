"""Retraction and difference: the value graphs of oplus, oplus_mut, the type-erased oplus_mut, oplus_left/right, ominus, ominus_left/right and minus of every variable type (built-in and a fully uninterpreted user-defined one) must equal the composition with exp/log on the configured side, with and without feature left; the dual-number retraction must seed the same side."""
from sa import spec as SP, alg, models as M
from sa.values import *
from checks.c01 import same
from checks.c05 import split, padded, rows

TY = dict(so2="SO2", so3="SO3", se2="SE2", se3="SE3")


def loghook(k, used):
    """log of type k (at any scalar type) as function symbols of the element's observed coordinates; quaternions enter
    through their products, so that q and -q give the same value"""
    from sa import hooks as H
    from sa.laws import flatten

    def h(it, args):
        used.append(1)
        x = it.snap(args[0])
        co = flatten(x)
        if k in ("so3", "se3"):
            q, rest = None, []
            for f in (x.fs if k == "se3" else [x]):
                fl = flatten(f)
                if len(fl) == 4:
                    q = fl
                else:
                    rest += fl
            if q is None:
                raise Undecided("layout")
            co = [SP.S.mul(q[i], q[j]) for i in range(4) for j in range(i, 4)] + rest
        return SP.S.glift(lambda *z: Mat(SP.DIM[k], 1, [H.apply_fn(f"log{k}_{i}", list(z)) for i in range(SP.DIM[k])]), *co)

    def setup(it):
        for I in it.p.insts:
            if I.get("ti", "").endswith("Variable::log") and f"variables::{TY[k]}<T> as" in I["def"]:
                it.dhooks[I["def"]] = h
    return setup


def run(ctx):
    for cfg in ("vars", "vars+left"):
        left = cfg.endswith("left")
        side, tag = ("left", "/left") if left else ("right", "")
        for k in SP.TYPES:
            T, m = k.upper(), f"vars::{k}::"
            a, b, v = SP.elem(k, "a"), SP.elem(k, "b"), SP.vec("v", SP.DIM[k])

            def ev(f, *ar, **kw):
                return ctx.eval(cfg, m + f, SP.args(*ar), ob=f"{k}/{f}{tag}", small=[f"v{i}" for i in range(SP.DIM[k])], **kw)
            R = {s: ev(f"oplus_{s}_r", a, v) for s in ("left", "right")}
            for s in ("left", "right"):
                same(ctx, f"{k}/oplus_{s}{tag}", f"{T}::oplus_{s}", k, ev(f"oplus_{s}_l", a, v), R[s])
            for f in ("oplus", "oplus_mut", "oplus_dyn"):
                same(ctx, f"{k}/{f}{tag}", f"{T}::{f} ({side})", k, ev(f, a, v), R[side])
            used = []
            setup = loghook(k, used) if k in TY else None

            def ev2(f, *ar):
                del used[:]
                r = ev(f, *ar, setup=setup)
                return r if (setup is None or used) else None
            L = {s: ev2(f"ominus_{s}_r", a, b) for s in ("left", "right")}
            for s in ("left", "right"):
                ctx.eq(f"{k}/ominus_{s}{tag}", f"{T}::ominus_{s}", ev2(f"ominus_{s}_l", a, b), L[s])
            ctx.eq(f"{k}/ominus{tag}", f"{T}::ominus ({side})", ev2("ominus", a, b), L[side])
            same(ctx, f"{k}/minus{tag}", f"{T}::minus", k, ev("minus_l", a, b), ev("minus_r", a, b))
            d = ev("dims", a)
            ctx.eq(f"{k}/dim{tag}", f"{T}::dim", d, [SP.DIM[k]] * 4)
        for k in SP.TYPES:
            a, n = SP.elem(k, "a"), SP.DIM[k] + 2
            got = ctx.eval("diff" + ("+left" if left else ""), f"diff::{k}::dual", SP.args(a), ob=f"{k}/dual{tag}")
            ctx.eq(f"{k}/dual{tag}", f"{k.upper()}::dual ({side})", got and split(got, n, 1), padded(rows(k, a, left), n, 1))
