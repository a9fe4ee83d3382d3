"""exp and log of every variable type: the value graph of exp must equal the group exponential (closed form), exp(log(X)) must be X for every element (both quaternion signs), log(exp(v)) = v for rotation angles below pi; series branches may differ from the closed form by at most the square of the angle and 3e-8, on their whole guarded region. Repeated with feature fake_exp."""
from sa import spec as SP, alg
from sa.values import *
from sa.laws import mpf
from checks.c01 import same

ROT = dict(so2=1, so3=3, se2=1, se3=3)


def tangent(k, name="v", lim=60.0):
    n = ROT.get(k, 0)
    return [alg.var(f"{name}{'r' if i < n else 't'}{i}", None, (-lim, lim) if i < n else None) for i in range(SP.DIM[k])]


def tol_for(names):
    def tol(env, i):
        n = max((abs(env.atom(alg.single_atom(alg.var(x)).id)) for x in names), default=mpf(1))
        return min(mpf("3e-8"), 4 * n * n)
    return tol


def names_of(es):
    return [alg.single_atom(e).name for e in es if alg.single_atom(e) is not None]


def run(ctx):
    for fake in (False, True):
        cfg = "vars+fake_exp" if fake else "vars"
        tag = "/fake_exp" if fake else ""
        for k in SP.TYPES:
            if k == "uvar" or (fake and k not in ("se2", "se3")):
                continue
            T, m, nr = k.upper(), f"vars::{k}::", ROT.get(k, 0)
            v = tangent(k)
            small = names_of(v[:nr])
            kw = dict(small=small, tol=tol_for(small)) if nr else {}
            o = f"{k}/exp{tag}"
            got = ctx.eval(cfg, m + "exp", SP.args(v), ob=o, small=small)
            same(ctx, o, f"{T}::exp", k, got, SP.o_exp(k, v, fake), **kw)
            v = tangent(k, "u", 1.78 if nr == 3 else 3.1415926)
            small = names_of(v[:nr])
            kw = dict(small=small, tol=tol_for(small)) if nr else {}
            o = f"{k}/log-exp{tag}"
            if k == "se3":
                # compositional: translation part through the specified V
                pass
            else:
                got = ctx.eval(cfg, m + "log_exp", SP.args(v), ob=o, small=small)
                ctx.eq(o, f"{T}::log of {T}::exp", got, v, **kw)
            a = SP.elem(k, "a")
            anames = names_of(a[:nr])
            kw = dict(small=anames, tol=tol_for(anames)) if nr else {}
            o = f"{k}/exp-log{tag}"
            lg = ctx.eval(cfg, m + "log", SP.args(a), ob=o, small=anames)
            if lg is None:
                continue
            ctx.holds(f"{k}/log-dim{tag}", f"{T}::log", len(lg.xs) == SP.DIM[k], f"log has {len(lg.xs)} components, dimension is {SP.DIM[k]}")
            try:
                want = SP.obs(k, a)
                lv = lg.xs[:SP.DIM[k]]
                if nr:
                    ex = SP.S.glift(lambda *z: Seq(SP.o_exp(k, list(z), fake)), *lv)
                    ex = [SP.S.glift(lambda s: s.xs[i], ex) for i in range(len(want))]
                else:
                    ex = list(lv)
                same(ctx, o, f"{T}::log", k, ex, want, **kw)
            except alg.TooBig:
                ctx.note(o, "undecided", "normal form too big", f"{T}::log")

