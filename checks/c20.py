"""Prior and between residuals: the value graphs of residual1/residual2, of the residual through Values and of its Jacobian equal those of ominus(prior, x) and ominus(x1 delta, x2) written with the public operations, for every variable type and for a fully uninterpreted one, with and without feature left; dimensions are the sums of the variables'."""
from sa import spec as SP, alg
from sa.values import *
from checks.c04 import loghook, TY


def run(ctx):
    for cfg in ("resid", "resid+left"):
        tag = "/left" if "left" in cfg else ""
        for k in SP.TYPES:
            T, m, n = k.upper(), f"resid::{k}::", SP.DIM[k]
            p, a, b = (SP.elem(k, x) for x in "pab")
            used = []
            setup = loghook(k, used) if k in TY else None

            def ev(f, *ar):
                del used[:]
                r = ctx.eval(cfg, m + f, SP.args(*ar), ob=f"{k}/{f}{tag}", setup=setup)
                return r if (setup is None or used) else None
            ref = ev("prior_ref", p, a)
            ctx.eq(f"{k}/prior{tag}", f"PriorResidual<{T}>::residual1", ev("prior", p, a), ref)
            ctx.eq(f"{k}/prior_values{tag}", f"PriorResidual<{T}>::residual", ev("prior_values", p, a, b), ref)
            ref = ev("between_ref", p, a, b)
            ctx.eq(f"{k}/between{tag}", f"BetweenResidual<{T}>::residual2", ev("between", p, a, b), ref)
            ctx.eq(f"{k}/between_values{tag}", f"BetweenResidual<{T}>::residual", ev("between_values", p, a, b), ref)
            ctx.eq(f"{k}/prior_jac{tag}", f"PriorResidual<{T}>::residual_jacobian", ev("prior_jac", p, a, b), ev("prior_jac_ref", p, a))
            ctx.eq(f"{k}/between_jac{tag}", f"BetweenResidual<{T}>::residual_jacobian", ev("between_jac", p, a, b), ev("between_jac_ref", p, a, b))
            d = ctx.eval(cfg, m + "dims", SP.args(p), ob=f"{k}/dims{tag}")
            ctx.eq(f"{k}/dims{tag}", "dim_in/dim_out", d, [n, n, 2 * n, n])
