"""Group axioms on the value graphs of compose/inverse/identity/mul of every variable type: the two sides of each law, extracted from the MIR of every function they reach, must have the same normal form under every gate; products and inverses of unit quaternions must have unit norm."""
from sa import spec as SP, alg
from sa.values import *

LAWS = dict(assoc=3, left_id=1, right_id=1, left_inv=1, right_inv=1)


def same(ctx, ob, anchor, kind, got, want, **kw):
    if got is None or want is None:
        return
    ctx.any(ob, anchor, [(got, want), (lambda: SP.projective(kind, got), lambda: SP.projective(kind, want))], **kw)


def run(ctx):
    cfg = "vars"
    for k in SP.TYPES:
        if k == "uvar":
            continue
        T = k.upper()
        a, b, c = (SP.elem(k, n) for n in "abc")
        m = f"vars::{k}::"
        got = ctx.eval(cfg, m + "id", SP.args(a), ob=f"{k}/accessors")
        same(ctx, f"{k}/accessors", f"{T} constructor and accessors", k, got, SP.obs(k, a))
        got = ctx.eval(cfg, m + "identity", [], ob=f"{k}/identity")
        same(ctx, f"{k}/identity", f"{T}::identity", k, got, SP.o_identity(k))
        got = ctx.eval(cfg, m + "compose", SP.args(a, b), ob=f"{k}/compose")
        same(ctx, f"{k}/compose", f"{T}::compose", k, got, SP.o_compose(k, SP.obs(k, a), SP.obs(k, b)))
        if got is not None and SP.quatpart(k):
            q = got.xs[:4]
            ctx.eq(f"{k}/compose-unit", f"{T}::compose", SP.S.glift(lambda *z: sum((x * x for x in z), SP.Z), *q), SP.O)
        got = ctx.eval(cfg, m + "inverse", SP.args(a), ob=f"{k}/inverse")
        same(ctx, f"{k}/inverse", f"{T}::inverse", k, got, SP.o_inverse(k, SP.obs(k, a)))
        if got is not None and SP.quatpart(k):
            q = got.xs[:4]
            ctx.eq(f"{k}/inverse-unit", f"{T}::inverse", SP.S.glift(lambda *z: sum((x * x for x in z), SP.Z), *q), SP.O)
        for law, n in LAWS.items():
            ar = [a, b, c][:n]
            l = ctx.eval(cfg, m + law + "_l", SP.args(*ar), ob=f"{k}/{law}")
            r = ctx.eval(cfg, m + law + "_r", SP.args(*ar), ob=f"{k}/{law}")
            same(ctx, f"{k}/{law}", f"{T} {law}", k, l, r)
        got = ctx.eval(cfg, m + "clone_box", SP.args(a), ob=f"{k}/clone")
        same(ctx, f"{k}/clone", f"{T} clone through dyn VariableSafe", k, got, SP.obs(k, a))
        if k in ("so2", "so3", "se2", "se3"):
            for f in ("mul", "mul_ref"):
                l = ctx.eval(cfg, f"vars::{k}_mul::{f}_l", SP.args(a, b), ob=f"{k}/{f}")
                same(ctx, f"{k}/{f}", f"{T} operator *", k, l, SP.o_compose(k, SP.obs(k, a), SP.obs(k, b)))
    a, b = SP.elem("bias", "a"), SP.elem("bias", "b")
    for f in ("bias_sub", "bias_sub_ref"):
        ctx.eq(f"bias/{f}", "ImuBias operator -", ctx.eval(cfg, "vars::misc::" + f, SP.args(a, b)), [x - y for x, y in zip(a, b)])
    ctx.eq("bias/zeros", "ImuBias::zeros", ctx.eval(cfg, "vars::misc::bias_zeros", []), [SP.Z] * 6)
    v = SP.vec("a", 6)
    ctx.eq("vec/new", "VectorVarN::new", ctx.eval(cfg, "vars::misc::vec_new", SP.args(v)), [x for n in range(1, 7) for x in v[:n]])
    ctx.eq("so3/from_vec", "SO3::from_vec", ctx.eval(cfg, "vars::misc::so3_from_vec", SP.args(SP.elem("so3", "a"))), SP.elem("so3", "a"))
