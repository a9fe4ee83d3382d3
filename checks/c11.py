"""Factor construction: for 1 to 6 keys, the value graph of the factor built by newN, newN_unchecked (noise and robust in either order, set twice, or left out) and by every form of fac! — observed through keys, error and linearization over an uninterpreted residual, symbolic whitening matrix and uninterpreted kernel — equals the documented one; residual wrappers feed keys[0], keys[1], ... to arguments 0, 1, ..."""
from sa import spec as SP, alg
from sa.values import *
from checks.c07 import Want, WID, OFF, keys


def run(ctx):
    ks = keys(ctx)
    if ks is None:
        return
    p = SP.vec("x", 11)
    W, V = SP.vec("w", 4), SP.vec("v", 4)
    for n in range(1, 7):
        def want(noise, robust):
            return Want(400 + n, p[:OFF[n]], W if noise else None, 41 if robust else None, WID[:n]).obs(ks[:n])
        forms = [("plain", [p], 0, 0, f"FactorBuilder::new{n}"), ("unchecked", [p], 0, 0, f"FactorBuilder::new{n}_unchecked"),
                 ("noise", [W, p], 1, 0, f"FactorBuilder::new{n}.noise"), ("robust", [p], 0, 1, f"FactorBuilder::new{n}.robust"),
                 ("full", [W, p], 1, 1, f"FactorBuilder::new{n}.noise.robust"), ("swapped", [W, p], 1, 1, f"FactorBuilder::new{n}_unchecked.robust.noise"),
                 ("last_wins", [V, W, p], 1, 1, "FactorBuilder with noise and kernel set twice"),
                 ("mac", [p], 0, 0, f"fac![res, [{n} keys]]"), ("mac_noise", [W, p], 1, 0, f"fac![res, [{n} keys], noise]"),
                 ("mac_full", [W, p], 1, 1, f"fac![res, [{n} keys], noise, robust]"), ("mac_paren", [W, p], 1, 1, f"fac![res, ({n} keys), noise, robust]")]
        ctx.eq(f"dims{n}", f"Residual for a marked Residual{n}", ctx.eval("factor", f"factor::f{n}::dims", [], ob=f"dims{n}"), [OFF[n], 2])
        for f, ar, no, ro, anchor in forms:
            got = ctx.eval("factor", f"factor::f{n}::{f}", SP.args(*ar), ob=f"{f}{n}")
            ctx.eq(f"{f}{n}", anchor, got, want(no, ro))
    w = Want(401, p[:3], None, None, [3]).obs(ks[:1])
    ctx.eq("single", "fac![res, X(0)]", ctx.eval("factor", "factor::mac_single", SP.args(p), ob="single"), w)
    w = Want(401, p[:3], W, 41, [3]).obs(ks[:1])
    ctx.eq("single_name", "fac![res, key, noise, robust]", ctx.eval("factor", "factor::mac_single_name", SP.args(W, p), ob="single_name"), w)
