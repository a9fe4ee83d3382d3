"""Constructors and accessors: the value graph of reading a variable back after building it from symbolic coordinates equals those coordinates in the documented order; angles are compared as the full-circle angle of the rotation's cosine and sine."""
from sa import spec as SP, alg, scalar as S
from sa.values import *


def run(ctx):
    def same(f, n, anchor):
        p = SP.vec("p", n)
        ctx.eq(f, anchor, ctx.eval("vars", "vars::acc::" + f, SP.args(p), ob=f), p)
    for n in range(1, 7):
        same(f"v{n}", n, f"VectorVar::<{n}>::new")
    same("field", 5, "VectorVar::<5>::new")
    same("dual5", 5, "VectorVar::<5, Dual>::new")
    same("from9", 9, "VectorVar::from(Vector)")
    same("into9", 9, "Vector::from(VectorVar)")
    same("sensors", 6, "Gyro::new/Accel::new")
    same("bias", 6, "ImuBias::new/gyro/accel")
    t = alg.var("t")
    c, s = alg.cos(t), alg.sin(t)
    ctx.eq("so2_matrix", "SO2::from_theta", ctx.eval("vars", "vars::acc::so2_matrix", [t], ob="so2_matrix"), [c, -s, s, c])
    ctx.eq("so2_round", "SO2::from_theta/to_theta", ctx.eval("vars", "vars::acc::so2_round", [t], ob="so2_round"), [alg.atan2(s, c)])
    ctx.eq("se2_round", "SE2::new/theta", ctx.eval("vars", "vars::acc::se2_round", [t] + SP.vec("p", 2), ob="se2_round"), [alg.atan2(s, c)])
    x, y = alg.var("x"), alg.var("y")
    # the rotation with cosine a/r and sine b/r, every quadrant and axis
    q = alg.Fraction
    for a, b, r in ((3, 4, 5), (-3, 4, 5), (-3, -4, 5), (3, -4, 5), (1, 0, 1), (0, 1, 1), (0, -1, 1), (5, 12, 13), (-12, 5, 13), (-12, -5, 13)):
        w = alg.atan2(alg.const(q(b, r)), alg.const(q(a, r)))
        u = [alg.const(q(a, r)), alg.const(q(b, r))]
        ctx.eq(f"so2_theta/{a},{b}", "SO2::to_theta", ctx.eval("vars", "vars::acc::so2_theta", SP.args(u), ob=f"so2_theta/{a},{b}"), w)
        ctx.eq(f"se2_theta/{a},{b}", "SE2::theta", ctx.eval("vars", "vars::acc::se2_theta", SP.args(u + [x, y]), ob=f"se2_theta/{a},{b}"), w)
    p = SP.vec("p", 3)
    ctx.eq("se2", "SE2::new/x/y/xy/rot", ctx.eval("vars", "vars::acc::se2", SP.args(p), ob="se2"), [p[1:], p[1:], [alg.cos(p[0]), alg.sin(p[0])]])
    u = SP.unitquat("q")
    for f in ("so3_xyzw", "so3_vec"):
        ctx.eq(f, "SO3::from_xyzw/from_vec/x/y/z/w", ctx.eval("vars", "vars::acc::" + f, SP.args(u), ob=f), u)
    p = SP.vec("p", 3)
    ctx.eq("se3", "SE3::from_rot_trans/rot/xyz", ctx.eval("vars", "vars::acc::se3", SP.args(u + p), ob="se3"), u + p)
    ctx.eq("zeros", "ImuBias/Gyro/Accel::zeros", ctx.eval("vars", "vars::acc::zeros", [], ob="zeros"), [SP.Z] * 12)
    m, b = SP.vec("m", 6), SP.vec("b", 6)
    ctx.eq("unbias", "Gyro/Accel::remove_bias", ctx.eval("vars", "vars::acc::unbias", SP.args(m, b), ob="unbias"), [e - f for e, f in zip(m, b)])
    g = alg.const(q(981, 100))
    ctx.eq("gravity", "Gravity::up/down", ctx.eval("vars", "vars::acc::gravity", [], ob="gravity"), [SP.Z, SP.Z, g, SP.Z, SP.Z, -g])
    # dual numbers: the coordinates' derivatives come along
    for f, n in (("vec", 6), ("bias", 6), ("so3", 4), ("se3", 7)):
        p, e = SP.vec("p", n), SP.vec("e", n)
        if n in (4, 7):
            p = u + p[:n - 4]
        k = 2 if f == "so3" else 1
        ctx.eq("dual/" + f, f"{f} over dual numbers", ctx.eval("vars", "vars::acc::d_" + f, SP.args(p, e), ob="dual/" + f), p * k + e * k)
    t, e = SP.vec("t", 3), SP.vec("e", 3)
    c, s = alg.cos(t[0]), alg.sin(t[0])
    ctx.eq("dual/so2", "SO2 over dual numbers", ctx.eval("vars", "vars::acc::d_so2", SP.args(t[:1], e[:1]), ob="dual/so2"), [c, s, alg.atan2(s, c), -s * e[0], c * e[0], e[0]])
    ctx.eq("dual/se2", "SE2 over dual numbers", ctx.eval("vars", "vars::acc::d_se2", SP.args(t, e), ob="dual/se2"),
           [c, s, t[1], t[2], t[1], t[2], alg.atan2(s, c), -s * e[0], c * e[0], e[1], e[2], e[1], e[2], e[0]])
