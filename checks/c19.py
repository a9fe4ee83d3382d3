"""IMU preintegration: the covariance handed to the noise model and the residual of the built factor, as value graphs of new, integrate (zero to three measurements), build and build_unchecked over symbolic parameters, biases, gravity, measurements and states, equal those of the documented model; SO3's exp, log and dexp enter as function symbols shared by both sides (decided by C02 and C03), and a disagreement is confirmed with their real definitions before it is reported. Keys are the six given symbols in order; covariance setters change their own source only."""
import time
from sa import spec as SP, alg, models as M, models_la as LA, scalar as S, laws
from sa.laws import flatten
from sa.spec import plain
from sa.values import *
from checks.c04 import loghook


class Cut:
    """SO3::exp / dexp / log as symbols of their argument; captures covariance and residual"""
    def __init__(self, opaque, forget):
        self.opaque, self.quats, self.mats = opaque, {}, {}
        self.cov = self.res = None
        self.used = []
        self.forget = forget    # how many analysis points abstract the state
        self.names, self.seen, self.shape = {}, {}, []

    def leaf(self, x):
        if isinstance(x, Ite):
            return lift(self.leaf, x)
        if isinstance(x, Dual):
            raise Undecided("dual state")
        if not isinstance(x, alg.Expr) or x.is_const() or alg.single_atom(x) is not None:
            return x
        if x not in self.names:
            self.names[x] = alg.var(f"w{len(self.names)}")
        return self.names[x]

    def abstract(self, v):
        if isinstance(v, Agg):
            return Agg(v.ty, v.vi, [self.abstract(x) for x in v.fs])
        if isinstance(v, Seq):
            return Seq([self.abstract(x) for x in v.xs])
        if isinstance(v, Mat):
            return Mat(v.nr, v.nc, [self.abstract(x) for x in v.xs])
        return self.leaf(v)

    def cutpoint(self, it, args):
        if self.forget:
            r = it.as_ref(args[0])
            v = self.abstract(it.load_g(r))
            it.store(r, v)
            if len(flatten(v)) > 300:    # the preintegrator itself: how general is the state that is left?
                first = {}
                self.shape.append(tuple(x if not isinstance(x, alg.Expr) or x.is_const() else first.setdefault(x, i)
                                        for i, x in enumerate(flatten(v))))
        return UNIT

    def theta(self, it, a):
        return [S.num(x) if not isinstance(x, Ite) else x for x in M.seqxs(M.val(it, a))]

    def exp(self, it, args):
        th = self.theta(it, args[0])
        if any(isinstance(x, Ite) for x in th):
            return lift(lambda *t: self.exp(it, [Seq(list(t))]), *th)
        if any(isinstance(x, Dual) for x in th):
            raise Undecided("dual rotation vector")
        k = tuple(str(x) for x in th)
        if all(x.is_const() and x.cval() == 0 for x in th):
            q = [SP.Z, SP.Z, SP.Z, SP.O]
        elif k in self.quats:
            q = self.quats[k]
        else:
            q = self.quats[k] = SP.unitquat(f"e{len(self.quats)}_")
        return it.call_inst(it.p.byname["factrs::variables::SO3::from_xyzw"], list(q))

    def dexp(self, it, args):
        th = self.theta(it, args[0])
        if any(isinstance(x, Ite) for x in th):
            return lift(lambda *t: self.dexp(it, [Seq(list(t))]), *th)
        k = tuple(str(x) for x in th)
        if all(x.is_const() and x.cval() == 0 for x in th):
            return Mat(3, 3, [SP.O if i % 4 == 0 else SP.Z for i in range(9)])
        if k not in self.mats:
            n = len(self.mats)
            self.mats[k] = (SP.vec(f"h{n}_", 9), SP.vec(f"k{n}_", 9))
        return Mat(3, 3, list(self.mats[k][0]))

    def inverse(self, v):
        for h, k in self.mats.values():
            if list(v.xs) == list(h):
                return Mat(3, 3, list(k))
        return None

    def setup(self, it):
        def cov(it, args):
            self.cov = M.val(it, args[0])
            return Agg(-1, 0, (self.cov,))

        def white(it, args):
            self.res = M.val(it, args[1])
            return self.res
        for I in it.p.insts:
            d = I["def"]
            if d.endswith("imu::cut"):
                it.dhooks[d] = self.cutpoint
            if d.endswith("::from_matrix_cov"):
                it.dhooks[d] = cov
            if d.endswith("GaussianNoise<N> as factrs::noise::NoiseModel>::whiten_vec"):
                it.dhooks[d] = white
            if self.opaque and d.startswith("<factrs::variables::SO3<T> as") and d.endswith("::exp"):
                it.dhooks[d] = self.exp
            if self.opaque and d == "factrs::variables::SO3::<T>::dexp":
                it.dhooks[d] = self.dexp
        if self.opaque:
            it.inv_hook = self.inverse
        loghook("so3", self.used)(it)


def sym(c):
    """symmetric 3x3 matrices: upper triangle mirrored"""
    out = []
    for k in range(7):
        m = c[9 * k:9 * k + 9]
        out += [m[3 * min(i, j) + max(i, j)] for i in range(3) for j in range(3)]
    return out


def inputs(opaque, n, var=None):
    c = sym(SP.vec("c", 63))
    b0, g = SP.vec("b", 6), SP.vec("g", 3)
    s = SP.unitquat("s_") + SP.vec("s", 12)
    t = SP.unitquat("t_") + SP.vec("t", 12)
    zs = [SP.vec(f"z{i}_", 6) + [alg.var(f"dt{i}", "+")] for i in range(n)]
    if not opaque:
        # confirmation only: one rotation axis with rational norm and rational states, symbolic gravity and noise scale
        q = lambda a, b=1: alg.const(alg.Fraction(a, b))
        sg = alg.var("sigma", "+")
        if isinstance(var, tuple) and var[0] == "fix":
            sg, g = var[1], [q(1, 3), q(-2, 7), q(49, 5)]
        c = sym([sg * q([1, 3, 2, 5, 4, 7, 6][k] * (7 if i == j else 1) + (i + 2 * j if i != j else i), 9)
                 for k in range(7) for i in range(3) for j in range(3)])
        b0 = [q(x, 8) for x in (1, -2, 3, -1, 2, 1)]
        s = [q(x, 5) for x in (1, 2, 2, 4)] + [q(x, 3) for x in (1, 2, -1, 4, -2, 5)] + [b + q(k, 40) for b, k in zip(b0, (2, -1, 3, 1, 2, -2))]
        t = [q(x, 9) for x in (1, 4, 0, 8)] + [q(x, 3) for x in (2, -1, 3, 1, 5, -2)] + [q(x, 8) for x in (2, -1, 2, -3, 1, 2)]
        for i in range(n):
            zs[i] = [b + q(k * (i + 2), 6) for b, k in zip(b0, (2, 1, 2))] + [q(x + i, 4) for x in (3, -5, 7)] + [q(1, 2 + i)]
        if isinstance(var, dict):
            # the inputs at which the comparison over symbols found the difference
            at = lambda name, d: alg.const(alg.Fraction(str(var[name]))) if name in var else d
            b0 = [at(f"b{i}", x) for i, x in enumerate(b0)]
            s = s[:4] + [at(f"s{i}", x) for i, x in enumerate(s[4:])]
            t = t[:4] + [at(f"t{i}", x) for i, x in enumerate(t[4:])]
            zs = [[at(f"z{i}_{k}", x) for k, x in enumerate(z[:6])] + [at(f"dt{i}", z[6])] for i, z in enumerate(zs)]
        elif var:
            kind, k = var[:2]
            if kind == "dt":
                zs = [z[:6] + [z[6] * k] for z in zs]
            elif kind == "bias":
                s = s[:10] + [b + (x - b) * k for b, x in zip(b0, s[10:])]
            elif kind == "fix" and len(var) > 2:
                zs = [z[:6] + [z[6] * var[2]] for z in zs]
            elif kind == "rate":
                zs = [[b + (x - b) * k for b, x in zip(b0, z)] + [z[6]] for z in zs]
    return c, b0, g, s, t, zs


def compare(ctx, n, f, opaque, ob, cov0, ks, var=None):
    """list of (obligation, anchor, verdict)"""
    c, b0, g, s, t, zs = inputs(opaque, n, var)
    cut = Cut(opaque, opaque)
    got = ctx.eval("imu", f"imu::k{n}::{f}", SP.args(c, b0, g, s, t, *zs), ob=ob, setup=cut.setup)
    if got is None:
        return None
    gc, gr = cut.cov, cut.res
    if gc is None or gr is None:
        ctx.note(ob, "undecided", "the covariance does not reach GaussianNoise::from_matrix_cov", "ImuPreintegrator::build")
        return None
    if cov0 is None:
        return got, gc, gr, None, None, None
    want = ctx.eval("imu", f"imu::k{n}::want", SP.args(c, b0, g, s, t, *zs, cov0), ob=ob + "/model", setup=cut.setup, defined=False)
    if want is None:
        return None
    wc, wr = want.fs
    return got, gc, gr, wc, wr, cut.shape


def rows(gc):
    return [gc.at(i, j) for j in range(gc.nc) for i in range(gc.nr)]


def numbers(ctx, n, f, cov0, ks, start):
    """when the symbolic value graph is out of reach: the same comparison on numbers"""
    for sg, dt in ((1, 1), (alg.Fraction(1, 10**8), alg.Fraction(1, 10)), (alg.Fraction(1, 10**12), alg.Fraction(1, 100))):
        if time.time() - start > 300:
            return False
        ob = f"n{n}/{f}/numbers/{sg}"
        r = compare(ctx, n, f, False, ob, cov0, ks, ("fix", F(sg), F(dt)))
        if r is None:
            continue
        got, gc, gr, wc, wr, _ = r
        eq = lambda o, x, y: ctx.eq(o, "ImuPreintegrator::integrate", [S.mul(v, F(1 / (sg * dt**4))) for v in x], [S.mul(v, F(1 / (sg * dt**4))) for v in y])
        vs = [eq(ob + "/covariance", rows(gc), flatten(wc)), eq(ob + "/residual", flatten(gr), flatten(wr))]
        if any(v is not None and v.status == "refuted" for v in vs):
            return True
    return False


F = alg.const
VARIANTS = [None] + [("dt", F(40)), ("dt", F(alg.Fraction(1, 10 ** 7))), ("bias", F(0)), ("bias", F(alg.Fraction(1, 10 ** 7))), ("bias", F(1000)), ("rate", F(0)), ("rate", F(alg.Fraction(1, 10 ** 7))), ("rate", F(50))]
NAMES = ["theta", "velocity", "position", "gyro bias", "accel bias"]


def run(ctx):
    ks = ctx.eval("imu", "imu::keys", [], ob="keys")
    if ks is None:
        return
    r0 = compare(ctx, 0, "got", True, "n0", None, ks)
    if r0 is None:
        return
    cov0 = [S.num(x) for x in flatten(r0[1])]
    base = SP.Z
    if not all(x.is_const() for x in cov0):
        ctx.fail("n0/covariance", "ImuPreintegrator::new", "the initial covariance depends on the parameters")
        return
    big = [(q // 15, q % 15) for q, x in enumerate(cov0) if abs(x.cval()) > alg.Fraction(1, 10**10)]
    ctx.holds("n0/negligible", "ImuPreintegrator::new", not big, f"the covariance before any measurement is not negligible at {big[:3]}")
    ctx.holds("n0/positive", "ImuPreintegrator::new", all(cov0[16 * i].cval() > 0 for i in range(15)), "a variance before any measurement is not positive")
    shapes, start = [], time.time()
    for n in range(0, 5 if ctx.thorough else 4):
        bad = False
        for f in ("got", "unchecked"):
            if bad:
                break
            ob = f"n{n}/{f}"
            r = compare(ctx, n, f, True, ob, cov0, ks)
            if r is None:
                bad = n in (1, 2) and numbers(ctx, n, f, cov0, ks, start)
                continue
            got, gc, gr, wc, wr, sh = r
            shapes = max(shapes, sh, key=len)
            anchor = "ImuPreintegrator::" + ("build" if f == "got" else "build_unchecked")
            ctx.eq(ob + "/keys", anchor, got, [ks, 15])
            if len(flatten(gc)) != 225 or len(flatten(gr)) != 15:
                ctx.fail(ob + "/shape", anchor, "the covariance is not 15x15 or the residual not a 15-vector")
                continue
            gl, wl = rows(gc), flatten(wc)
            groups = [(f"{ob}/covariance/{NAMES[i]},{NAMES[j]}", "ImuPreintegrator::integrate",
                       [(15 * (3 * j + y) + 3 * i + x) for x in range(3) for y in range(3)]) for i in range(5) for j in range(5)]
            fg, fw = flatten(gr), flatten(wr)
            exact = {}
            jobs = [(o, a, [gl[q] for q in ix], [wl[q] for q in ix], ("c", ix)) for o, a, ix in groups]
            jobs += [(f"{ob}/residual/{nm}", "ImuPreintegrationResidual::residual6", fg[3 * i:3 * i + 3], fw[3 * i:3 * i + 3], ("r", range(3 * i, 3 * i + 3)))
                     for i, nm in enumerate(("rotation", "velocity", "position", "gyro bias", "accel bias"))]
            for o, a, x, y, (what, ix) in jobs:
                try:
                    v = laws.equal(x, y, ctx=ctx.pid + o)
                except alg.TooBig:
                    v = laws.Verdict("undecided", "normal form too big")
                if v.status == "refuted":
                    # the symbols may hide that two different expressions agree: ask again with the real definitions
                    said, v = v, None
                    for var in [said.witness] + VARIANTS:
                        key = str(var)
                        if key not in exact:
                            if time.time() - start > 400:
                                break
                            exact[key] = compare(ctx, n, f, False, ob + "/exact", cov0, ks, var) or False
                        if not exact[key]:
                            continue
                        e = exact[key]
                        eg, ew = (rows(e[1]), flatten(e[3])) if what == "c" else (flatten(e[2]), flatten(e[4]))
                        try:
                            v = laws.equal([eg[q] for q in ix], [ew[q] for q in ix], ctx=ctx.pid + o + "x")
                        except alg.TooBig:
                            continue
                        if v.status == "refuted":
                            break
                    if v is None or v.status != "refuted":
                        v = laws.Verdict("undecided" if v is None else "agrees", "differs in terms of exp and dexp, not with their real definitions: " + said.detail[:200])
                bad |= v.status == "refuted"
                ctx.note(o, v.status, v.detail, a, v.witness)
        if bad:
            break    # longer histories repeat it
    for k in range(1, len(shapes)):
        # step k+1 started from a state as general as the one it left: the same argument covers every later step
        if shapes[k - 1] == shapes[k]:
            ctx.ok("induction", "ImuPreintegrator::integrate", f"the abstracted state after {k} and after {k + 1} measurements has the same free entries")
            break
    c = SP.vec("c", 63)
    x = alg.var("v")
    r = ctx.eval("imu", "imu::setters", SP.args(c) + [x], ob="setters")
    if r is not None:
        base = [c[9 * k + 3 * i + j] for k in range(7) for j in range(3) for i in range(3)]
        for i, (nm, at) in enumerate((("accel", [0]), ("gyro", [1]), ("accel_bias", [2]), ("gyro_bias", [3]), ("integration", [4]), ("init", [5, 6]))):
            w = list(base)
            for k in at:
                w[9 * k:9 * k + 9] = [x if q % 4 == 0 else SP.Z for q in range(9)]
            ctx.eq(f"set_scalar_{nm}", f"ImuCovariance::set_scalar_{nm}", r.xs[i], w)
    g = alg.const(alg.Fraction(981, 100))
    ctx.eq("gravity", "Gravity::up/down", ctx.eval("imu", "imu::gravity", [], ob="gravity"), [SP.Z, SP.Z, g, SP.Z, SP.Z, -g])
    m, b = SP.vec("m", 6), SP.vec("b", 6)
    ctx.eq("remove_bias", "Gyro/Accel::remove_bias", ctx.eval("imu", "imu::unbias", SP.args(m, b), ob="remove_bias"), [x - y for x, y in zip(m, b)])
