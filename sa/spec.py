"""Specification-side algebra: inputs and reference formulas, written over the same normal forms."""
import random
from . import alg
from .alg import Expr
from .values import *
from . import scalar as S

Z, O = alg.const(0), alg.const(1)
H2 = alg.const(alg.Fraction(1, 2))


NUMBERS = [None]    # a round: inputs are numbers instead of symbols


def number(name, sign=None, rng=None):
    r = random.Random(f"{name} {NUMBERS[0]}")
    if rng is not None:
        lo, hi = (alg.Fraction(str(x)) for x in rng)
        return alg.const(lo + (hi - lo) * alg.Fraction(r.randint(1, 30), 31))
    v = alg.Fraction(r.randint(1, 40), 13) * (r.choice((alg.Fraction(1, 10**5), alg.Fraction(1, 100), 1, 40)) if NUMBERS[0] else 1)
    if sign == "-" or sign is None and r.random() < 0.5:
        v = -v
    return alg.const(v)


def invar(name, sign=None, rng=None):
    return alg.var(name, sign, rng) if NUMBERS[0] is None else number(name, sign, rng)


QUATS = [(1, 1, 3, 5, 6), (2, -4, 5, 6, 9), (1, 2, -4, 10, 11), (-2, 3, 6, 24, 25), (1, 4, 8, 0, 9), (2, 2, 1, -4, 5), (6, -2, 3, -24, 25)]


def vec(name, n, rng=None, sign=None):
    if NUMBERS[0] is not None:
        return [number(f"{name}{i}", sign, rng) for i in range(n)]
    return [alg.var(f"{name}{i}", sign, rng) for i in range(n)]


def unitquat(name, wpos=False):
    """x, y, z free with x^2+y^2+z^2 <= 1 and w = +-sqrt(1 - x^2 - y^2 - z^2)"""
    if NUMBERS[0] is not None:
        *q, d = QUATS[random.Random(f"{name} {NUMBERS[0]}").randrange(5 if wpos else len(QUATS))]
        return [alg.const(alg.Fraction(x, d)) for x in q]
    xyz = [alg.var(f"{name}{c}", None, (-0.57, 0.57)) for c in "xyz"]
    for i, e in enumerate(xyz):
        alg.single_atom(e).sample = sphere(name, i)
    w = alg.var(f"{name}w", "+" if wpos else None)
    at = alg.single_atom(w)
    at = alg.atom_by_id(at) if isinstance(at, int) else at
    at.unit2 = O - xyz[0] * xyz[0] - xyz[1] * xyz[1] - xyz[2] * xyz[2]
    return xyz + [w]


def sphere(name, i):
    """coordinate i of a random unit 4-vector, shared between the coordinates of one quaternion"""
    def f(env):
        q = env.fn.get(("sphere", name))
        if q is None:
            v = [env.r.gauss(0, 1) for _ in range(4)]
            n = sum(x * x for x in v) ** 0.5
            q = env.fn[("sphere", name)] = [round(0.999 * x / n, 6) or 0.01 for x in v]
        return q[i] * env.scales.get(f"{name}{'xyz'[i]}", 1)
    return f


DIM = dict(so2=1, so3=3, se2=3, se3=6, v1=1, v2=2, v3=3, v4=4, v5=5, v6=6, bias=6, uvar=2)
TYPES = list(DIM)


def elem(kind, name):
    """coordinates of an arbitrary element of a variable type, as passed to the harness"""
    if kind == "so2":
        return [invar(name + "t")]
    if kind == "so3":
        return unitquat(name)
    if kind == "se2":
        return [invar(name + "t"), invar(name + "x"), invar(name + "y")]
    if kind == "se3":
        return unitquat(name) + [invar(name + f"p{i}") for i in range(3)]
    return vec(name, DIM[kind])


def obs(kind, p):
    """observed coordinates of the element with parameters p"""
    if kind == "so2":
        return [alg.cos(p[0]), alg.sin(p[0])]
    if kind == "se2":
        return [alg.cos(p[0]), alg.sin(p[0]), p[1], p[2]]
    return list(p)


def quat_rot(q):
    x, y, z, w = q
    t = alg.const(2)
    return [[O - t * (y * y + z * z), t * (x * y - z * w), t * (x * z + y * w)],
            [t * (x * y + z * w), O - t * (x * x + z * z), t * (y * z - x * w)],
            [t * (x * z - y * w), t * (y * z + x * w), O - t * (x * x + y * y)]]


def qmul(a, b):
    ax, ay, az, aw = a
    bx, by, bz, bw = b
    return [aw * bx + ax * bw + ay * bz - az * by, aw * by - ax * bz + ay * bw + az * bx,
            aw * bz + ax * by - ay * bx + az * bw, aw * bw - ax * bx - ay * by - az * bz]


def qinv(a):
    return [-a[0], -a[1], -a[2], a[3]]


def mv(m, v):
    return [sum((r[j] * v[j] for j in range(len(v))), Z) for r in m]


def mm(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(len(b))), Z) for j in range(len(b[0]))] for i in range(len(a))]


def tr(a):
    return [list(x) for x in zip(*a)]


def eye(n):
    return [[O if i == j else Z for j in range(n)] for i in range(n)]


def o_compose(kind, a, b):
    """composition on observed coordinates"""
    if kind == "so2":
        return [a[0] * b[0] - a[1] * b[1], a[1] * b[0] + a[0] * b[1]]
    if kind == "so3":
        return qmul(a, b)
    if kind == "se2":
        r = o_compose("so2", a[:2], b[:2])
        return r + [a[0] * b[2] - a[1] * b[3] + a[2], a[1] * b[2] + a[0] * b[3] + a[3]]
    if kind == "se3":
        t = mv(quat_rot(a[:4]), b[4:])
        return qmul(a[:4], b[:4]) + [t[i] + a[4 + i] for i in range(3)]
    return [x + y for x, y in zip(a, b)]


def o_inverse(kind, a):
    if kind == "so2":
        return [a[0], -a[1]]
    if kind == "so3":
        return qinv(a)
    if kind == "se2":
        return [a[0], -a[1], -(a[0] * a[2] + a[1] * a[3]), -(a[0] * a[3] - a[1] * a[2])]
    if kind == "se3":
        q = qinv(a[:4])
        return q + [-x for x in mv(quat_rot(q), a[4:])]
    return [-x for x in a]


def o_identity(kind):
    if kind == "so2":
        return [O, Z]
    if kind == "so3":
        return [Z, Z, Z, O]
    if kind == "se2":
        return [O, Z, Z, Z]
    if kind == "se3":
        return [Z, Z, Z, O, Z, Z, Z]
    return [Z] * DIM[kind]


def quatpart(kind):
    return kind in ("so3", "se3")


def sq(a, b):
    return S.glift(lambda x, y: alg.lift(x) * alg.lift(y), a, b)


def projective(kind, o):
    """observation with the quaternion replaced by its outer product (q and -q are one rotation)"""
    o = list(o.xs) if isinstance(o, Seq) else list(o)
    if not quatpart(kind):
        return o
    q = o[:4]
    return [sq(q[i], q[j]) for i in range(4) for j in range(i, 4)] + o[4:]


def args(*ps):
    return [Seq(p) for p in ps]


def norm2(v):
    return sum((x * x for x in v), Z)


def hat3(w):
    return [[Z, -w[2], w[1]], [w[2], Z, -w[0]], [-w[1], w[0], Z]]


def madd(*ms):
    return [[sum((m[i][j] for m in ms), Z) for j in range(len(ms[0][0]))] for i in range(len(ms[0]))]


def mscale(m, s):
    return [[x * s for x in r] for r in m]


def o_exp(kind, v, fake=False):
    """exponential map on observed coordinates (generic, away from zero rotation)"""
    if kind == "so2":
        return [alg.cos(v[0]), alg.sin(v[0])]
    if kind == "so3":
        th = alg.sqrt(norm2(v))
        s = alg.sin(th * H2) / th
        return [x * s for x in v] + [alg.cos(th * H2)]
    if kind == "se2":
        th = v[0]
        if fake:
            return [alg.cos(th), alg.sin(th), v[1], v[2]]
        A, B = alg.sin(th) / th, (O - alg.cos(th)) / th
        return [alg.cos(th), alg.sin(th), A * v[1] - B * v[2], B * v[1] + A * v[2]]
    if kind == "se3":
        return o_exp("so3", v[:3]) + (list(v[3:]) if fake else mv(leftjac3(v[:3]), v[3:]))
    return list(v)


def leftjac3(w):
    t2 = norm2(w)
    th = alg.sqrt(t2)
    B = (O - alg.cos(th)) / t2
    C = (th - alg.sin(th)) / (t2 * th)
    W = hat3(w)
    return madd(eye(3), mscale(W, B), mscale(mm(W, W), C))


def plain(v):
    """Seq and tuples as lists, Option as None or its value"""
    if isinstance(v, Seq):
        return [plain(x) for x in v.xs]
    if isinstance(v, Mat):
        return [plain(x) for x in v.xs]
    if isinstance(v, Agg):
        if not v.fs and v.vi == 0 and v.ty != -1:
            return None
        if v.vi == 1 and len(v.fs) == 1:
            return plain(v.fs[0])
        return [plain(x) for x in v.fs]
    return v
