"""Abstract value domain: algebraic normal forms, gated (decision-diagram) values, aggregates,
references into an abstract store, matrices with static shape, dual numbers."""
from . import alg
from .alg import Expr


class Undecided(Exception):
    """the analysis cannot represent something: the obligation is undecided (never an alarm)."""


class Bottom(Exception):
    """no execution reaches this point"""


# ---------------------------------------------------------------- condition atoms
GATES = [0, 600000]      # gate nodes made for the current obligation, and their limit


class CAtom:
    __slots__ = ("id", "kind", "e", "key", "note")
    table = {}
    byid = []

    def __repr__(self):
        if self.kind == "pos":
            return f"({alg.show(self.e)} > 0)"
        if self.kind == "zero":
            return f"({alg.show(self.e)} = 0)"
        return f"[{self.key}]"


def catom(kind, key, e=None):
    k = (kind, key)
    a = CAtom.table.get(k)
    if a is None:
        a = CAtom()
        a.id = len(CAtom.byid)
        a.kind, a.key, a.e, a.note = kind, key, e, None
        CAtom.table[k] = a
        CAtom.byid.append(a)
    return a


class Ite:
    __slots__ = ("a", "t", "f", "_h")

    def __init__(self, a, t, f):
        self.a, self.t, self.f = a, t, f
        self._h = None
        GATES[0] += 1
        if GATES[0] > GATES[1]:
            raise Undecided("gate budget")

    def __eq__(self, o):
        return self is o or (isinstance(o, Ite) and self.a is o.a and self.t == o.t and self.f == o.f)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.a.id, self.t, self.f))
        return self._h

    def __repr__(self):
        return f"ite({self.a},{self.t},{self.f})"


class V:
    """base of immutable structural values"""
    __slots__ = ("_h",)

    def key(self):
        raise NotImplementedError

    def __eq__(self, o):
        if self is o:
            return True
        return type(self) is type(o) and self.key() == o.key()

    def __hash__(self):
        try:
            if self._h is not None:
                return self._h
        except AttributeError:
            pass
        self._h = hash((type(self).__name__, self.key()))
        return self._h


class Agg(V):
    """struct / tuple / enum variant / closure"""
    __slots__ = ("ty", "vi", "fs")

    def __init__(self, ty, vi, fs):
        self.ty, self.vi, self.fs = ty, vi, tuple(fs)
        self._h = None

    def key(self):
        return (self.vi, self.fs)

    def __eq__(self, o):
        if self is o:
            return True
        if type(o) is not Agg or self.vi != o.vi:
            return False
        if self.ty != o.ty and known(self.ty) and known(o.ty):
            return False
        return self.fs == o.fs

    __hash__ = V.__hash__

    def __repr__(self):
        return f"Agg#{self.ty}:{self.vi}{self.fs}"


def known(t):
    """a type id that came from the program (summaries build aggregates without one)"""
    return t is not None and t >= 0


class Seq(V):
    """array, slice contents or Vec contents with known elements"""
    __slots__ = ("xs",)

    def __init__(self, xs):
        self.xs = tuple(xs)
        self._h = None

    def key(self):
        return self.xs

    def __repr__(self):
        return f"Seq{list(self.xs)}"


class Mat(V):
    """nr x nc, row-major items"""
    __slots__ = ("nr", "nc", "xs")

    def __init__(self, nr, nc, xs):
        self.nr, self.nc, self.xs = nr, nc, tuple(xs)
        assert len(self.xs) == nr * nc, (nr, nc, len(self.xs))
        self._h = None

    def key(self):
        return (self.nr, self.nc, self.xs)

    def at(self, i, j):
        return self.xs[i * self.nc + j]

    def __repr__(self):
        return f"Mat{self.nr}x{self.nc}{list(self.xs)}"


class MView(V):
    """mutable view of a region of a matrix in the store (the reference ends in a block lens)"""
    __slots__ = ("ref",)

    def __init__(self, ref):
        self.ref = ref
        self._h = None

    def key(self):
        return self.ref


class IterV(V):
    """state of an iterator"""
    __slots__ = ("kind", "a")

    def __init__(self, kind, *a):
        self.kind, self.a = kind, a
        self._h = None

    def key(self):
        return (self.kind, self.a)

    def __repr__(self):
        return f"Iter:{self.kind}{self.a}"


class MapV(V):
    """HashMap/BTreeMap contents: (key, value) pairs in insertion order, or in key order (srt: the B-tree containers)"""
    __slots__ = ("es", "srt")

    def __init__(self, es, srt=0):
        self.es = tuple(es)
        self.srt = srt
        self._h = None

    def of(self, es):
        return MapV(es, self.srt)

    def key(self):
        return (self.es, self.srt)

    def __repr__(self):
        return f"Map{self.es}"


class Dual(V):
    """dual number re + eps; eps: None (no derivative), a tuple (DualVec) or a single value (Dual)"""
    __slots__ = ("re", "eps", "vec")

    def __init__(self, re, eps, vec=True):
        self.re, self.eps, self.vec = re, eps, vec
        self._h = None

    def key(self):
        return (self.re, self.eps, self.vec)

    def __repr__(self):
        return f"Dual({self.re},{self.eps})"


class Deriv(V):
    """num_dual::Derivative"""
    __slots__ = ("eps",)

    def __init__(self, eps):
        self.eps = eps
        self._h = None

    def key(self):
        return (self.eps,)


class Ref(V):
    """reference/pointer/Box: a place in the store. meta: concrete type id of a dyn pointee, or slice window"""
    __slots__ = ("cell", "path", "meta")

    def __init__(self, cell, path=(), meta=None):
        self.cell, self.path, self.meta = cell, tuple(path), meta
        self._h = None

    def key(self):
        return (self.cell, self.path, self.meta)

    def __repr__(self):
        return f"&{self.cell}{list(self.path) or ''}{'' if self.meta is None else ':' + str(self.meta)}"


class FnV(V):
    __slots__ = ("inst",)

    def __init__(self, inst):
        self.inst = inst
        self._h = None

    def key(self):
        return self.inst


class Str(V):
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s
        self._h = None

    def key(self):
        return self.s

    def __repr__(self):
        return f"Str({self.s!r})"


class Special(V):
    """a floating point value that is no real number: nan, inf or -inf"""
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k
        self._h = None

    def key(self):
        return self.k

    def __repr__(self):
        return f"Special({self.k})"


NAN, INF, NINF = Special("nan"), Special("inf"), Special("-inf")


class Term(V):
    """uninterpreted term"""
    __slots__ = ("f", "args")

    def __init__(self, f, *args):
        self.f, self.args = f, tuple(args)
        self._h = None

    def key(self):
        return (self.f, self.args)

    def __repr__(self):
        return f"{self.f}({', '.join(map(repr, self.args))})" if self.args else f"{self.f}"


class Uninit(V):
    __slots__ = ()

    def __init__(self):
        self._h = None

    def key(self):
        return 0

    def __repr__(self):
        return "?"


UNINIT = Uninit()
UNIT = Agg(-1, 0, ())


class Bits(V):
    """machine integer as a vector of bit provenances: 0, 1 or (name, i); low bit first"""
    __slots__ = ("bs",)

    def __init__(self, bs):
        self.bs = tuple(bs)
        self._h = None

    def key(self):
        return self.bs

    def __repr__(self):
        return "Bits" + str(self.bs)


# ---------------------------------------------------------------- gating
def mkite(a, t, f):
    if t is f or t == f:
        return t
    return Ite(a, t, f)


def top_atom(vals):
    best = None
    for v in vals:
        if isinstance(v, Ite) and (best is None or v.a.id < best.id):
            best = v.a
    return best


def cof(v, a, val):
    while isinstance(v, Ite) and v.a is a:
        v = v.t if val else v.f
    return v


def restrict(v, assume):
    """top-level restriction of a gated value under assumed atoms"""
    while isinstance(v, Ite):
        r = assume.get(v.a.id)
        if r is None:
            return v
        v = v.t if r else v.f
    return v


BOT = Term("_|_")


def lift(f, *vals, assume=None):
    """apply f to ungated values, pushing it below all gates"""
    if assume:
        vals = tuple(restrict(v, assume) if isinstance(v, Ite) else v for v in vals)
    a = top_atom(vals)
    if a is None:
        return f(*vals)
    t = f_ = None
    try:
        at = dict(assume) if assume else {}
        at[a.id] = True
        t = lift(f, *[cof(v, a, True) for v in vals], assume=at)
    except Bottom:
        t = BOT
    try:
        af = dict(assume) if assume else {}
        af[a.id] = False
        f_ = lift(f, *[cof(v, a, False) for v in vals], assume=af)
    except Bottom:
        f_ = BOT
    if t is BOT and f_ is BOT:
        raise Bottom()
    if t is BOT:
        return f_
    if f_ is BOT:
        return t
    return merge(a, t, f_)


def ordered(a, t, f):
    """ite(a,t,f) keeping atoms ordered from the root"""
    if t is f or t == f:
        return t
    b = top_atom((t, f))
    if b is None or a.id < b.id:
        return Ite(a, t, f)
    if b is a:
        return mkite(a, cof(t, a, True), cof(f, a, False))
    return mkite(b, ordered(a, cof(t, b, True), cof(f, b, True)), ordered(a, cof(t, b, False), cof(f, b, False)))


def merge(a, t, f):
    """value that is t when atom a holds and f otherwise, merged structurally where shapes agree"""
    if t is f:
        return t
    tt, tf = type(t), type(f)
    if tt is tf:
        if tt is Agg and (t.ty == f.ty or not known(t.ty) or not known(f.ty)) and t.vi == f.vi and len(t.fs) == len(f.fs):
            if t.fs == f.fs:
                return t
            return Agg(t.ty if known(t.ty) else f.ty, t.vi, [merge(a, x, y) for x, y in zip(t.fs, f.fs)])
        if tt is Seq and len(t.xs) == len(f.xs):
            return Seq([merge(a, x, y) for x, y in zip(t.xs, f.xs)])
        if tt is Mat and t.nr == f.nr and t.nc == f.nc:
            return Mat(t.nr, t.nc, [merge(a, x, y) for x, y in zip(t.xs, f.xs)])
        if tt is MapV and t.srt == f.srt and [k for k, _ in t.es] == [k for k, _ in f.es]:
            return t.of([(k, merge(a, x, y)) for (k, x), (_, y) in zip(t.es, f.es)])
        if tt is IterV and t.kind == f.kind and len(t.a) == len(f.a) and t != f and t.kind in ("map", "scan", "enumerate", "zip", "filter", "cloned"):
            pass
        if tt is Dual and t.vec == f.vec:
            if isinstance(t.eps, tuple) and isinstance(f.eps, tuple) and len(t.eps) == len(f.eps):
                return Dual(merge(a, t.re, f.re), tuple(merge(a, x, y) for x, y in zip(t.eps, f.eps)), t.vec)
    if t == f:
        return t
    if t is UNINIT or f is UNINIT:
        # a place live on one side only: drop flags keep it from being read on the other
        return f if t is UNINIT else t
    return ordered(a, t, f)


def leaves(v, path=()):
    """(assignment, leaf) pairs of a gated value"""
    if isinstance(v, Ite):
        yield from leaves(v.t, path + ((v.a, True),))
        yield from leaves(v.f, path + ((v.a, False),))
    else:
        yield path, v


def iszero_const(e):
    return isinstance(e, Expr) and e.is_zero() if hasattr(e, "is_zero") else False


# ---------------------------------------------------------------- conditions over the reals
def norm_cond(e):
    """e' with the sign of e, stripped of factors of known strict sign"""
    c, m, p = alg.primitive(e)
    neg = c < 0
    rest = []
    for a, k in m:
        s = alg.atom_sign(alg.atom_by_id(a))
        if s in ("+", "-"):
            if s == "-" and k % 2:
                neg = not neg
        elif k < 0:
            rest.append((a, 1 if k % 2 else 2))      # 1/x has the sign of x where it is defined
        else:
            rest.append((a, k))
    # difference of two squares of positive monomials
    if len(p.t) == 2:
        (m1, c1), (m2, c2) = p.t.items()
        if (c1 > 0) != (c2 > 0):
            r = []
            for mm, cc in ((m1, abs(c1)), (m2, abs(c2))):
                q = alg._isqrt_frac(cc)
                if q is None or any(k % 2 for _, k in mm) or any(alg.atom_sign(alg.atom_by_id(a)) != "+" for a, _ in mm):
                    r = None
                    break
                r.append(Expr({tuple((a, k // 2) for a, k in mm): q}))
            if r:
                p = r[0] - r[1] if c1 > 0 else r[1] - r[0]
    if rest:
        p = p * Expr({tuple(rest): alg.Fraction(1)})
    return -p if neg else p


def cond_pos(e):
    """boolean value of e > 0 over the reals"""
    e = alg.lift(e)
    if e.is_const():
        return e.cval() > 0
    e = alg.cancel(alg.renorm(e)) if any(alg.atom_by_id(a).kind == "f" and alg.atom_by_id(a).name == "inv" for a in e.atoms()) else alg.renorm(e)
    s = alg.sign(e)
    if s == "+":
        return True
    if s in ("-", "0", "0-"):
        return False
    e = norm_cond(e)
    s = alg.sign(e)
    if s == "+":
        return True
    if s in ("-", "0", "0-"):
        return False
    return Ite(catom("pos", e, e), True, False)


def cond_zero(e):
    e = alg.lift(e)
    if e.is_const():
        return e.cval() == 0
    s = alg.sign(e)
    if s in ("+", "-"):
        return False
    if alg.is_zero(e):
        return True
    e = norm_cond(e)
    if max(e.t) and e.t[max(e.t)] < 0:
        e = -e
    return Ite(catom("zero", e, e), True, False)


def implied(assume, a, val):
    """assumption set extended with a=val and its immediate consequences"""
    d = dict(assume)
    d[a.id] = val
    if a.kind == "pos" and val:
        n = CAtom.table.get(("pos", -a.e))
        if n is not None:
            d[n.id] = False
    return d


def notv(c):
    return lift(lambda x: not x, c)


def andv(a, b):
    return lift(lambda x, y: x and y, a, b)


def orv(a, b):
    return lift(lambda x, y: x or y, a, b)
