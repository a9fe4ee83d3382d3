"""Scalar operations of the abstract domain: reals (normal forms), dual numbers, machine integers, bit vectors."""
from fractions import Fraction
from . import alg
from .alg import Expr
from .values import *
from .values import lift as vlift

ZERO, ONE = alg.const(0), alg.const(1)
CUR = [None]            # interpreter whose assumptions restrict gated operands


def glift(f, *xs):
    it = CUR[0]
    return vlift(f, *xs, assume=it.assume if it is not None else None)


def num(x):
    if isinstance(x, Expr):
        return x
    if isinstance(x, bool):
        return alg.const(int(x))
    if isinstance(x, (int, Fraction)):
        return alg.const(x)
    raise Undecided(f"number expected, got {type(x).__name__} {str(x)[:80]}")


def isz(x):
    return isinstance(x, Expr) and not x.t


# ---- eps arithmetic (None = zero derivative)
def e_map(e, f):
    if e is None:
        return None
    if isinstance(e, tuple):
        return tuple(f(x) for x in e)
    return f(e)


def e_add(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if isinstance(a, tuple):
        if len(a) != len(b):
            raise Undecided("dual length")
        return tuple(add(x, y) for x, y in zip(a, b))
    return add(a, b)


def e_scale(e, k):
    return e_map(e, lambda x: mul(x, k))


def e_neg(e):
    return e_map(e, neg)


def dual(x, like=None):
    if isinstance(x, Dual):
        return x
    return Dual(num(x), None if like is None or like.vec else ZERO, True if like is None else like.vec)


def two(f):
    def g(x, y):
        if type(x) is Expr and type(y) is Expr:
            return f(x, y)
        return glift(lambda a, b: bind(f, a, b), x, y)
    return g


def bind(f, a, b):
    if isinstance(a, Dual) or isinstance(b, Dual):
        return DUALOPS[f.__name__](dual(a, b if isinstance(b, Dual) else None), dual(b, a if isinstance(a, Dual) else None))
    if isinstance(a, Special) or isinstance(b, Special):
        return special(f.__name__, a, b)
    return f(num(a), num(b))


def sgn(x):
    """sign of a number that meets an infinity: '+', '-' or '0'"""
    if isinstance(x, Special):
        return {"inf": "+", "-inf": "-"}[x.k]
    e = num(x)
    if not e.t:
        return "0"
    s = alg.sign(e)
    if s in ("+", "-"):
        return s
    raise Undecided("infinity meets a number of unknown sign")


def special(op, a, b):
    """IEEE arithmetic where an operand is an infinity or not a number (symbols stand for finite numbers)"""
    if a == NAN or b == NAN:
        return NAN
    A, B = isinstance(a, Special), isinstance(b, Special)
    if op == "_sub":
        op, b = "_add", (NINF if b == INF else INF) if B else b
    if op == "_add":
        return NAN if A and B and a != b else (a if A else b)
    if op == "_div" and B:
        return NAN if A else ZERO
    x, y = sgn(a), sgn(b)
    if "0" in (x, y):
        if op == "_div":
            raise Undecided("infinity divided by zero")
        return NAN
    return INF if x == y else NINF


def _add(x, y):
    return x + y


def _sub(x, y):
    return x - y


def _mul(x, y):
    return x * y


def _div(x, y):
    return alg.div(x, y)


add, sub, mul, div = two(_add), two(_sub), two(_mul), two(_div)


def _operators():
    """specifications compute with results as with terms, also where these are gated or no number"""
    def e(x):
        return alg.const(x) if isinstance(x, (int, Fraction)) and not isinstance(x, bool) else x
    for c in (Ite, Special):
        for n, f in (("add", add), ("sub", sub), ("mul", mul), ("truediv", div)):
            setattr(c, f"__{n}__", lambda a, b, f=f: f(e(a), e(b)))
            setattr(c, f"__r{n}__", lambda a, b, f=f: f(e(b), e(a)))
        c.__neg__ = lambda a: neg(a)


def d_add(a, b):
    return Dual(add(a.re, b.re), e_add(a.eps, b.eps), a.vec)


def d_sub(a, b):
    return Dual(sub(a.re, b.re), e_add(a.eps, e_neg(b.eps)), a.vec)


def d_mul(a, b):
    return Dual(mul(a.re, b.re), e_add(e_scale(a.eps, b.re), e_scale(b.eps, a.re)), a.vec)


def d_div(a, b):
    q = div(a.re, b.re)
    i = div(ONE, b.re)
    return Dual(q, e_scale(e_add(a.eps, e_neg(e_scale(b.eps, q))), i), a.vec)


DUALOPS = {"_add": d_add, "_sub": d_sub, "_mul": d_mul, "_div": d_div}


def neg(x):
    if type(x) is Expr:
        return -x
    return glift(_neg1, x)


_operators()


def _neg1(x):
    if isinstance(x, Dual):
        return Dual(neg(x.re), e_neg(x.eps), x.vec)
    if isinstance(x, int) and not isinstance(x, bool):
        return -x
    if isinstance(x, Mat):
        return Mat(x.nr, x.nc, [neg(v) for v in x.xs])
    if isinstance(x, Special):
        return NAN if x == NAN else (NINF if x == INF else INF)
    return -num(x)


def chain(f, df):
    """unary function with its derivative"""
    def g(x):
        return glift(one, x)

    def one(x):
        if isinstance(x, Dual):
            if x.eps is None:
                return Dual(g(x.re), None, x.vec)
            return Dual(g(x.re), e_scale(x.eps, glift(lambda r: df(num(r)), x.re)), x.vec)
        if isinstance(x, Special):
            if x == NAN:
                return NAN
            r = ATINF.get((f, x.k))
            if r is None:
                raise Undecided("function of an infinity")
            return r
        return f(num(x))
    return g


ATINF = {(alg.sqrt, "inf"): INF, (alg.sqrt, "-inf"): NAN, (alg.exp, "inf"): INF, (alg.exp, "-inf"): ZERO, (alg.ln, "inf"): INF, (alg.ln, "-inf"): NAN,
         (alg.sin, "inf"): NAN, (alg.sin, "-inf"): NAN, (alg.cos, "inf"): NAN, (alg.cos, "-inf"): NAN}


def _abs(e):
    r = alg.abs_(e)
    return r


sin = chain(alg.sin, alg.cos)
cos = chain(alg.cos, lambda e: -alg.sin(e))
tan = chain(lambda e: alg.div(alg.sin(e), alg.cos(e)), lambda e: alg.div(ONE, alg.cos(e) * alg.cos(e)))
sqrt = chain(alg.sqrt, lambda e: alg.div(alg.const(Fraction(1, 2)), alg.sqrt(e)))
exp = chain(alg.exp, alg.exp)
ln = chain(alg.ln, lambda e: alg.div(ONE, e))
ln_1p = chain(lambda e: alg.ln(e + ONE), lambda e: alg.div(ONE, e + ONE))
exp_m1 = chain(lambda e: alg.exp(e) - ONE, alg.exp)
recip = chain(lambda e: alg.div(ONE, e), lambda e: -alg.div(ONE, e * e))
atan = chain(lambda e: alg.atan2(e, ONE), lambda e: alg.div(ONE, e * e + ONE))
asin = chain(lambda e: alg.atan2(e, alg.sqrt(ONE - e * e)), lambda e: alg.div(ONE, alg.sqrt(ONE - e * e)))
acos = chain(lambda e: alg.atan2(alg.sqrt(ONE - e * e), e), lambda e: -alg.div(ONE, alg.sqrt(ONE - e * e)))


sinh = chain(lambda e: (alg.exp(e) - alg.exp(-e)) * alg.const(Fraction(1, 2)), lambda e: (alg.exp(e) + alg.exp(-e)) * alg.const(Fraction(1, 2)))
cosh = chain(lambda e: (alg.exp(e) + alg.exp(-e)) * alg.const(Fraction(1, 2)), lambda e: (alg.exp(e) - alg.exp(-e)) * alg.const(Fraction(1, 2)))
floor = chain(alg.floor, lambda e: ZERO)


def tanh(x):
    return div(sinh(x), cosh(x))


def ceil(x):
    return neg(floor(neg(x)))


def trunc(x):
    return glift(lambda c: ceil(x) if c else floor(x), lt(x, ZERO))


def round_(x):
    h = alg.const(Fraction(1, 2))
    return glift(lambda c: ceil(sub(x, h)) if c else floor(add(x, h)), lt(x, ZERO))


def fract(x):
    return sub(x, trunc(x))


def rem(x, y):
    return sub(x, mul(y, trunc(div(x, y))))


def rem_euclid(x, y):
    y = abs_(y)
    return sub(x, mul(y, floor(div(x, y))))


def cbrt(x):
    return mul(signum(x), exp(div(ln(abs_(x)), alg.const(3))))


def abs_(x):
    def one(v):
        if isinstance(v, Dual):
            if v.eps is None:
                return Dual(abs_(v.re), None, v.vec)
            return glift(lambda r: _abs_dual(v, num(r)), v.re)
        if isinstance(v, int) and not isinstance(v, bool):
            return abs(v)
        if isinstance(v, Special):
            return NAN if v == NAN else INF
        return _abs(num(v))
    return glift(one, x)


def _abs_dual(v, r):
    s = cond_pos(r)
    return glift(lambda c: Dual(_abs(r), v.eps if c else e_neg(v.eps), v.vec), s)


def signum(x):
    def one(v):
        if isinstance(v, Special):
            return {"nan": NAN, "inf": ONE, "-inf": -ONE}[v.k]
        e = num(v.re if isinstance(v, Dual) else v)
        s = alg.sign(e)
        if s == "+":
            r = ONE
        elif s == "-":
            r = -ONE
        else:
            r = glift(lambda c: ONE if c else -ONE, notv(cond_pos(-e)))
        return Dual(r, None if v.vec else ZERO, v.vec) if isinstance(v, Dual) else r
    return glift(one, x)


def powi(x, n):
    def one(v, k):
        if isinstance(k, Expr) and k.is_const() and k.cval().denominator == 1:
            k = int(k.cval())
        if not isinstance(k, int):
            raise Undecided("symbolic exponent")
        if k < 0:
            return recip(one(v, -k))
        r = dual(ONE, v) if isinstance(v, Dual) else ONE
        for _ in range(k):
            r = mul(r, v)
        return r
    return glift(one, x, n)


def powf(x, y):
    def one(v, k):
        e = num(k.re if isinstance(k, Dual) else k)
        if e.is_const():
            c = e.cval()
            if c.denominator == 1:
                return powi(v, int(c))
            if c.denominator == 2:
                s = sqrt(v)
                return powi(s, int(c.numerator))
        return exp(mul(k, ln(v)))
    return glift(one, x, y)


def atan2(y, x):
    def one(a, b):
        if isinstance(a, Dual) or isinstance(b, Dual):
            a, b = dual(a, b if isinstance(b, Dual) else None), dual(b, a if isinstance(a, Dual) else None)
            n2 = add(mul(a.re, a.re), mul(b.re, b.re))
            i = div(ONE, n2)
            e = e_scale(e_add(e_scale(a.eps, b.re), e_neg(e_scale(b.eps, a.re))), i)
            return Dual(atan2(a.re, b.re), e, a.vec)
        return alg.atan2(num(a), num(b))
    return glift(one, y, x)


def re_of(x):
    return x.re if isinstance(x, Dual) else x


def lt(a, b):
    def one(x, y):
        x, y = re_of(x), re_of(y)
        if isinstance(x, int) and isinstance(y, int):
            return x < y
        if isinstance(x, Ite) or isinstance(y, Ite):
            return lt(x, y)
        if isinstance(x, Bits) or isinstance(y, Bits):
            return bitlt(x, y)
        if isinstance(x, Special) or isinstance(y, Special):
            return x != y and NAN not in (x, y) and (x == NINF or y == INF)
        return cond_pos(num(y) - num(x))
    return flat(glift(one, a, b))


def le(a, b):
    """a <= b; false when either is not a number"""
    def one(x, y):
        if NAN in (re_of(x), re_of(y)):
            return False
        return notv(lt(y, x))
    if type(a) is Expr and type(b) is Expr:
        return notv(lt(b, a))
    return glift(one, a, b)


def flat(v):
    """a gated value whose leaves may be gated again (lift already flattens ordered gates)"""
    return v


def eq(a, b):
    def one(x, y):
        x, y = re_of(x), re_of(y)
        if isinstance(x, Ite) or isinstance(y, Ite):
            return eq(x, y)
        return eqv(x, y)
    return glift(one, a, b)


def bits_of(x, n):
    if isinstance(x, Bits):
        return list(x.bs)
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, Expr) and x.is_const():
        x = int(x.cval())
    if isinstance(x, int):
        return [(x >> i) & 1 for i in range(n)]
    raise Undecided(f"bits of {type(x).__name__}")


def eqv(x, y):
    if isinstance(x, bool) or isinstance(y, bool):
        if isinstance(x, bool) and isinstance(y, bool):
            return x == y
        return bool(x) == bool(y)
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    if isinstance(x, Bits) or isinstance(y, Bits):
        n = len(x.bs) if isinstance(x, Bits) else len(y.bs)
        a, b = bits_of(x, n), bits_of(y, n)
        n = max(len(a), len(b))
        a += [0] * (n - len(a))
        b += [0] * (n - len(b))
        if a == b:
            return True
        for p, q in zip(a, b):
            if p in (0, 1) and q in (0, 1) and p != q:
                return False
        return Ite(catom("biteq", (tuple(a), tuple(b))), True, False)
    if isinstance(x, Special) or isinstance(y, Special):
        return x == y and x != NAN
    if isinstance(x, (Expr, int)) and isinstance(y, (Expr, int)):
        return cond_zero(num(x) - num(y))
    if isinstance(x, Str) and isinstance(y, Str):
        return x.s == y.s
    if isinstance(x, Agg) and isinstance(y, Agg):
        if x.vi != y.vi:
            return False
        r = True
        for p, q in zip(x.fs, y.fs):
            r = glift(lambda u, v: u and v, r, eq(p, q))
        return r
    if isinstance(x, Seq) and isinstance(y, Seq) or isinstance(x, Mat) and isinstance(y, Mat):
        if len(x.xs) != len(y.xs):
            return False
        r = True
        for p, q in zip(x.xs, y.xs):
            r = glift(lambda u, v: u and v, r, eq(p, q))
        return r
    if x == y:
        return True
    if isinstance(x, Term) or isinstance(y, Term):
        k = tuple(sorted([repr(x), repr(y)]))
        return Ite(catom("eq", k), True, False)
    if isinstance(x, Ref) and isinstance(y, Ref):
        return x.cell == y.cell and x.path == y.path
    raise Undecided(f"equality of {type(x).__name__} and {type(y).__name__}")


def fmin(a, b):
    return glift(lambda c, x, y: y if c or x == NAN else x, lt(b, a), a, b)


def fmax(a, b):
    return glift(lambda c, x, y: y if c or x == NAN else x, lt(a, b), a, b)


# ---------------------------------------------------------------- machine operations
def wrap(v, t):
    b = t.get("b")
    k = t.get("k")
    if not isinstance(v, int) or b is None or isinstance(v, bool):
        return v
    if k == "uint":
        return v % (1 << b)
    if k == "int":
        v %= 1 << b
        return v - (1 << b) if v >> (b - 1) else v
    return v


def binop(it, op, a, b, t):
    """t: type of the left operand"""
    op = op.replace("Unchecked", "").replace("WithOverflow", "")
    if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne", "Cmp"):
        if op == "Lt":
            return lt(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Le":
            return le(a, b)
        if op == "Ge":
            return le(b, a)
        if op == "Eq":
            return eq(a, b)
        if op == "Ne":
            return notv(eq(a, b))
        return cmp3(a, b)
    if isinstance(a, bool) and isinstance(b, bool):
        return {"BitAnd": a and b, "BitOr": a or b, "BitXor": a != b}[op]
    if isinstance(a, Bits) or isinstance(b, Bits):
        return bitop(op, a, b, t)
    if t["k"] == "float":
        f = {"Add": add, "Sub": sub, "Mul": mul, "Div": div, "Rem": rem}.get(op)
        if f:
            return f(a, b)
        raise Undecided(f"float {op}")
    if isinstance(a, Expr) and a.is_const():
        a = int(a.cval())
    if isinstance(b, Expr) and b.is_const():
        b = int(b.cval())
    if isinstance(a, int) and isinstance(b, int):
        a, b = int(a), int(b)
        if op == "Add":
            return wrap(a + b, t)
        if op == "Sub":
            return wrap(a - b, t)
        if op == "Mul":
            return wrap(a * b, t)
        if op in ("Div", "Rem"):
            if b == 0:
                raise Bottom()
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            return wrap(q, t) if op == "Div" else wrap(a - q * b, t)
        if op == "BitAnd":
            return a & b
        if op == "BitOr":
            return a | b
        if op == "BitXor":
            return a ^ b
        if op == "Shl":
            return wrap(a << (b % (t.get("b") or 64)), t)
        if op == "Shr":
            return wrap(a >> (b % (t.get("b") or 64)), t)
        raise Undecided(f"int {op}")
    if isinstance(a, (Expr, int)) and isinstance(b, (Expr, int)):
        if op in ("Add", "Sub", "Mul"):
            return {"Add": _add, "Sub": _sub, "Mul": _mul}[op](num(a), num(b))
    raise Undecided(f"{op} of {type(a).__name__} and {type(b).__name__}")


# a bit is 0, 1, a name (str, i) or ("anf", monomials): a polynomial over GF(2), each monomial a set of names
def _anf(b):
    if b == 0:
        return frozenset()
    if b == 1:
        return frozenset([frozenset()])
    return b[1] if b[0] == "anf" else frozenset([frozenset([b])])


def _bit(ms):
    if not ms:
        return 0
    if len(ms) == 1:
        m, = ms
        if not m:
            return 1
        if len(m) == 1:
            return next(iter(m))
    if len(ms) > 80:
        raise Undecided("mixed bits")
    return ("anf", ms)


def bit_xor(p, q):
    if p == 0:
        return q
    if q == 0:
        return p
    return _bit(_anf(p) ^ _anf(q))


def bit_and(p, q):
    if p == 0 or q == 0:
        return 0
    if p == 1 or p == q:
        return q
    if q == 1:
        return p
    out = set()
    for u in _anf(p):
        for v in _anf(q):
            out ^= {u | v}
    return _bit(frozenset(out))


def bit_or(p, q):
    return bit_xor(bit_xor(p, q), bit_and(p, q))


def bit_val(b, env):
    """value of a bit when the names have the values env[name] (integers)"""
    if b in (0, 1):
        return b
    if b[0] != "anf":
        return env[b[0]] >> b[1] & 1
    return sum(all(env[n] >> i & 1 for n, i in m) for m in b[1]) & 1


def bitlt(x, y):
    """unsigned order of bit vectors: decided by the known bits, otherwise a gate"""
    n = max(len(v.bs) if isinstance(v, Bits) else max(int(v).bit_length(), 1) for v in (x, y))
    a, b = bits_of(x, n), bits_of(y, n)
    a, b = a + [0] * (n - len(a)), b + [0] * (n - len(b))
    lo = [sum(1 << i for i, v in enumerate(w) if v == 1) for w in (a, b)]
    hi = [sum(1 << i for i, v in enumerate(w) if v != 0) for w in (a, b)]
    if a == b or lo[0] >= hi[1]:
        return False
    if hi[0] < lo[1]:
        return True
    return Ite(catom("bitlt", (tuple(a), tuple(b))), True, False)


def bitop(op, a, b, t):
    n = t.get("b") or 64
    if op in ("Shl", "Shr"):
        if isinstance(b, Expr) and b.is_const():
            b = int(b.cval())
        if not isinstance(b, int):
            raise Undecided("symbolic shift")
        b %= n
        x = bits_of(a, n)
        x += [0] * (n - len(x))
        if op == "Shl":
            return Bits(([0] * b + x)[:n])
        return Bits(x[b:] + [0] * b)
    x, y = bits_of(a, n), bits_of(b, n)
    x += [0] * (n - len(x))
    y += [0] * (n - len(y))
    if op in ("BitAnd", "BitOr", "BitXor"):
        return Bits([{"BitAnd": bit_and, "BitOr": bit_or, "BitXor": bit_xor}[op](p, q) for p, q in zip(x, y)])
    if op in ("Add", "Sub"):
        c, out = int(op == "Sub"), []
        for p, q in zip(x, y):
            q = bit_xor(q, int(op == "Sub"))
            u = bit_xor(p, q)
            out.append(bit_xor(u, c))
            c = bit_xor(bit_and(p, q), bit_and(u, c))
        return Bits(out)
    if op == "Mul":
        for u, v in ((a, b), (b, a)):
            if isinstance(v, int) and v > 0 and v & (v - 1) == 0:
                return bitop("Shl", u, v.bit_length() - 1, t)
    if op in ("Div", "Rem") and isinstance(b, int) and b > 0 and b & (b - 1) == 0:
        k = b.bit_length() - 1
        return bitop("Shr", a, k, t) if op == "Div" else bitop("BitAnd", a, b - 1, t)
    raise Undecided(f"bit {op}")


def cmp3(a, b):
    """Ordering as an aggregate: variants Less/Equal/Greater = 0/1/2 with discriminants -1/0/1"""
    def one(x, y):
        l = lt(x, y)
        e = eq(x, y)
        return glift(lambda p, q: Agg(None, 0 if p else (1 if q else 2), ()), l, e)
    return glift(one, a, b)


def s_neg(x):
    return neg(x)


def s_not(x, t):
    if isinstance(x, bool):
        return not x
    if isinstance(x, int):
        return wrap(~x, t)
    if isinstance(x, Bits):
        return Bits([bit_xor(b, 1) for b in x.bs])
    raise Undecided("bitwise not")
