"""Algebraic normal forms: Laurent polynomials with rational coefficients over hash-consed atoms.

An atom is a variable or an uninterpreted/elementary function applied to normal forms.  Two program values are
"the same" when their normal forms coincide (after clearing inverse atoms).  Arithmetic is over the reals: float
constants are read as the shortest decimal that denotes them.
"""
from fractions import Fraction
import math
import itertools

_atoms = {}
_atom_list = []


class Atom:
    __slots__ = ("id", "kind", "name", "args", "sign", "rng", "isint", "sample", "unit2", "meta")

    def __init__(self, kind, name, args):
        self.kind, self.name, self.args = kind, name, args
        self.sign = None      # '+', '-', '0+' or None
        self.rng = None       # (lo, hi) for sampling
        self.isint = False
        self.sample = None    # function(rng_env) for dependent variables
        self.unit2 = None     # rewrite of the square: Expr
        self.meta = None

    def __repr__(self):
        if self.kind == "v":
            return self.name
        return "%s(%s)" % (self.name, ",".join(map(str, self.args)))

    def __lt__(self, o):
        return self.id < o.id


def mkatom(kind, name, args=()):
    k = (kind, name, args)
    a = _atoms.get(k)
    if a is None:
        a = Atom(kind, name, args)
        a.id = len(_atom_list)
        _atoms[k] = a
        _atom_list.append(a)
    return a


def atom_by_id(i):
    return _atom_list[i]


class TooBig(Exception):
    pass


LIMIT = 60000


class Expr:
    """sum of coef * prod atom^e   (e may be negative); terms: dict mono->Fraction, mono = sorted tuple of (atom id, exp)"""
    __slots__ = ("t", "_h", "_s")

    def __init__(self, terms):
        self.t = terms
        self._h = None
        self._s = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        if isinstance(o, (int, Fraction)):
            o = const(o)
        return isinstance(o, Expr) and self.t == o.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), Fraction(0))

    def __add__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if not o.t:
            return self
        if not self.t:
            return o
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Expr(r)

    __radd__ = __add__

    def __neg__(self):
        return Expr({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else o - self

    def __mul__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if not self.t or not o.t:
            return ZERO
        if o.is_const():
            c = o.cval()
            return self if c == 1 else Expr({m: k * c for m, k in self.t.items()})
        if self.is_const():
            return o * self
        if len(self.t) * len(o.t) > LIMIT * 4:
            raise TooBig()
        r = {}
        redo = []
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, special = mono_mul(m1, m2)
                c = c1 * c2
                if special:
                    redo.append((m, c))
                else:
                    v = r.get(m, 0) + c
                    if v:
                        r[m] = v
                    else:
                        r.pop(m, None)
        res = Expr(r)
        if redo:
            acc = {}
            for m, c in redo:
                acc[m] = acc.get(m, 0) + c
            extra = ZERO
            for m, c in acc.items():
                if c:
                    extra = extra + reduce_mono(m) * c
            res = res + extra
        if len(res.t) > LIMIT:
            raise TooBig()
        return res

    __rmul__ = __mul__

    def __pow__(self, n):
        assert isinstance(n, int)
        if n < 0:
            return inv(self) ** (-n)
        r, b = ONE, self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def __truediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else div(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        return NotImplemented if o is None else div(o, self)

    def __repr__(self):
        return show(self)

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s


def lift(x):
    if isinstance(x, Expr):
        return x
    if isinstance(x, bool):
        return None
    if isinstance(x, (int, Fraction)):
        return const(x)
    return None


def const(c):
    return Expr({(): Fraction(c)}) if c else ZERO


ZERO = Expr({})
ONE = Expr({(): Fraction(1)})


def atom_expr(a):
    return Expr({((a.id, 1),): Fraction(1)})


def var(name, sign=None, rng=None, isint=False):
    a = mkatom("v", name)
    if sign is not None:
        a.sign = sign
    if rng is not None:
        a.rng = rng
        if a.sign is None:
            if rng[0] >= 0:
                a.sign = "+"
            elif rng[1] <= 0:
                a.sign = "-"
    if isint:
        a.isint = True
    return atom_expr(a)


def fn(name, *args):
    return atom_expr(mkatom("f", name, tuple(args)))


def single_atom(e):
    """e is exactly 1*atom -> atom"""
    if len(e.t) == 1:
        (m, c), = e.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return _atom_list[m[0][0]]
    return None


def show(e):
    if e._s is None:
        if not e.t:
            e._s = "0"
        else:
            out = []
            for m, c in sorted(e.t.items()):
                fs = []
                for a, k in m:
                    s = repr(_atom_list[a])
                    fs.append(s if k == 1 else "%s^%d" % (s, k))
                ms = "*".join(fs)
                if not ms:
                    out.append(str(c))
                elif c == 1:
                    out.append(ms)
                elif c == -1:
                    out.append("-" + ms)
                else:
                    out.append("%s*%s" % (c, ms))
            s = " + ".join(out)
            e._s = "(" + s + ")" if len(out) > 1 else s
    return e._s


def mono_mul(a, b):
    """merge two monomials; second result tells whether a reducible power appeared"""
    i = j = 0
    out = []
    special = False
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
                at = _atom_list[x[0]]
                if at.kind == "f":
                    nm = at.name
                    if (nm == "sqrt" and (e >= 2 or e <= -1)) or (nm == "sin" and e >= 2) or (nm == "abs" and (e >= 2 or e <= -2)):
                        special = True
                elif at.unit2 is not None and e >= 2:
                    special = True
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    m = tuple(out)
    if not special:
        # inverse pairs P * inv(P) are handled by division, not here
        pass
    return m, special


def reduce_mono(m):
    """rewrite sqrt(P)^2 -> P, sin^2 -> 1 - cos^2, u^2 -> unit2"""
    r = ONE
    base = []
    for a, e in m:
        at = _atom_list[a]
        if at.kind == "f" and at.name == "sqrt" and (e >= 2 or e <= -1):
            q, rem = divmod(e, 2)
            if q:
                P = at.args[0]
                r = r * (P ** q if q > 0 else inv(P) ** (-q))
            if rem:
                base.append((a, 1))
        elif at.kind == "f" and at.name == "abs" and (e >= 2 or e <= -2):
            q, rem = divmod(e, 2)
            P = at.args[0] * at.args[0]
            r = r * (P ** q if q > 0 else inv(P) ** (-q))
            if rem:
                base.append((a, 1))
        elif at.kind == "f" and at.name == "sin" and e >= 2:
            q, rem = divmod(e, 2)
            c = cos(at.args[0])
            r = r * ((ONE - c * c) ** q)
            if rem:
                base.append((a, 1))
        elif at.kind == "v" and at.unit2 is not None and e >= 2:
            q, rem = divmod(e, 2)
            r = r * (at.unit2 ** q)
            if rem:
                base.append((a, 1))
        else:
            base.append((a, e))
    return r * Expr({tuple(base): Fraction(1)}) if base else r


def content(e):
    """(rational content with sign, monomial gcd) such that e = c * mono * primitive"""
    if not e.t:
        return Fraction(0), ()
    it = iter(e.t)
    g = dict(next(it))
    for m in it:
        d = dict(m)
        for a in list(g):
            k = d.get(a, 0)
            if a in d and (g[a] > 0) == (k > 0):
                g[a] = min(g[a], k) if k > 0 else max(g[a], k)
            else:
                # Laurent: the minimum exponent (treat absent as 0)
                if g[a] < 0 or k < 0:
                    g[a] = min(g[a], k)
                    if g[a] >= 0:
                        del g[a]
                else:
                    del g[a]
        for a, k in d.items():
            if k < 0 and a not in g:
                g[a] = k
    # an atom with negative exponent somewhere must be in g with the minimum
    mins = {}
    for m in e.t:
        for a, k in m:
            if k < 0:
                mins[a] = min(mins.get(a, 0), k)
    for a, k in mins.items():
        g[a] = k
    mono = tuple(sorted((a, k) for a, k in g.items() if k))
    nums = [abs(c.numerator) for c in e.t.values()]
    dens = [c.denominator for c in e.t.values()]
    gn = 0
    for n in nums:
        gn = math.gcd(gn, n)
    ld = 1
    for d in dens:
        ld = ld * d // math.gcd(ld, d)
    c = Fraction(gn, ld)
    lead = max(e.t)
    if e.t[lead] < 0:
        c = -c
    return c, mono


def mono_inv(m):
    return tuple((a, -k) for a, k in m)


def primitive(e):
    c, m = content(e)
    mi = mono_inv(m)
    r = {}
    for k, v in e.t.items():
        mm, sp = mono_mul(k, mi)
        r[mm] = v / c
    return c, m, Expr(r)


def inv(e):
    return div(ONE, e)


def div(a, b):
    if b.is_const():
        c = b.cval()
        if c == 0:
            return a * fn("div0")
        return a * const(1 / c)
    if a == b:
        return ONE
    if len(b.t) == 1:
        (m, c), = b.t.items()
        return a * mono_recip(m) * const(1 / c)
    c, m, p = primitive(b)
    r = a * mono_recip(m) * const(1 / c) if (m or c != 1) else a
    # exact division
    q = exact_div(r, p)
    if q is not None:
        return q
    ia = mkatom("f", "inv", (p,))
    res = r * atom_expr(ia)
    return cancel(res)


def mono_recip(m):
    """1 / monomial, with inv atoms flipped and sqrt rationalised"""
    r = ONE
    for a, e in m:
        at = _atom_list[a]
        if at.kind == "f" and at.name == "inv":
            r = r * (at.args[0] ** e if e > 0 else Expr({((a, -e),): Fraction(1)}))
        elif at.kind == "f" and at.name == "sqrt":
            # 1/sqrt(P) = sqrt(P)/P
            P = at.args[0]
            for _ in range(abs(e)):
                if e > 0:
                    r = div(r * atom_expr(at), P)
                else:
                    r = r * atom_expr(at)
        else:
            r = r * Expr({((a, -e),): Fraction(1)})
    return r


def poly_ok(e):
    return all(k > 0 for m in e.t for _, k in m)


def exact_div(a, p, maxsteps=4000):
    """a / p when it divides exactly (p has >= 2 terms); a may be Laurent. None otherwise."""
    if not a.t:
        return ZERO
    # make a polynomial
    mins = {}
    for m in a.t:
        for x, k in m:
            if k < 0:
                mins[x] = min(mins.get(x, 0), k)
    shift = tuple(sorted((x, -k) for x, k in mins.items()))
    num = {mono_mul(m, shift)[0]: c for m, c in a.t.items()} if shift else dict(a.t)
    if any(_atom_list[x].unit2 is not None or (_atom_list[x].kind == "f" and _atom_list[x].name in ("sqrt", "sin"))
           for m in p.t for x, _ in m):
        # rings with relations: plain polynomial division may miss or is still sound if it succeeds exactly
        pass
    order = sorted({x for m in list(num) + list(p.t) for x, _ in m})
    idx = {x: i for i, x in enumerate(order)}

    def vec(m):
        v = [0] * len(order)
        for x, k in m:
            v[idx[x]] = k
        return tuple(v)

    pv = {vec(m): c for m, c in p.t.items()}
    if any(k < 0 for v in pv for k in v):
        return None
    nv = {vec(m): c for m, c in num.items()}
    lm = max(pv)
    lc = pv[lm]
    q = {}
    steps = 0
    while nv:
        steps += 1
        if steps > maxsteps:
            return None
        m = max(nv)
        d = tuple(x - y for x, y in zip(m, lm))
        if min(d) < 0 if d else False:
            return None
        c = nv[m] / lc
        q[d] = q.get(d, 0) + c
        for mm, cc in pv.items():
            k = tuple(x + y for x, y in zip(mm, d))
            v = nv.get(k, 0) - cc * c
            if v:
                nv[k] = v
            else:
                nv.pop(k, None)
    ish = mono_inv(shift)
    out = {}
    for v, c in q.items():
        m = tuple((order[i], k) for i, k in enumerate(v) if k)
        m, _ = mono_mul(m, ish)
        out[m] = c
    return Expr(out)


def cancel(e):
    """try to cancel inv(P) atoms against the numerator"""
    changed = True
    while changed:
        changed = False
        invs = {}
        for m in e.t:
            for a, k in m:
                at = _atom_list[a]
                if at.kind == "f" and at.name == "inv":
                    invs[a] = max(invs.get(a, 0), k)
        for a, kmax in invs.items():
            P = _atom_list[a].args[0]
            # group by exponent of a; the top group must be divisible by P
            top = {}
            rest = {}
            for m, c in e.t.items():
                k = dict(m).get(a, 0)
                if k == kmax:
                    top[tuple((x, y) for x, y in m if x != a)] = c
                else:
                    rest[m] = c
            q = exact_div(Expr(top), P)
            if q is not None:
                r = Expr(rest) + (q * Expr({((a, kmax - 1),): Fraction(1)}) if kmax > 1 else q)
                e = r
                changed = True
                break
    return e


def clear(e):
    """numerator polynomial after multiplying out all inv atoms and negative exponents (zero iff e is zero)"""
    for _ in range(40):
        invs = {}
        for m in e.t:
            for a, k in m:
                at = _atom_list[a]
                if at.kind == "f" and at.name == "inv":
                    invs[a] = max(invs.get(a, 0), k)
        if not invs:
            break
        a = max(invs)
        kmax = invs[a]
        P = _atom_list[a].args[0]
        groups = {}
        for m, c in e.t.items():
            k = dict(m).get(a, 0)
            groups.setdefault(k, {})[tuple((x, y) for x, y in m if x != a)] = c
        r = ZERO
        for k, g in groups.items():
            r = r + Expr(g) * (P ** (kmax - k))
        e = r
    return renorm(e)


def renorm(e):
    """re-apply power reductions to every monomial"""
    out = ZERO
    plain = {}
    for m, c in e.t.items():
        need = False
        for a, k in m:
            at = _atom_list[a]
            if at.kind == "f" and ((at.name == "sqrt" and (k >= 2 or k <= -1)) or (at.name == "sin" and k >= 2) or (at.name == "abs" and abs(k) >= 2)):
                need = True
            elif at.kind == "v" and at.unit2 is not None and k >= 2:
                need = True
        if need:
            out = out + reduce_mono(m) * c
        else:
            plain[m] = c
    return Expr(plain) + out if plain else out


def is_zero(e):
    if not e.t:
        return True
    try:
        c = clear(renorm(e))
        for _ in range(3):
            if not c.t:
                return True
            c2 = clear(c)
            if c2 == c:
                break
            c = c2
        return not c.t
    except TooBig:
        return False


# ---------------------------------------------------------------- signs

def sign(e):
    """'+', '-', '0', '0+' (nonneg), '0-' or None"""
    if e.is_const():
        c = e.cval()
        return "0" if c == 0 else ("+" if c > 0 else "-")
    sg = None
    for m, c in e.t.items():
        s = mono_sign(m)
        if s is None:
            return square_sign(e)
        if c < 0:
            s = {"+": "-", "-": "+", "0+": "0-", "0-": "0+"}[s]
        if sg is None:
            sg = s
        elif sg[-1] == s[-1]:
            sg = s if len(s) < len(sg) else sg
        else:
            return square_sign(e)
    return sg


def square_sign(e):
    # 1 - cos(x) style: nonneg
    if len(e.t) == 2 and () in e.t:
        c0 = e.t[()]
        (m, c), = [(m, c) for m, c in e.t.items() if m != ()]
        if len(m) == 1:
            at = _atom_list[m[0][0]]
            if at.kind == "f" and at.name in ("sin", "cos") and m[0][1] in (1, 2) and c0 > 0 and abs(c) <= c0:
                return "0+" if abs(c) == c0 else "+"
            # range information of a variable
            if m[0][1] == 1 and at.rng is not None:
                lo, hi = at.rng
                v = sorted([float(c0 + c * Fraction(lo)), float(c0 + c * Fraction(hi))]) if abs(lo) < 1e300 and abs(hi) < 1e300 else None
                if v:
                    if v[0] >= 0:
                        return "+"
                    if v[1] <= 0:
                        return "-"
    return None


def atom_sign(at):
    if at.sign:
        return at.sign
    if at.kind == "f":
        n = at.name
        if n in ("exp",):
            return "+"
        if n in ("sqrt", "abs"):
            s = sign(at.args[0])
            return "+" if s in ("+",) or (n == "abs" and s == "-") else "0+"
        if n == "inv":
            s = sign(at.args[0])
            return s if s in ("+", "-") else ("+" if s == "0+" else "-" if s == "0-" else None)
        if n in ("sin", "cos"):
            r = arange(at.args[0])
            if r:
                lo, hi = r
                if n == "cos":
                    lo, hi = lo + math.pi / 2, hi + math.pi / 2
                k = math.floor(lo / math.pi + 1e-12)
                if hi <= (k + 1) * math.pi + 1e-9:
                    return "+" if k % 2 == 0 else "-"
    return None


def arange(e):
    """interval of a linear expression in ranged variables"""
    lo = hi = 0.0
    for m, c in e.t.items():
        if m == ():
            lo += float(c)
            hi += float(c)
        elif len(m) == 1 and m[0][1] == 1 and _atom_list[m[0][0]].rng:
            a, b = _atom_list[m[0][0]].rng
            x, y = sorted((float(c) * a, float(c) * b))
            lo += x
            hi += y
        else:
            return None
    return lo, hi


def mono_sign(m):
    neg = False
    zero = False
    for a, k in m:
        s = atom_sign(_atom_list[a])
        if k % 2 == 0:
            if s not in ("+", "-"):
                zero = True
            continue
        if s is None:
            return None
        if s[0] == "0" and len(s) > 1:
            zero = True
        if s == "0":
            zero = True
            continue
        if s[-1] == "-":
            neg = not neg
    return ("0" if zero else "") + ("-" if neg else "+")


# ---------------------------------------------------------------- functions

def canon_arg(e):
    return cancel(renorm(e)) if any(_atom_list[a].kind == "f" and _atom_list[a].name == "inv" for a in e.atoms()) else renorm(e)


def _isqrt_frac(c):
    if c < 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


def sqrt(e):
    e = canon_arg(e)
    if not e.t:
        return ZERO
    if e.is_const():
        r = _isqrt_frac(e.cval())
        if r is not None:
            return const(r)
    c, m, p = primitive(e)
    out = ONE
    inner_m = []
    for a, k in m:
        q, rem = divmod(k, 2)
        at = _atom_list[a]
        if q:
            x = atom_expr(at)
            f = abs_(x)
            out = out * (f ** q if q > 0 else inv(f) ** (-q))
        if rem:
            inner_m.append((a, 1))
    if c < 0:
        p = -p
        c = -c
    r = _isqrt_frac(c)
    if r is not None:
        out = out * const(r)
        c = Fraction(1)
    inner = Expr({tuple(inner_m): c}) * p if (inner_m or c != 1) else p
    if inner == ONE:
        return out
    sq = perfect_square(inner)
    if sq is not None:
        return out * abs_(sq)
    # sqrt of 1 - cos^2 etc is handled through sin normal form: 1 - cos(x)^2 = sin(x)^2
    s2 = trig_square(inner)
    if s2 is not None:
        return out * abs_(s2)
    return out * atom_expr(mkatom("f", "sqrt", (inner,)))


def trig_square(e):
    """1 - cos(x)^2 -> sin(x)"""
    if len(e.t) == 2 and e.t.get(()) == 1:
        (m, c), = [(m, c) for m, c in e.t.items() if m != ()]
        if c == -1 and len(m) == 1 and m[0][1] == 2:
            at = _atom_list[m[0][0]]
            if at.kind == "f" and at.name == "cos":
                return sin(at.args[0])
    return None


def perfect_square(e):
    """E = (sum of monomials)^2 for up to 3 terms"""
    if len(e.t) == 3:
        sq = []
        for m, c in e.t.items():
            r = _isqrt_frac(c) if c > 0 else None
            if r is not None and all(k % 2 == 0 for _, k in m):
                sq.append(Expr({tuple((a, k // 2) for a, k in m): r}))
        for x, y in itertools.combinations(sq, 2):
            for z in (x + y, x - y):
                if z * z == e:
                    return z
    return None


def abs_(e):
    e = canon_arg(e)
    s = sign(e)
    if s in ("+", "0+"):
        return e
    if s in ("-", "0-"):
        return -e
    if not e.t:
        return ZERO
    if e.is_const():
        return const(abs(e.cval()))
    c, m, p = primitive(e)
    out = const(abs(c))
    rest = []
    for a, k in m:
        at = _atom_list[a]
        s = atom_sign(at)
        x = Expr({((a, k),): Fraction(1)})
        if k % 2 == 0 or (s and s[-1] == "+"):
            out = out * x
        elif s and s[-1] == "-":
            out = out * (-x)
        else:
            out = out * (atom_expr(mkatom("f", "abs", (atom_expr(at),))) ** k if k > 0
                         else inv(atom_expr(mkatom("f", "abs", (atom_expr(at),)))) ** (-k))
    if p != ONE:
        s = sign(p)
        if s and s[-1] == "+":
            out = out * p
        elif s and s[-1] == "-":
            out = out * (-p)
        else:
            out = out * atom_expr(mkatom("f", "abs", (p,)))
    return out


def _trig_terms(e):
    """split a linear argument into [(int k, base Expr)] ; constant part separately"""
    e = canon_arg(e)
    parts = []
    for m, c in sorted(e.t.items()):
        if m == ():
            parts.append((1, const(c)))
            continue
        base = Expr({m: Fraction(1)})
        if c.denominator == 1:
            parts.append((int(c), base))
        else:
            parts.append((c.numerator, base * const(Fraction(1, c.denominator))))
    return parts


def _atan2_arg(b):
    at = single_atom(b)
    if at is not None and at.kind == "f" and at.name == "atan2":
        return at.args
    return None


def _base_sc(b):
    a2 = _atan2_arg(b)
    if a2 is not None:
        y, x = a2
        r = sqrt(x * x + y * y)
        return y / r, x / r
    if b.is_const() and b.cval() < 0:
        bb = -b
        return -atom_expr(mkatom("f", "sin", (bb,))), atom_expr(mkatom("f", "cos", (bb,)))
    return atom_expr(mkatom("f", "sin", (b,))), atom_expr(mkatom("f", "cos", (b,)))


def sincos(e):
    parts = _trig_terms(e)
    s, c = ZERO, ONE
    for k, b in parts:
        sb, cb = _base_sc(b)
        if k < 0:
            sb = -sb
            k = -k
        if k > 16:
            bb = b * k
            sb, cb = atom_expr(mkatom("f", "sin", (bb,))), atom_expr(mkatom("f", "cos", (bb,)))
            k = 1
        for _ in range(k):
            s, c = s * cb + c * sb, c * cb - s * sb
    return s, c


def sin(e):
    return sincos(e)[0]


def cos(e):
    return sincos(e)[1]


def atan2(y, x):
    y, x = canon_arg(y), canon_arg(x)
    if not y.t and sign(x) == "+":
        return ZERO
    # common positive factor
    cy, my, py = primitive(y) if y.t else (Fraction(0), (), y)
    cx, mx, px = primitive(x) if x.t else (Fraction(0), (), x)
    # y = r sin h, x = r cos h with r > 0
    for m, c in y.t.items():
        for a, k in m:
            at = _atom_list[a]
            if at.kind == "f" and at.name == "sin" and k == 1:
                h = at.args[0]
                r = y / atom_expr(at)
                if sign(r) in ("+",) and is_zero(x - r * cos(h)):
                    rg = arange(h)
                    if rg and rg[0] >= -math.pi - 1e-9 and rg[1] <= math.pi + 1e-9:
                        return h
                if sign(r) in ("-",) and is_zero(x - r * cos(h)):
                    # (y,x) = |r| (sin(h+pi), cos(h+pi))
                    rg = arange(h)
                    if rg and rg[0] >= 0:
                        return h - PI
                    if rg and rg[1] <= 0:
                        return h + PI
                # y = r sin h, x = -r cos h  -> pi - h
                if sign(r) == "+" and is_zero(x + r * cos(h)):
                    rg = arange(h)
                    if rg and rg[0] >= 0 and rg[1] <= 2 * math.pi:
                        return PI - h
        break
    # scale by positive common content
    if y.t and x.t:
        com = {}
        dx = dict(mx)
        for a, k in my:
            if a in dx and k > 0 and dx[a] > 0 and (atom_sign(_atom_list[a]) or " ")[-1] == "+":
                com[a] = min(k, dx[a])
        if com:
            f = Expr({tuple(sorted(com.items())): Fraction(1)})
            return atan2(y / f, x / f)
        k = abs(cy)
        if k != 1:
            return atan2(y / k, x / k)
    if cy < 0:
        return -atan2(-y, x)
    return atom_expr(mkatom("f", "atan2", (y, x)))


PI = var("pi", "+", (math.pi, math.pi))


def exp(e):
    e = canon_arg(e)
    if not e.t:
        return ONE
    return atom_expr(mkatom("f", "exp", (e,)))


def ln(e):
    e = canon_arg(e)
    if e == ONE:
        return ZERO
    at = single_atom(e)
    if at is not None and at.kind == "f" and at.name == "exp":
        return at.args[0]
    return atom_expr(mkatom("f", "ln", (e,)))


def floor(e):
    if e.is_const():
        return const(math.floor(e.cval()))
    r = arange(e)
    if r and math.floor(r[0]) == math.floor(r[1]) and r[1] - math.floor(r[1]) > 1e-9:
        return const(math.floor(r[0]))
    return atom_expr(mkatom("f", "floor", (e,)))


FUNS = {"floor": floor, "sqrt": sqrt, "abs": abs_, "sin": sin, "cos": cos, "exp": exp, "ln": ln, "atan2": atan2, "inv": inv}


def build_fn(name, args):
    f = FUNS.get(name)
    if f:
        return f(*args)
    return atom_expr(mkatom("f", name, tuple(args)))


def diff(e, v):
    """d e / d v ; v an atom"""
    cache = {}

    def datom(at):
        if at is v:
            return ONE
        if at.kind == "v":
            if at.unit2 is not None:
                # d(u^2)/dv = d(unit2)/dv
                d = diff(at.unit2, v)
                return ZERO if not d.t else d / (atom_expr(at) * 2)
            return ZERO
        if at.id in cache:
            return cache[at.id]
        n = at.name
        ds = [diff(x, v) if isinstance(x, Expr) else ZERO for x in at.args]
        if all(not d.t for d in ds):
            r = ZERO
        elif n == "floor":
            r = ZERO
        elif n == "sqrt":
            r = ds[0] / (atom_expr(at) * 2)
        elif n == "sin":
            r = ds[0] * cos(at.args[0])
        elif n == "cos":
            r = -ds[0] * sin(at.args[0])
        elif n == "exp":
            r = ds[0] * atom_expr(at)
        elif n == "ln":
            r = ds[0] / at.args[0]
        elif n == "inv":
            r = -ds[0] * atom_expr(at) * atom_expr(at)
        elif n == "abs":
            r = ds[0] * atom_expr(at) / at.args[0]
        elif n == "atan2":
            y, x = at.args
            r = (x * ds[0] - y * ds[1]) / (x * x + y * y)
        else:
            r = ZERO
            for i, d in enumerate(ds):
                if d.t:
                    r = r + d * atom_expr(mkatom("f", "D%d_%s" % (i, n), at.args))
        cache[at.id] = r
        return r

    out = ZERO
    for m, c in e.t.items():
        for i, (a, k) in enumerate(m):
            d = datom(_atom_list[a])
            if d.t:
                rest = list(m)
                if k == 1:
                    rest.pop(i)
                else:
                    rest[i] = (a, k - 1)
                out = out + d * Expr({tuple(rest): c * k})
    return out


def subst(e, mp):
    """mp: atom id -> Expr, substituted everywhere (also inside function arguments)"""
    cache = {}

    def sarg(x):
        if isinstance(x, Expr):
            return sub(x)
        if isinstance(x, tuple):
            return tuple(sarg(y) for y in x)
        if hasattr(x, "subst_atoms"):
            return x.subst_atoms(mp)
        return x

    def satom(a):
        if a in mp:
            return mp[a]
        if a in cache:
            return cache[a]
        at = _atom_list[a]
        if at.kind == "v":
            r = atom_expr(at)
        else:
            na = tuple(sarg(x) for x in at.args)
            r = atom_expr(at) if na == at.args else build_fn(at.name, na)
        cache[a] = r
        return r

    def sub(x):
        out = ZERO
        for m, c in x.t.items():
            r = const(c)
            for a, k in m:
                s = satom(a)
                r = r * (s ** k if k > 0 else inv(s) ** (-k))
            out = out + r
        return out

    return sub(e)


def all_atoms(e, acc=None):
    """ids of atoms occurring anywhere"""
    if acc is None:
        acc = set()

    def go(x):
        if isinstance(x, Expr):
            for a in x.atoms():
                if a not in acc:
                    acc.add(a)
                    at = _atom_list[a]
                    for y in at.args:
                        go(y)
                    if at.unit2 is not None:
                        go(at.unit2)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
        elif hasattr(x, "iter_exprs"):
            for y in x.iter_exprs():
                go(y)

    go(e)
    return acc


# ---------------------------------------------------------------- numeric evaluation (disequality certificates)

class EvalError(Exception):
    pass


def evalf(e, env):
    """env: atom id -> float, extended on demand for uninterpreted atoms"""
    tot = 0.0
    for m, c in e.t.items():
        p = float(c)
        for a, k in m:
            p *= eval_atom(a, env) ** k
        tot += p
    return tot


def eval_atom(a, env):
    if a in env:
        return env[a]
    at = _atom_list[a]
    if at.kind == "v":
        v = sample_var(at, env)
    else:
        n = at.name
        if n in ("sqrt", "sin", "cos", "exp", "ln", "abs", "inv", "atan2", "floor") and all(isinstance(x, Expr) for x in at.args):
            xs = [evalf(x, env) for x in at.args]
            try:
                if n == "sqrt":
                    v = math.sqrt(xs[0])
                elif n == "inv":
                    v = 1.0 / xs[0]
                elif n == "ln":
                    v = math.log(xs[0])
                elif n == "abs":
                    v = abs(xs[0])
                elif n == "atan2":
                    v = math.atan2(*xs)
                else:
                    v = getattr(math, n)(*xs)
            except (ValueError, ZeroDivisionError, OverflowError):
                raise EvalError(repr(at))
        else:
            # congruence: same function, numerically same arguments -> same value
            key = [n]
            for x in at.args:
                key.append(round(evalf(x, env), 9) if isinstance(x, Expr) else repr(x))
            key = ("fn",) + tuple(key)
            if key not in env:
                env[key] = env["rand"].uniform(0.3, 2.0)
            v = env[key]
    env[a] = v
    return v


def sample_var(at, env):
    rnd = env["rand"]
    if at.unit2 is not None:
        v = evalf(at.unit2, env)
        if v < 0:
            raise EvalError("unit")
        return math.sqrt(v) * rnd.choice([1, -1])
    if at.name == "pi":
        return math.pi
    if at.rng:
        lo, hi = at.rng
        lo, hi = max(lo, -5.0), min(hi, 5.0) if hi > -5 else hi
        if lo > hi:
            lo = hi = at.rng[0]
        return rnd.uniform(lo, hi)
    if at.isint:
        return float(rnd.randint(1, 9))
    if at.sign == "+":
        return rnd.uniform(0.2, 3.0)
    if at.sign == "-":
        return -rnd.uniform(0.2, 3.0)
    return rnd.uniform(-2.0, 2.0)


def from_float(s):
    """shortest decimal -> Fraction"""
    return const(Fraction(s))
