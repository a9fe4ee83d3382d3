"""Algebraic summaries of the functions factrs calls but does not define (core, alloc, nalgebra, num-dual, ...)."""
import functools, re
from fractions import Fraction
from . import alg, scalar as S
from .alg import Expr
from .values import *
from .scalar import (add, sub, mul, div, neg, num, binop, s_neg, s_not, ZERO, ONE, glift, lt, eq, isz)

T = {}       # "Trait::method" -> model
D = {}       # "Type::method"  -> model


def ti(*names):
    def w(f):
        for n in names:
            T[n] = f
        return f
    return w


def m(*names):
    def w(f):
        for n in names:
            D[n] = f
        return f
    return w


def strip_generics(s):
    out, d = [], 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<":
            d += 1
        elif c == ">" and not (i and s[i - 1] == "-"):
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out)


def type_head(x):
    x = x.strip()
    while x.startswith("&"):
        x = x[1:].lstrip()
        x = re.sub(r"^'\w+\s*", "", x)
        x = re.sub(r"^mut\s+", "", x)
    if x.startswith("("):
        x = x[1:-1]
    if x.startswith("dyn "):
        return "dyn " + type_head(x[4:].split("+")[0])
    if x.startswith("["):
        return "array" if ";" in strip_generics(x) else "slice"
    return strip_generics(x).strip(": ").split("::")[-1]


@functools.lru_cache(None)
def normdef(d):
    k = normdef0(d)
    return k[1:] if k.startswith(("AHashMap::", "AHashSet::")) else k


def normdef0(d):
    # split off the last path component (outside generics)
    depth = 0
    k = None
    i = len(d) - 1
    # drop trailing generic args of the method
    while d.endswith(">") and "::<" in d:
        dd = 0
        for j in range(len(d) - 1, -1, -1):
            if d[j] == ">" and d[j - 1] != "-":
                dd += 1
            elif d[j] == "<":
                dd -= 1
                if dd == 0:
                    break
        if d[j - 2:j] == "::" and j > 2:
            d = d[:j - 2]
        else:
            break
    for j in range(len(d) - 1, 0, -1):
        c = d[j]
        if c == ">" and d[j - 1] != "-":
            depth += 1
        elif c == "<":
            depth -= 1
        elif depth == 0 and d[j - 1:j + 1] == "::":
            k = j - 1
            break
    if k is None:
        return d
    pre, last = d[:k], d[k + 2:]
    if pre.endswith(">"):
        dd = 0
        for j in range(len(pre) - 1, -1, -1):
            if pre[j] == ">" and pre[j - 1] != "-":
                dd += 1
            elif pre[j] == "<":
                dd -= 1
                if dd == 0:
                    break
        inner = pre[j + 1:-1]
        if inner.startswith("impl ") or j == 0:
            x = inner[5:] if inner.startswith("impl ") else inner
            if x.startswith("<"):
                # impl<...>
                dd = 0
                for q, c in enumerate(x):
                    dd += c == "<"
                    dd -= c == ">"
                    if dd == 0:
                        x = x[q + 1:].strip()
                        break
            depth = 0
            for q in range(len(x)):
                c = x[q]
                depth += c == "<"
                depth -= c == ">" and x[q - 1] != "-"
                if depth == 0 and x[q:q + 5] == " for ":
                    x = x[q + 5:]
                    break
            depth = 0
            for q in range(len(x)):
                c = x[q]
                depth += c == "<"
                depth -= c == ">" and x[q - 1] != "-"
                if depth == 0 and x[q:q + 4] == " as ":
                    x = x[:q]
                    break
            return type_head(x) + "::" + last
        pre = pre[:j].rstrip(":")
    return strip_generics(pre).rstrip(":").split("::")[-1] + "::" + last


@functools.lru_cache(None)
def ti_key(t):
    p = strip_generics(t).split("::")
    p = [x for x in p if x]
    return "::".join(p[-2:])


LOCAL = ("factrs", "fh_main", "re_types", "re_types_core")


def find(it, I, args, fdef):
    S.CUR[0] = it
    if I["crate"] in LOCAL and "body" in I:
        return None
    if "body" in I and "::collect::<rerun::" in I["name"]:
        return None
    t = I.get("ti")
    if t:
        if "body" in I and ti_key(t) == "Into::into":
            return None
        f = T.get(ti_key(t))
        if f is not None:
            return f
    k = normdef(I["def"])
    f = D.get(k) or T.get(k)
    if f is not None:
        return f
    last = k.split("::")[-1]
    f = D.get(I["crate"] + ":" + last)
    if f is not None:
        return f
    return D.get("*::" + last)


def opaque_call(it, I, args, rt, at):
    last = I["def"].split("::<")[0].split("::")[-1]
    rt = I.get("rty", rt)
    t = it.p.ty(rt) if known(rt) and "rty" in I else {}
    if t.get("k") == "adt" and t.get("v"):
        # a constructor used as a function
        for i, v in enumerate(t["v"]):
            if last == (v.get("n") or it.p.short(rt)) or len(t["v"]) == 1 and last == it.p.short(rt):
                return mk_agg(it, rt, i, list(args))
    it.stats["opaque"].add(I["def"])
    raise Undecided(f"no summary for {I['def']} ({normdef(I['def'])}, {I.get('ti')})")


def virtual_unknown(it, r, f, args, t):
    raise Undecided(f"virtual call of {f.get('def')} on {r}")


def note_panic(it, fr, f, args, l):
    it.event("panic", f.get("def", "panic"), fr, l)


def panic(it, why):
    it.event("panic", why)
    from .interp import Diverge
    raise Diverge()


# ---------------------------------------------------------------- helpers
def val(it, v):
    """value with all reference layers removed"""
    v = it.rst(v)
    n = 0
    while True:
        if isinstance(v, Ref):
            v = it.load(v)
        elif isinstance(v, MView):
            v = it.load(v.ref)
        elif isinstance(v, Ite):
            return it.lift(lambda x: val(it, x), v)
        else:
            return v
        v = it.rst(v)
        n += 1
        if n > 50:
            raise Undecided("reference cycle")


def mat_of(it, v):
    return val(it, v)


def mref(it, v):
    """Ref to a place that holds the matrix/sequence itself"""
    v = it.rst(v)
    if isinstance(v, Ref):
        x = it.load(v)
        if isinstance(x, (Ref, MView)):
            return mref(it, x)
        if isinstance(x, Ite) and any(isinstance(l, (Ref, MView)) for _, l in leaves(x)):
            return it.lift(lambda y: mref(it, y), x)
        return v
    if isinstance(v, MView):
        return v.ref
    if isinstance(v, Ite):
        return it.lift(lambda y: mref(it, y), v)
    return it.box(v)


def integer(it, v):
    v = it.as_int(val(it, v))
    if isinstance(v, Agg) and len(v.fs) == 1:
        v = it.as_int(v.fs[0])
    if isinstance(v, bool):
        return int(v)
    if not isinstance(v, int):
        raise Undecided(f"integer is not static: {str(v)[:60]}")
    return v


def sext(r, pe):
    if isinstance(r, Ite):
        return glift(lambda x: sext(x, pe), r)
    return Ref(r.cell, r.path + (pe,))


def some(x, rt=None):
    return Agg(rt, 1, (x,))


def none(rt=None):
    return Agg(rt, 0, ())


def ok(x, rt=None):
    return Agg(rt, 0, (x,))


def err(x, rt=None):
    return Agg(rt, 1, (x,))


def tup(*xs):
    return Agg(-1, 0, xs)


def cdim(it, t):
    """static dimension of a nalgebra Dim type, or None"""
    ty = it.p.ty(t)
    if ty["k"] == "adt" and ty["s"].startswith("nalgebra::Const<"):
        return int(ty["s"][len("nalgebra::Const<"):-1])
    return None


def mdims(it, t):
    ty = it.p.ty(t)
    while ty["k"] in ("ref", "ptr"):
        ty = it.p.ty(ty["e"])
    if ty["k"] == "adt" and ty.get("name", "").endswith("Option") or ty.get("name", "").endswith("Result"):
        return mdims(it, ty["args"][0])
    if ty["k"] == "adt" and ty["name"] == "nalgebra::Matrix":
        a = ty["args"]
        return cdim(it, a[1]), cdim(it, a[2])
    return None


def elem_zero(it, rt):
    """zero of the element type of matrix type rt"""
    ty = it.p.ty(rt)
    if ty["k"] == "adt" and ty["name"] == "nalgebra::Matrix":
        return zero_of(it, ty["args"][0])
    return ZERO


def zero_of(it, t, v=ZERO):
    ty = it.p.ty(t)
    s = ty["s"]
    if ty["k"] in ("int", "uint"):
        return int(v.cval())
    if "Dual" in s:
        vec = "DualVec" in s
        return Dual(v, None if vec else ZERO, vec)
    return v


def dimval(it, v, t=None):
    """run-time value of a Dim argument"""
    v = val(it, v)
    if isinstance(v, int):
        return v
    if isinstance(v, Agg):
        if v.fs:
            return integer(it, v.fs[0])
        d = cdim(it, v.ty) if known(v.ty) else None
        if d is None and t is not None:
            d = cdim(it, t)
        if d is not None:
            return d
    raise Undecided(f"dimension {v}")


def pure(f):
    """model on values with all references removed, lifted over gates"""
    @functools.wraps(f)
    def g(it, args, I, rt, at):
        vs = [val(it, a) for a in args]
        return it.lift(lambda *xs: f(it, xs, rt), *vs)
    return g


def opt_of_eps(it, v, pe):
    e = v.eps
    if pe[1] == 0 or True:
        return none() if e is None else some(Mat(len(e), 1, e))


def eps_of_opt(it, o):
    def one(x):
        if x.vi == 0:
            return None
        mm = val(it, x.fs[0])
        return mm.xs
    o = it.rst(o)
    if isinstance(o, Ite):
        raise Undecided("gated derivative")
    return one(o)


def term_field(it, v, pe):
    return Term("field", v, pe[1])


def term_variant(it, v, pe):
    raise Undecided(f"variant of opaque {v}")


def term_deref(it, v):
    return Term("deref", v)


def term_discr(it, v, t):
    raise Undecided(f"discriminant of opaque {str(v)[:80]}")


def seq_len(it, v):
    v = it.rst(v)
    if isinstance(v, Ite):
        return it.lift(lambda x: seq_len(it, x), v)
    if isinstance(v, Seq):
        return len(v.xs)
    if isinstance(v, Mat):
        return len(v.xs)
    if isinstance(v, Str):
        return len(v.s.encode())
    if isinstance(v, MapV):
        return len(v.es)
    if isinstance(v, Ref):
        return seq_len(it, it.load(v))
    raise Undecided(f"length of {type(v).__name__}")


def seq_index(it, v, i):
    if isinstance(i, Ite):
        return it.lift(lambda j: it.proj1(v, ("idx", j)), i)
    raise Undecided(f"index {i} of {type(v).__name__}")


def seq_window(it, v, lo, hi):
    if isinstance(v, Str):
        return Str(v.s[lo:hi])
    raise Undecided("window")


def seq_update(it, v, i, rest, new):
    raise Undecided(f"update at {i} of {type(v).__name__}")


def int_sub(n, k):
    return n - k if isinstance(n, int) else glift(lambda x: x - k, n)


def map_value(it, v, k):
    for kk, x in v.es:
        if kk == k:
            return x
    raise Bottom()


def map_update(it, v, k, rest, new):
    es = []
    hit = False
    for kk, x in v.es:
        if kk == k:
            x = it.upd(x, rest, new)
            hit = True
        es.append((kk, x))
    if not hit:
        raise Bottom()
    return v.of(es)


def truth(it, x):
    if isinstance(x, int):
        return bool(x)
    raise Undecided(f"condition {type(x).__name__}")


def switch_cond(it, v, t):
    """gate on equality with each arm, as a gated concrete integer"""
    out = -1
    arms = [x for x, _ in t["br"]]
    ow = next(i for i in range(len(arms) + 1) if i not in arms)
    out = ow
    ty = it.p.ty(t["ty"]) if t.get("ty", -1) >= 0 else {}
    for x in reversed(arms):
        c = eq(v, x - (1 << ty["b"]) if ty.get("k") == "int" and x >> (ty["b"] - 1) else x)
        out = glift(lambda cc, o, x=x: x if cc else o, c, out)
    return out


def ptr_meta(it, x):
    if isinstance(x, Ref):
        return seq_len(it, it.load(x))
    if isinstance(x, (Seq, Str)):
        return seq_len(it, x)
    raise Undecided("pointer metadata")


def rawptr(it, xs):
    return xs[0]


NEWTYPES = ("MaybeUninit", "ManuallyDrop", "UnsafeCell", "MaybeDangling", "Unique", "NonNull", "Wrapping", "Saturating")


def mk_agg(it, t, vi, xs):
    if it.p.short(t) in NEWTYPES and len(xs) == 1:
        return xs[0]
    return Agg(t, vi or 0, xs)


def copy_nonoverlapping(it, s, d, n):
    raise Undecided("copy_nonoverlapping")


def pointee(it, t):
    ty = it.p.ty(t)
    if ty["k"] in ("ref", "ptr"):
        return ty["e"]
    if ty["k"] == "adt" and ty.get("name", "").endswith("::Box"):
        return ty["args"][0]
    return None


def cast(it, k, x, ft, tt):
    f, t = it.p.ty(ft), it.p.ty(tt)
    if "Unsize" in k:
        p, q = pointee(it, ft), pointee(it, tt)
        if p is not None and q is not None and it.p.ty(q)["k"] == "dyn":
            r = x
            if isinstance(r, Agg):
                r = it.as_ref(r)
            if isinstance(r, Ref):
                if it.p.ty(p)["k"] == "dyn":
                    return Ref(r.cell, r.path, (r.meta[0], q) if r.meta else None)
                return Ref(r.cell, r.path, (p, q))
            if isinstance(r, FnV):
                return Ref(it.new(r), (), (p, q))
        return x
    if "ReifyFnPointer" in k or "ClosureFnPointer" in k or "PointerCoercion" in k or "PtrToPtr" in k or "Transmute" in k or "FnPtr" in k or "Subtype" in k:
        return x
    if k in ("IntToInt",) or "IntToInt" in k:
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, int):
            if t["k"] == "char":
                return x
            return S.wrap(x, t)
        if isinstance(x, Bits):
            n = 32 if t["k"] == "char" else t["b"]
            bs = list(x.bs[:n])
            if f["k"] == "int" and n > len(x.bs):
                raise Undecided("sign extension")
            return Bits(bs + [0] * (n - len(bs)))
        if isinstance(x, Expr):
            return x
        if isinstance(x, Agg) and not x.fs:
            ty = it.p.ty(x.ty)
            return int(ty["v"][x.vi]["d"])
    if "IntToFloat" in k:
        return num(x)
    if "FloatToFloat" in k:
        return x
    if "FloatToInt" in k:
        if isinstance(x, Expr) and x.is_const():
            c = x.cval()
            v = int(c) if c >= 0 else -int(-c)
            if t["k"] == "uint":
                v = max(0, min(v, (1 << t["b"]) - 1))
            return v
    raise Undecided(f"cast {k} of {type(x).__name__}")


# ---------------------------------------------------------------- arithmetic on scalars and matrices
def mm(it, a, b):
    if a.nc != b.nr:
        panic(it, "matrix product dimensions")
    if a.nr * a.nc * b.nc > 4000 and not any(isinstance(x, Dual) for x in a.xs + b.xs):
        return mm_sparse(a, b)
    out = []
    for i in range(a.nr):
        for j in range(b.nc):
            s = None
            for k in range(a.nc):
                x, y = a.at(i, k), b.at(k, j)
                if isz(x) and not isinstance(y, Dual) or isz(y) and not isinstance(x, Dual):
                    continue
                p = mul(x, y)
                s = p if s is None else add(s, p)
            if s is None:
                s = ZERO if a.nc == 0 or not isinstance(a.at(i, 0), Dual) else mul(a.at(i, 0), ZERO)
            out.append(s)
    return Mat(a.nr, b.nc, out)


def mm_sparse(a, b):
    """the same product, over the entries that are not structurally zero"""
    rows = [[(j, y) for j, y in enumerate(b.xs[k * b.nc:(k + 1) * b.nc]) if not isz(y)] for k in range(b.nr)]
    out = []
    for i in range(a.nr):
        acc = [None] * b.nc
        for k in range(a.nc):
            x = a.xs[i * a.nc + k]
            if isz(x):
                continue
            for j, y in rows[k]:
                p = mul(x, y)
                acc[j] = p if acc[j] is None else add(acc[j], p)
        out += [ZERO if s is None else s for s in acc]
    return Mat(a.nr, b.nc, out)


def ew(it, f, a, b):
    if a.nr != b.nr or a.nc != b.nc:
        panic(it, "matrix dimensions differ")
    return Mat(a.nr, a.nc, [f(x, y) for x, y in zip(a.xs, b.xs)])


SP = []    # sparse arithmetic, registered by models_faer


def arith(it, op, a, b):
    if SP and (isinstance(a, SP[0][0]) or isinstance(b, SP[0][0])):
        return SP[0][1](it, op, a, b)
    A, B = isinstance(a, Mat), isinstance(b, Mat)
    if op == "+" and isinstance(a, Str) and isinstance(b, Str):
        if a.s is None or b.s is None or not isinstance(a.s, str) or not isinstance(b.s, str):
            raise Undecided("concatenation of symbolic text")
        return Str(a.s + b.s)
    f = {"+": add, "-": sub, "*": mul, "/": div}[op]
    if A and isinstance(b, Agg) and len(b.fs) == 1:        # faer's Scale
        b = b.fs[0]
    if B and isinstance(a, Agg) and len(a.fs) == 1:
        a = a.fs[0]
    if A and B:
        return mm(it, a, b) if op == "*" else ew(it, f, a, b)
    if A:
        return Mat(a.nr, a.nc, [f(x, b) for x in a.xs])
    if B:
        return Mat(b.nr, b.nc, [f(a, x) for x in b.xs])
    if isinstance(a, Deriv) or isinstance(b, Deriv):
        return deriv_arith(op, a, b)
    if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
        return {"+": a + b, "-": a - b, "*": a * b, "/": a // b if b else 0}[op]
    if isinstance(a, Agg) and isinstance(b, Agg):
        raise Undecided("arithmetic on aggregates")
    return f(a, b)


def deriv_arith(op, a, b):
    if isinstance(a, Deriv) and isinstance(b, Deriv):
        if op == "+":
            return Deriv(S.e_add(a.eps, b.eps))
        if op == "-":
            return Deriv(S.e_add(a.eps, S.e_neg(b.eps)))
    if op == "*":
        return Deriv(S.e_scale(a.eps, b)) if isinstance(a, Deriv) else Deriv(S.e_scale(b.eps, a))
    if op == "/" and isinstance(a, Deriv):
        return Deriv(S.e_map(a.eps, lambda x: div(x, b)))
    raise Undecided("derivative arithmetic")


def bin_model(op):
    def g(it, args, I, rt, at):
        a, b = val(it, args[0]), val(it, args[1])
        return it.lift(lambda x, y: arith(it, op, x, y), a, b)
    return g


def asg_model(op):
    def g(it, args, I, rt, at):
        a, b = val(it, args[0]), val(it, args[1])
        r = it.lift(lambda x, y: arith(it, op, x, y), a, b)
        it.store(mref(it, args[0]), r)
        return UNIT
    return g


for _n, _o in (("Add::add", "+"), ("Sub::sub", "-"), ("Mul::mul", "*"), ("Div::div", "/")):
    T[_n] = bin_model(_o)
for _n, _o in (("AddAssign::add_assign", "+"), ("SubAssign::sub_assign", "-"), ("MulAssign::mul_assign", "*"), ("DivAssign::div_assign", "/")):
    T[_n] = asg_model(_o)


@ti("Rem::rem")
@pure
def _rem(it, xs, rt):
    if all(isinstance(x, int) for x in xs):
        return xs[0] % xs[1]
    raise Undecided("float remainder")


@ti("Neg::neg")
@pure
def _negm(it, xs, rt):
    return S._neg1(xs[0]) if not isinstance(xs[0], Deriv) else Deriv(S.e_neg(xs[0].eps))


@ti("Not::not")
@pure
def _notm(it, xs, rt):
    return s_not(xs[0], it.p.ty(rt))


def bitmodel(op):
    @pure
    def g(it, xs, rt):
        return binop(it, op, xs[0], xs[1], it.p.ty(rt))
    return g


for _n, _o in (("BitAnd::bitand", "BitAnd"), ("BitOr::bitor", "BitOr"), ("BitXor::bitxor", "BitXor"), ("Shl::shl", "Shl"), ("Shr::shr", "Shr")):
    T[_n] = bitmodel(_o)


def scalar1(name, f):
    def g(it, args, I, rt, at):
        v = val(it, args[0])
        return f(v)
    for tr in ("ComplexField", "RealField", "DualNum", "Float", "f64", "f32", "FloatCore", "Signed", "Real", "Dual", "DualVec"):
        T[f"{tr}::{name}"] = g
        D[f"{tr}::{name}"] = g


for _n, _f in dict(sin=S.sin, cos=S.cos, tan=S.tan, sqrt=S.sqrt, abs=S.abs_, exp=S.exp, ln=S.ln, ln_1p=S.ln_1p,
                   exp_m1=S.exp_m1, recip=S.recip, atan=S.atan, asin=S.asin, acos=S.acos, signum=S.signum,
                   sinh=S.sinh, cosh=S.cosh, tanh=S.tanh, floor=S.floor, ceil=S.ceil, trunc=S.trunc, round=S.round_, fract=S.fract, cbrt=S.cbrt,
                   log10=lambda x: div(S.ln(x), alg.ln(alg.const(10))), log2=lambda x: div(S.ln(x), alg.ln(alg.const(2))),
                   exp2=lambda x: S.exp(mul(x, alg.ln(alg.const(2)))), to_degrees=lambda x: mul(x, div(alg.const(180), alg.PI)),
                   modulus=S.abs_, norm1=S.abs_, modulus_squared=lambda x: mul(x, x), real=lambda x: x, conjugate=lambda x: x,
                   to_radians=lambda x: mul(x, div(alg.PI, alg.const(180)))).items():
    scalar1(_n, _f)


def scalar2(name, f):
    def g(it, args, I, rt, at):
        return f(val(it, args[0]), val(it, args[1]))
    for tr in ("ComplexField", "RealField", "DualNum", "Float", "f64", "f32", "Ord", "Real", "Pow"):
        T[f"{tr}::{name}"] = g
        D[f"{tr}::{name}"] = g
    for tr in ("usize", "u64", "u32", "i32", "i64"):
        D[f"{tr}::{name}"] = g


scalar2("atan2", S.atan2)
scalar2("powi", S.powi)
scalar2("powf", S.powf)
scalar2("powd", S.powf)
scalar2("pow", S.powi)
scalar2("min", S.fmin)
scalar2("max", S.fmax)
scalar2("hypot", lambda x, y: S.sqrt(add(mul(x, x), mul(y, y))))
scalar2("copysign", lambda x, y: mul(S.abs_(x), S.signum(y)))
scalar2("total_cmp", S.cmp3)
scalar2("abs_sub", lambda x, y: S.abs_(sub(x, y)))


def _sincos(it, args, I, rt, at):
    v = val(it, args[0])
    return tup(S.sin(v), S.cos(v))


for _t in ("ComplexField", "DualNum", "Float", "f64", "RealField"):
    T[_t + "::sin_cos"] = _sincos
    D[_t + "::sin_cos"] = _sincos


def _muladd(it, args, I, rt, at):
    a, b, c = (val(it, x) for x in args)
    return add(mul(a, b), c)


def _clamp(it, args, I, rt, at):
    x, lo, hi = (val(it, v) for v in args)
    return S.fmin(S.fmax(x, lo), hi)


for _t in ("ComplexField", "DualNum", "Float", "f64", "RealField", "MulAdd"):
    for _d in (T, D):
        _d[_t + "::mul_add"] = _muladd
        _d[_t + "::clamp"] = _clamp
T["Ord::clamp"] = _clamp


@m("f64::is_nan")
def _isnan(it, args, I, rt, at):
    return it.lift(lambda x: S.re_of(x) == NAN, val(it, args[0]))


@m("f64::is_infinite")
def _isinf(it, args, I, rt, at):
    return it.lift(lambda x: S.re_of(x) in (INF, NINF), val(it, args[0]))


@m("f64::is_finite")
def _isfin(it, args, I, rt, at):
    return it.lift(lambda x: not isinstance(S.re_of(x), Special), val(it, args[0]))


T["ComplexField::is_finite"] = _isfin


@m("f64::is_sign_negative")
def _issn(it, args, I, rt, at):
    return lt(val(it, args[0]), ZERO)


@m("f64::is_sign_positive")
def _issp(it, args, I, rt, at):
    return notv(lt(val(it, args[0]), ZERO))


T["RealField::is_sign_negative"] = _issn
T["RealField::is_sign_positive"] = _issp
D["RealField::is_sign_negative"] = _issn
T["Signed::is_negative"] = _issn
T["Signed::is_positive"] = lambda it, args, I, rt, at: lt(ZERO, val(it, args[0]))


@ti("ComplexField::try_sqrt")
def _trysqrt(it, args, I, rt, at):
    v = val(it, args[0])
    return it.lift(lambda c: none(rt) if c else some(S.sqrt(v), rt), lt(v, ZERO))


@ti("ComplexField::from_real", "DualNum::from_inner", "FromPrimitive::from_f64")
def _fromreal(it, args, I, rt, at):
    v = val(it, args[0])
    if ti_key(I.get("ti", "")).startswith("FromPrim"):
        return some(v, rt)
    return v


@ti("DualNum::re")
def _dre(it, args, I, rt, at):
    return it.lift(S.re_of, val(it, args[0]))


for _t in ("f64", "f32", "Float"):
    D[f"{_t}::rem_euclid"] = T[f"{_t}::rem_euclid"] = lambda it, args, I, rt, at: S.rem_euclid(val(it, args[0]), val(it, args[1]))
    D[f"{_t}::log"] = T[f"{_t}::log"] = lambda it, args, I, rt, at: div(S.ln(val(it, args[0])), S.ln(val(it, args[1])))


def const_model(v):
    def g(it, args, I, rt, at):
        return zero_of(it, rt, v) if rt is not None else v
    return g


T["Zero::zero"] = const_model(ZERO)
T["One::one"] = const_model(ONE)
for _t in ("ComplexField", "RealField", "FloatConst"):
    T[_t + "::pi"] = const_model(alg.PI if hasattr(alg, "PI") else alg.var("PI", sign="+"))
    T[_t + "::two_pi"] = const_model((alg.PI if hasattr(alg, "PI") else alg.var("PI", sign="+")) * alg.const(2))


@ti("Zero::is_zero")
def _iszero(it, args, I, rt, at):
    return eq(val(it, args[0]), ZERO)


@ti("Default::default")
def _default(it, args, I, rt, at):
    t = rt if rt is not None else (I["args"][0] if I.get("args") and isinstance(I["args"][0], int) else None)
    return default_of(it, t)


def default_of(it, t):
    ty = it.p.ty(t)
    k = ty["k"]
    if k == "float":
        return ZERO
    if k in ("int", "uint"):
        return 0
    if k == "bool":
        return False
    if k == "tuple":
        return tup(*[default_of(it, e) for e in ty["e"]])
    n = ty.get("name", "").split("::")[-1]
    if n in ("Vec", "VecDeque"):
        return Seq(())
    if n in ("HashMap", "AHashMap", "BTreeMap", "HashSet", "AHashSet", "BTreeSet"):
        return MapV((), mkind(n))
    if n == "Option":
        return none(t)
    if n == "String":
        return Str("")
    if n in ("PhantomData", "RandomState", "BuildHasherDefault", "DefaultHashBuilder"):
        return Agg(t, 0, ())
    raise Undecided(f"default of {ty['s']}")


# ---------------------------------------------------------------- comparisons
def cmpop(a, b, f, k):
    """numbers through the difference, everything else through its ordering"""
    if isinstance(a, (Agg, Seq, Str)):
        it = S.CUR[0]
        return it.lift(lambda o: k(o.vi - 1), ord3(it, a, b))
    return f(a, b)


@ti("PartialOrd::lt")
@pure
def _lt(it, xs, rt):
    return cmpop(*xs, lt, lambda k: k < 0)


@ti("PartialOrd::gt")
@pure
def _gt(it, xs, rt):
    return cmpop(*xs, lambda a, b: lt(b, a), lambda k: k > 0)


@ti("PartialOrd::le")
@pure
def _le(it, xs, rt):
    return cmpop(*xs, S.le, lambda k: k <= 0)


@ti("PartialOrd::ge")
@pure
def _ge(it, xs, rt):
    return cmpop(*xs, lambda a, b: S.le(b, a), lambda k: k >= 0)


@m("log::max_level")
def _maxlevel(it, args, I, rt, at):
    """logging is switched off: its output is not part of any property"""
    return Agg(rt, 0, ())


@ti("PartialOrd<LevelFilter>::le", "PartialOrd<Level>::le")
def _lvle(it, args, I, rt, at):
    return False


def deepval(it, v, depth=0):
    """a value with the references in its fields replaced by what they refer to (for comparison)"""
    v = it.rst(v)
    if depth > 6:
        return v
    if isinstance(v, Ref) and v.cell is not None:
        return deepval(it, val(it, v), depth + 1)
    if isinstance(v, Ite):
        return it.lift(lambda x: deepval(it, x, depth + 1), v)
    if isinstance(v, Agg) and any(isinstance(x, (Ref, Agg, Seq, Ite)) for x in v.fs):
        return Agg(v.ty, v.vi, [deepval(it, x, depth + 1) for x in v.fs])
    if isinstance(v, Seq) and any(isinstance(x, (Ref, Agg, Seq, Ite)) for x in v.xs):
        return Seq(tuple(deepval(it, x, depth + 1) for x in v.xs))
    return v


@ti("PartialEq::eq")
@pure
def _eq(it, xs, rt):
    return eq(deepval(it, xs[0]), deepval(it, xs[1]))


@ti("PartialEq::ne")
@pure
def _ne(it, xs, rt):
    return notv(eq(deepval(it, xs[0]), deepval(it, xs[1])))


@ti("Ord::cmp")
@pure
def _cmp(it, xs, rt):
    return ord3(it, xs[0], xs[1])


@ti("PartialOrd::partial_cmp")
@pure
def _pcmp(it, xs, rt):
    if NAN in xs:
        return none(rt)
    return it.lift(lambda o: some(o, rt), ord3(it, xs[0], xs[1]))


@m("Ordering::is_lt")
@pure
def _islt(it, xs, rt):
    return xs[0].vi == 0


@m("Ordering::is_gt")
@pure
def _isgt(it, xs, rt):
    return xs[0].vi == 2


@m("Ordering::is_eq")
@pure
def _iseq(it, xs, rt):
    return xs[0].vi == 1


@m("Ordering::reverse")
@pure
def _rev(it, xs, rt):
    return Agg(xs[0].ty, 2 - xs[0].vi, ())


# ---------------------------------------------------------------- generic plumbing
def deepclone(it, v):
    v = it.rst(v)
    if isinstance(v, Ite):
        return it.lift(lambda x: deepclone(it, x), v)
    if isinstance(v, Ref):
        if v.cell.startswith("h") and not v.path:
            return Ref(it.new(deepclone(it, it.load(v))), (), v.meta)
        return v
    if isinstance(v, Agg):
        if not any(isinstance(x, (Ref, Agg, Seq, Ite)) for x in v.fs):
            return v
        return Agg(v.ty, v.vi, [deepclone(it, x) for x in v.fs])
    if isinstance(v, Seq):
        return Seq([deepclone(it, x) for x in v.xs])
    if isinstance(v, MapV):
        return v.of([(k, deepclone(it, x)) for k, x in v.es])
    return v


@ti("Clone::clone", "ToOwned::to_owned")
def _clone(it, args, I, rt, at):
    # the argument is a reference to the value: remove exactly one layer, and view layers of matrices
    v = it.deref(args[0])
    v = it.rst(v)
    if isinstance(v, Str) or isinstance(v, IterV) or isinstance(v, (Expr, int, Dual, Mat, MView)):
        return v
    t = it.p.ty(rt) if rt is not None else {}
    if t.get("k") in ("ref", "ptr") or t.get("name", "").split("::")[-1] in ("Rc", "Arc"):
        return v
    return deepclone(it, v)


@m("str::chars")
def _chars(it, args, I, rt, at):
    v = val(it, args[0])
    if not isinstance(v, Str) or not isinstance(v.s, str):
        raise Undecided("characters of an unknown string")
    return IterV("list", tuple(ord(c) for c in v.s))


@ti("Clone::clone_from")
def _clonefrom(it, args, I, rt, at):
    it.store(mref(it, args[0]), deepclone(it, it.deref(args[1])))
    return UNIT


@ti("From::from")
def _from(it, args, I, rt, at):
    v = args[0]
    t = it.p.ty(rt) if rt is not None else {"k": "?", "s": "?"}
    s = t["s"]
    if t["k"] == "adt" and "Dual" in t.get("name", ""):
        x = val(it, v)
        vec = "DualVec" in t["name"]
        return it.lift(lambda y: y if isinstance(y, Dual) else Dual(y if isinstance(y, Special) else num(y), None if vec else ZERO, vec), x)
    if t["k"] == "adt" and t["name"] == "nalgebra::Matrix":
        return to_matrix(it, val(it, v), rt)
    if t["k"] == "array":
        x = val(it, v)
        if isinstance(x, Mat):
            cols = x.nc
            if it.p.ty(t["e"])["k"] == "array":
                return Seq([Seq([x.at(r, c) for r in range(x.nr)]) for c in range(cols)])
            return Seq(list(x.xs))
        return x
    if t["k"] == "float":
        return it.lift(lambda y: y if isinstance(y, Special) else num(y), val(it, v))
    if t["k"] in ("int", "uint"):
        x = val(it, v)
        if isinstance(x, Bits):
            return Bits(list(x.bs[:t["b"]]) + [0] * (t["b"] - len(x.bs)))
        return x
    if t["k"] == "char":
        return val(it, v)
    n = t.get("name", "").split("::")[-1]
    if n == "Option":
        return some(v, rt)
    if n in ("String", "PathBuf"):
        return val(it, v)
    if n == "Vec":
        return val(it, v)
    if n == "Box":
        if isinstance(it.rst(v), Ref) and it.rst(v).cell.startswith("h") and t["s"].endswith(s):
            return v
        return it.box(v)
    if n in ("HashMap", "AHashMap", "BTreeMap", "HashSet", "AHashSet", "BTreeSet"):
        return mk_map(it, val(it, v).xs, mkind(n))
    return v


def mk_map(it, pairs, kind=0):
    r = MapV((), kind)
    for p in pairs:
        k, x = (p, UNIT) if kind & 2 else it.rst(p).fs
        r, _ = map_put(it, r, it.snap(k), x)
    return r


def to_matrix(it, x, rt):
    d = mdims(it, rt)

    def one(x):
        if isinstance(x, Mat):
            return x
        if isinstance(x, Seq):
            if x.xs and isinstance(x.xs[0], Seq):
                cols = x.xs
                return Mat(len(cols[0].xs), len(cols), [cols[c].xs[r] for r in range(len(cols[0].xs)) for c in range(len(cols))])
            if d and d[0] == 1:
                return Mat(1, len(x.xs), x.xs)
            return Mat(len(x.xs), 1, x.xs)
        raise Undecided(f"matrix from {type(x).__name__}")
    return it.lift(one, x)


@ti("Into::into", "TryInto::try_into", "TryFrom::try_from")
def _into(it, args, I, rt, at):
    k = ti_key(I.get("ti", ""))
    if k.startswith("Try"):
        v = val(it, args[0])
        t = it.p.ty(rt)
        inner = it.p.ty(t["args"][0])
        if isinstance(v, int) and inner["k"] in ("int", "uint"):
            return ok(v, rt) if S.wrap(v, inner) == v else err(UNIT, rt)
        if isinstance(v, Seq) and inner["k"] == "array":
            n = inner["n"] if isinstance(inner["n"], int) else inner["n"]["c"]
            return ok(v, rt) if len(v.xs) == n else err(UNIT, rt)
        if inner["k"] == "char":
            o = _fromu32(it, args, I, rt, at)
            # Option's Some becomes Ok, None becomes Err
            return it.gated(o, lambda x: ok(x.fs[0], rt) if x.fs else err(UNIT, rt))
        raise Undecided("try_into")
    return _from(it, args, I, rt, at)


@ti("IntoIterator::into_iter")
def _intoiter(it, args, I, rt, at):
    return it.gated(args[0], lambda v: into_iter(it, v, at))


@ti("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut")
def _deref(it, args, I, rt, at):
    v = it.rst(args[0])

    def one(v):
        if isinstance(v, Ref):
            x = it.load(v)
            if isinstance(x, (Ref, Str)) and (I["def"].find("Box") >= 0 or I["def"].find("&") >= 0 or I["def"].find("String") >= 0 or "Vec" in I["def"] or "Ref" in I["def"]):
                return x if isinstance(x, Ref) else v
            if isinstance(x, MView):
                return x.ref
        return v
    return it.lift(one, v)


@m("mem::swap")
def _swap(it, args, I, rt, at):
    a, b = mref1(it, args[0]), mref1(it, args[1])
    x, y = it.load_g(a), it.load_g(b)
    it.store(a, y)
    it.store(b, x)
    return UNIT


def mref1(it, v):
    return it.as_ref(v)


@m("mem::replace")
def _replace(it, args, I, rt, at):
    a = it.as_ref(args[0])
    x = it.load_g(a)
    it.store(a, args[1])
    return x


@m("mem::take")
def _take(it, args, I, rt, at):
    a = it.as_ref(args[0])
    x = it.load_g(a)
    it.store(a, default_of(it, rt))
    return x


@m("mem::drop", "mem::forget", "hint::black_box", "convert::identity")
def _drop(it, args, I, rt, at):
    return UNIT if rt is None or it.p.ty(rt)["k"] == "tuple" and not it.p.ty(rt)["e"] else args[0]


@m("any::type_name", "fmt::format", "Arguments::new", "Arguments::new_v1", "Arguments::new_const", "Arguments::from_str", "Argument::new_display", "Argument::new_debug", "io::_print", "io::_eprint",
   "Argument::new_lower_exp", "Arguments::new_v1_formatted", "Formatter::write_str", "Formatter::write_fmt", "fmt::write", "Argument::none", "Placeholder::new", "rt::begin_panic")
def _fmt(it, args, I, rt, at):
    t = it.p.ty(rt) if rt is not None else {"k": "?"}
    if t["k"] == "tuple":
        return UNIT
    if t.get("name", "").endswith("Result"):
        return ok(UNIT, rt)
    return Term("fmt")


@ti("Display::fmt", "Debug::fmt", "ToString::to_string", "LowerExp::fmt", "Error::description", "Hash::hash")
def _fmt2(it, args, I, rt, at):
    t = it.p.ty(rt) if rt is not None else {"k": "?"}
    if t["k"] == "tuple":
        return UNIT
    if t.get("name", "").endswith("Result"):
        return ok(UNIT, rt)
    v = val(it, args[0])
    return v if isinstance(v, Str) else Term("to_string")


@m("log::__private_api::log", "__private_api::log", "__private_api::loc", "*::enabled")
def _log(it, args, I, rt, at):
    t = it.p.ty(rt)
    if t["k"] == "bool":
        return False
    return UNIT if t["k"] == "tuple" else Term("log")


# ---------------------------------------------------------------- Any
@m("dyn Any::downcast_ref", "dyn Any::downcast_mut")
def _dcr(it, args, I, rt, at):
    t = I["args"][0]

    def one(r):
        if isinstance(r, Ref) and r.meta:
            return some(Ref(r.cell, r.path), rt) if r.meta[0] == t else none(rt)
        raise Undecided("downcast of unknown")
    return it.lift(one, it.rst(args[0]))


@m("dyn Any::is")
def _dis(it, args, I, rt, at):
    t = I["args"][0]

    def one(r):
        if isinstance(r, Ref) and r.meta:
            return r.meta[0] == t
        raise Undecided("is of unknown")
    return it.lift(one, it.rst(args[0]))


@m("Box::downcast")
def _bdc(it, args, I, rt, at):
    rty = it.p.ty(rt)
    bt = it.p.ty(rty["args"][0])
    t = bt["args"][0]

    def one(r):
        if isinstance(r, Agg):
            r = it.as_ref(r)
        if isinstance(r, Ref) and r.meta:
            return ok(Ref(r.cell, r.path), rt) if r.meta[0] == t else err(r, rt)
        raise Undecided("downcast of unknown box")
    return it.lift(one, it.rst(args[0]))


@ti("Any::type_id")
def _typeid(it, args, I, rt, at):
    a = I.get("args") or []
    return Term("typeid", it.p.ty(a[0])["s"] if a and isinstance(a[0], int) else "?")


@m("TypeId::of")
def _typeidof(it, args, I, rt, at):
    return Term("typeid", it.p.ty(I["args"][0])["s"])


# ---------------------------------------------------------------- Box, Vec, slices, arrays
@m("Box::new", "Rc::new", "Arc::new", "Cell::new", "RefCell::new")
def _boxnew(it, args, I, rt, at):
    return it.box(args[0])


def cellref(it, a):
    """the storage behind &Cell (possibly through Rc)"""
    r = it.as_ref(it.rst(a))
    for _ in range(4):
        v = it.rst(it.load_g(r))
        if not isinstance(v, Ref):
            return r
        r = v
    raise Undecided("cell indirection")


@m("Cell::get", "Cell::take", "Cell::into_inner")
def _cellget(it, args, I, rt, at):
    r = cellref(it, args[0])
    v = it.load_g(r)
    if normdef(I["def"]).endswith("take"):
        it.store(r, default_of(it, rt))
    return v


@m("Cell::set", "Cell::replace")
def _cellset(it, args, I, rt, at):
    r = cellref(it, args[0])
    old = it.load_g(r)
    it.store(r, args[1])
    return old if normdef(I["def"]).endswith("replace") else UNIT


@m("Box::new_uninit")
def _boxuninit(it, args, I, rt, at):
    return Ref(it.new(UNINIT))


def peel(v):
    while isinstance(v, Agg):
        fs = [f for f in v.fs if f is not UNINIT]
        if not fs:
            return UNINIT
        v = fs[-1]
    return v


@m("boxed::box_assume_init_into_vec_unsafe", "slice::into_vec", "Box::assume_init")
def _boxvec(it, args, I, rt, at):
    v = it.rst(args[0])
    x = it.deref(v)
    if isinstance(x, Agg):
        x = peel(x)
    if normdef(I["def"]).endswith("assume_init"):
        it.store(it.as_ref(v), x)
        return v
    return x


@m("Box::leak", "Box::into_raw", "Box::from_raw", "Box::as_ref", "Box::as_mut", "Box::pin")
def _boxid(it, args, I, rt, at):
    return args[0]


@m("vec::from_elem")
def _fromelem(it, args, I, rt, at):
    return Seq([args[0]] * integer(it, args[1]))


@m("Vec::new", "Vec::with_capacity", "VecDeque::new")
def _vecnew(it, args, I, rt, at):
    return Seq(())


def seqref(it, v):
    return mref(it, v)


def seqval(it, r):
    return it.load_g(r)


@m("Vec::push", "VecDeque::push_back", "String::push")
def _push(it, args, I, rt, at):
    r = seqref(it, args[0])
    x = args[1]

    def one(v):
        if isinstance(v, Str):
            return Str(v.s + chr(integer(it, x)))
        return Seq(v.xs + (x,))
    it.store(r, it.lift(one, it.load_g(r)))
    return UNIT


@m("String::push_str")
def _pushstr(it, args, I, rt, at):
    r = seqref(it, args[0])
    x = val(it, args[1])
    v = it.load_g(r)
    it.store(r, Str(v.s + x.s) if isinstance(v, Str) and isinstance(x, Str) else Term("string", v, x))
    return UNIT


@m("Vec::pop", "VecDeque::pop_back")
def _pop(it, args, I, rt, at):
    r = seqref(it, args[0])
    v = it.load_g(r)
    if isinstance(v, Ite):
        raise Undecided("pop of gated vector")
    if not v.xs:
        return none(rt)
    it.store(r, Seq(v.xs[:-1]))
    return some(v.xs[-1], rt)


D["String::new"] = D["String::with_capacity"] = lambda it, args, I, rt, at: Str("")


@ti("Extend::extend_one")
def _extendone(it, args, I, rt, at):
    r = seqref(it, args[0])
    it.store(r, it.lift(lambda v: Seq(v.xs + (args[1],)), it.load_g(r)))
    return UNIT


D["ManuallyDrop::new"] = D["ManuallyDrop::into_inner"] = D["ManuallyDrop::deref"] = lambda it, args, I, rt, at: args[0]


@m("mem::size_of")
def _sizeof(it, args, I, rt, at):
    t = it.p.ty(I["args"][0])
    if t["k"] in ("uint", "int", "float") and t.get("b"):
        return t["b"] // 8
    raise Undecided("size of " + t["s"])


@m("Vec::clear", "HashMap::clear", "VecDeque::clear")
def _clear(it, args, I, rt, at):
    r = seqref(it, args[0])
    v = it.load_g(r)
    it.store(r, it.lift(lambda x: x.of(()) if isinstance(x, MapV) else Seq(()), v))
    return UNIT


@m("Vec::insert")
def _vinsert(it, args, I, rt, at):
    r = seqref(it, args[0])
    v = it.load_g(r)
    i = integer(it, args[1])
    if i > len(v.xs):
        panic(it, "insertion index")
    it.store(r, Seq(v.xs[:i] + (args[2],) + v.xs[i:]))
    return UNIT


@m("Vec::remove", "Vec::swap_remove")
def _vremove(it, args, I, rt, at):
    r = seqref(it, args[0])
    v = it.load_g(r)
    i = integer(it, args[1])
    if i >= len(v.xs):
        panic(it, "removal index")
    if normdef(I["def"]).endswith("swap_remove"):
        xs = list(v.xs)
        x = xs[i]
        xs[i] = xs[-1]
        it.store(r, Seq(xs[:-1]))
        return x
    it.store(r, Seq(v.xs[:i] + v.xs[i + 1:]))
    return v.xs[i]


@m("Vec::truncate")
def _trunc(it, args, I, rt, at):
    r = seqref(it, args[0])
    it.store(r, Seq(it.load_g(r).xs[:integer(it, args[1])]))
    return UNIT


@m("Vec::resize")
def _resize(it, args, I, rt, at):
    r = seqref(it, args[0])
    n = integer(it, args[1])
    xs = it.load_g(r).xs
    it.store(r, Seq((xs + (args[2],) * max(0, n - len(xs)))[:n]))
    return UNIT


@m("slice::rotate_left", "slice::rotate_right")
def _rotate(it, args, I, rt, at):
    r = seqref(it, args[0])
    xs = it.load_g(r).xs
    k = integer(it, args[1])
    if k > len(xs):
        panic(it, "rotate")
    if normdef(I["def"]).endswith("right"):
        k = len(xs) - k
    it.store(r, Seq(xs[k:] + xs[:k]))
    return UNIT


@m("Vec::split_off")
def _splitoff(it, args, I, rt, at):
    r = seqref(it, args[0])
    xs = it.load_g(r).xs
    k = integer(it, args[1])
    if k > len(xs):
        panic(it, "split_off")
    it.store(r, Seq(xs[:k]))
    return Seq(xs[k:])


@m("VecDeque::push_front")
def _pushfront(it, args, I, rt, at):
    r = seqref(it, args[0])
    it.store(r, it.lift(lambda v: Seq((args[1],) + v.xs), it.load_g(r)))
    return UNIT


@m("VecDeque::pop_front")
def _popfront(it, args, I, rt, at):
    r = seqref(it, args[0])
    v = it.load_g(r)
    if isinstance(v, Ite):
        raise Undecided("pop of gated queue")
    if not v.xs:
        return none(rt)
    it.store(r, Seq(v.xs[1:]))
    return some(v.xs[0], rt)


@m("hint::select_unpredictable")
def _selunp(it, args, I, rt, at):
    return it.gated(truth(it, args[0]), lambda c: args[1] if c else args[2])


@m("hint::must_use", "hint::black_box", "convert::identity")
def _ident(it, args, I, rt, at):
    return args[0]


@m("hint::assert_unchecked", "intrinsics::assume", "intrinsics::cold_path", "hint::cold_path")
def _assume(it, args, I, rt, at):
    return UNIT


@m("Box::call", "Box::call_mut", "Box::call_once")
def _boxcall(it, args, I, rt, at):
    f = it.rst(args[0])
    if isinstance(f, Ref):
        x = it.rst(it.load_g(f))
        if isinstance(x, Ref):
            f = x
    return it.call_value(f, list(it.rst(args[1]).fs))


@m("RefCell::borrow", "RefCell::borrow_mut", "Ref::deref", "RefMut::deref", "RefMut::deref_mut", "RefCell::get_mut", "Ref::clone")
def _refcell(it, args, I, rt, at):
    return cellref(it, args[0])


@m("RefCell::into_inner", "RefCell::take", "RefCell::replace")
def _refcellin(it, args, I, rt, at):
    r = cellref(it, args[0])
    v = it.load_g(r)
    n = normdef(I["def"])
    if n.endswith("take"):
        it.store(r, default_of(it, rt))
    elif n.endswith("replace"):
        it.store(r, args[1])
    return v


@m("intrinsics::ctpop", "intrinsics::ctlz", "intrinsics::cttz", "intrinsics::bswap", "intrinsics::bitreverse", "intrinsics::ctlz_nonzero", "intrinsics::cttz_nonzero")
def _bitint(it, args, I, rt, at):
    x = it.as_int(it.rst(args[0]))
    if not isinstance(x, int):
        raise Undecided("bit count of a symbolic value")
    n = it.p.ty(at[0])["b"]
    x &= (1 << n) - 1
    s = format(x, f"0{n}b")
    k = normdef(I["def"]).split("::")[-1].replace("_nonzero", "")
    if k == "ctpop":
        return s.count("1")
    if k == "ctlz":
        return n - x.bit_length()
    if k == "cttz":
        return n if x == 0 else (x & -x).bit_length() - 1
    if k == "bswap":
        return int.from_bytes(x.to_bytes(n // 8, "little"), "big")
    return int(s[::-1], 2)


@m("BTreeMap::range", "BTreeMap::range_mut", "BTreeSet::range")
def _btrange(it, args, I, rt, at):
    r = mref(it, args[0])
    v = it.load_g(r)
    q = it.rst(args[1])
    name = it.p.short(q.ty)
    f = [it.snap(x) for x in q.fs]

    def inside(k):
        if name == "RangeFull":
            return True
        lo = {"Range": 0, "RangeFrom": 0, "RangeInclusive": 0}.get(name)
        hi = {"Range": (1, False), "RangeTo": (0, False), "RangeInclusive": (1, True), "RangeToInclusive": (0, True)}.get(name)
        if lo is None and hi is None:
            raise Undecided(f"range {name}")
        if lo is not None and cmp_py(it, k, f[lo]) < 0:
            return False
        return hi is None or cmp_py(it, k, f[hi[0]]) < (1 if hi[1] else 0)
    ks = [k for k, _ in v.es if inside(k)]
    if normdef(I["def"]).startswith("BTreeSet"):
        return IterV("list", tuple(Ref(it.new(k, "k")) for k in ks))
    return IterV("list", tuple(tup(Ref(it.new(k, "k")), sext(r, ("map", k))) for k in ks))


@m("BTreeMap::first_key_value", "BTreeMap::last_key_value", "BTreeSet::first", "BTreeSet::last")
def _btends(it, args, I, rt, at):
    r = mref(it, args[0])
    v = it.load_g(r)
    if not v.es:
        return none(rt)
    n = normdef(I["def"])
    k = v.es[-1 if "last" in n else 0][0]
    kr = Ref(it.new(k, "k"))
    return some(kr if n.startswith("BTreeSet") else tup(kr, sext(r, ("map", k))), rt)


@m("HashSet::intersection", "HashSet::union", "HashSet::difference", "HashSet::symmetric_difference", "BTreeSet::intersection", "BTreeSet::union", "BTreeSet::difference", "BTreeSet::symmetric_difference",
   "HashSet::is_subset", "HashSet::is_superset", "HashSet::is_disjoint", "BTreeSet::is_subset", "BTreeSet::is_superset", "BTreeSet::is_disjoint")
def _setops(it, args, I, rt, at):
    a, b = val(it, args[0]), val(it, args[1])
    n = normdef(I["def"]).split("::")[-1]
    ain = [map_find(it, b, k) is not None for k, _ in a.es]
    bin_ = [map_find(it, a, k) is not None for k, _ in b.es]
    if n == "is_subset":
        return all(ain)
    if n == "is_superset":
        return all(bin_)
    if n == "is_disjoint":
        return not any(ain)
    one = [k for (k, _), q in zip(a.es, ain) if n == "union" or q == (n == "intersection")]
    two = [k for (k, _), q in zip(b.es, bin_) if not q and n in ("union", "symmetric_difference")]
    m0 = a.of(())
    for k in one + two:
        m0, _ = map_put(it, m0, k, UNIT)
    return IterV("list", tuple(Ref(it.new(k, "k")) for k, _ in order_map(it, m0)))


@m("Vec::dedup", "Vec::dedup_by_key")
def _dedup(it, args, I, rt, at):
    r = seqref(it, args[0])
    xs = it.load_g(r).xs
    f = it.box(args[1]) if len(args) > 1 else None
    key = [it.snap(it.call_value(f, [it.box(x)])) if f else it.snap(x) for x in xs]

    def go(i, kept):
        if i == len(xs):
            return Seq([xs[j] for j in kept])
        if not kept:
            return go(i + 1, [i])
        return it.gated(eq(key[kept[-1]], key[i]), lambda c: go(i + 1, kept if c else kept + [i]))
    it.store(r, go(0, []))
    return UNIT


@m("intrinsics::saturating_sub", "intrinsics::saturating_add")
def _satint(it, args, I, rt, at):
    a, b = (it.as_int(it.rst(x)) for x in args)
    if not (isinstance(a, int) and isinstance(b, int)):
        raise Undecided("saturating arithmetic on symbolic values")
    t = it.p.ty(rt)
    lo, hi = (0, (1 << t["b"]) - 1) if t["k"] == "uint" else (-(1 << (t["b"] - 1)), (1 << (t["b"] - 1)) - 1)
    v = a - b if normdef(I["def"]).endswith("sub") else a + b
    return min(max(v, lo), hi)


def _chr_class(fn):
    def g(it, args, I, rt, at):
        c = integer(it, val(it, args[0]) if not isinstance(args[0], int) else args[0])
        if c >= 128 and not getattr(fn, "everywhere", False):
            raise Undecided("class of a character outside ASCII")
        return fn(chr(c))
    return g


def _control(c):
    return ord(c) < 32 or 127 <= ord(c) < 160


def _acontrol(c):
    return ord(c) < 32 or ord(c) == 127


def _graphic(c):
    return 32 < ord(c) < 127


_control.everywhere = _acontrol.everywhere = _graphic.everywhere = True
for _n, _f in (("is_ascii_lowercase", str.islower), ("is_ascii_uppercase", str.isupper), ("is_ascii_digit", str.isdigit), ("is_ascii_alphabetic", str.isalpha), ("is_whitespace", lambda c: c in " \t\n\x0b\x0c\r"), ("is_control", _control), ("is_ascii_control", _acontrol), ("is_ascii_graphic", _graphic), ("is_ascii_punctuation", lambda c: 32 < ord(c) < 127 and not c.isalnum()),
               ("is_ascii_alphanumeric", str.isalnum), ("is_ascii_whitespace", lambda c: c in " \t\n\x0c\r"), ("is_alphabetic", str.isalpha), ("is_numeric", str.isdigit), ("is_alphanumeric", str.isalnum), ("is_uppercase", str.isupper), ("is_lowercase", str.islower)):
    D["char::" + _n] = _chr_class(_f)


@m("char::to_digit")
def _todigit(it, args, I, rt, at):
    c, n = integer(it, args[0]), integer(it, args[1])
    d = "0123456789abcdefghijklmnopqrstuvwxyz".find(chr(c).lower()) if c < 128 else -1
    return some(d, rt) if 0 <= d < n else none(rt)


@m("char::from_digit")
def _fromdigit(it, args, I, rt, at):
    d, n = integer(it, args[0]), integer(it, args[1])
    return some(ord("0123456789abcdefghijklmnopqrstuvwxyz"[d]), rt) if d < n else none(rt)


@m("Vec::reserve", "Vec::shrink_to_fit", "HashMap::reserve", "HashMap::shrink_to_fit")
def _reserve(it, args, I, rt, at):
    return UNIT


@m("Vec::extend_from_slice", "Vec::append")
def _extslice(it, args, I, rt, at):
    r = seqref(it, args[0])
    v = it.load_g(r)
    o = val(it, args[1])
    it.store(r, it.lift(lambda x, y: Seq(x.xs + seqxs(y)), v, o))
    if normdef(I["def"]).endswith("append"):
        it.store(seqref(it, args[1]), Seq(()))
    return UNIT


def seqxs(v):
    if isinstance(v, Seq):
        return v.xs
    if isinstance(v, Mat):
        return tuple(v.at(r, c) for c in range(v.nc) for r in range(v.nr))
    if isinstance(v, Str):
        return tuple(v.s.encode())
    raise Undecided(f"sequence {type(v).__name__}")


@ti("Extend::extend")
def _extend(it, args, I, rt, at):
    r = seqref(it, args[0])
    src = it.gated(args[1], lambda v: into_iter(it, v, None))
    e = pointee(it, at[0]) if at else None
    ea = it.p.ty(e).get("args") if e is not None and e >= 0 else None
    copied = bool(ea) and isinstance(ea[0], int) and it.p.ty(ea[0])["k"] not in ("ref", "ptr")

    def step(acc, x):
        v = it.load_g(r)
        if isinstance(v, MapV) and v.srt & 2:
            it.store(r, map_put(it, v, it.snap(x), UNIT)[0])
        elif isinstance(v, MapV):
            p = it.rst(x)
            nv, _ = map_put(it, v, it.snap(p.fs[0]), p.fs[1])
            it.store(r, nv)
        elif isinstance(v, Seq):
            it.store(r, Seq(v.xs + (val(it, x) if copied and isinstance(it.rst(x), Ref) and not boxlike(it, ea[0]) else x,)))
        else:
            it.store(r, it.lift(lambda y: Seq(y.xs + (x,)), v))
        return acc
    fold(it, src, UNIT, step)
    return UNIT


def boxlike(it, t):
    """types whose values are references in this model: Box, Rc, Arc"""
    return it.p.ty(t).get("name", "").split("::")[-1] in ("Box", "Rc", "Arc", "Cell", "RefCell", "Pin")


@m("Vec::as_slice", "Vec::as_mut_slice", "Vec::into_boxed_slice", "Vec::deref", "Vec::leak", "array::as_slice", "slice::into_vec", "slice::as_ref", "array::as_ref", "String::as_str", "str::as_bytes", "String::as_bytes", "str::as_ref", "String::into_bytes", "slice::to_vec", "str::to_string", "str::to_owned", "Path::to_path_buf", "PathBuf::as_path", "Path::new")
def _asslice(it, args, I, rt, at):
    n = normdef(I["def"]).split("::")[-1]
    if n in ("as_bytes", "into_bytes"):
        v = val(it, args[0])
        if isinstance(v, Str) and isinstance(v.s, str):
            q = Seq(list(v.s.encode()))
            return q if n == "into_bytes" else Ref(it.new(q))
    if n in ("to_vec", "to_string", "to_owned", "into_bytes"):
        return deepclone(it, val(it, args[0]))
    return args[0]


@m("Vec::len", "slice::len", "array::len", "str::len", "String::len", "HashMap::len", "BTreeMap::len", "Matrix::len", "VecDeque::len", "HashSet::len", "BTreeSet::len")
def _len(it, args, I, rt, at):
    return seq_len(it, val(it, args[0]))


@ti("ExactSizeIterator::len")
def _itlen(it, args, I, rt, at):
    n = 0

    def step(acc, x):
        return acc + 1
    return iter_len(it, val(it, args[0]))


@m("Vec::is_empty", "slice::is_empty", "str::is_empty", "String::is_empty", "HashMap::is_empty", "BTreeMap::is_empty", "Matrix::is_empty", "HashSet::is_empty", "BTreeSet::is_empty")
def _isempty(it, args, I, rt, at):
    return it.lift(lambda n: n == 0, seq_len(it, val(it, args[0])))


def rng_of(it, v, n):
    """(lo, hi) of a range value, n = length"""
    v = it.rst(v)
    if isinstance(v, Agg):
        name = it.p.short(v.ty) if known(v.ty) else "Range"
        f = [it.as_int(x) for x in v.fs]
        if name == "Range":
            return f[0], f[1]
        if name == "RangeFrom":
            return f[0], n
        if name == "RangeTo":
            return 0, f[0]
        if name == "RangeFull":
            return 0, n
        if name == "RangeInclusive":
            return f[0], f[1] + 1
        if name == "RangeToInclusive":
            return 0, f[0] + 1
    raise Undecided(f"range {v}")


@ti("Index::index", "IndexMut::index_mut")
def _index(it, args, I, rt, at):
    return it.lift(lambda i: index1(it, args, i), it.rst(args[1]))


def index1(it, args, i):
    r = mref(it, args[0])
    if isinstance(r, Ite):
        return it.lift(lambda rr: index2(it, rr, i), r)
    return index2(it, r, i)


def index2(it, r, i):
    v = it.load_g(r)
    if isinstance(v, Ite):
        v0 = next(l for _, l in leaves(v))
    else:
        v0 = v
    if isinstance(i, Ref):
        i = val(it, i)
    i = it.as_int(i)
    if isinstance(v0, MapV):
        k = it.snap(i)
        return it.lift(lambda w: map_ref(it, r, w, k, True), v)
    if isinstance(v0, Mat):
        if isinstance(i, Agg) and len(i.fs) == 2:
            a, b = (it.as_int(x) for x in i.fs)
            if isinstance(a, Ite) or isinstance(b, Ite):
                return it.lift(lambda p, q: index2(it, r, tup(p, q)), a, b)
            if not (isinstance(a, int) and isinstance(b, int)):
                raise Undecided("symbolic matrix index")
            if not (0 <= a < v0.nr and 0 <= b < v0.nc):
                panic(it, f"matrix index ({a},{b}) out of {v0.nr}x{v0.nc}")
            return sext(r, ("m", a, b))
        if not isinstance(i, int):
            raise Undecided("symbolic matrix index")
        if not 0 <= i < len(v0.xs):
            panic(it, f"matrix index {i} out of {v0.nr}x{v0.nc}")
        return sext(r, ("m", i % v0.nr, i // v0.nr))
    if isinstance(v0, Seq):
        if isinstance(i, int):
            if isinstance(v, Ite):
                def chk(w):
                    if not 0 <= i < len(w.xs):
                        raise Bottom()
                    return sext(r, ("idx", i))
                return it.lift(chk, v)
            if not 0 <= i < len(v0.xs):
                panic(it, f"index {i} out of {len(v0.xs)}")
            return sext(r, ("idx", i))
        if isinstance(i, Agg):
            lo, hi = rng_of(it, i, len(v0.xs))
            if not (isinstance(lo, int) and isinstance(hi, int)):
                raise Undecided("symbolic range")
            if not 0 <= lo <= hi <= len(v0.xs):
                panic(it, f"range {lo}..{hi} out of {len(v0.xs)}")
            return sext(r, ("win", lo, hi))
    if isinstance(v0, Str) and isinstance(i, Agg):
        lo, hi = rng_of(it, i, len(v0.s))
        return Ref(it.new(Str(v0.s[lo:hi])))
    if SP and isinstance(v0, SP[0][0]) and isinstance(i, Agg):
        p, q = (it.as_int(x) for x in i.fs)

        def stored(w):
            if (p, q) not in w.pat:
                panic(it, f"sparse entry ({p},{q}) is not stored")
            return Ref(it.new(w.m.at(p, q)))
        return it.lift(stored, v)
    raise Undecided(f"index {i} into {type(v0).__name__}")


@m("slice::get", "slice::get_mut", "Matrix::get", "Vec::get")
def _sget(it, args, I, rt, at):
    r = mref(it, args[0])
    v = it.load_g(r)
    i = it.as_int(it.rst(args[1]))

    def one(v, i):
        if isinstance(i, int) and isinstance(v, Seq):
            return some(sext(r, ("idx", i)), rt) if i < len(v.xs) else none(rt)
        if isinstance(i, int) and isinstance(v, Mat):
            return some(sext(r, ("m", i % v.nr, i // v.nr)), rt) if i < len(v.xs) else none(rt)
        if isinstance(i, Agg) and isinstance(v, Mat) and len(i.fs) == 2 and (not known(i.ty) or it.p.ty(i.ty)["k"] == "tuple"):
            a, b = (it.as_int(x) for x in i.fs)
            return some(sext(r, ("m", a, b)), rt) if a < v.nr and b < v.nc else none(rt)
        if isinstance(i, Agg):
            lo, hi = rng_of(it, i, len(v.xs))
            return some(sext(r, ("win", lo, hi)), rt) if lo <= hi <= len(v.xs) else none(rt)
        raise Undecided("get")
    return it.lift(one, v, i)


@m("slice::first", "slice::first_mut", "slice::last", "slice::last_mut")
def _sfirst(it, args, I, rt, at):
    r = mref(it, args[0])
    v = it.load_g(r)
    fst = "first" in normdef(I["def"])

    def one(v):
        if not v.xs:
            return none(rt)
        return some(sext(r, ("idx", 0 if fst else len(v.xs) - 1)), rt)
    return it.lift(one, v)


@m("slice::iter", "slice::iter_mut", "Vec::iter", "Vec::iter_mut", "array::iter", "Matrix::iter", "Matrix::iter_mut", "VecDeque::iter", "Option::iter")
def _iter(it, args, I, rt, at):
    return it.gated(it.rst(args[0]), lambda v: iter_refs(it, v))


def iter_refs(it, v):
    r = mref(it, v)
    if isinstance(r, Ite):
        return it.gated(r, lambda x: iter_refs(it, x))
    x = it.load_g(r)

    def one(w):
        if isinstance(w, Seq):
            return IterV("list", tuple(sext(r, ("idx", i)) for i in range(len(w.xs))))
        if isinstance(w, Mat):
            return IterV("list", tuple(sext(r, ("m", i % w.nr, i // w.nr)) for i in range(len(w.xs))))
        if isinstance(w, MapV):
            return map_iter(it, r, w)
        if isinstance(w, Agg) and len(w.fs) <= 1:
            return IterV("list", tuple(sext(sext(r, ("v", 1)), ("f", 0, None)) for _ in w.fs))
        if isinstance(w, IterV):
            return w
        raise Undecided(f"iteration over {type(w).__name__}")
    return it.lift(one, x)


def range_agg(it, v):
    n = it.p.short(v.ty) if known(v.ty) else ""
    return n in ("Range", "RangeInclusive", "RangeFrom")


def into_iter(it, v, at):
    v = it.rst(v)
    if isinstance(v, IterV):
        return v
    if isinstance(v, Ref):
        x = it.load_g(v)
        if isinstance(x, (Seq, Mat, MapV)):
            return iter_refs(it, v)
        if isinstance(x, Ref):
            return into_iter(it, x, at)
        if isinstance(x, MView):
            return iter_refs(it, x.ref)
        if isinstance(x, IterV) or isinstance(x, Agg) and range_agg(it, x):
            return IterV("byref", v)
        if isinstance(x, Agg) and len(x.fs) <= 1:
            return iter_refs(it, v)
        if isinstance(x, Ite):
            return it.lift(lambda y: iter_refs(it, v), x)
    if isinstance(v, Seq):
        return IterV("list", v.xs)
    if isinstance(v, MapV):
        return IterV("list", tuple(k if v.srt & 2 else tup(k, x) for k, x in order_map(it, v)))
    if isinstance(v, Mat):
        return IterV("list", seqxs(v))
    if isinstance(v, Agg):
        if range_agg(it, v):
            return range_iter(it, v)
        if len(v.fs) <= 1 and known(v.ty) and it.p.short(v.ty) in ("Option", "Result"):
            okv = 1 if it.p.short(v.ty) == "Option" else 0
            return IterV("list", v.fs if v.vi == okv else ())
        # a user-defined iterator
        return v
    raise Undecided(f"into_iter of {type(v).__name__} {str(v)[:60]}")


def range_iter(it, v):
    n = it.p.short(v.ty)
    lo = it.as_int(v.fs[0])
    if n == "RangeFrom":
        return IterV("range", lo, None)
    hi = it.as_int(v.fs[1])
    if n == "RangeInclusive":
        hi = hi + 1
    return IterV("range", lo, hi)


# ---- iterator stepping: Agg(-1,0,(option, next state))
def pr(o, i):
    return Agg(-1, 0, (o, i))


def nxt(it, v):
    v = it.rst(v)
    if isinstance(v, Ite):
        return it.gated(v, lambda x: nxt(it, x))
    if isinstance(v, Agg):
        if known(v.ty) and range_agg(it, v):
            n = it.p.short(v.ty)
            r = nxt(it, range_iter(it, v))

            def back(st):
                if n == "Range":
                    return Agg(v.ty, v.vi, (st.a[0],) + v.fs[1:])
                if n == "RangeFrom":
                    return Agg(v.ty, v.vi, (st.a[0],))
                return st
            return pr(r.fs[0], it.lift(back, r.fs[1]))
        return user_next(it, v)
    if not isinstance(v, IterV):
        raise Undecided(f"next of {type(v).__name__}")
    k, a = v.kind, v.a
    if k == "list":
        if not a[0]:
            return pr(none(), v)
        return pr(some(a[0][0]), IterV("list", a[0][1:]))
    if k == "range":
        lo, hi = a
        step = 1
        if hi is None:
            return pr(some(lo), IterV("range", lo + 1, None))
        if isinstance(lo, int) and isinstance(hi, int):
            if lo >= hi:
                return pr(none(), v)
            return pr(some(lo), IterV("range", lo + 1, hi))
        c = lt(lo, hi)
        nx = IterV("range", binop(it, "Add", lo, 1, {"k": "uint", "b": 64}), hi)
        return it.gated(c, lambda b: pr(some(lo), nx) if b else pr(none(), v))
    if k == "byref":
        st = it.load_g(a[0])
        p = nxt(it, st)
        it.store(a[0], it.lift(lambda q: q.fs[1], p) if isinstance(p, Ite) else p.fs[1])
        return pr(p.fs[0], v)
    if k == "map":
        inner, f = a
        return step1(it, nxt(it, inner), lambda x: some(it.call_value(f, [x])), lambda i: IterV("map", i, f))
    if k == "cloned":
        return step1(it, nxt(it, a[0]), lambda x: some(deepclone(it, it.deref(x))), lambda i: IterV("cloned", i))
    if k == "enumerate":
        inner, n = a
        return step1(it, nxt(it, inner), lambda x: some(tup(n, x)), lambda i: IterV("enumerate", i, n + 1 if isinstance(n, int) else add(n, ONE)))
    if k == "scan":
        inner, st, f = a
        return step1(it, nxt(it, inner), lambda x: it.call_value(f, [st, x]), lambda i: IterV("scan", i, st, f))
    if k == "inspect":
        inner, f = a

        def ins(x):
            it.call_value(f, [it.box(x)])
            return some(x)
        return step1(it, nxt(it, inner), ins, lambda i: IterV("inspect", i, f))
    if k == "zip":
        p = nxt(it, a[0])

        def haveA(o):
            if o.vi == 0:
                return pr(none(), v)
            q = nxt(it, a[1])
            return it.gated(q.fs[0], lambda o2: pr(none(), v) if o2.vi == 0 else pr(some(tup(o.fs[0], o2.fs[0])), IterV("zip", it.rst(p.fs[1]), it.rst(q.fs[1]))))
        return it.gated(p.fs[0], haveA)
    if k in ("filter", "filter_map", "skip_while"):
        inner, f = a
        p = nxt(it, inner)

        def go(o):
            i2 = it.rst(p.fs[1])
            if o.vi == 0:
                return pr(none(), IterV(k, i2, f))
            if k == "filter_map":
                r = it.call_value(f, [o.fs[0]])
                return it.gated(r, lambda q: pr(q, IterV(k, i2, f)) if q.vi == 1 else nxt(it, IterV(k, i2, f)))
            r = it.call_value(f, [it.box(o.fs[0])])
            if k == "skip_while":
                return it.gated(r, lambda b: nxt(it, IterV(k, i2, f)) if b else pr(o, i2))
            return it.gated(r, lambda b: pr(o, IterV(k, i2, f)) if b else nxt(it, IterV(k, i2, f)))
        return it.gated(p.fs[0], go)
    if k in ("take_while", "map_while"):
        inner, f = a
        p = nxt(it, inner)

        def go2(o):
            i2 = it.rst(p.fs[1])
            if o.vi == 0:
                return pr(none(), IterV("list", ()))
            if k == "map_while":
                r = it.call_value(f, [o.fs[0]])
                return it.gated(r, lambda q: pr(q, IterV(k, i2, f)) if q.vi == 1 else pr(none(), IterV("list", ())))
            r = it.call_value(f, [it.box(o.fs[0])])
            return it.gated(r, lambda b: pr(o, IterV(k, i2, f)) if b else pr(none(), IterV("list", ())))
        return it.gated(p.fs[0], go2)
    if k == "take":
        inner, n = a
        if n <= 0:
            return pr(none(), v)
        p = nxt(it, inner)
        return pr(p.fs[0], IterV("take", p.fs[1], n - 1))
    if k == "skip":
        inner, n = a
        for _ in range(n):
            inner = nxt(it, inner).fs[1]
        return nxt(it, inner)
    if k == "step_by":
        inner, n, first = a
        if not first:
            for _ in range(n - 1):
                inner = nxt(it, inner).fs[1]
        p = nxt(it, inner)
        return pr(p.fs[0], IterV("step_by", p.fs[1], n, False))
    if k == "chain":
        p = nxt(it, a[0])
        return it.gated(p.fs[0], lambda o: pr(o, IterV("chain", it.rst(p.fs[1]), a[1])) if o.vi == 1 else nxt(it, a[1]))
    if k == "flat_map":
        inner, f, cur = a
        if cur is not None:
            p = nxt(it, cur)
            return it.gated(p.fs[0], lambda o: pr(o, IterV(k, inner, f, it.rst(p.fs[1]))) if o.vi == 1 else nxt(it, IterV(k, inner, f, None)))
        p = nxt(it, inner)

        def go3(o):
            if o.vi == 0:
                return pr(none(), IterV(k, it.rst(p.fs[1]), f, None))
            r = it.call_value(f, [o.fs[0]]) if f is not None else o.fs[0]
            return nxt(it, IterV(k, it.rst(p.fs[1]), f, it.gated(r, lambda x: into_iter(it, x, None))))
        return it.gated(p.fs[0], go3)
    if k == "peek":
        inner, pk = a
        if pk is not None:
            return pr(pk, IterV("peek", inner, None))
        p = nxt(it, inner)
        return pr(p.fs[0], IterV("peek", p.fs[1], None))
    if k == "repeat":
        return pr(some(a[0]), v)
    if k == "once_with":
        return pr(some(it.call_value(a[0], [])), IterV("list", ()))
    if k == "from_fn":
        return pr(it.call_value(a[0], []), v)
    if k == "successors":
        cur, f = a
        return it.gated(cur, lambda o: pr(none(), v) if o.vi == 0 else pr(o, IterV(k, it.call_value(f, [it.box(o.fs[0])]), f)))
    if k == "cycle":
        orig, cur = a
        p = nxt(it, cur)
        return it.gated(p.fs[0], lambda o: pr(o, IterV(k, orig, it.rst(p.fs[1]))) if o.vi == 1 else (lambda q: pr(q.fs[0], IterV(k, orig, q.fs[1])))(nxt(it, orig)))
    raise Undecided(f"iterator {k}")


def step1(it, p, f, st):
    """apply f to the item if there is one"""
    def one(o):
        if o.vi == 0:
            return pr(none(), st(it.rst(p.fs[1])))
        r = f(o.fs[0])
        return pr(r, st(it.rst(p.fs[1])))
    return it.gated(p.fs[0], one)


def user_next(it, v):
    """`next` of an Iterator implemented in factrs or the harness"""
    s = it.p.ty(v.ty)["s"]
    for i, I in enumerate(it.p.insts):
        if I.get("ti", "").endswith("Iterator::next") and "body" in I and it.p.ty(pointee(it, I["body"]["locals"][1]) or -1)["s"] == s:
            r = it.box(v)
            o = it.run_body(i, [r])
            return pr(o, it.load_g(r))
    raise Undecided(f"iterator {s}")


def iter_len(it, v):
    n = [0]

    def go(v):
        if v.kind == "list":
            return len(v.a[0])
        if v.kind == "range" and all(isinstance(x, int) for x in v.a):
            return max(0, v.a[1] - v.a[0])
        if v.kind in ("map", "cloned", "enumerate", "inspect"):
            return go(it.rst(v.a[0]))
        if v.kind == "zip":
            return min(go(it.rst(v.a[0])), go(it.rst(v.a[1])))
        if v.kind == "chain":
            return go(it.rst(v.a[0])) + go(it.rst(v.a[1]))
        if v.kind == "take":
            return min(go(it.rst(v.a[0])), v.a[1])
        if v.kind == "skip":
            return max(0, go(it.rst(v.a[0])) - v.a[1])
        raise Undecided(f"length of {v.kind}")
    v = it.rst(v)
    if isinstance(v, Agg):
        v = range_iter(it, v)
    return go(v)


def rev_of(it, v):
    v = it.rst(v)
    if isinstance(v, Agg):
        v = range_iter(it, v)
    k, a = v.kind, v.a
    if k == "list":
        return IterV("list", tuple(reversed(a[0])))
    if k == "range" and all(isinstance(x, int) for x in a):
        return IterV("list", tuple(range(a[1] - 1, a[0] - 1, -1)))
    if k in ("map", "cloned", "filter", "filter_map", "inspect"):
        return IterV(k, rev_of(it, a[0]), *a[1:])
    if k == "enumerate":
        n = iter_len(it, a[0])
        return IterV("zip", IterV("list", tuple(range(a[1] + n - 1, a[1] - 1, -1))), rev_of(it, a[0]))
    if k == "zip":
        n = iter_len(it, v)
        la, lb = iter_len(it, a[0]), iter_len(it, a[1])
        return IterV("zip", IterV("skip", rev_of(it, a[0]), la - n), IterV("skip", rev_of(it, a[1]), lb - n))
    if k == "chain":
        return IterV("chain", rev_of(it, a[1]), rev_of(it, a[0]))
    raise Undecided(f"rev of {k}")


@ti("Iterator::next")
def _next(it, args, I, rt, at):
    r = it.as_ref(args[0])
    if isinstance(r, Ite):
        return it.gated(r, lambda x: _next(it, [x], I, rt, at))
    v = it.load_g(r)
    if isinstance(v, Ref):
        return _next(it, [v], I, rt, at)
    p = nxt(it, v)
    it.store(r, p.fs[1])
    return retype(p.fs[0], rt)


def retype(o, rt):
    if isinstance(o, Agg) and not known(o.ty) and rt is not None:
        return Agg(rt, o.vi, o.fs)
    return o


@ti("DoubleEndedIterator::next_back")
def _nextback(it, args, I, rt, at):
    r = it.as_ref(args[0])
    v = it.rst(it.load_g(r))
    if isinstance(v, Agg) and range_agg(it, v):
        lo, hi = it.as_int(v.fs[0]), it.as_int(v.fs[1])
        if lo >= hi:
            return none(rt)
        it.store(r, Agg(v.ty, v.vi, (lo, hi - 1)))
        return some(hi - 1, rt)
    if isinstance(v, IterV) and v.kind == "list":
        if not v.a[0]:
            return none(rt)
        it.store(r, IterV("list", v.a[0][:-1]))
        return some(v.a[0][-1], rt)
    p = nxt(it, rev_of(it, v))
    it.store(r, rev_of(it, p.fs[1]))
    return p.fs[0]


def adapter(name, build):
    def g(it, args, I, rt, at):
        return it.gated(args[0], lambda v: build(it, asiter(it, v), args))
    for tr in ("Iterator", "DoubleEndedIterator"):
        T[f"{tr}::{name}"] = g
        D[f"{tr}::{name}"] = g


def asiter(it, v):
    v = it.rst(v)
    if isinstance(v, Ref):
        return IterV("byref", v)
    if isinstance(v, Agg) and known(v.ty) and range_agg(it, v):
        return range_iter(it, v)
    return v


adapter("map", lambda it, v, a: IterV("map", v, it.box(a[1])))
adapter("cloned", lambda it, v, a: IterV("cloned", v))
adapter("copied", lambda it, v, a: IterV("cloned", v))
adapter("enumerate", lambda it, v, a: IterV("enumerate", v, 0))
adapter("scan", lambda it, v, a: IterV("scan", v, it.box(a[1]), it.box(a[2])))
adapter("inspect", lambda it, v, a: IterV("inspect", v, it.box(a[1])))
adapter("zip", lambda it, v, a: IterV("zip", v, it.gated(a[1], lambda x: into_iter(it, x, None))))
adapter("filter", lambda it, v, a: IterV("filter", v, it.box(a[1])))
adapter("filter_map", lambda it, v, a: IterV("filter_map", v, it.box(a[1])))
adapter("take_while", lambda it, v, a: IterV("take_while", v, it.box(a[1])))
adapter("skip_while", lambda it, v, a: IterV("skip_while", v, it.box(a[1])))
adapter("map_while", lambda it, v, a: IterV("map_while", v, it.box(a[1])))
adapter("take", lambda it, v, a: IterV("take", v, integer(it, a[1])))
adapter("skip", lambda it, v, a: IterV("skip", v, integer(it, a[1])))
adapter("step_by", lambda it, v, a: IterV("step_by", v, integer(it, a[1]), True))
adapter("chain", lambda it, v, a: IterV("chain", v, it.gated(a[1], lambda x: into_iter(it, x, None))))
adapter("flat_map", lambda it, v, a: IterV("flat_map", v, it.box(a[1]), None))
adapter("flatten", lambda it, v, a: IterV("flat_map", v, None, None))
adapter("peekable", lambda it, v, a: IterV("peek", v, None))
adapter("fuse", lambda it, v, a: v)
adapter("by_ref", lambda it, v, a: v)
adapter("rev", lambda it, v, a: rev_of(it, v))
adapter("cycle", lambda it, v, a: IterV("cycle", v, v))


@m("Peekable::peek", "Peekable::peek_mut")
def _peek(it, args, I, rt, at):
    r = it.as_ref(args[0])
    v = it.rst(it.load_g(r))
    if v.a[1] is None:
        p = nxt(it, v.a[0])
        v = IterV("peek", p.fs[1], p.fs[0])
        it.store(r, v)
    o = v.a[1]
    return it.lift(lambda q: none(rt) if q.vi == 0 else some(it.box(q.fs[0]), rt), o)


@m("iter::repeat")
def _repeat(it, args, I, rt, at):
    return IterV("repeat", args[0])


@m("iter::once")
def _once(it, args, I, rt, at):
    return IterV("list", (args[0],))


@m("iter::empty")
def _empty(it, args, I, rt, at):
    return IterV("list", ())


@m("iter::zip")
def _izip(it, args, I, rt, at):
    return IterV("zip", into_iter(it, args[0], None), into_iter(it, args[1], None))


@m("iter::from_fn")
def _ifromfn(it, args, I, rt, at):
    return IterV("from_fn", it.box(args[0]))


@m("iter::successors")
def _isucc(it, args, I, rt, at):
    return IterV("successors", args[0], it.box(args[1]))


@m("iter::repeat_n")
def _irepn(it, args, I, rt, at):
    return IterV("list", (args[0],) * integer(it, args[1]))


def fold(it, v, acc, step, limit=4000):
    """consume an iterator; step(acc, item)"""
    for _ in range(limit):
        p = nxt(it, v)
        o = it.rst(p.fs[0])
        if isinstance(o, Ite):
            def go(q):
                if q.vi == 0:
                    return acc
                a2 = step(acc, q.fs[0])
                return fold(it, it.rst(p.fs[1]), a2, step)
            return it.gated(o, go)
        if o.vi == 0:
            return acc
        acc = step(acc, o.fs[0])
        v = p.fs[1]
    raise Undecided("iterator too long")


class Stop(Exception):
    pass


def fold_short(it, v, step, end, limit=4000):
    """step(item) -> gated value: None to go on or ("done", value)"""
    p = nxt(it, v)

    def go(q):
        if q.vi == 0:
            return end
        c, r = step(q.fs[0])
        return it.gated(c, lambda b: r() if b else fold_short(it, it.rst(p.fs[1]), step, end))
    return it.gated(p.fs[0], go)


def consumer(name, f):
    def g(it, args, I, rt, at):
        return it.gated(args[0], lambda v: f(it, asiter(it, v), args, rt, I))
    for tr in ("Iterator", "DoubleEndedIterator", "ParallelIterator"):
        T[f"{tr}::{name}"] = g
        D[f"{tr}::{name}"] = g


def c_foreach(it, v, a, rt, I):
    f = it.box(a[1])

    def st(acc, x):
        it.call_value(f, [x])
        return acc
    return fold(it, v, UNIT, st)


def c_fold(it, v, a, rt, I):
    f = it.box(a[2])
    return fold(it, v, a[1], lambda acc, x: it.call_value(f, [acc, x]))


def c_sum(it, v, a, rt, I):
    t = it.p.ty(rt)
    if t["k"] == "adt" and t["name"] == "nalgebra::Matrix":
        d = mdims(it, rt)
        z = None
    else:
        z = zero_of(it, rt)

    def st(acc, x):
        x = val(it, x)
        return x if acc is None else it.lift(lambda p, q: arith(it, "+", p, q), acc, x)
    r = fold(it, v, z, st)
    if r is None:
        d = mdims(it, rt)
        r = Mat(d[0], d[1], [ZERO] * (d[0] * d[1]))
    return r


def c_product(it, v, a, rt, I):
    return fold(it, v, zero_of(it, rt, ONE), lambda acc, x: it.lift(lambda p, q: arith(it, "*", p, q), acc, val(it, x)))


def c_count(it, v, a, rt, I):
    return fold(it, v, 0, lambda acc, x: glift(lambda n: n + 1, acc))


def c_collect(it, v, a, rt, I):
    return collect(it, v, rt)


def collect(it, v, rt):
    t = it.p.ty(rt)
    n = t.get("name", "").split("::")[-1]
    if n in ("Vec", "VecDeque", "Box", "Rc") or t["k"] in ("array", "slice"):
        r = fold(it, v, Seq(()), lambda acc, x: it.lift(lambda s: Seq(s.xs + (x,)), acc))
        return it.box(r) if n in ("Box", "Rc") else r
    if n in ("HashMap", "AHashMap", "BTreeMap"):
        def st(acc, x):
            p = it.rst(x)
            return it.lift(lambda mv: map_put(it, mv, it.snap(p.fs[0]), p.fs[1])[0], acc)
        return fold(it, v, MapV((), mkind(n)), st)
    if n in ("HashSet", "AHashSet", "BTreeSet"):
        return fold(it, v, MapV((), mkind(n)), lambda acc, x: it.lift(lambda mv: map_put(it, mv, it.snap(x), UNIT)[0], acc))
    if n in ("Result", "Option"):
        inner = t["args"][0]
        good = 1 if n == "Option" else 0

        def st2(acc, x):
            x = it.rst(x)
            if isinstance(acc, Agg) and acc.vi == 9:
                return acc
            def one(o):
                if o.vi == good:
                    return it.lift(lambda s: Seq(s.xs + (o.fs[0],)), acc) if isinstance(acc, (Seq, Ite)) else acc
                return Agg(None, 9, (o,))
            return it.gated(x, one)
        r = fold(it, v, Seq(()), st2)

        def fin(s):
            if isinstance(s, Agg):
                return retype(Agg(rt, s.fs[0].vi, s.fs[0].fs), rt)
            return Agg(rt, good, (collect(it, IterV("list", s.xs), inner),))
        return it.gated(r, fin)
    if n == "String":
        def st3(acc, x):
            x = val(it, x)
            return Str(acc.s + (x.s if isinstance(x, Str) else chr(integer(it, x))))
        return fold(it, v, Str(""), st3)
    if n == "Matrix":
        r = fold(it, v, Seq(()), lambda acc, x: it.lift(lambda s: Seq(s.xs + (x,)), acc))
        return it.lift(lambda s: Mat(len(s.xs), 1, s.xs), r)
    if n == "Values" or n:
        raise Undecided(f"collect into {t['s']}")
    raise Undecided("collect")


def c_any(it, v, a, rt, I):
    f = it.box(a[1])
    return fold_short(it, v, lambda x: (it.call_value(f, [x]), lambda: True), False)


def c_all(it, v, a, rt, I):
    f = it.box(a[1])
    return fold_short(it, v, lambda x: (notv(it.call_value(f, [x])), lambda: False), True)


def c_find(it, v, a, rt, I):
    f = it.box(a[1])
    return fold_short(it, v, lambda x: (it.call_value(f, [it.box(x)]), lambda: some(x, rt)), none(rt))


def c_findmap(it, v, a, rt, I):
    f = it.box(a[1])

    def st(x):
        r = it.call_value(f, [x])
        return it.lift(lambda o: o.vi == 1, r), lambda: r
    return fold_short(it, v, st, none(rt))


def c_position(it, v, a, rt, I):
    f = it.box(a[1])
    return fold_short(it, IterV("enumerate", v, 0), lambda x: (it.call_value(f, [x.fs[1]]), lambda: some(x.fs[0], rt)), none(rt))


def c_last(it, v, a, rt, I):
    return fold(it, v, none(rt), lambda acc, x: some(x, rt))


def c_nth(it, v, a, rt, I):
    raise Undecided("nth")


def c_reduce(it, v, a, rt, I):
    f = it.box(a[1])

    def st(acc, x):
        return it.gated(acc, lambda o: some(x, rt) if o.vi == 0 else some(it.call_value(f, [o.fs[0], x]), rt))
    return fold(it, v, none(rt), st)


def c_minmax(mx, key=False, by=False):
    def g(it, v, a, rt, I):
        f = it.box(a[1]) if (key or by) else None

        def st(acc, x):
            k = it.call_value(f, [it.box(x)]) if key else val(it, x) if not by else None

            def one(o):
                if o.vi == 0:
                    return some(tup(x, k if k is not None else UNIT), rt)
                ox, ok_ = o.fs[0].fs
                if by:
                    c = it.call_value(f, [it.box(ox), it.box(x)])
                    b = it.lift(lambda q: q.vi != 2 if mx else q.vi == 2, c)
                else:
                    b = notv(lt(k, ok_)) if mx else lt(k, ok_)
                return it.gated(b, lambda t: some(tup(x, k if k is not None else UNIT), rt) if t else o)
            return it.gated(acc, one)
        r = fold(it, v, none(rt), st)
        return it.gated(r, lambda o: none(rt) if o.vi == 0 else some(o.fs[0].fs[0], rt))
    return g


def c_unzip(it, v, a, rt, I):
    t = it.p.ty(rt)
    r = fold(it, v, tup(Seq(()), Seq(())), lambda acc, x: tup(Seq(acc.fs[0].xs + (it.rst(x).fs[0],)), Seq(acc.fs[1].xs + (it.rst(x).fs[1],))))
    return r


def c_tryfold(it, v, a, rt, I):
    raise Undecided("try_fold")


for _n, _f in dict(for_each=c_foreach, fold=c_fold, sum=c_sum, product=c_product, count=c_count, collect=c_collect, any=c_any, all=c_all,
                   find=c_find, find_map=c_findmap, position=c_position, last=c_last, reduce=c_reduce, max=c_minmax(True), min=c_minmax(False),
                   max_by_key=c_minmax(True, key=True), min_by_key=c_minmax(False, key=True), max_by=c_minmax(True, by=True),
                   min_by=c_minmax(False, by=True), unzip=c_unzip).items():
    consumer(_n, _f)


@ti("Iterator::nth")
def _nth(it, args, I, rt, at):
    r = it.as_ref(args[0])
    n = integer(it, args[1])
    v = it.load_g(r)
    for _ in range(n):
        v = nxt(it, v).fs[1]
    p = nxt(it, v)
    it.store(r, p.fs[1])
    return p.fs[0]


D["Iterator::nth"] = _nth


@ti("Sum::sum")
def _sumtr(it, args, I, rt, at):
    return it.gated(args[0], lambda v: c_sum(it, asiter(it, v), args, rt, I))


@ti("FromIterator::from_iter")
def _fromiter(it, args, I, rt, at):
    return it.gated(args[0], lambda v: collect(it, into_iter(it, v, None), rt))


@m("slice::to_vec")
def _tovec(it, args, I, rt, at):
    return deepclone(it, val(it, args[0]))


@m("slice::copy_from_slice", "slice::clone_from_slice")
def _cfs(it, args, I, rt, at):
    r = mref(it, args[0])
    a, b = it.load_g(r), val(it, args[1])
    if seq_len(it, a) != seq_len(it, b):
        panic(it, "copy_from_slice lengths differ")
    it.store(r, it.lift(lambda s: Seq(seqxs(s)), b))
    return UNIT


@m("slice::fill", "Matrix::fill")
def _fill(it, args, I, rt, at):
    r = mref(it, args[0])
    a = it.load_g(r)
    x = args[1]
    it.store(r, it.lift(lambda s: Mat(s.nr, s.nc, [x] * len(s.xs)) if isinstance(s, Mat) else Seq([x] * len(s.xs)), a))
    return UNIT


@m("slice::swap")
def _sswap(it, args, I, rt, at):
    r = mref(it, args[0])
    i, j = integer(it, args[1]), integer(it, args[2])
    v = it.load_g(r)
    xs = list(v.xs)
    xs[i], xs[j] = xs[j], xs[i]
    it.store(r, Seq(xs))
    return UNIT


@m("slice::reverse")
def _srev(it, args, I, rt, at):
    r = mref(it, args[0])
    it.store(r, Seq(tuple(reversed(it.load_g(r).xs))))
    return UNIT


@m("slice::contains", "Vec::contains")
def _contains(it, args, I, rt, at):
    v, x = val(it, args[0]), val(it, args[1])
    r = False
    for y in seqxs(v):
        r = glift(lambda p, q: p or q, r, eq(val(it, y), x))
    return r


@m("slice::windows", "slice::chunks", "slice::chunks_exact")
def _windows(it, args, I, rt, at):
    r = mref(it, args[0])
    n = integer(it, args[1])
    k = len(it.load_g(r).xs)
    if normdef(I["def"]).endswith("windows"):
        return IterV("list", tuple(sext(r, ("win", i, i + n)) for i in range(0, k - n + 1)))
    ex = normdef(I["def"]).endswith("exact")
    return IterV("list", tuple(sext(r, ("win", i, min(i + n, k))) for i in range(0, k, n) if not ex or i + n <= k))


@m("slice::split_at", "slice::split_at_mut")
def _splitat(it, args, I, rt, at):
    r = mref(it, args[0])
    n = integer(it, args[1])
    k = len(it.load_g(r).xs)
    return tup(sext(r, ("win", 0, n)), sext(r, ("win", n, k)))


@m("slice::sort", "slice::sort_unstable", "slice::sort_by_key", "slice::sort_unstable_by_key", "slice::sort_by", "slice::sort_unstable_by")
def _sort(it, args, I, rt, at):
    r = mref(it, args[0])
    v = it.load_g(r)
    n = normdef(I["def"])
    xs = list(v.xs)
    if len(xs) <= 1:
        return UNIT
    if n.endswith("_by"):
        f = it.box(args[1])

        def cmpf(a, b):
            o = it.rst(it.call_value(f, [it.box(a), it.box(b)]))
            if isinstance(o, Ite):
                raise Undecided("symbolic sort")
            return o.vi - 1
    else:
        f = it.box(args[1]) if n.endswith("key") else None

        def cmpf(a, b):
            ka, kb = (it.snap(it.call_value(f, [it.box(x)])) if f else it.snap(x) for x in (a, b))
            return cmp_py(it, ka, kb)
    it.store(r, Seq(sorted(xs, key=functools.cmp_to_key(cmpf))))
    return UNIT


def cmp_py(it, a, b):
    """-1, 0, 1 as Ord::cmp decides on concrete values; a comparison that depends on inputs is undecided"""
    o = ord3(it, a, b)
    if isinstance(o, Ite):
        raise Undecided("symbolic sort key")
    return o.vi - 1


def ordering(k):
    return Agg(None, k + 1, ())


def user_impl(it, v, name):
    """the implementation in factrs of a library trait's method for v's type"""
    if isinstance(v, Agg) and known(v.ty):
        s = it.p.ty(v.ty)["s"]
        return it.p.impls.get((s, name))
    return None


def ord3(it, a, b, depth=0):
    a, b = it.rst(a), it.rst(b)
    if isinstance(a, Ite) or isinstance(b, Ite):
        return it.lift(lambda x, y: ord3(it, x, y), a, b)
    if isinstance(a, Ref) or isinstance(b, Ref):
        return ord3(it, val(it, a), val(it, b))
    if isinstance(a, Agg) and isinstance(b, Agg):
        i = user_impl(it, a, "std::cmp::Ord::cmp")
        if i is not None:
            return it.run_body(i, [it.box(a), it.box(b)])
        i = user_impl(it, a, "std::cmp::PartialOrd::partial_cmp")
        if i is not None:
            return it.lift(lambda o: o.fs[0] if o.vi == 1 else ordering(0), it.run_body(i, [it.box(a), it.box(b)]))
        if known(a.ty) and it.p.ty(a.ty)["k"] == "adt" and it.p.ty(a.ty).get("crate") in LOCAL:
            raise Undecided(f"order of {it.p.ty(a.ty)['s']}")
        if known(a.ty) and it.p.short(a.ty) == "Reverse":
            return ord3(it, b.fs[0], a.fs[0])
        if a.vi != b.vi:
            return ordering(-1 if a.vi < b.vi else 1)
        return lex(it, a.fs, b.fs)
    if isinstance(a, Seq) and isinstance(b, Seq):
        r = lex(it, a.xs, b.xs)
        n = len(a.xs) - len(b.xs)
        return r if n == 0 else it.lift(lambda o: o if o.vi != 1 else ordering(-1 if n < 0 else 1), r)
    if isinstance(a, Str) and isinstance(b, Str) and isinstance(a.s, str) and isinstance(b.s, str):
        x, y = a.s.encode(), b.s.encode()
        return ordering((x > y) - (x < y))
    return S.cmp3(a, b)


def lex(it, xs, ys):
    if not xs or not ys:
        return ordering(0)
    o = ord3(it, xs[0], ys[0])
    return it.gated(o, lambda q: lex(it, xs[1:], ys[1:]) if q.vi == 1 else q)


@m("slice::iter_sum")
def _nosum(it, args, I, rt, at):
    raise Undecided("?")


@m("slice::concat", "slice::join")
def _concat(it, args, I, rt, at):
    v = val(it, args[0])
    return Seq(sum((tuple(seqxs(val(it, x))) for x in v.xs), ()))


@m("Vec::drain")
def _drain(it, args, I, rt, at):
    r = seqref(it, args[0])
    v = it.load_g(r)
    lo, hi = rng_of(it, args[1], len(v.xs))
    it.store(r, Seq(v.xs[:lo] + v.xs[hi:]))
    return IterV("list", v.xs[lo:hi])


@m("Vec::retain")
def _retain(it, args, I, rt, at):
    r = seqref(it, args[0])
    v = it.load_g(r)
    f = it.box(args[1])
    xs = []
    for x in v.xs:
        c = it.rst(it.call_value(f, [it.box(x)]))
        if isinstance(c, Ite):
            raise Undecided("symbolic retain")
        if c:
            xs.append(x)
    it.store(r, Seq(xs))
    return UNIT


@m("array::map")
def _amap(it, args, I, rt, at):
    v = val(it, args[0])
    f = it.box(args[1])
    return Seq([it.call_value(f, [x]) for x in v.xs])


@m("array::from_fn")
def _afromfn(it, args, I, rt, at):
    t = it.p.ty(rt)
    n = t["n"] if isinstance(t.get("n"), int) else t["n"]["c"]
    f = it.box(args[0])
    return Seq([it.call_value(f, [i]) for i in range(n)])


# ---------------------------------------------------------------- Option / Result
def optm(names):
    def w(f):
        def g(it, args, I, rt, at):
            return it.gated(args[0], lambda o: f(it, o, args, rt, I))
        for n in names:
            D[n] = g
        return f
    return w


def is_good(it, o, I):
    return (o.vi == 1) if normdef(I["def"]).startswith("Option") else (o.vi == 0)


def need_agg(o):
    if isinstance(o, Agg):
        return o
    raise Undecided(f"option expected, got {type(o).__name__}")


@optm(["Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Option::unwrap_unchecked"])
def _unwrap(it, o, args, rt, I):
    need_agg(o)
    if is_good(it, o, I):
        return o.fs[0]
    panic(it, normdef(I["def"]))


@optm(["Result::unwrap_err", "Result::expect_err"])
def _unwraperr(it, o, args, rt, I):
    if o.vi == 1:
        return o.fs[0]
    panic(it, "unwrap_err")


@optm(["Option::unwrap_or", "Result::unwrap_or"])
def _unwrapor(it, o, args, rt, I):
    return o.fs[0] if is_good(it, o, I) else args[1]


@optm(["Option::unwrap_or_else", "Result::unwrap_or_else"])
def _unwraporelse(it, o, args, rt, I):
    if is_good(it, o, I):
        return o.fs[0]
    return it.call_value(args[1], list(o.fs) if normdef(I["def"]).startswith("Result") else [])


@optm(["Option::unwrap_or_default", "Result::unwrap_or_default"])
def _unwrapordef(it, o, args, rt, I):
    return o.fs[0] if is_good(it, o, I) else default_of(it, rt)


@optm(["Option::map", "Result::map"])
def _omap(it, o, args, rt, I):
    if is_good(it, o, I):
        return Agg(rt, o.vi, (it.call_value(args[1], [o.fs[0]]),))
    return Agg(rt, o.vi, o.fs)


@optm(["Result::map_err"])
def _omaperr(it, o, args, rt, I):
    if o.vi == 1:
        return Agg(rt, 1, (it.call_value(args[1], [o.fs[0]]),))
    return Agg(rt, 0, o.fs)


@optm(["Option::map_or", "Result::map_or"])
def _omapor(it, o, args, rt, I):
    return it.call_value(args[2], [o.fs[0]]) if is_good(it, o, I) else args[1]


@optm(["Option::map_or_else", "Result::map_or_else"])
def _omaporelse(it, o, args, rt, I):
    return it.call_value(args[2], [o.fs[0]]) if is_good(it, o, I) else it.call_value(args[1], list(o.fs) if normdef(I["def"]).startswith("Result") else [])


@optm(["Option::and_then", "Result::and_then"])
def _oandthen(it, o, args, rt, I):
    return it.call_value(args[1], [o.fs[0]]) if is_good(it, o, I) else Agg(rt, o.vi, o.fs)


@optm(["Option::and"])
def _oand(it, o, args, rt, I):
    return args[1] if is_good(it, o, I) else Agg(rt, o.vi, o.fs)


@optm(["Option::or"])
def _oor(it, o, args, rt, I):
    return o if is_good(it, o, I) else args[1]


@optm(["Option::or_else", "Result::or_else"])
def _oorelse(it, o, args, rt, I):
    return Agg(rt, o.vi, o.fs) if is_good(it, o, I) else it.call_value(args[1], list(o.fs) if normdef(I["def"]).startswith("Result") else [])


@optm(["Option::ok_or", "Option::ok_or_else"])
def _okor(it, o, args, rt, I):
    if o.vi == 1:
        return ok(o.fs[0], rt)
    return err(args[1] if normdef(I["def"]).endswith("ok_or") else it.call_value(args[1], []), rt)


@optm(["Result::ok"])
def _rok(it, o, args, rt, I):
    return some(o.fs[0], rt) if o.vi == 0 else none(rt)


@optm(["Result::err"])
def _rerr(it, o, args, rt, I):
    return some(o.fs[0], rt) if o.vi == 1 else none(rt)


@optm(["Option::filter"])
def _ofilter(it, o, args, rt, I):
    if o.vi == 0:
        return o
    return it.gated(it.call_value(args[1], [it.box(o.fs[0])]), lambda c: o if c else none(rt))


@optm(["Option::flatten"])
def _oflatten(it, o, args, rt, I):
    return none(rt) if o.vi == 0 else o.fs[0]


@optm(["Option::zip"])
def _ozip(it, o, args, rt, I):
    return it.gated(args[1], lambda p: some(tup(o.fs[0], p.fs[0]), rt) if o.vi == 1 and p.vi == 1 else none(rt))


@optm(["Option::is_some_and"])
def _oissomeand(it, o, args, rt, I):
    return it.call_value(args[1], [o.fs[0]]) if o.vi == 1 else False


@optm(["Option::is_none_or"])
def _oisnoneor(it, o, args, rt, I):
    return it.call_value(args[1], [o.fs[0]]) if o.vi == 1 else True


@optm(["Option::cloned", "Option::copied"])
def _ocloned(it, o, args, rt, I):
    return none(rt) if o.vi == 0 else some(deepclone(it, it.deref(o.fs[0])), rt)


def on_ref(names, f):
    def g(it, args, I, rt, at):
        r = it.as_ref(args[0])
        v = it.load_g(r)
        return it.gated(v, lambda o: f(it, r, o, args, rt, I))
    for n in names:
        D[n] = g


on_ref(["Option::is_some", "Result::is_ok"], lambda it, r, o, a, rt, I: is_good(it, o, I))
on_ref(["Option::is_none", "Result::is_err"], lambda it, r, o, a, rt, I: not is_good(it, o, I))
on_ref(["Option::as_ref", "Option::as_mut", "Option::as_deref", "Option::as_deref_mut", "Result::as_ref", "Result::as_mut"],
       lambda it, r, o, a, rt, I: asref(it, r, o, rt, I))


def asref(it, r, o, rt, I):
    if not o.fs:
        return Agg(rt, o.vi, ())
    x = sext(sext(r, ("v", o.vi)), ("f", 0, None))
    if "deref" in normdef(I["def"]):
        y = it.rst(o.fs[0])
        if isinstance(y, Ref):
            x = y
    return Agg(rt, o.vi, (x,))


def otake(it, r, o, a, rt, I):
    it.store(r, none(rt))
    return Agg(rt, o.vi, o.fs)


def oreplace(it, r, o, a, rt, I):
    it.store(r, some(a[1], rt))
    return Agg(rt, o.vi, o.fs)


def oinsert(it, r, o, a, rt, I):
    it.store(r, some(a[1], o.ty))
    return sext(sext(r, ("v", 1)), ("f", 0, None))


def ogetorinsert(it, r, o, a, rt, I):
    if o.vi == 0:
        n = normdef(I["def"])
        it.store(r, some(a[1] if not n.endswith("with") else it.call_value(a[1], []), o.ty))
    return sext(sext(r, ("v", 1)), ("f", 0, None))


on_ref(["Option::take"], otake)
on_ref(["Option::replace"], oreplace)
on_ref(["Option::insert"], oinsert)
on_ref(["Option::get_or_insert", "Option::get_or_insert_with"], ogetorinsert)


@ti("Try::branch")
def _trybranch(it, args, I, rt, at):
    def one(o):
        # ControlFlow: Continue = 0, Break = 1
        t = it.p.ty(rt)
        opt = "Option" in it.p.ty(at[0])["s"][:24] if at else len(o.fs) == 0
        good = o.vi == (1 if opt else 0)
        if good:
            return Agg(rt, 0, (o.fs[0],))
        return Agg(rt, 1, (Agg(None, o.vi, o.fs),))
    return it.lift(one, it.rst(args[0]))


@ti("FromResidual::from_residual")
def _fromres(it, args, I, rt, at):
    def one(o):
        if o.fs:
            # error conversion through From
            return Agg(rt, o.vi, (convert_err(it, o.fs[0], I, rt, at),))
        return Agg(rt, o.vi, ())
    return it.gated(args[0], one)


def convert_err(it, e, I, rt, at):
    t = it.p.ty(rt)
    src = it.p.ty(at[0]) if at else None
    if src is not None and t["k"] == "adt" and src["k"] == "adt":
        a, b = src["args"][-1], t["args"][-1]
        if a != b:
            want = it.p.ty(b)["s"]
            for k, J in enumerate(it.p.insts):
                if J.get("ti", "").endswith("From::from") and "body" in J and it.p.ty(J["body"]["locals"][0])["s"] == want and J["body"]["locals"][1] == a:
                    return it.run_body(k, [e])
            if "Box<dyn" in want:
                return it.box(e)
    return e


@ti("Try::from_output")
def _fromout(it, args, I, rt, at):
    t = it.p.ty(rt)
    return Agg(rt, 1 if t["name"].endswith("Option") else 0, (args[0],))


@m("Box::drop", "Rc::drop", "Vec::drop", "Arc::drop")
def _boxdrop(it, args, I, rt, at):
    return UNIT


# ---------------------------------------------------------------- maps
def order_map(it, v):
    es = list(v.es)
    if it.map_order and not v.srt & 1:
        es = it.map_order(es)
    return es


def mkind(n):
    """MapV.srt: bit 0 for the sorted containers, bit 1 for sets"""
    return (1 if n.startswith("BTree") else 0) | (2 if n.endswith("Set") else 0)


def map_iter(it, r, v):
    if v.srt & 2:
        return IterV("list", tuple(Ref(it.new(k, "k")) for k, _ in order_map(it, v)))
    return IterV("list", tuple(tup(Ref(it.new(k, "k")), sext(r, ("map", k))) for k, _ in order_map(it, v)))


def map_find(it, v, k):
    """key lookup: all stored keys must be decidably equal to or different from k"""
    for kk, x in v.es:
        e = eq(kk, k)
        if e is True:
            return kk
        if e is not False:
            raise Undecided("symbolic map key")
    return None


def map_put(it, v, k, x):
    kk = map_find(it, v, k)
    if kk is None:
        if v.srt & 1:
            i = 0
            while i < len(v.es) and cmp_py(it, v.es[i][0], k) < 0:
                i += 1
            return v.of(v.es[:i] + ((k, x),) + v.es[i:]), None
        return v.of(v.es + ((k, x),)), None
    old = dict(v.es)[kk]
    return v.of([(a, x if a == kk else b) for a, b in v.es]), old


def map_ref(it, r, v, k, must=False):
    kk = map_find(it, v, k)
    if kk is None:
        if must:
            panic(it, "map index")
        return None
    return sext(r, ("map", kk))


def mapm(names):
    def w(f):
        def g(it, args, I, rt, at):
            r = mref(it, args[0])
            return it.gated(r, lambda rr: it.gated(it.load_g(rr), lambda v: f(it, rr, v, args, rt, I)))
        for n in names:
            for c in ("HashMap", "BTreeMap"):
                D[c + "::" + n] = g
        return f
    return w


@m("HashMap::new", "HashMap::with_hasher", "HashMap::with_capacity", "HashMap::with_capacity_and_hasher", "BTreeMap::new", "HashSet::new", "HashSet::with_hasher", "BTreeSet::new")
def _mapnew(it, args, I, rt, at):
    return MapV((), mkind(normdef(I["def"]).split("::")[0]))


@m("RandomState::new", "RandomState::with_seeds", "RandomState::with_seed")
def _rs(it, args, I, rt, at):
    return Agg(rt, 0, ())


@mapm(["insert"])
def _minsert(it, r, v, args, rt, I):
    nv, old = map_put(it, v, it.snap(args[1]), args[2])
    it.store(r, nv)
    return none(rt) if old is None else some(old, rt)


def setm(*names):
    def w(f):
        def g(it, args, I, rt, at):
            r = mref(it, args[0])
            return it.gated(r, lambda rr: it.gated(it.load_g(rr), lambda v: f(it, rr, v, args, rt, I)))
        for n in names:
            for c in ("HashSet", "BTreeSet"):
                D[c + "::" + n] = g
        return f
    return w


@setm("insert")
def _sinsert(it, r, v, args, rt, I):
    k = it.snap(args[1])
    new = map_find(it, v, k) is None
    it.store(r, map_put(it, v, k, UNIT)[0])
    return new


@setm("contains")
def _scontains(it, r, v, args, rt, I):
    return map_find(it, v, it.snap(args[1])) is not None


@setm("remove")
def _sremove(it, r, v, args, rt, I):
    kk = map_find(it, v, it.snap(args[1]))
    if kk is None:
        return False
    it.store(r, v.of([(a, b) for a, b in v.es if a != kk]))
    return True


@setm("iter")
def _siter(it, r, v, args, rt, I):
    return map_iter(it, r, v)


@mapm(["get", "get_mut"])
def _mget(it, r, v, args, rt, I):
    q = map_ref(it, r, v, it.snap(args[1]))
    return none(rt) if q is None else some(q, rt)


@mapm(["get_key_value"])
def _mgetkv(it, r, v, args, rt, I):
    k = it.snap(args[1])
    q = map_ref(it, r, v, k)
    return none(rt) if q is None else some(tup(it.box(k), q), rt)


@mapm(["contains_key"])
def _mcontains(it, r, v, args, rt, I):
    return map_find(it, v, it.snap(args[1])) is not None


@mapm(["remove"])
def _mremove(it, r, v, args, rt, I):
    kk = map_find(it, v, it.snap(args[1]))
    if kk is None:
        return none(rt)
    old = dict(v.es)[kk]
    it.store(r, v.of([(a, b) for a, b in v.es if a != kk]))
    return some(old, rt)


@mapm(["remove_entry"])
def _mremovee(it, r, v, args, rt, I):
    kk = map_find(it, v, it.snap(args[1]))
    if kk is None:
        return none(rt)
    old = dict(v.es)[kk]
    it.store(r, v.of([(a, b) for a, b in v.es if a != kk]))
    return some(tup(kk, old), rt)


@mapm(["iter", "iter_mut"])
def _miter(it, r, v, args, rt, I):
    return map_iter(it, r, v)


@mapm(["keys"])
def _mkeys(it, r, v, args, rt, I):
    return IterV("list", tuple(Ref(it.new(k, "k")) for k, _ in order_map(it, v)))


@mapm(["values", "values_mut"])
def _mvalues(it, r, v, args, rt, I):
    return IterV("list", tuple(sext(r, ("map", k)) for k, _ in order_map(it, v)))


@mapm(["into_keys"])
def _minkeys(it, r, v, args, rt, I):
    return IterV("list", tuple(k for k, _ in order_map(it, v)))


@mapm(["into_values"])
def _minvalues(it, r, v, args, rt, I):
    return IterV("list", tuple(x for _, x in order_map(it, v)))


@mapm(["drain"])
def _mdrain(it, r, v, args, rt, I):
    it.store(r, v.of(()))
    return IterV("list", tuple(tup(k, x) for k, x in order_map(it, v)))


@mapm(["retain"])
def _mretain(it, r, v, args, rt, I):
    f = it.box(args[1])
    es = []
    for k, x in order_map(it, v):
        c = it.rst(it.call_value(f, [it.box(k), sext(r, ("map", k))]))
        if isinstance(c, Ite):
            raise Undecided("symbolic retain")
        if c:
            es.append((k, map_value(it, it.load_g(r), k)))
    keep = {k for k, _ in es}
    it.store(r, v.of([(k, map_value(it, it.load_g(r), k)) for k, _ in v.es if k in keep]))
    return UNIT


@mapm(["entry"])
def _mentry(it, r, v, args, rt, I):
    k = it.snap(args[1])
    # std orders the variants differently for the two maps
    return Agg(rt, int((map_find(it, v, k) is not None) == normdef(I["def"]).startswith("BTreeMap")), (Agg(None, 0, (Term("entry"), r, k)),))


def entrym(names, types=("Entry",)):
    def w(f):
        def g(it, args, I, rt, at):
            e = it.rst(args[0])
            if isinstance(e, Ref):
                e = it.load(e)
            while isinstance(e.fs[0], Agg):
                e = e.fs[0]
            _, r, k = e.fs
            return f(it, r, k, args, rt)
        for n in names:
            for c in types:
                D[c + "::" + n] = g
        return f
    return w


@entrym(["or_insert"])
def _eori(it, r, k, args, rt):
    v = it.load_g(r)
    if map_find(it, v, k) is None:
        it.store(r, map_put(it, v, k, args[1])[0])
    return map_ref(it, r, it.load_g(r), k)


@entrym(["or_insert_with"])
def _eoriw(it, r, k, args, rt):
    v = it.load_g(r)
    if map_find(it, v, k) is None:
        it.store(r, map_put(it, v, k, it.call_value(args[1], []))[0])
    return map_ref(it, r, it.load_g(r), k)


@entrym(["or_default"])
def _eord(it, r, k, args, rt):
    v = it.load_g(r)
    if map_find(it, v, k) is None:
        it.store(r, map_put(it, v, k, default_of(it, pointee(it, rt)))[0])
    return map_ref(it, r, it.load_g(r), k)


@entrym(["and_modify"])
def _eam(it, r, k, args, rt):
    v = it.load_g(r)
    kk = map_find(it, v, k)
    if kk is not None:
        it.call_value(args[1], [sext(r, ("map", kk))])
    return args[0]


from . import models_la  # noqa: E402,F401  (linear algebra summaries register themselves)
from . import models_faer  # noqa: E402,F401
from . import models_text  # noqa: E402,F401
from . import models_more  # noqa: E402,F401


OV = ("OccupiedEntry", "VacantEntry")


@entrym(["key"], ("Entry",) + OV)
def _ekey(it, r, k, args, rt):
    return it.box(k)


@entrym(["get", "get_mut", "into_mut"], ("OccupiedEntry",))
def _eget(it, r, k, args, rt):
    return map_ref(it, r, it.load_g(r), k)


@entrym(["insert"], ("OccupiedEntry",))
def _eins(it, r, k, args, rt):
    nv, old = map_put(it, it.load_g(r), k, args[1])
    it.store(r, nv)
    return old


@entrym(["insert"], ("VacantEntry",))
def _einsv(it, r, k, args, rt):
    it.store(r, map_put(it, it.load_g(r), k, args[1])[0])
    return map_ref(it, r, it.load_g(r), k)


@entrym(["remove"], ("OccupiedEntry",))
def _erem(it, r, k, args, rt):
    v = it.load_g(r)
    kk = map_find(it, v, k)
    old = dict(v.es)[kk]
    it.store(r, v.of([(a, b) for a, b in v.es if a != kk]))
    return old


@m("char::from_u32", "methods::from_u32", "convert::from_u32")
def _fromu32(it, args, I, rt, at):
    v = val(it, args[0])
    if isinstance(v, int):
        return some(v, rt) if v < 0x110000 and not 0xD800 <= v < 0xE000 else none(rt)
    if isinstance(v, Bits):
        nm = v.bs[0][0] if isinstance(v.bs[0], tuple) else None
        if nm and nm.startswith("char:") and v.bs[:21] == tuple((nm, i) for i in range(21)) and not any(v.bs[21:]):
            return some(v, rt)
        # part of a character's bits: some inputs give a different or no character
        return Ite(catom("unk", ("valid char", v.bs)), some(v, rt), none(rt))
    raise Undecided("char from unknown integer")
