"""Further summaries of std and nalgebra functions."""
from . import models as M, scalar as S
from .models import (m, D, val, mref, integer, some, none, tup, panic, normdef, sext, fold, fold_short, consumer, into_iter, IterV, seqxs, UNIT, rev_of,
                     asiter, ord3, seqref, rng_of)
from .models_la import mfun, short, _cut, block
from .values import *
from .scalar import add, mul, ZERO, glift, eq, lt


def _rfind(it, v, a, rt, I):
    if isinstance(v, IterV) and v.kind == "byref":
        r, v = v.a[0], asiter(it, it.load_g(v.a[0]))
        it.store(r, Term("consumed from the back"))
    return M.c_find(it, rev_of(it, v), a, rt, I)


def _items(it, v):
    return fold(it, v, (), lambda acc, x: acc + (x,))


def _order(it, v, a):
    """lexicographic comparison of two sequences: -1, 0, 1 (gated)"""
    xs, ys = _items(it, v), _items(it, it.gated(a[1], lambda x: into_iter(it, x, None)))
    if not isinstance(xs, tuple) or not isinstance(ys, tuple):
        raise Undecided("comparison of sequences of unknown length")

    def go(i):
        if i == len(xs) or i == len(ys):
            return (len(xs) > len(ys)) - (len(xs) < len(ys))
        return it.gated(ord3(it, val(it, xs[i]), val(it, ys[i])), lambda o: go(i + 1) if o.vi == 1 else o.vi - 1)
    return go(0)


def _seqcmp(f):
    return lambda it, v, a, rt, I: glift(f, _order(it, v, a))


consumer("rfind", _rfind)
consumer("eq", _seqcmp(lambda c: c == 0))
consumer("ne", _seqcmp(lambda c: c != 0))
consumer("lt", _seqcmp(lambda c: c < 0))
consumer("le", _seqcmp(lambda c: c <= 0))
consumer("gt", _seqcmp(lambda c: c > 0))
consumer("ge", _seqcmp(lambda c: c >= 0))
consumer("cmp", lambda it, v, a, rt, I: glift(lambda c: Agg(rt, c + 1, ()), _order(it, v, a)))


@m("slice::rchunks", "slice::rchunks_exact")
def _rchunks(it, args, I, rt, at):
    r = mref(it, args[0])
    n = integer(it, args[1])
    k = len(it.load_g(r).xs)
    ex = normdef(I["def"]).endswith("exact")
    return IterV("list", tuple(sext(r, ("win", max(i - n, 0), i)) for i in range(k, 0, -n) if not ex or i - n >= 0))


D["slice::split_at_unchecked"] = D["slice::split_at_mut_unchecked"] = D["slice::split_at"]


@m("Cow::into_owned", "Cow::to_mut")
def _cowowned(it, args, I, rt, at):
    v = it.rst(args[0])
    if short(I) == "to_mut":
        raise Undecided("Cow::to_mut")
    return it.gated(v, lambda c: it.deref_clone(c.fs[0]) if False else (c.fs[0] if c.vi == 1 else val(it, c.fs[0])))


@m("intrinsics::rotate_left", "intrinsics::rotate_right")
def _rot(it, args, I, rt, at):
    a, n = it.as_int(it.rst(args[0])), it.as_int(it.rst(args[1]))
    if not (isinstance(a, int) and isinstance(n, int)):
        raise Undecided("rotation of symbolic bits")
    t = it.p.ty(rt)
    b = t["b"]
    n %= b
    if short(I) == "rotate_right":
        n = (b - n) % b
    u = a & ((1 << b) - 1)
    u = (u << n | u >> (b - n)) & ((1 << b) - 1)
    return u - (1 << b) if t["k"] != "uint" and u >> (b - 1) else u


@m("intrinsics::bswap", "intrinsics::bitreverse")
def _bswap(it, args, I, rt, at):
    a = it.as_int(it.rst(args[0]))
    if not isinstance(a, int):
        raise Undecided("byte swap of symbolic bits")
    t = it.p.ty(rt)
    b = t["b"]
    u = a & ((1 << b) - 1)
    u = int.from_bytes(u.to_bytes(b // 8, "little"), "big") if short(I) == "bswap" else int(format(u, f"0{b}b")[::-1], 2)
    return u - (1 << b) if t["k"] != "uint" and u >> (b - 1) else u


@m("Vec::splice")
def _splice(it, args, I, rt, at):
    r = seqref(it, args[0])
    v = it.load_g(r)
    lo, hi = rng_of(it, args[1], len(v.xs))
    new = _items(it, it.gated(args[2], lambda x: into_iter(it, x, None)))
    if not isinstance(new, tuple):
        raise Undecided("splice of unknown length")
    it.store(r, Seq(v.xs[:lo] + new + v.xs[hi:]))
    return IterV("list", v.xs[lo:hi])


_sum0 = M.c_sum


def _sum(it, v, a, rt, I):
    t = it.p.ty(rt)
    n = t.get("name", "").split("::")[-1]
    if n not in ("Option", "Result"):
        return _sum0(it, v, a, rt, I)
    good = 1 if n == "Option" else 0
    z = M.zero_of(it, t["args"][0])

    def st(acc, x):
        return it.gated(acc, lambda p: p if p.vi != good else it.gated(it.rst(x), lambda q: Agg(rt, q.vi, q.fs) if q.vi != good else
                        Agg(rt, good, (it.lift(lambda u, w: M.arith(it, "+", u, w), p.fs[0], val(it, q.fs[0])),))))
    return fold(it, v, Agg(rt, good, (z,)), st)


consumer("sum", _sum)


# ---------------------------------------------------------------- nalgebra
@m("Matrix::rows_with_step", "Matrix::columns_with_step")
def _steps(it, args, I, rt, at):
    v = val(it, args[0])
    i, n, s = (integer(it, a) for a in args[1:4])
    rows = short(I).startswith("row")

    def one(x):
        ks = [i + k * (s + 1) for k in range(n)]
        if ks and ks[-1] >= (x.nr if rows else x.nc):
            panic(it, short(I))
        if rows:
            return Mat(n, x.nc, [x.at(k, c) for k in ks for c in range(x.nc)])
        return Mat(x.nr, n, [x.at(r, k) for r in range(x.nr) for k in ks])
    return it.lift(one, v)


@m("Matrix::add_to", "Matrix::sub_to")
def _addto(it, args, I, rt, at):
    f = S.add if short(I) == "add_to" else S.sub
    a, b = val(it, args[0]), val(it, args[1])
    it.store(mref(it, args[2]), it.lift(lambda x, y: Mat(x.nr, x.nc, [f(p, q) for p, q in zip(x.xs, y.xs)]), a, b))
    return UNIT


@m("Matrix::cmpy", "Matrix::cdpy")
def _cmpy(it, args, I, rt, at):
    r = mref(it, args[0])
    f = S.mul if short(I) == "cmpy" else S.div
    al, a, b, be = (val(it, x) for x in args[1:5])
    it.store(r, it.lift(lambda v, x, y: Mat(v.nr, v.nc, [add(mul(al, f(p, q)), mul(be, e)) for e, p, q in zip(v.xs, x.xs, y.xs)]), it.load_g(r), a, b))
    return UNIT


@mfun("inf")
def _inf(it, xs, rt):
    return Mat(xs[0].nr, xs[0].nc, [S.fmin(p, q) for p, q in zip(xs[0].xs, xs[1].xs)])


@mfun("sup")
def _sup(it, xs, rt):
    return Mat(xs[0].nr, xs[0].nc, [S.fmax(p, q) for p, q in zip(xs[0].xs, xs[1].xs)])


@m("Matrix::cap_magnitude")
def _capmag(it, args, I, rt, at):
    v, mx = val(it, args[0]), val(it, args[1])
    n = D["Matrix::norm"](it, args[:1], I, rt, at)
    return it.gated(lt(mx, n), lambda b: it.lift(lambda x: Mat(x.nr, x.nc, [mul(e, S.div(mx, n)) for e in x.xs]), v) if b else v)


@m("LU::try_inverse_to", "Matrix::try_inverse_mut")
def _invmut(it, args, I, rt, at):
    from .models_la import inverse
    if short(I) != "try_inverse_mut":
        raise Undecided(short(I))
    r = mref(it, args[0])
    it.store(r, it.lift(lambda x: inverse(it, x), it.load_g(r)))
    return True


_ins0 = D["Matrix::insert_fixed_rows"]


def _insfixed(it, args, I, rt, at):
    """the number of rows or columns is a const argument"""
    n = short(I)
    k = next((x["c"] for x in I["args"] if isinstance(x, dict) and isinstance(x.get("c"), int)), None)
    if k is None:
        return _ins0(it, args, I, rt, at)
    v = val(it, args[0])
    rows, fill = "row" in n, None if n.startswith("remove") else val(it, args[-1])
    i = integer(it, args[1])
    if i + (k if fill is None else 0) > (v.nr if rows else v.nc):
        panic(it, n)
    return _cut(v, i, i + k, 0, 0, fill) if rows else _cut(v, 0, 0, i, i + k, fill)


for _n in ("insert_fixed_rows", "remove_fixed_rows", "insert_fixed_columns", "remove_fixed_columns"):
    D["Matrix::" + _n] = _insfixed


@mfun("row_mean")
def _rowmean(it, xs, rt):
    v = xs[0]
    return Mat(1, v.nc, [S.div(_tot([v.at(i, j) for i in range(v.nr)]), M.alg.const(v.nr)) for j in range(v.nc)])


@mfun("column_mean")
def _colmean(it, xs, rt):
    v = xs[0]
    return Mat(v.nr, 1, [S.div(_tot([v.at(i, j) for j in range(v.nc)]), M.alg.const(v.nc)) for i in range(v.nr)])


def _tot(xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


def _arg(better, absol=False):
    def g(it, args, I, rt, at):
        v = val(it, args[0])

        def one(x):
            n, es = short(I), [S.abs_(e) if absol else e for e in x.xs]
            full = n.endswith("full")
            # column-major scan, first among equals
            idx = [(i, j) for j in range(x.nc) for i in range(x.nr)]
            e = lambda p: es[p[0] * x.nc + p[1]]

            def go(k, b):
                if k == len(idx):
                    if full:
                        return tup(*b)
                    i = b[0] if x.nc == 1 else b[1]
                    return tup(i, e(b)) if n.startswith("arg") else i
                return it.gated(better(e(idx[k]), e(b)), lambda t: go(k + 1, idx[k] if t else b))
            return go(1, idx[0])
        return it.lift(one, v) if not isinstance(v, Ite) else it.gated(v, one)
    return g


_gt = lambda a, b: lt(b, a)
for _n, _g in (("imax", _arg(_gt)), ("imin", _arg(lt)), ("argmax", _arg(_gt)), ("argmin", _arg(lt)), ("iamax", _arg(_gt, True)), ("iamin", _arg(lt, True)),
               ("iamax_full", _arg(_gt, True)), ("icamax", _arg(_gt, True)), ("icamax_full", _arg(_gt, True))):
    D["Matrix::" + _n] = _g


def _repr(it, args, I, rt, at):
    a, b = M.dimval(it, args[0], at[0] if at else None), M.dimval(it, args[1], at[1] if at else None)
    if a != b:
        return none(rt)
    t = it.p.ty(rt)["args"][0]
    return some(Agg(t, 0, (a,)) if M.cdim(it, t) is None else Agg(t, 0, ()), rt)


for _n in ("SameNumberOfRows", "SameNumberOfColumns", "DimEq"):
    D[_n + "::representative"] = _repr


@m("slice::first_chunk", "slice::last_chunk", "slice::split_first_chunk", "slice::split_last_chunk", "slice::first_chunk_mut", "slice::last_chunk_mut")
def _chunk(it, args, I, rt, at):
    r = mref(it, args[0])
    n = next((x["c"] for x in I["args"] if isinstance(x, dict) and isinstance(x.get("c"), int)), None)
    if n is None:
        raise Undecided(short(I))
    k = len(it.load_g(r).xs)
    if n > k:
        return none(rt)
    nm = short(I)
    cut = n if "first" in nm else k - n
    l, h = sext(r, ("win", 0, cut)), sext(r, ("win", cut, k))
    if nm.startswith("split"):
        return some(tup(l, h), rt) if "first" in nm else some(tup(l, h), rt)
    return some(l if "first" in nm else h, rt)


def _dimop(f):
    def g(it, args, I, rt, at):
        v = f(M.dimval(it, args[0], at[0] if at else None), M.dimval(it, args[1], at[1] if at else None))
        return Agg(rt, 0, (v,)) if M.cdim(it, rt) is None else Agg(rt, 0, ())
    return g


for _n, _f in (("add", lambda a, b: a + b), ("sub", lambda a, b: a - b), ("mul", lambda a, b: a * b), ("min", min), ("max", max)):
    M.T[f"Dim{_n.capitalize()}::{_n}"] = _dimop(_f)
