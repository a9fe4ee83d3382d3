"""Summaries of nalgebra, num-dual and faer."""
from fractions import Fraction
from . import alg, scalar as S, models as M
from .models import (m, ti, T, D, pure, val, mref, integer, dimval, mdims, cdim, some, none, ok, err, tup, panic, normdef, mm, ew, arith,
                     zero_of, elem_zero, sext, into_iter, fold, IterV, seqxs, known, UNIT, deepclone)
from .alg import Expr
from .values import *
from .scalar import add, sub, mul, div, neg, ZERO, ONE, glift, eq, lt, isz


def short(I):
    return normdef(I["def"]).split("::")[-1]


def shape(it, rt, args, I):
    """dimensions of the matrix being built: static from the type, dynamic from the leading arguments"""
    d = mdims(it, rt)
    if d is None:
        raise Undecided(f"dimensions of {it.p.ty(rt)['s']}")
    r, c = d
    i = 0
    if "generic" in short(I):
        r, c = dimval(it, args[0]), dimval(it, args[1])
        return r, c, args[2:]
    if r is None:
        r = integer(it, args[i])
        i += 1
    if c is None:
        c = integer(it, args[i])
        i += 1
    return r, c, args[i:]


@m("Matrix::zeros", "Matrix::zeros_generic")
def _zeros(it, args, I, rt, at):
    r, c, _ = shape(it, rt, args, I)
    z = elem_zero(it, rt)
    return Mat(r, c, [z] * (r * c))


@m("Matrix::identity", "Matrix::identity_generic")
def _identity(it, args, I, rt, at):
    r, c, _ = shape(it, rt, args, I)
    t = it.p.ty(rt)["args"][0]
    return Mat(r, c, [zero_of(it, t, ONE if i == j else ZERO) for i in range(r) for j in range(c)])


@m("Matrix::from_element", "Matrix::repeat", "Matrix::from_element_generic", "Matrix::repeat_generic")
def _fromelem(it, args, I, rt, at):
    r, c, rest = shape(it, rt, args, I)
    return Mat(r, c, [rest[0]] * (r * c))


@m("Matrix::from_diagonal_element", "Matrix::from_diagonal_element_generic")
def _fromdiagel(it, args, I, rt, at):
    r, c, rest = shape(it, rt, args, I)
    t = it.p.ty(rt)["args"][0]
    return Mat(r, c, [rest[0] if i == j else zero_of(it, t) for i in range(r) for j in range(c)])


@m("Matrix::from_partial_diagonal", "Matrix::from_partial_diagonal_generic")
def _frompdiag(it, args, I, rt, at):
    r, c, rest = shape(it, rt, args, I)
    xs = seqxs(val(it, rest[0]))
    return Mat(r, c, [xs[i] if i == j and i < len(xs) else ZERO for i in range(r) for j in range(c)])


@m("Matrix::from_diagonal")
def _fromdiag(it, args, I, rt, at):
    v = val(it, args[0])
    t = it.p.ty(rt)["args"][0]
    n = len(v.xs)
    return Mat(n, n, [v.xs[i] if i == j else zero_of(it, t) for i in range(n) for j in range(n)])


@m("Matrix::from_fn", "Matrix::from_fn_generic")
def _fromfn(it, args, I, rt, at):
    r, c, rest = shape(it, rt, args, I)
    f = it.box(rest[0])
    xs = [None] * (r * c)
    for j in range(c):
        for i in range(r):
            xs[i * c + j] = it.call_value(f, [i, j])
    return Mat(r, c, xs)


def colmajor(r, c, xs):
    return Mat(r, c, [xs[j * r + i] for i in range(r) for j in range(c)])


@m("Matrix::from_iterator", "Matrix::from_iterator_generic", "Matrix::from_row_iterator")
def _fromiter(it, args, I, rt, at):
    r, c, rest = shape(it, rt, args, I)
    src = it.gated(rest[0], lambda v: into_iter(it, v, None))
    xs = []
    v = src
    for _ in range(r * c):
        p = M.nxt(it, v)
        o = it.rst(p.fs[0])
        if isinstance(o, Ite):
            raise Undecided("symbolic iterator length")
        if o.vi == 0:
            panic(it, "from_iterator: not enough elements")
        xs.append(o.fs[0])
        v = p.fs[1]
    return Mat(r, c, xs) if "row" in short(I) else colmajor(r, c, xs)


@m("Matrix::from_vec", "Matrix::from_vec_generic", "Matrix::from_column_slice", "Matrix::from_column_slice_generic", "Matrix::from_row_slice", "Matrix::from_row_slice_generic")
def _fromvec(it, args, I, rt, at):
    d = mdims(it, rt)
    n = short(I)
    if "generic" not in n and d[0] is None and d[1] == 1 and len(args) == 1:
        xs = seqxs(val(it, args[0]))
        return Mat(len(xs), 1, xs)
    r, c, rest = shape(it, rt, args, I)
    xs = seqxs(val(it, rest[0]))
    if len(xs) < r * c or (len(xs) != r * c):
        panic(it, "matrix slice length")
    return Mat(r, c, xs) if "row" in n else colmajor(r, c, xs)


@m("VecStorage::new", "Matrix::from_vec_storage", "Matrix::from_array_storage", "Matrix::from_data", "VecStorage::from_vec")
def _storage(it, args, I, rt, at):
    n = normdef(I["def"])
    if n == "VecStorage::new":
        r, c = dimval(it, args[0], at[0] if at else None), dimval(it, args[1], at[1] if at else None)
        return colmajor(r, c, seqxs(val(it, args[2])))
    v = it.rst(args[0])
    if isinstance(v, Mat):
        return v
    v = val(it, v)
    if isinstance(v, Mat):
        return v
    if isinstance(v, Seq):
        if v.xs and isinstance(v.xs[0], Seq):
            return M.to_matrix(it, v, rt)
    if isinstance(v, Agg) and len(v.fs) == 1:
        return M.to_matrix(it, v.fs[0], rt)
    raise Undecided("matrix storage")


@m("Matrix::new", "Matrix::vector")
def _new(it, args, I, rt, at):
    r, c = mdims(it, rt)
    if r is None or c is None:
        raise Undecided("Matrix::new dynamic")
    if len(args) != r * c:
        raise Undecided("Matrix::new arity")
    return Mat(r, c, args)


@m("Dyn::new", "Dyn")
def _dynnew(it, args, I, rt, at):
    return Agg(rt, 0, (args[0],))


def unit(k):
    def g(it, args, I, rt, at):
        r, c = mdims(it, rt)
        t = it.p.ty(rt)["args"][0]
        return Mat(r, c, [zero_of(it, t, ONE if i == k else ZERO) for i in range(r * c)])
    return g


for _k, _n in enumerate(["x", "y", "z", "w", "a", "b"]):
    D["Matrix::" + _n] = unit(_k)


@m("Matrix::nrows")
def _nrows(it, args, I, rt, at):
    return it.lift(lambda v: v.nr, val(it, args[0]))


@m("Matrix::ncols")
def _ncols(it, args, I, rt, at):
    return it.lift(lambda v: v.nc, val(it, args[0]))


@m("Matrix::shape")
def _shape(it, args, I, rt, at):
    return it.lift(lambda v: tup(v.nr, v.nc), val(it, args[0]))


@m("Matrix::shape_generic")
def _shapeg(it, args, I, rt, at):
    return it.lift(lambda v: tup(Agg(None, 0, (v.nr,)), Agg(None, 0, (v.nc,))), val(it, args[0]))


@ti("Dim::value", "Dim::try_to_usize", "DimName::dim", "DimName::name", "Dim::from_usize", "DimName::try_to_usize")
def _dimvalue(it, args, I, rt, at):
    n = M.ti_key(I["ti"]).split("::")[1]
    if n == "value":
        return dimval(it, args[0], M.pointee(it, at[0]) if at else None)
    if n == "from_usize":
        return Agg(rt, 0, (args[0],)) if cdim(it, rt) is None else Agg(rt, 0, ())
    t = None
    for a in I.get("args", []):
        if isinstance(a, int) and cdim(it, a) is not None:
            t = cdim(it, a)
    if t is None:
        import re
        q = re.search(r"Const<(\d+)>", I["name"])
        t = int(q.group(1)) if q else None
    if n == "try_to_usize":
        return none(rt) if t is None else some(t, rt)
    if n == "dim":
        return t
    return Agg(rt, 0, ())


# ---- views
def block(it, v, r0, c0, nr, nc):
    if r0 < 0 or c0 < 0 or r0 + nr > v.nr or c0 + nc > v.nc:
        panic(it, f"view {nr}x{nc} at ({r0},{c0}) out of {v.nr}x{v.nc}")
    return Mat(nr, nc, [v.at(r0 + r, c0 + c) for r in range(nr) for c in range(nc)])


def region(it, v, I, rt, args):
    """(r0, c0, nr, nc) of a view call"""
    n = short(I).replace("_mut", "")
    ints = lambda k: integer(it, args[k])
    if n in ("as_view", "full"):
        return 0, 0, v.nr, v.nc
    if n == "rows":
        return ints(1), 0, ints(2), v.nc
    if n == "columns":
        return 0, ints(1), v.nr, ints(2)
    if n == "row":
        return ints(1), 0, 1, v.nc
    if n == "column":
        return 0, ints(1), v.nr, 1
    if n in ("rows_range", "columns_range"):
        lo, hi = M.rng_of(it, args[1], v.nr if n[0] == "r" else v.nc)
        return (lo, 0, hi - lo, v.nc) if n[0] == "r" else (0, lo, v.nr, hi - lo)
    if n in ("view", "slice"):
        a, b = it.rst(args[1]), it.rst(args[2])
        return tuple(integer(it, x) for x in (a.fs[0], a.fs[1], b.fs[0], b.fs[1]))
    if n in ("view_range",):
        l1, h1 = M.rng_of(it, args[1], v.nr)
        l2, h2 = M.rng_of(it, args[2], v.nc)
        return l1, l2, h1 - l1, h2 - l2
    if n == "generic_view":
        a, b = it.rst(args[1]), it.rst(args[2])
        return integer(it, a.fs[0]), integer(it, a.fs[1]), dimval(it, b.fs[0]), dimval(it, b.fs[1])
    if n in ("rows_generic", "columns_generic"):
        k = dimval(it, args[2])
        return (ints(1), 0, k, v.nc) if n[0] == "r" else (0, ints(1), v.nr, k)
    d = mdims(it, rt)
    if n in ("fixed_view", "fixed_slice"):
        return ints(1), ints(2), d[0], d[1]
    if n == "fixed_rows":
        return ints(1), 0, d[0], v.nc
    if n == "fixed_columns":
        return 0, ints(1), v.nr, d[1]
    if n == "row_part":
        return ints(1), 0, 1, ints(2)
    if n == "column_part":
        return 0, ints(1), ints(2), 1
    raise Undecided(f"view {n}")


VIEWS = ["as_view", "rows", "columns", "row", "column", "view", "slice", "generic_view", "fixed_view", "fixed_slice", "fixed_rows", "fixed_columns",
         "view_range", "rows_generic", "columns_generic", "rows_range", "columns_range", "row_part", "column_part"]


def _view(it, args, I, rt, at):
    v = val(it, args[0])
    return it.lift(lambda x: block(it, x, *region(it, x, I, rt, args)), v)


def _viewmut(it, args, I, rt, at):
    r = mref(it, args[0])
    v = val(it, r)
    if isinstance(v, Ite):
        v = next(l for _, l in leaves(v))
    a = region(it, v, I, rt, args)
    block(it, v, *a)
    return MView(sext(r, ("blk",) + tuple(a)))


for _n in VIEWS:
    D["Matrix::" + _n] = _view
    D["Matrix::" + _n + "_mut"] = _viewmut


@m("Matrix::as_slice")
def _asslice(it, args, I, rt, at):
    return sext(mref(it, args[0]), ("cm",))


D["Matrix::as_mut_slice"] = _asslice
D["Matrix::data"] = _asslice


@m("Matrix::clone_owned", "Matrix::into_owned", "Matrix::clone_owned_sum", "Matrix::into_owned_sum")
def _cloneowned(it, args, I, rt, at):
    return val(it, args[0])


@m("Matrix::reshape_generic")
def _reshape(it, args, I, rt, at):
    v = val(it, args[0])
    return colmajor(dimval(it, args[1]), dimval(it, args[2]), seqxs(v))


@m("Matrix::copy_from", "Matrix::tr_copy_from", "Matrix::copy_from_slice")
def _copyfrom(it, args, I, rt, at):
    r = mref(it, args[0])
    a, b = val(it, r), val(it, args[1])

    def one(x, y):
        if isinstance(y, Seq):
            y = colmajor(x.nr, x.nc, y.xs)
        if short(I).startswith("tr_"):
            y = transpose(y)
        if (x.nr, x.nc) != (y.nr, y.nc):
            panic(it, f"copy_from: {x.nr}x{x.nc} from {y.nr}x{y.nc}")
        return y
    it.store(r, it.lift(one, a, b))
    return UNIT


def transpose(v):
    return Mat(v.nc, v.nr, [v.at(i, j) for j in range(v.nc) for i in range(v.nr)])


def mfun(*names):
    def w(f):
        g = pure(f)
        for n in names:
            D["Matrix::" + n] = g
        return f
    return w


@mfun("transpose", "adjoint")
def _transpose(it, xs, rt):
    return transpose(xs[0])


def dotv(a, b):
    s = None
    for x, y in zip(a, b):
        p = mul(x, y)
        s = p if s is None else add(s, p)
    return ZERO if s is None else s


@mfun("dot", "dotc")
def _dot(it, xs, rt):
    if len(xs[0].xs) != len(xs[1].xs):
        panic(it, "dot dimensions")
    return dotv(xs[0].xs, xs[1].xs)


@mfun("norm_squared", "magnitude_squared")
def _norm2(it, xs, rt):
    return dotv(xs[0].xs, xs[0].xs)


@mfun("norm", "magnitude")
def _norm(it, xs, rt):
    return S.sqrt(dotv(xs[0].xs, xs[0].xs))


@mfun("metric_distance")
def _mdist(it, xs, rt):
    d = ew(it, sub, xs[0], xs[1])
    return S.sqrt(dotv(d.xs, d.xs))


@mfun("normalize")
def _normalize(it, xs, rt):
    n = S.sqrt(dotv(xs[0].xs, xs[0].xs))
    return Mat(xs[0].nr, xs[0].nc, [div(x, n) for x in xs[0].xs])


@mfun("sum")
def _sum(it, xs, rt):
    s = zero_of(it, rt)
    for x in xs[0].xs:
        s = add(s, x)
    return s


@mfun("mean")
def _mean(it, xs, rt):
    return div(_sum(it, xs, rt), alg.const(len(xs[0].xs)))


@mfun("product")
def _prod(it, xs, rt):
    s = ONE
    for x in xs[0].xs:
        s = mul(s, x)
    return s


@mfun("trace")
def _trace(it, xs, rt):
    s = None
    for i in range(xs[0].nr):
        s = xs[0].at(i, i) if s is None else add(s, xs[0].at(i, i))
    return s


@mfun("diagonal")
def _diag(it, xs, rt):
    n = min(xs[0].nr, xs[0].nc)
    return Mat(n, 1, [xs[0].at(i, i) for i in range(n)])


@mfun("component_mul")
def _cmul(it, xs, rt):
    return ew(it, mul, xs[0], xs[1])


@mfun("component_div")
def _cdiv(it, xs, rt):
    return ew(it, div, xs[0], xs[1])


@mfun("scale", "unscale")
def _scale(it, xs, rt):
    return arith(it, "*", xs[0], xs[1])


@mfun("unscale")
def _unscale(it, xs, rt):
    return arith(it, "/", xs[0], xs[1])


@mfun("add_scalar")
def _addscalar(it, xs, rt):
    return Mat(xs[0].nr, xs[0].nc, [add(x, xs[1]) for x in xs[0].xs])


@mfun("abs")
def _mabs(it, xs, rt):
    return Mat(xs[0].nr, xs[0].nc, [S.abs_(x) for x in xs[0].xs])


@mfun("amax", "camax")
def _amax(it, xs, rt):
    r = ZERO
    for x in xs[0].xs:
        r = S.fmax(r, S.abs_(x))
    return r


@mfun("max")
def _mmax(it, xs, rt):
    r = xs[0].xs[0]
    for x in xs[0].xs[1:]:
        r = S.fmax(r, x)
    return r


@mfun("min")
def _mmin(it, xs, rt):
    r = xs[0].xs[0]
    for x in xs[0].xs[1:]:
        r = S.fmin(r, x)
    return r


@mfun("cross")
def _cross(it, xs, rt):
    a, b = xs[0].xs, xs[1].xs
    f = lambda i, j: sub(mul(a[i], b[j]), mul(a[j], b[i]))
    return Mat(xs[0].nr, xs[0].nc, [f(1, 2), f(2, 0), f(0, 1)])


@mfun("cross_matrix")
def _crossm(it, xs, rt):
    x, y, z = xs[0].xs
    return Mat(3, 3, [ZERO, neg(z), y, z, ZERO, neg(x), neg(y), x, ZERO])


@mfun("tr_mul", "ad_mul")
def _trmul(it, xs, rt):
    return mm(it, transpose(xs[0]), xs[1])


@mfun("tr_dot")
def _trdot(it, xs, rt):
    return dotv(transpose(xs[0]).xs, xs[1].xs)


@mfun("kronecker")
def _kron(it, xs, rt):
    a, b = xs
    return Mat(a.nr * b.nr, a.nc * b.nc, [mul(a.at(i // b.nr, j // b.nc), b.at(i % b.nr, j % b.nc)) for i in range(a.nr * b.nr) for j in range(a.nc * b.nc)])


@mfun("lerp")
def _lerp(it, xs, rt):
    return Mat(xs[0].nr, xs[0].nc, [add(mul(x, sub(ONE, xs[2])), mul(y, xs[2])) for x, y in zip(xs[0].xs, xs[1].xs)])


@mfun("upper_triangle")
def _upper(it, xs, rt):
    v = xs[0]
    return Mat(v.nr, v.nc, [v.at(i, j) if i <= j else ZERO for i in range(v.nr) for j in range(v.nc)])


@mfun("lower_triangle")
def _lower(it, xs, rt):
    v = xs[0]
    return Mat(v.nr, v.nc, [v.at(i, j) if i >= j else ZERO for i in range(v.nr) for j in range(v.nc)])


@mfun("is_square")
def _issq(it, xs, rt):
    return xs[0].nr == xs[0].nc


@mfun("push", "to_homogeneous")
def _push(it, xs, rt):
    if len(xs) == 2:
        return Mat(len(xs[0].xs) + 1, 1, xs[0].xs + (xs[1],))
    return Mat(len(xs[0].xs) + 1, 1, xs[0].xs + (ZERO,))


@m("Matrix::map")
def _map(it, args, I, rt, at):
    v = val(it, args[0])
    f = it.box(args[1])

    def one(v):
        out = [None] * len(v.xs)
        for c in range(v.nc):
            for r in range(v.nr):
                out[r * v.nc + c] = it.call_value(f, [v.at(r, c)])
        return Mat(v.nr, v.nc, out)
    return it.gated(v, one)


@m("Matrix::map_with_location")
def _mapwl(it, args, I, rt, at):
    v = val(it, args[0])
    f = it.box(args[1])
    return Mat(v.nr, v.nc, [it.call_value(f, [r, c, v.at(r, c)]) for r in range(v.nr) for c in range(v.nc)])


@m("Matrix::zip_map")
def _zipmap(it, args, I, rt, at):
    a, b = val(it, args[0]), val(it, args[1])
    f = it.box(args[2])
    return Mat(a.nr, a.nc, [it.call_value(f, [x, y]) for x, y in zip(a.xs, b.xs)])


@m("Matrix::fold")
def _mfold(it, args, I, rt, at):
    f = it.box(args[2])
    acc = args[1]
    for x in seqxs(val(it, args[0])):
        acc = it.call_value(f, [acc, x])
    return acc


@m("Matrix::apply", "Matrix::apply_into")
def _apply(it, args, I, rt, at):
    into = short(I) == "apply_into"
    r = it.box(val(it, args[0])) if into else mref(it, args[0])
    v = val(it, r)
    f = it.box(args[1])
    for k in range(len(v.xs)):
        it.call_value(f, [sext(r, ("m", k % v.nr, k // v.nr))])
    return val(it, r) if into else UNIT


def mutm(*names):
    def w(f):
        def g(it, args, I, rt, at):
            r = mref(it, args[0])
            v = val(it, r)
            rest = [val(it, a) for a in args[1:]]
            it.store(r, it.lift(lambda *xs: f(it, *xs), v, *rest))
            return UNIT
        for n in names:
            D["Matrix::" + n] = g
        return f
    return w


@mutm("fill_with_identity")
def _fwi(it, v):
    return Mat(v.nr, v.nc, [ONE if i == j else ZERO for i in range(v.nr) for j in range(v.nc)])


@mutm("fill_diagonal")
def _filld(it, v, x):
    return Mat(v.nr, v.nc, [x if i == j else v.at(i, j) for i in range(v.nr) for j in range(v.nc)])


@mutm("set_diagonal")
def _setd(it, v, d):
    return Mat(v.nr, v.nc, [d.xs[i] if i == j else v.at(i, j) for i in range(v.nr) for j in range(v.nc)])


@mutm("set_column")
def _setcol(it, v, k, c):
    if k >= v.nc or len(c.xs) != v.nr:
        panic(it, "set_column")
    return Mat(v.nr, v.nc, [c.xs[i] if j == k else v.at(i, j) for i in range(v.nr) for j in range(v.nc)])


@mutm("set_row")
def _setrow(it, v, k, c):
    if k >= v.nr or len(c.xs) != v.nc:
        panic(it, "set_row")
    return Mat(v.nr, v.nc, [c.xs[j] if i == k else v.at(i, j) for i in range(v.nr) for j in range(v.nc)])


@mutm("neg_mut")
def _negmut(it, v):
    return Mat(v.nr, v.nc, [neg(x) for x in v.xs])


@mutm("scale_mut")
def _scalemut(it, v, k):
    return Mat(v.nr, v.nc, [mul(x, k) for x in v.xs])


@mutm("unscale_mut")
def _unscalemut(it, v, k):
    return Mat(v.nr, v.nc, [div(x, k) for x in v.xs])


@mutm("transpose_mut")
def _trmut(it, v):
    return transpose(v)


@mutm("axpy")
def _axpy(it, y, a, x, b):
    return Mat(y.nr, y.nc, [add(mul(a, p), mul(b, q)) for p, q in zip(x.xs, y.xs)])


@mutm("gemv", "gemm")
def _gemv(it, y, al, a, x, be):
    p = mm(it, a, x)
    return Mat(y.nr, y.nc, [add(mul(al, u), mul(be, w)) for u, w in zip(p.xs, y.xs)])


@mutm("component_mul_assign")
def _cmula(it, v, w):
    return ew(it, mul, v, w)


@mutm("swap_rows")
def _swr(it, v, i, j):
    pm = list(range(v.nr))
    pm[i], pm[j] = j, i
    return Mat(v.nr, v.nc, [v.at(pm[r], c) for r in range(v.nr) for c in range(v.nc)])


def grid(v, f):
    return Mat(v.nr, v.nc, [f(i, j) for i in range(v.nr) for j in range(v.nc)])


@mutm("fill_lower_triangle_with_upper_triangle")
def _flu(it, v):
    return grid(v, lambda i, j: v.at(i, j) if i <= j else v.at(j, i))


@mutm("fill_upper_triangle_with_lower_triangle")
def _ful(it, v):
    return grid(v, lambda i, j: v.at(i, j) if i >= j else v.at(j, i))


@mutm("fill_lower_triangle")
def _flt(it, v, x, s):
    return grid(v, lambda i, j: x if i >= j + s else v.at(i, j))


@mutm("fill_upper_triangle")
def _fut(it, v, x, s):
    return grid(v, lambda i, j: x if j >= i + s else v.at(i, j))


@mutm("fill_row")
def _fillrow(it, v, k, x):
    if k >= v.nr:
        panic(it, "fill_row")
    return grid(v, lambda i, j: x if i == k else v.at(i, j))


@mutm("fill_column")
def _fillcol(it, v, k, x):
    if k >= v.nc:
        panic(it, "fill_column")
    return grid(v, lambda i, j: x if j == k else v.at(i, j))


@mutm("add_scalar_mut")
def _addsm(it, v, x):
    return grid(v, lambda i, j: add(v.at(i, j), x))


@mutm("component_div_assign", "component_div_mut")
def _cdiva(it, v, w):
    return ew(it, div, v, w)


@mutm("swap_columns")
def _swc(it, v, a, b):
    pm = list(range(v.nc))
    pm[a], pm[b] = b, a
    return grid(v, lambda i, j: v.at(i, pm[j]))


def _scaled(al, p, be, y):
    if (p.nr, p.nc) != (y.nr, y.nc):
        raise Undecided("shapes of a BLAS call")
    return Mat(y.nr, y.nc, [add(mul(al, u), mul(be, w)) for u, w in zip(p.xs, y.xs)])


@mutm("gemv_tr", "gemv_ad", "gemm_tr", "gemm_ad")
def _gemtr(it, y, al, a, x, be):
    return _scaled(al, mm(it, transpose(a), x), be, y)


@mutm("ger", "gerc")
def _ger(it, y, al, a, x, be):
    return _scaled(al, mm(it, a, transpose(x)), be, y)


@mutm("quadform")
def _quadform(it, y, al, mid, rhs, be):
    return _scaled(al, mm(it, mm(it, transpose(rhs), mid), rhs), be, y)


@mutm("quadform_tr")
def _quadformtr(it, y, al, lhs, mid, be):
    return _scaled(al, mm(it, mm(it, lhs, mid), transpose(lhs)), be, y)


@mutm("axcpy")
def _axcpy(it, y, a, x, c, b):
    return Mat(y.nr, y.nc, [add(mul(mul(a, p), c), mul(b, q)) for p, q in zip(x.xs, y.xs)])


@mfun("symmetric_part", "hermitian_part")
def _sympart(it, xs, rt):
    v = xs[0]
    return grid(v, lambda i, j: mul(alg.const(0.5), add(v.at(i, j), v.at(j, i))))


@mfun("amin", "camin")
def _amin(it, xs, rt):
    r = S.abs_(xs[0].xs[0])
    for x in xs[0].xs[1:]:
        r = S.fmin(r, S.abs_(x))
    return r


@mfun("perp")
def _perp(it, xs, rt):
    a, b = xs[0].xs, xs[1].xs
    return sub(mul(a[0], b[1]), mul(a[1], b[0]))


@mfun("row_sum", "row_sum_tr")
def _rowsum(it, xs, rt):
    v = xs[0]
    r = []
    for j in range(v.nc):
        s = ZERO
        for i in range(v.nr):
            s = add(s, v.at(i, j))
        r.append(s)
    d = mdims(it, rt)
    return Mat(1, v.nc, r) if d[0] == 1 else Mat(v.nc, 1, r)


@mfun("column_sum")
def _colsum(it, xs, rt):
    v = xs[0]
    r = []
    for i in range(v.nr):
        s = ZERO
        for j in range(v.nc):
            s = add(s, v.at(i, j))
        r.append(s)
    return Mat(v.nr, 1, r)


@mfun("conjugate")
def _conj(it, xs, rt):
    return xs[0]


@mfun("into_scalar", "to_scalar")
def _toscalar(it, xs, rt):
    if len(xs[0].xs) != 1:
        raise Undecided("to_scalar of a larger matrix")
    return xs[0].xs[0]


def _cut(v, i0, i1, j0, j1, fill):
    """v with rows i0..i1 and columns j0..j1 removed (fill None) or inserted with `fill`"""
    if fill is None:
        rs = [i for i in range(v.nr) if not i0 <= i < i1]
        cs = [j for j in range(v.nc) if not j0 <= j < j1]
        return Mat(len(rs), len(cs), [v.at(i, j) for i in rs for j in cs])
    rs = list(range(i0)) + [None] * (i1 - i0) + list(range(i0, v.nr))
    cs = list(range(j0)) + [None] * (j1 - j0) + list(range(j0, v.nc))
    return Mat(len(rs), len(cs), [fill if i is None or j is None else v.at(i, j) for i in rs for j in cs])


@m("Matrix::remove_row", "Matrix::remove_rows", "Matrix::remove_fixed_rows", "Matrix::insert_row", "Matrix::insert_rows", "Matrix::insert_fixed_rows",
   "Matrix::remove_column", "Matrix::remove_columns", "Matrix::remove_fixed_columns", "Matrix::insert_column", "Matrix::insert_columns", "Matrix::insert_fixed_columns")
def _insrem(it, args, I, rt, at):
    v = val(it, args[0])
    n = short(I)
    rows = "row" in n
    d = mdims(it, rt)
    i = integer(it, args[1])
    if n.endswith(("_row", "_column")):
        k = 1
    elif "fixed" in n:
        have, want = (v.nr, d[0]) if rows else (v.nc, d[1])
        if want is None:
            raise Undecided(n)
        k = abs(want - have)
    else:
        k = integer(it, args[2])
    fill = None if n.startswith("remove") else val(it, args[-1])
    if i + (k if fill is None else 0) > (v.nr if rows else v.nc):
        panic(it, n)
    return _cut(v, i, i + k, 0, 0, fill) if rows else _cut(v, 0, 0, i, i + k, fill)


@m("Matrix::select_rows", "Matrix::select_columns")
def _selrows(it, args, I, rt, at):
    from sa.models import fold, into_iter
    v = val(it, args[0])
    ks = fold(it, into_iter(it, args[1], None), [], lambda acc, x: acc + [integer(it, val(it, x))])
    if short(I) == "select_rows":
        return Mat(len(ks), v.nc, [v.at(i, j) for i in ks for j in range(v.nc)])
    return Mat(v.nr, len(ks), [v.at(i, j) for i in range(v.nr) for j in ks])


@m("Matrix::map_diagonal")
def _mapdiag(it, args, I, rt, at):
    v = val(it, args[0])
    f = it.box(args[1])
    return Mat(v.nr, 1, [it.call_value(f, [v.at(i, i)]) for i in range(v.nr)])


@m("Matrix::fill_with")
def _fillwith(it, args, I, rt, at):
    r = mref(it, args[0])
    v = val(it, r)
    f = it.box(args[1])
    it.store(r, colmajor(v.nr, v.nc, [it.call_value(f, []) for _ in v.xs]))
    return UNIT


@m("Matrix::zip_apply")
def _zipapply(it, args, I, rt, at):
    r = mref(it, args[0])
    v, w = val(it, r), val(it, args[1])
    f = it.box(args[2])
    for k in range(len(v.xs)):
        i, j = k % v.nr, k // v.nr
        it.call_value(f, [sext(r, ("m", i, j)), w.at(i, j)])
    return UNIT


@m("Matrix::zip_fold")
def _zipfold(it, args, I, rt, at):
    v, w = val(it, args[0]), val(it, args[1])
    f = it.box(args[3])
    acc = args[2]
    for j in range(v.nc):
        for i in range(v.nr):
            acc = it.call_value(f, [acc, v.at(i, j), w.at(i, j)])
    return acc


@m("Matrix::zip_zip_map")
def _zipzipmap(it, args, I, rt, at):
    a, b, c = (val(it, x) for x in args[:3])
    f = it.box(args[3])
    return Mat(a.nr, a.nc, [it.call_value(f, [x, y, z]) for x, y, z in zip(a.xs, b.xs, c.xs)])


@m("Matrix::transpose_to", "Matrix::adjoint_to")
def _trto(it, args, I, rt, at):
    it.store(mref(it, args[1]), transpose(val(it, args[0])))
    return UNIT


@m("Matrix::set_magnitude")
def _setmag(it, args, I, rt, at):
    r = mref(it, args[0])
    v = val(it, r)
    n = S.sqrt(dotv(v.xs, v.xs))
    it.store(r, Mat(v.nr, v.nc, [mul(x, div(args[1], n)) for x in v.xs]))
    return UNIT


@m("Matrix::x_axis", "Matrix::y_axis", "Matrix::z_axis", "Matrix::w_axis", "Matrix::x", "Matrix::y", "Matrix::z")
def _axis(it, args, I, rt, at):
    k = "xyzw".index(short(I)[0])
    r, c = mdims(it, rt)
    return Mat(r, 1, [ONE if i == k else ZERO for i in range(r)])


def _swz(n):
    ks = ["xyz".index(c) for c in n]

    @mfun(n)
    def f(it, xs, rt):
        return Mat(len(ks), 1, [xs[0].xs[k] for k in ks])


for _a in "xyz":
    for _b in "xyz":
        _swz(_a + _b)
        for _c in "xyz":
            _swz(_a + _b + _c)


@m("Matrix::normalize_mut")
def _nmut(it, args, I, rt, at):
    r = mref(it, args[0])
    v = val(it, r)
    n = S.sqrt(dotv(v.xs, v.xs))
    it.store(r, Mat(v.nr, v.nc, [div(x, n) for x in v.xs]))
    return n


@m("Matrix::swap")
def _mswap(it, args, I, rt, at):
    r = mref(it, args[0])
    v = val(it, r)
    a, b = (tuple(integer(it, x) for x in it.rst(q).fs) for q in args[1:3])
    xs = list(v.xs)
    i, j = a[0] * v.nc + a[1], b[0] * v.nc + b[1]
    xs[i], xs[j] = xs[j], xs[i]
    it.store(r, Mat(v.nr, v.nc, xs))
    return UNIT


@m("Matrix::row_iter", "Matrix::column_iter")
def _rowiter(it, args, I, rt, at):
    v = val(it, args[0])
    if short(I).startswith("row"):
        return IterV("list", tuple(block(it, v, i, 0, 1, v.nc) for i in range(v.nr)))
    return IterV("list", tuple(block(it, v, 0, j, v.nr, 1) for j in range(v.nc)))


@m("Matrix::row_iter_mut", "Matrix::column_iter_mut")
def _rowitermut(it, args, I, rt, at):
    r = mref(it, args[0])
    v = val(it, r)
    if short(I).startswith("row"):
        return IterV("list", tuple(MView(sext(r, ("blk", i, 0, 1, v.nc))) for i in range(v.nr)))
    return IterV("list", tuple(MView(sext(r, ("blk", 0, j, v.nr, 1))) for j in range(v.nc)))


@m("Matrix::from_rows", "Matrix::from_columns")
def _fromrows(it, args, I, rt, at):
    v = val(it, args[0])
    rows = [val(it, x) for x in seqxs(v)]
    if not rows:
        d = mdims(it, rt)
        return Mat(d[0] or 0, d[1] or 0, [])
    if short(I) == "from_rows":
        return Mat(len(rows), len(rows[0].xs), [x for r in rows for x in r.xs])
    return colmajor(len(rows[0].xs), len(rows), [x for r in rows for x in r.xs])


@m("Matrix::resize", "Matrix::resize_vertically", "Matrix::resize_horizontally", "Matrix::fixed_resize")
def _resize(it, args, I, rt, at):
    v = val(it, args[0])
    n = short(I)
    if n == "fixed_resize":
        r, c = mdims(it, rt)
        fill = args[1]
    elif n == "resize":
        r, c, fill = integer(it, args[1]), integer(it, args[2]), args[3]
    elif n.endswith("vertically"):
        r, c, fill = integer(it, args[1]), v.nc, args[2]
    else:
        r, c, fill = v.nr, integer(it, args[1]), args[2]
    return Mat(r, c, [v.at(i, j) if i < v.nr and j < v.nc else fill for i in range(r) for j in range(c)])


@m("Matrix::resize_mut", "Matrix::resize_vertically_mut", "Matrix::resize_horizontally_mut")
def _resizemut(it, args, I, rt, at):
    r = mref(it, args[0])
    J = dict(I, **{"def": I["def"][:-len("_mut")]})
    it.store(r, _resize(it, [val(it, r)] + list(args[1:]), J, rt, at))
    return UNIT


# ---- inverses
def cofactor_det(xs, n):
    if n == 0:
        return ONE
    if n == 1:
        return xs[0]
    if n == 2:
        return sub(mul(xs[0], xs[3]), mul(xs[1], xs[2]))
    s = None
    for j in range(n):
        x = xs[j]
        if isz(x):
            continue
        minor = [xs[i * n + k] for i in range(1, n) for k in range(n) if k != j]
        p = mul(x, cofactor_det(minor, n - 1))
        if j % 2:
            p = neg(p)
        s = p if s is None else add(s, p)
    return ZERO if s is None else s


def is_diag(v):
    return all(i == j or isz(v.at(i, j)) for i in range(v.nr) for j in range(v.nc))


def tri_inverse(v, lower):
    """inverse of a triangular matrix by substitution"""
    n = v.nr
    a = v if lower else transpose(v)
    out = [[ZERO] * n for _ in range(n)]
    for j in range(n):
        for i in range(j, n):
            s = ONE if i == j else ZERO
            for k in range(j, i):
                if not isz(a.at(i, k)) and not isz(out[k][j]):
                    s = sub(s, mul(a.at(i, k), out[k][j]))
            out[i][j] = div(s, a.at(i, i))
    r = Mat(n, n, [x for row in out for x in row])
    return r if lower else transpose(r)


def blocks_of(v):
    """connected components of the nonzero pattern"""
    n = v.nr
    comp = list(range(n))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i
    for i in range(n):
        for j in range(n):
            if i != j and not isz(v.at(i, j)):
                comp[find(i)] = find(j)
    g = {}
    for i in range(n):
        g.setdefault(find(i), []).append(i)
    return list(g.values())


def has_dual(x):
    return isinstance(x, Dual) or isinstance(x, Ite) and (has_dual(x.t) or has_dual(x.f))


def inverse(it, v):
    n = v.nr
    if it.inv_hook is not None:
        r = it.inv_hook(v)
        if r is not None:
            return r
    if any(isinstance(x, Ite) and has_dual(x) for x in v.xs):
        return it.lift(lambda *xs: inverse(it, Mat(n, n, list(xs))), *v.xs)
    if any(isinstance(x, Dual) for x in v.xs):
        # (A + eB)^-1 = A^-1 - e A^-1 B A^-1
        vec = next(x for x in v.xs if isinstance(x, Dual))
        re = Mat(n, n, [x.re if isinstance(x, Dual) else x for x in v.xs])
        ri = inverse(it, re)
        ks = [len(x.eps) for x in v.xs if isinstance(x, Dual) and isinstance(x.eps, tuple)]
        if not vec.vec or not ks:
            if vec.vec:
                return Mat(n, n, [Dual(x, None, True) for x in ri.xs])
            eps = Mat(n, n, [x.eps if isinstance(x, Dual) else ZERO for x in v.xs])
            d = mm(it, mm(it, ri, eps), ri)
            return Mat(n, n, [Dual(x, neg(y), False) for x, y in zip(ri.xs, d.xs)])
        k = ks[0]
        ds = []
        for q in range(k):
            eps = Mat(n, n, [(x.eps[q] if isinstance(x, Dual) and x.eps is not None else ZERO) for x in v.xs])
            ds.append(mm(it, mm(it, ri, eps), ri))
        return Mat(n, n, [Dual(ri.xs[i], tuple(neg(d.xs[i]) for d in ds), True) for i in range(n * n)])
    bl = blocks_of(v)
    if len(bl) > 1:
        out = [ZERO] * (n * n)
        for b in bl:
            s = inverse(it, Mat(len(b), len(b), [v.at(i, j) for i in b for j in b]))
            for p, i in enumerate(b):
                for q, j in enumerate(b):
                    out[i * n + j] = s.at(p, q)
        return Mat(n, n, out)
    if n == 1:
        return Mat(1, 1, [div(ONE, v.xs[0])])
    if all(isz(v.at(i, j)) for i in range(n) for j in range(i + 1, n)):
        return tri_inverse(v, True)
    if all(isz(v.at(i, j)) for i in range(n) for j in range(i)):
        return tri_inverse(v, False)
    if n > 4:
        raise Undecided("inverse of a large dense matrix")
    d = cofactor_det(list(v.xs), n)
    out = []
    for i in range(n):
        for j in range(n):
            # cofactor C_ji
            minor = [v.at(r, c) for r in range(n) if r != j for c in range(n) if c != i]
            c = cofactor_det(minor, n - 1)
            if (i + j) % 2:
                c = neg(c)
            out.append(div(c, d))
    return Mat(n, n, out)


@m("Matrix::try_inverse")
def _tryinv(it, args, I, rt, at):
    v = val(it, args[0])

    def one(x):
        if x.nr != x.nc:
            panic(it, "inverse of non-square")
        it.event("assume", "matrix is invertible")
        return some(inverse(it, x), rt)
    return it.lift(one, v)


@m("Matrix::try_inverse_mut")
def _tryinvm(it, args, I, rt, at):
    r = mref(it, args[0])
    it.store(r, it.lift(lambda x: inverse(it, x), val(it, r)))
    return True


@m("Matrix::pseudo_inverse")
def _pinv(it, args, I, rt, at):
    raise Undecided("pseudo inverse")


@mfun("determinant")
def _det(it, xs, rt):
    return cofactor_det(list(xs[0].xs), xs[0].nr)


def chol(it, v):
    """lower factor by the textbook recurrence (the matrix is assumed positive definite)"""
    n = v.nr
    L = [[ZERO] * n for _ in range(n)]
    for j in range(n):
        s = v.at(j, j)
        for k in range(j):
            if not isz(L[j][k]):
                s = sub(s, mul(L[j][k], L[j][k]))
        d = S.sqrt(glift(lambda e: alg.cancel(e) if isinstance(e, Expr) else e, s))
        L[j][j] = d
        for i in range(j + 1, n):
            s = v.at(i, j)
            for k in range(j):
                if not isz(L[i][k]) and not isz(L[j][k]):
                    s = sub(s, mul(L[i][k], L[j][k]))
            L[i][j] = ZERO if isz(s) else div(s, d)
    return Mat(n, n, [x for r in L for x in r])


@m("Matrix::cholesky", "Cholesky::new")
def _cholesky(it, args, I, rt, at):
    v = val(it, args[0])
    it.event("assume", "matrix is positive definite")
    f = getattr(it, "chol_hook", None) or chol
    return it.lift(lambda x: some(Agg(None, 0, (Term("cholesky"), f(it, x))), rt), v)


@m("Cholesky::l", "Cholesky::l_dirty", "Cholesky::unpack", "Cholesky::unpack_dirty")
def _choll(it, args, I, rt, at):
    return val(it, args[0]).fs[1]


@m("Cholesky::inverse")
def _cholinv(it, args, I, rt, at):
    li = tri_inverse(val(it, args[0]).fs[1], True)
    return mm(it, transpose(li), li)


@m("Cholesky::solve")
def _cholsolve(it, args, I, rt, at):
    li = tri_inverse(val(it, args[0]).fs[1], True)
    return mm(it, mm(it, transpose(li), li), val(it, args[1]))


@m("Matrix::solve_lower_triangular", "Matrix::solve_upper_triangular", "Matrix::tr_solve_lower_triangular", "Matrix::tr_solve_upper_triangular",
   "Matrix::solve_lower_triangular_unchecked", "Matrix::solve_upper_triangular_unchecked")
def _trisolve(it, args, I, rt, at):
    a, b = val(it, args[0]), val(it, args[1])
    n = short(I)
    lower = "lower" in n
    t = Mat(a.nr, a.nc, [a.at(i, j) if (i >= j if lower else i <= j) else ZERO for i in range(a.nr) for j in range(a.nc)])
    inv = tri_inverse(t, lower)
    if n.startswith("tr_"):
        inv = transpose(inv)
    r = mm(it, inv, b)
    return r if "unchecked" in n else some(r, rt)


# ---------------------------------------------------------------- num-dual
@m("DualVec::from_re", "Dual::from_re")
def _fromre(it, args, I, rt, at):
    vec = "DualVec" in it.p.ty(rt)["s"]
    return Dual(args[0], None if vec else ZERO, vec)


@m("DualVec::new", "Dual::new")
def _dualnew(it, args, I, rt, at):
    vec = "DualVec" in it.p.ty(rt)["s"]
    if vec:
        d = it.rst(args[1])
        return Dual(args[0], d.eps, True)
    return Dual(args[0], args[1], False)


@m("Dual::derivative")
def _dderiv(it, args, I, rt, at):
    v = val(it, args[0])
    return it.lift(lambda x: Dual(x.re, ONE, False), v)


@m("Derivative::new")
def _derivnew(it, args, I, rt, at):
    return Deriv(M.eps_of_opt(it, args[0]))


@m("Derivative::some")
def _derivsome(it, args, I, rt, at):
    return Deriv(val(it, args[0]).xs)


@m("Derivative::none")
def _derivnone(it, args, I, rt, at):
    return Deriv(None)


@m("Derivative::derivative_generic")
def _dergen(it, args, I, rt, at):
    n = dimval(it, args[0], at[0] if at else None)
    i = integer(it, args[2])
    if not 0 <= i < n:
        panic(it, f"derivative index {i} out of {n}")
    return Deriv(tuple(ONE if k == i else ZERO for k in range(n)))


@m("Derivative::unwrap_generic")
def _unwrapgen(it, args, I, rt, at):
    d = val(it, args[0])
    n = dimval(it, args[1], at[1] if at else None)

    def one(d):
        if d.eps is None:
            return Mat(n, 1, [ZERO] * n)
        return Mat(len(d.eps), 1, d.eps)
    return it.lift(one, d)


# ---------------------------------------------------------------- nalgebra conversions
@m("DMatrix::from", "conversion::from")
def _conv(it, args, I, rt, at):
    return M._from(it, args, I, rt, at)


@m("Matrix::mul_to", "Matrix::tr_mul_to")
def _multo(it, args, I, rt, at):
    a, b = val(it, args[0]), val(it, args[1])
    if short(I) == "tr_mul_to":
        a = it.lift(transpose, a)
    it.store(mref(it, args[2]), it.lift(lambda x, y: mm(it, x, y), a, b))
    return UNIT


class Dec(V):
    """a dense factorization, kept as the matrix it factors"""
    __slots__ = ("a", "kind")

    def __init__(self, a, kind):
        self.a, self.kind, self._h = a, kind, None

    def key(self):
        return (self.a, self.kind)

    def __repr__(self):
        return f"Dec{self.a}"


def _dec(it, args, I, rt, at):
    v = val(it, args[0])
    return it.lift(lambda x: Dec(x, short(I)), v)


def _decsolve(it, args, I, rt, at):
    from .models_faer import linsolve
    return it.lift(lambda d, b: some(linsolve(it, d.a, b), rt), val(it, args[0]), val(it, args[1]))


def _decinv(it, args, I, rt, at):
    return it.lift(lambda d: some(inverse(it, d.a), rt), val(it, args[0]))


D["Matrix::lu"] = D["Matrix::qr"] = D["Matrix::full_piv_lu"] = D["Matrix::col_piv_qr"] = _dec
for _t in ("LU", "QR", "FullPivLU", "ColPivQR"):
    D[f"{_t}::solve"] = _decsolve
    D[f"{_t}::try_inverse"] = _decinv
    D[f"{_t}::determinant"] = lambda it, args, I, rt, at: D["Matrix::determinant"](it, [it.lift(lambda d: d.a, val(it, args[0]))], I, rt, at)
    D[f"{_t}::is_invertible"] = lambda it, args, I, rt, at: it.lift(lambda z: not z, eq(D["Matrix::determinant"](it, [it.lift(lambda d: d.a, val(it, args[0]))], I, rt, at), ZERO))
D["Matrix::is_invertible"] = lambda it, args, I, rt, at: it.lift(lambda z: not z, eq(D["Matrix::determinant"](it, args, I, rt, at), ZERO))
