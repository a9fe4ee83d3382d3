"""Summaries of faer (dense Mat as Mat; sparse matrices as structural pattern plus entries) and faer-ext."""
from . import alg, scalar as S, models as M, models_la as LA
from .models import (m, ti, T, D, pure, val, mref, integer, some, none, ok, err, tup, panic, normdef, mm, sext, seqxs, UNIT)
from .values import *
from .scalar import add, sub, mul, div, ZERO, ONE


class Sp(V):
    """sparse matrix: dense value graph plus the set of stored positions (sorted by column, row)"""
    __slots__ = ("m", "pat")

    def __init__(self, mat, pat):
        self.m, self.pat = mat, tuple(sorted(set(pat), key=lambda p: (p[1], p[0])))
        self._h = None

    def key(self):
        return (self.m, self.pat)

    def values(self):
        return Seq([self.m.at(i, j) for i, j in self.pat])

    def with_values(self, q):
        d = dict(zip(self.pat, q.xs))
        return Sp(Mat(self.m.nr, self.m.nc, [d.get((i, j), ZERO) for i in range(self.m.nr) for j in range(self.m.nc)]), self.pat)

    def with_entry(self, i, j, x):
        xs = list(self.m.xs)
        xs[i * self.m.nc + j] = x
        return Sp(Mat(self.m.nr, self.m.nc, xs), self.pat)

    def __repr__(self):
        return f"Sp{self.m}"


class Pat(V):
    """symbolic sparse matrix"""
    __slots__ = ("nr", "nc", "pat")

    def __init__(self, nr, nc, pat):
        self.nr, self.nc, self.pat = nr, nc, tuple(sorted(set(pat), key=lambda p: (p[1], p[0])))
        self._h = None

    def key(self):
        return (self.nr, self.nc, self.pat)


class Sol(V):
    """symbolic (a is None) or numeric factorization of a matrix"""
    __slots__ = ("kind", "sym", "a", "side")

    def __init__(self, kind, sym, a=None, side=None):
        self.kind, self.sym, self.a, self.side = kind, sym, a, side
        self._h = None

    def key(self):
        return (self.kind, self.sym, self.a, self.side)


def pairs(it, v):
    out = []
    for e in seqxs(val(it, v)):
        e = val(it, e)
        out.append([val(it, x) if isinstance(x, Ref) else x for x in e.fs])
    return out


def entry_list(it, nr, nc, idx):
    out = []
    for i, j in idx:
        i, j = it.as_int(i), it.as_int(j)
        if not (isinstance(i, int) and isinstance(j, int)):
            raise Undecided("symbolic sparse index")
        if not (0 <= i < nr and 0 <= j < nc):
            return None
        out.append((i, j))
    return out


OOB = Agg(-1, 0, ())


@m("SymbolicSparseColMat::try_new_from_indices")
def _fromidx(it, args, I, rt, at):
    nr, nc = integer(it, args[0]), integer(it, args[1])
    idx = entry_list(it, nr, nc, pairs(it, args[2]))
    if idx is None:
        return err(OOB, rt)
    return ok(tup(Pat(nr, nc, idx), Seq([tup(i, j) for i, j in idx])), rt)


@m("SymbolicSparseColMat::clone")
def _symclone(it, args, I, rt, at):
    return val(it, args[0])


def accumulate(nr, nc, idx, vals):
    d = {}
    for p, x in zip(idx, vals):
        d[p] = add(d[p], x) if p in d else x
    return Sp(Mat(nr, nc, [d.get((i, j), ZERO) for i in range(nr) for j in range(nc)]), d)


@m("SparseColMat::new_from_order_and_values")
def _fromord(it, args, I, rt, at):
    p = val(it, args[0])
    order = [tuple(e.fs) for e in val(it, args[1]).xs]
    vs = [val(it, x) for x in seqxs(val(it, args[2]))]
    if len(vs) != len(order):
        # faer reads the first len(order) values, and asserts when there are fewer
        panic(it, f"{len(vs)} values for {len(order)} sparse entries")
    return ok(accumulate(p.nr, p.nc, order, vs), rt)


@m("SparseColMat::try_new_from_triplets", "SparseColMat::try_new_from_nonnegative_triplets")
def _fromtrip(it, args, I, rt, at):
    nr, nc = integer(it, args[0]), integer(it, args[1])
    ts = pairs(it, args[2])
    idx = entry_list(it, nr, nc, [t[:2] for t in ts])
    if idx is None:
        return err(OOB, rt)
    return ok(accumulate(nr, nc, idx, [t[2] for t in ts]), rt)


def arr(v):
    return v.m if isinstance(v, Sp) else v


for _t in ("SparseColMat", "SparseColMatRef", "SparseRowMat", "SparseRowMatRef", "Mat", "MatRef", "MatMut"):
    def _self(it, args, I, rt, at):
        return val(it, args[0])
    for _n in ("as_ref", "to_owned", "clone", "rb", "to_col_major", "to_row_major", "into_const", "canonical", "to_transpose_sym", "as_dyn"):
        D[f"{_t}::{_n}"] = _self

    def _dim(which):
        def g(it, args, I, rt, at):
            return it.lift(lambda v: getattr(arr(v), which), val(it, args[0]))
        return g
    D[f"{_t}::nrows"] = _dim("nr")
    D[f"{_t}::ncols"] = _dim("nc")
for _t in ("SparseRowMatRef", "SparseRowMat", "SparseColMat", "SparseColMatRef"):
    def _tcm(it, args, I, rt, at):
        return ok(val(it, args[0]), rt)
    D[f"{_t}::to_col_major"] = _tcm
    D[f"{_t}::to_row_major"] = _tcm

    def _dense(it, args, I, rt, at):
        return arr(val(it, args[0]))
    D[f"{_t}::to_dense"] = _dense

    def _symb(it, args, I, rt, at):
        s = val(it, args[0])
        return Pat(s.m.nr, s.m.nc, s.pat)
    D[f"{_t}::symbolic"] = _symb

    def _nnz(it, args, I, rt, at):
        return len(val(it, args[0]).pat)
    D[f"{_t}::compute_nnz"] = _nnz

    def _spget(it, args, I, rt, at):
        r = mref(it, args[0])
        s = val(it, args[0])
        i, j = integer(it, args[1]), integer(it, args[2])
        return some(sext(r, ("spe", i, j)), rt) if (i, j) in s.pat else none(rt)
    D[f"{_t}::get"] = _spget
    D[f"{_t}::get_mut"] = _spget

    def _spvals(it, args, I, rt, at):
        return sext(mref(it, args[0]), ("spv",))
    D[f"{_t}::values"] = _spvals
    D[f"{_t}::values_mut"] = _spvals

    def _spidx(it, args, I, rt, at):
        s = val(it, args[0])
        if "Row" in normdef(I["def"]).split("::")[0]:
            raise Undecided("row-major structure")
        n = normdef(I["def"]).split("::")[-1]
        if n == "row_indices":
            return Ref(it.new(Seq([i for i, _ in s.pat])))
        if n == "col_ptrs":
            return Ref(it.new(Seq([sum(1 for _, j in s.pat if j < k) for k in range(s.m.nc + 1)])))
        k = integer(it, args[1])
        if n in ("row_indices_of_col", "row_indices_of_col_raw"):
            xs = [i for i, j in s.pat if j == k]
            return IterV("list", tuple(xs)) if n == "row_indices_of_col" else Ref(it.new(Seq(xs)))
        lo = sum(1 for _, j in s.pat if j < k)
        hi = sum(1 for _, j in s.pat if j <= k)
        if n == "col_range":
            return Agg(rt, 0, (lo, hi))
        return sext(sext(mref(it, args[0]), ("spv",)), ("win", lo, hi))
    for _n in ("row_indices", "col_ptrs", "row_indices_of_col", "row_indices_of_col_raw", "values_of_col", "values_of_col_mut", "col_range"):
        D[f"{_t}::{_n}"] = _spidx


def transpose(v):
    if isinstance(v, Sp):
        return Sp(LA.transpose(v.m), [(j, i) for i, j in v.pat])
    return LA.transpose(v)


def _tr(it, args, I, rt, at):
    return it.lift(transpose, val(it, args[0]))


for _t in ("SparseColMat", "SparseColMatRef", "SparseRowMat", "SparseRowMatRef", "Mat", "MatRef"):
    D[f"{_t}::transpose"] = _tr
    D[f"{_t}::adjoint"] = _tr


def sp_arith(it, op, a, b):
    if isinstance(a, Agg):
        a = a.fs[0]
    if isinstance(b, Agg):
        b = b.fs[0]
    A, B = isinstance(a, Sp), isinstance(b, Sp)
    if A and B:
        if op == "*":
            if a.m.nc != b.m.nr:
                panic(it, f"sparse product {a.m.nr}x{a.m.nc} * {b.m.nr}x{b.m.nc}")
            byrow = {}
            for i, j in b.pat:
                byrow.setdefault(i, []).append(j)
            return Sp(mm(it, a.m, b.m), [(i, j) for i, k in a.pat for j in byrow.get(k, ())])
        if (a.m.nr, a.m.nc) != (b.m.nr, b.m.nc):
            panic(it, "sparse sum of different shapes")
        return Sp(M.arith(it, op, a.m, b.m), a.pat + b.pat)
    if A and isinstance(b, Mat):
        return M.arith(it, op, a.m, b)
    if B and isinstance(a, Mat):
        return M.arith(it, op, a, b.m)
    if A:
        return Sp(M.arith(it, op, a.m, b), a.pat)
    return Sp(M.arith(it, op, a, b.m), b.pat)


M.SP.append((Sp, sp_arith))


@m("faer::scale")
def _scale(it, args, I, rt, at):
    return Agg(rt, 0, (val(it, args[0]),))


# ---- dense
@m("Mat::zeros")
def _zeros(it, args, I, rt, at):
    r, c = integer(it, args[0]), integer(it, args[1])
    return Mat(r, c, [ZERO] * (r * c))


@m("Mat::identity")
def _ident(it, args, I, rt, at):
    r, c = integer(it, args[0]), integer(it, args[1])
    return Mat(r, c, [ONE if i == j else ZERO for i in range(r) for j in range(c)])


@m("Mat::full")
def _full(it, args, I, rt, at):
    r, c = integer(it, args[0]), integer(it, args[1])
    return Mat(r, c, [val(it, args[2])] * (r * c))


@m("Mat::from_fn")
def _ffn(it, args, I, rt, at):
    r, c = integer(it, args[0]), integer(it, args[1])
    xs = [None] * (r * c)
    fr = Ref(it.new(args[2]))
    for j in range(c):
        for i in range(r):
            xs[i * c + j] = it.call_value(fr, [i, j])
    return Mat(r, c, xs)


def fregion(it, v, n, args):
    k = lambda q: integer(it, args[q])
    if n == "subrows":
        return k(1), 0, k(2), v.nc
    if n == "subcols":
        return 0, k(1), v.nr, k(2)
    if n == "submatrix":
        return k(1), k(2), k(3), k(4)
    if n == "col":
        return 0, k(1), v.nr, 1
    if n == "row":
        return k(1), 0, 1, v.nc
    if n == "as":
        return 0, 0, v.nr, v.nc
    raise Undecided("faer view " + n)


def _fview(n):
    def g(it, args, I, rt, at):
        return it.lift(lambda v: LA.block(it, v, *fregion(it, v, n, args)), val(it, args[0]))
    return g


def _fviewmut(n):
    def g(it, args, I, rt, at):
        r = mref(it, args[0])
        v = val(it, r)
        if isinstance(v, Ite):
            v = next(l for _, l in leaves(v))
        a = fregion(it, v, n, args)
        LA.block(it, v, *a)
        return MView(sext(r, ("blk",) + tuple(a)))
    return g


for _t in ("Mat", "MatRef", "MatMut"):
    for _n in ("subrows", "subcols", "submatrix", "col", "row"):
        D[f"{_t}::{_n}"] = _fview(_n)
        D[f"{_t}::{_n}_mut"] = _fviewmut(_n)
    D[f"{_t}::as_mut"] = _fviewmut("as")
    D[f"{_t}::rb_mut"] = _fviewmut("as")
    D[f"{_t}::copy_from"] = D["Matrix::copy_from"]

    def _read(it, args, I, rt, at):
        i, j = integer(it, args[1]), integer(it, args[2])

        def one(v):
            if not (0 <= i < v.nr and 0 <= j < v.nc):
                panic(it, f"matrix index ({i},{j}) out of {v.nr}x{v.nc}")
            return v.at(i, j)
        return it.lift(one, val(it, args[0]))
    D[f"{_t}::read"] = _read

    def _write(it, args, I, rt, at):
        i, j = integer(it, args[1]), integer(it, args[2])
        r = mref(it, args[0])
        v = val(it, r)
        if not (0 <= i < v.nr and 0 <= j < v.nc):
            panic(it, f"matrix index ({i},{j}) out of {v.nr}x{v.nc}")
        it.store(sext(r, ("m", i, j)), val(it, args[3]))
        return UNIT
    D[f"{_t}::write"] = _write


def fdim(it, v, e, which):
    """(start, length) of a faer index: a number, a range, or everything"""
    n = v.nr if which == 0 else v.nc
    e = it.rst(e)
    if isinstance(e, int):
        if not 0 <= e < n:
            panic(it, f"index {e} out of {n}")
        return e, None
    lo, hi = M.rng_of(it, e, n)
    if not 0 <= lo <= hi <= n:
        panic(it, f"range {lo}..{hi} out of {n}")
    return lo, hi - lo


def vecs(n):
    return "Col" in n or "Row" in n


for _t in ("Mat", "MatRef", "MatMut", "Col", "ColRef", "ColMut", "Row", "RowRef", "RowMut"):
    def _get(it, args, I, rt, at):
        r = mref(it, args[0])
        v = val(it, r)
        if isinstance(v, Ite):
            v = next(l for _, l in leaves(v))
        nm = normdef(I["def"]).split("::")
        if vecs(nm[0]):
            i, n = fdim(it, v, args[1], 0 if "Col" in nm[0] else 1)
            if n is None:
                return sext(r, ("m", i, 0) if "Col" in nm[0] else ("m", 0, i))
            a = (i, 0, n, 1) if "Col" in nm[0] else (0, i, 1, n)
        else:
            (i, n), (j, k) = fdim(it, v, args[1], 0), fdim(it, v, args[2], 1)
            if n is None and k is None:
                return sext(r, ("m", i, j))
            a = (i, j, 1 if n is None else n, 1 if k is None else k)
        q = sext(r, ("blk",) + a)
        return MView(q) if nm[-1].startswith("get_mut") or "Mut" in nm[0] else it.load_g(q)
    for _n in ("get", "get_mut", "get_unchecked", "get_mut_unchecked", "try_get"):
        D.setdefault(f"{_t}::{_n}", _get)
    if vecs(_t):
        def _vread(it, args, I, rt, at):
            i = integer(it, args[1])

            def one(v):
                if not 0 <= i < len(v.xs):
                    panic(it, f"index {i} out of {len(v.xs)}")
                return v.xs[i]
            return it.lift(one, val(it, args[0]))
        D[f"{_t}::read"] = _vread

        def _vwrite(it, args, I, rt, at):
            i = integer(it, args[1])
            r = mref(it, args[0])
            v = val(it, r)
            if not 0 <= i < len(v.xs):
                panic(it, f"index {i} out of {len(v.xs)}")
            it.store(sext(r, ("m", i, 0) if v.nc == 1 else ("m", 0, i)), val(it, args[2]))
            return UNIT
        D[f"{_t}::write"] = _vwrite

        def _vmake(it, args, I, rt, at):
            n = integer(it, args[0])
            what = normdef(I["def"]).split("::")[-1]
            if what == "zeros":
                xs = [ZERO] * n
            elif what == "full":
                xs = [val(it, args[1])] * n
            elif what == "from_fn":
                fr = Ref(it.new(args[1]))
                xs = [it.call_value(fr, [i]) for i in range(n)]
            return Mat(n, 1, xs) if normdef(I["def"]).startswith("Col") else Mat(1, n, xs)
        for _n in ("zeros", "full", "from_fn"):
            D[f"{_t}::{_n}"] = _vmake
        for _n in ("as_ref", "to_owned", "clone", "rb", "into_const", "as_2d"):
            D[f"{_t}::{_n}"] = _self
        D[f"{_t}::nrows"] = _dim("nr")
        D[f"{_t}::ncols"] = _dim("nc")
        D[f"{_t}::transpose"] = _tr
        D[f"{_t}::adjoint"] = _tr
        D[f"{_t}::as_mut"] = _fviewmut("as")
        D[f"{_t}::rb_mut"] = _fviewmut("as")
        D[f"{_t}::as_2d_mut"] = _fviewmut("as")
        D[f"{_t}::copy_from"] = D["Matrix::copy_from"]
        D[f"{_t}::subrows"] = _fview("subrows")
        D[f"{_t}::subcols"] = _fview("subcols")
        D[f"{_t}::subrows_mut"] = _fviewmut("subrows")
        D[f"{_t}::subcols_mut"] = _fviewmut("subcols")
        for _n in ("as_slice", "try_as_slice", "as_slice_mut"):
            D[f"{_t}::{_n}"] = lambda it, args, I, rt, at: sext(mref(it, args[0]), ("cm",))

        def _viter(it, args, I, rt, at):
            r = mref(it, args[0])
            v = val(it, r)
            return IterV("list", tuple(sext(r, ("m", i, 0) if v.nc == 1 else ("m", 0, i)) for i in range(len(v.xs))))
        D[f"{_t}::iter"] = _viter
        D[f"{_t}::iter_mut"] = _viter

        def _vdiag(it, args, I, rt, at):
            def one(v):
                n = len(v.xs)
                return Mat(n, n, [v.xs[i] if i == j else ZERO for i in range(n) for j in range(n)])
            return it.lift(one, val(it, args[0]))
        for _n in ("column_vector_as_diagonal", "row_vector_as_diagonal", "column_vector_into_diagonal"):
            D[f"{_t}::{_n}"] = _vdiag

    def _norm(which):
        def one(v):
            if which == "norm_max":
                r = ZERO
                for x in v.xs:
                    r = S.fmax(r, S.abs_(x))
                return r
            s = ZERO
            for x in v.xs:
                s = add(s, x if which == "sum" else S.abs_(x) if which == "norm_l1" else S.mul(x, x))
            return S.sqrt(s) if which == "norm_l2" else s
        return lambda it, args, I, rt, at: it.lift(one, val(it, args[0]))
    for _n in ("norm_l2", "squared_norm_l2", "norm_l1", "norm_max", "sum"):
        D[f"{_t}::{_n}"] = _norm(_n)

    def _fill(it, args, I, rt, at):
        r = mref(it, args[0])
        v = val(it, r)
        x = val(it, args[1]) if len(args) > 1 else ZERO
        it.store(r, it.lift(lambda q: Mat(q.nr, q.nc, [x] * len(q.xs)), v))
        return UNIT
    D[f"{_t}::fill"] = _fill
    D[f"{_t}::fill_zero"] = _fill
    D[f"{_t}::set_zero"] = _fill

    def _revr(it, args, I, rt, at):
        return it.lift(lambda v: Mat(v.nr, v.nc, [v.at(v.nr - 1 - i, j) for i in range(v.nr) for j in range(v.nc)]), val(it, args[0]))
    D[f"{_t}::reverse_rows"] = _revr

    def _fiter(it, args, I, rt, at):
        r = mref(it, args[0])
        v = val(it, r)
        n = normdef(I["def"]).split("::")[-1]
        ks = [("blk", i, 0, 1, v.nc) for i in range(v.nr)] if n.startswith("row") else [("blk", 0, j, v.nr, 1) for j in range(v.nc)]
        return IterV("list", tuple(MView(sext(r, k)) if n.endswith("mut") else it.load_g(sext(r, k)) for k in ks))
    for _n in ("row_iter", "col_iter", "row_iter_mut", "col_iter_mut"):
        D[f"{_t}::{_n}"] = _fiter

    def _colslice(it, args, I, rt, at):
        r = mref(it, args[0])
        v = val(it, r)
        k = integer(it, args[1])
        return sext(sext(r, ("cm",)), ("win", k * v.nr, (k + 1) * v.nr))
    D[f"{_t}::col_as_slice"] = _colslice
    D[f"{_t}::col_as_slice_mut"] = _colslice
    D[f"{_t}::determinant"] = lambda it, args, I, rt, at: D["Matrix::determinant"](it, args, I, rt, at)

    def _ddirect(kind):
        def g(it, args, I, rt, at):
            a = val(it, args[0])
            full = Sp(a, [(i, j) for i in range(a.nr) for j in range(a.nc)])
            s = Sol(kind, Pat(a.nr, a.nc, full.pat), full, side(it, args[1]) if kind == "chol" else None)
            return ok(s, rt) if kind == "chol" and "Result" in it.p.ty(rt)["s"] else s
        return g
    for _n, _k in (("cholesky", "chol"), ("lblt", "chol"), ("qr", "qr"), ("col_piv_qr", "qr"), ("partial_piv_lu", "lu"), ("full_piv_lu", "lu")):
        D[f"{_t}::{_n}"] = _ddirect(_k)


@ti("IntoFaer::into_faer", "IntoNalgebra::into_nalgebra")
def _conv(it, args, I, rt, at):
    v = it.rst(args[0])
    return v if isinstance(v, MView) else val(it, args[0])


# ---- sparse factorizations
KIND = {"Cholesky": "chol", "Qr": "qr", "Lu": "lu"}


def side(it, v):
    v = val(it, v)
    return v.vi if isinstance(v, Agg) else v


def _sym(kind):
    def g(it, args, I, rt, at):
        p = val(it, args[0])
        if kind == "chol" and p.nr != p.nc:
            return err(OOB, rt)
        return ok(Sol(kind, p, None, side(it, args[1]) if len(args) > 1 else None), rt)
    return g


def _num(kind):
    def g(it, args, I, rt, at):
        s, a = val(it, args[0]), val(it, args[1])
        here = Pat(a.m.nr, a.m.nc, a.pat)
        if s.sym != here:
            it.event("stale", f"symbolic {kind} analysis of a {s.sym.nr}x{s.sym.nc} matrix with {len(s.sym.pat)} stored entries "
                              f"reused for a {here.nr}x{here.nc} matrix with {len(here.pat)} entries in another pattern")
        sd = side(it, args[2]) if len(args) > 2 else None
        if sd != s.side:
            it.event("stale", f"{kind} analysed one triangle and factors the other")
        return ok(Sol(kind, here, a, sd), rt)
    return g


def _direct(kind):
    """sp_cholesky, sp_qr, sp_lu: analysis and factorization at once"""
    def g(it, args, I, rt, at):
        a = val(it, args[0])
        return ok(Sol(kind, Pat(a.m.nr, a.m.nc, a.pat), a, side(it, args[1]) if len(args) > 1 else None), rt)
    return g


for _n, _k in KIND.items():
    D[f"Symbolic{_n}::try_new"] = _sym(_k)
    D[f"Symbolic{_n}::clone"] = lambda it, args, I, rt, at: val(it, args[0])
    D[f"{_n}::try_new_with_symbolic"] = _num(_k)
    for _t in ("SparseColMatRef", "SparseColMat"):
        D[f"{_t}::sp_{_n.lower()}"] = _direct(_k)

JUNK = [0]


def components(A):
    """unknowns that no structurally nonzero entry connects"""
    n, at = A.nr, list(range(A.nr))

    def root(i):
        while at[i] != i:
            at[i] = at[at[i]]
            i = at[i]
        return i
    for k, x in enumerate(A.xs):
        if not M.isz(x):
            at[root(k // n)] = root(k % n)
    out = {}
    for i in range(n):
        out.setdefault(root(i), []).append(i)
    return list(out.values())


def linsolve(it, A, b):
    """x with A x = b: exact for one or two unknowns, a function symbol of system and right-hand side beyond"""
    n = A.nr
    if A.nr != A.nc:
        panic(it, f"factorization of a {A.nr}x{A.nc} matrix")
    if n <= 2:
        return mm(it, LA.inverse(it, A), b)
    parts = components(A)
    if len(parts) > 1:
        xs = [None] * (n * b.nc)
        for p in parts:
            k = len(p)
            y = linsolve(it, Mat(k, k, [A.at(i, j) for i in p for j in p]), Mat(k, b.nc, [b.at(i, c) for i in p for c in range(b.nc)]))
            for q, i in enumerate(p):
                for c in range(b.nc):
                    xs[i * b.nc + c] = y.at(q, c)
        return Mat(n, b.nc, xs)
    return Mat(n, b.nc, [alg.fn(f"solve{n}_{i}_{c}", *[S.num(x) for x in A.xs], *[S.num(x) for x in b.xs]) for i in range(n) for c in range(b.nc)])


def solve1(it, s, b):
    A = s.a.m
    if b.nr != A.nr:
        panic(it, f"right-hand side with {b.nr} rows for {A.nr} equations")
    if any(isinstance(x, (Ite, Dual)) for x in A.xs + b.xs):
        return it.lift(lambda *xs: solve1(it, Sol(s.kind, s.sym, Sp(Mat(A.nr, A.nc, xs[:len(A.xs)]), s.a.pat), s.side),
                                          Mat(b.nr, b.nc, xs[len(A.xs):])), *(A.xs + b.xs))
    if s.kind == "chol":
        lo = s.side in (None, 0)
        A = Mat(A.nr, A.nc, [A.at(max(i, j), min(i, j)) if lo else A.at(min(i, j), max(i, j)) for i in range(A.nr) for j in range(A.nc)])
        return linsolve(it, A, b)
    if s.kind == "qr" and A.nr != A.nc:
        if A.nr < A.nc:
            panic(it, "QR of a wide matrix")
        t = LA.transpose(A)
        x = linsolve(it, mm(it, t, A), mm(it, t, b))
        rest = []
        for k in range((A.nr - A.nc) * b.nc):
            JUNK[0] += 1
            rest.append(alg.var(f"qr_rest{JUNK[0]}"))
        return Mat(A.nr, b.nc, list(x.xs) + rest)
    return linsolve(it, A, b)


@ti("SpSolver::solve", "Solver::solve")
def _solve(it, args, I, rt, at):
    return it.lift(lambda s, b: solve1(it, s, b), val(it, args[0]), val(it, args[1]))


@ti("SpSolverLstsq::solve_lstsq", "SolverLstsq::solve_lstsq")
def _solvelst(it, args, I, rt, at):
    def one(s, b):
        x = solve1(it, s, b)
        return LA.block(it, x, 0, 0, s.a.m.nc, x.nc)
    return it.lift(one, val(it, args[0]), val(it, args[1]))


@ti("SpSolver::solve_in_place", "Solver::solve_in_place")
def _solveip(it, args, I, rt, at):
    r = mref(it, args[1])
    it.store(r, it.lift(lambda s, b: solve1(it, s, b), val(it, args[0]), val(it, r)))
    return UNIT


@ti("SpSolverLstsq::solve_lstsq_in_place", "SolverLstsq::solve_lstsq_in_place")
def _solvelstip(it, args, I, rt, at):
    r = mref(it, args[1])
    it.store(r, it.lift(lambda s, b: solve1(it, s, b), val(it, args[0]), val(it, r)))
    return UNIT


# ---- num-dual drivers
def seeds(v):
    n = len(v.xs)
    return Mat(v.nr, v.nc, [Dual(x, tuple(ONE if k == i else ZERO for k in range(n)), True) for i, x in enumerate(v.xs)])


def parts(x, n):
    x = x if isinstance(x, Dual) else Dual(x, None, True)
    return x.re, (x.eps if x.eps is not None else (ZERO,) * n)


@m("num_dual::gradient", "num_dual::jacobian")
def _gradient(it, args, I, rt, at):
    v = val(it, args[1])
    n = len(v.xs)
    r = val(it, it.call_value(Ref(it.new(args[0])), [seeds(v)]))
    if normdef(I["def"]).endswith("gradient"):
        return it.lift(lambda x: tup(parts(x, n)[0], Mat(n, 1, parts(x, n)[1])), r)
    return it.lift(lambda q: it.lift(lambda *xs: tup(Mat(q.nr, q.nc, [parts(x, n)[0] for x in xs]), Mat(len(xs), n, [e for x in xs for e in parts(x, n)[1]])), *q.xs), r)


@m("num_dual::first_derivative")
def _firstder(it, args, I, rt, at):
    r = val(it, it.call_value(Ref(it.new(args[0])), [Dual(val(it, args[1]), ONE, False)]))
    return it.lift(lambda x: tup(x.re, x.eps) if isinstance(x, Dual) else tup(x, ZERO), r)
