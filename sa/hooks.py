"""Uninterpreted functions of the harness (`unk` module) as function symbols of the domain."""
from . import alg, models as M, scalar as S
from .alg import Expr
from .values import *
from .scalar import ZERO, ONE, add, mul


def flat(it, v):
    v = M.val(it, v)
    sp = lambda x: alg.var("special " + x.k) if isinstance(x, Special) else x
    return [S.glift(sp, x) if isinstance(x, (Ite, Special)) else x for x in M.seqxs(v)]


def apply_fn(name, xs):
    """function symbol applied to scalars; dual arguments give the chain rule with partial-derivative symbols"""
    if any(isinstance(x, Ite) for x in xs):
        return S.glift(lambda *ys: apply_fn(name, list(ys)), *xs)
    if any(isinstance(x, Dual) for x in xs):
        d = next(x for x in xs if isinstance(x, Dual))
        res = [x.re if isinstance(x, Dual) else x for x in xs]
        if any(isinstance(x, Ite) for x in res):
            return S.glift(lambda *ys: apply_fn(name, [Dual(y, x.eps, x.vec) if isinstance(x, Dual) else y for x, y in zip(xs, ys)]), *res)
        eps = None
        for j, x in enumerate(xs):
            if isinstance(x, Dual):
                eps = S.e_add(eps, S.e_scale(x.eps, alg.fn(f"D{j}_{name}", *res)))
        if eps is None and not d.vec:
            eps = ZERO
        return Dual(alg.fn(name, *res), eps, d.vec)
    return alg.fn(name, *[S.num(x) for x in xs])


def vecfn(it, args):
    i, n = M.integer(it, args[0]), M.integer(it, args[1])
    xs = flat(it, args[2])
    return Mat(n, 1, [apply_fn(f"u{i}_{k}", xs) for k in range(n)])


def scal(it, args):
    return apply_fn(f"s{M.integer(it, args[0])}", flat(it, args[1]))


def pos(it, args):
    def one(*xs):
        e = alg.fn(f"p{M.integer(it, args[0])}", *[S.num(x) for x in xs])
        a = alg.single_atom(e)
        if a is not None:
            a = alg.atom_by_id(a) if isinstance(a, int) else a
            a.sign = "+"
        return e
    return S.glift(one, *flat(it, args[1]))


def cond(it, args):
    def one(*xs):
        return Ite(catom("unk", (M.integer(it, args[0]), tuple(xs))), True, False)
    return S.glift(one, *flat(it, args[1]))


def mat(it, args):
    i, r, c = (M.integer(it, a) for a in args[:3])
    xs = flat(it, args[3])
    return Mat(r, c, [apply_fn(f"m{i}_{a}_{b}", xs) for a in range(r) for b in range(c)])


def log(it, args):
    it.event("log", (M.integer(it, args[0]), tuple(it.deep(x) for x in flat(it, args[1]))))
    return UNIT


def install(it):
    for n in ("vecfn", "scal", "pos", "cond", "mat", "log"):
        it.dhooks["fh_main::unk::" + n] = globals()[n]
