"""Orders: the index analysis of ValuesOrder::from_values over every iteration order tried of the hash map shows ranges of the variables' dimensions that are pairwise disjoint and cover 0..dim; ValuesOrder::get, LinearValues::get and iter hand out exactly those ranges (value graphs on a symbolic vector); vectors of another length are refused on every path."""
from sa import spec as SP, alg
from sa.spec import plain
from sa.values import *
from checks.c17 import ORDERS, setup, refused


def tiles(entries, dims, dim):
    """None when the ranges tile 0..dim"""
    if sorted(e[0] for e in entries) != sorted(dims):
        return f"keys {sorted(e[0] for e in entries)} instead of {sorted(dims)}"
    for k, i, n in entries:
        if n != dims[k]:
            return f"key {k} has {n} entries instead of {dims[k]}"
    at = 0
    for k, i, n in sorted(entries, key=lambda e: (e[1], e[2])):
        if i != at:
            return f"key {k} starts at {i} instead of {at}"
        at += n
    return None if at == dim == sum(dims.values()) else f"the ranges cover {at} entries, dim is {dim}"


def tiling(ctx, ob, r, n):
    es, dim, ln, em, dims = r
    if not all(isinstance(x, int) for e in es for x in e):
        ctx.note(ob, "undecided", "symbolic index", "ValuesOrder::from_values")
        return
    why = tiles(es, {k: w for k, w in dims}, dim)
    ctx.holds(ob, "ValuesOrder::from_values", why is None, why)
    ctx.eq(ob + "/len", "ValuesOrder::len", [ln, em], [n, n == 0])


def run(ctx):
    p, d = SP.vec("x", 16), SP.vec("d", 7)
    ks = ctx.eval("cont", "cont::order_keys", [], ob="keys")
    if ks is None:
        return
    ks = ks.xs
    for on, order in ORDERS.items():
        def ev(f, *args, **kw):
            r = ctx.eval("cont", "cont::" + f, SP.args(*args), ob=f"{f}/{on}", setup=setup(order), **kw)
            return None if r is None else plain(r)
        for f, n in (("order_empty", 0), ("order_base", 3), ("order_wide", 9)):
            r = ev(f, *([p] if n else []))
            if r is None:
                continue
            tiling(ctx, f"{f}/{on}", r, n)
        r = ctx.eval("cont", "cont::oplus_wide", [alg.var("a"), alg.var("e")], ob=f"order_widths/{on}", setup=setup(order))
        if r is not None:
            _, es, _, seen, n = plain(r)
            tiling(ctx, f"order_widths/{on}", (es, sum(w for _, w in seen), len(es), not es, seen), n)
        r = ev("order_get", p)
        if r is not None:
            t = {e[0]: e[1:] for e in r[1]}
            for k, g in zip(ks, r[0]):
                ctx.holds(f"order_get/{k}/{on}", "ValuesOrder::get", g == t.get(k), f"get returns {g}, iteration {t.get(k)}")
            ctx.holds(f"order_get/absent/{on}", "ValuesOrder::get", r[0][-1] is None, "an absent key has an index")
        r = ev("order_new")
        if r is not None:
            ctx.eq(f"order_new/{on}", "ValuesOrder::new", [sorted(r[0]), r[1], r[2]], [[[1, 7, 1], [4, 2, 5], [9, 0, 2]], 8, 3])
        for f in ("lv_order", "lv_values", "lv_zero_order", "lv_zero_values"):
            dd = [SP.Z] * 7 if "zero" in f else d
            r = ev(f, p, *([] if "zero" in f else [d]))
            if r is None:
                continue
            t = {e[0]: dd[e[1]:e[1] + e[2]] for e in r[5]}
            ctx.eq(f"{f}/sizes/{on}", "LinearValues::len/dim", r[:3], [3, 7, False])
            es = sorted(r[3], key=lambda e: e[0])
            if [e[0] for e in es] != sorted(t):
                ctx.fail(f"{f}/iter/{on}", "LinearValues::iter", f"yields keys {[e[0] for e in es]}")
            else:
                ctx.eq(f"{f}/iter/{on}", "LinearValues::iter", es, [[k, t[k]] for k in sorted(t)])
            for i, k in enumerate(ks[:3]):
                if r[4][i] is None:
                    ctx.fail(f"{f}/get{i}/{on}", "LinearValues::get", "a stored key is absent")
                else:
                    ctx.eq(f"{f}/get{i}/{on}", "LinearValues::get", r[4][i], t[k])
            ctx.holds(f"{f}/absent/{on}", "LinearValues::get", r[4][3] is None, "an absent key has a vector")
    for f in ("lv_short_order", "lv_long_order", "lv_short_values", "lv_long_values"):
        refused(ctx, f, "LinearValues constructors", f, [p, d])
    for n in ctx.sizes([50, 9], cap=280):
        for on in ("stored", "odd-even"):
            r = ctx.eval("cont", "cont::order_many", [n] + SP.args(p), ob=f"order/{n}/{on}", setup=setup(ORDERS[on]))
            if r is not None:
                tiling(ctx, f"order/{n}/{on}", plain(r), 2 * n)
        r = ctx.eval("cont", "cont::lv_wide", [n] + SP.args(p), ob=f"wide/{n}")
        if r is not None:
            r = plain(r)
            e = [p[2] * alg.const(i) + p[1] if i != n else SP.Z for i in range(2 * n + 3)]
            bl = {0: e[:n], 2 ** 64 - 1: e[n:n + 1], 5: e[n + 1:]}
            ctx.eq(f"wide/{n}/sizes", "LinearValues::len/dim/is_empty", [r[0], r[1], r[4]], [3, 2 * n + 3, False])
            es = sorted(r[2], key=lambda e: e[0])
            if [x[0] for x in es] != sorted(bl):
                ctx.fail(f"wide/{n}/iter", "LinearValues::iter", "iteration does not yield the keys of the order")
            else:
                ctx.eq(f"wide/{n}/iter", "LinearValues::iter", es, [[k, bl[k]] for k in sorted(bl)])
            if [x is None for x in r[3]] != [False] * 3 + [True]:
                ctx.fail(f"wide/{n}/get", "LinearValues::get", "presence of a key differs from the order")
            else:
                ctx.eq(f"wide/{n}/get", "LinearValues::get", r[3][:3], [bl[k] for k in (0, 2 ** 64 - 1, 5)])
        r = ctx.eval("cont", "cont::lv_many", [n] + SP.args(p), ob=f"lv/{n}")
        if r is None:
            continue
        ln, dim, es, gets, t, idx = plain(r)
        at = {k: list(range(i, i + w)) for k, i, w in t}
        ctx.eq(f"lv/{n}/sizes", "LinearValues::len/dim", [ln, dim], [n + 1, 2 * n + 3])
        es = sorted(es, key=lambda e: e[0])
        if [e[0] for e in es] != sorted(at):
            ctx.fail(f"lv/{n}/iter", "LinearValues::iter", "iteration does not yield the keys of the order")
        else:
            ctx.eq(f"lv/{n}/iter", "LinearValues::iter", es, [[k, [p[2] * alg.const(i) for i in at[k]]] for k in sorted(at)])
        xs = [ks[0] + 3 * i for i in range(n)]
        if any(g is None for g in gets) or any(i is None for i in idx) or any(x not in at for x in xs):
            ctx.fail(f"lv/{n}/get", "LinearValues::get", "a stored key is absent")
        else:
            ctx.eq(f"lv/{n}/get", "LinearValues::get", gets, [[p[2] * alg.const(i) for i in at[x]] for x in xs])
            ctx.eq(f"lv/{n}/index", "ValuesOrder::get", idx, [[at[x][0], 2] for x in xs])
    # long vectors
    a = alg.var("a")
    for n in (9000, 70000):
        r = ctx.eval("cont", "cont::lv_far", [n, a], ob=f"far/{n}")
        if r is None:
            continue
        got, es, dim = plain(r)
        ctx.eq(f"far/{n}", "LinearValues::get/iter/dim", [got, sorted(es, key=lambda e: e[0]), dim],
               [[a * alg.const(n + 2), a * alg.const(n + 3)], [[1, n, a * alg.const(n + 1)], [2, 2, a * alg.const(n + 3)], [3, 2, a]], n + 4])
