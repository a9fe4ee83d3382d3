"""Containers: the abstract state of Values after every operation (insert, insert_unchecked, get*, remove, filter, iteration, clone, entry, oplus_mut), with symbolic contents and under several iteration orders of the underlying hash map, equals that of a finite map from keys to values; oplus_mut retracts exactly the listed variables by their own entries and refuses entries of the wrong length; Graph::len/is_empty count the factors added."""
from sa import spec as SP, alg
from sa.spec import plain
from sa.values import *

ORDERS = {"stored": None, "reversed": lambda es: es[::-1], "rotated": lambda es: es[1:] + es[:1], "odd-even": lambda es: es[1::2] + es[::2]}


def setup(order):
    def s(it):
        it.map_order = order
    return s


def run(ctx):
    p, d = SP.vec("x", 16), SP.vec("d", 7)
    kx = ctx.eval("cont", "cont::order_keys", [], ob="keys")
    if kx is None:
        return
    X0, Y0, X5, Z2 = kx.xs[:4]
    X = lambda i: X0 + i
    Y = lambda i: Y0 + i
    base = {X0: p[0:2], Y0: p[2:5], X5: p[5:7]}

    def table(es):
        return sorted([[k, len(v), list(v)] for k, v in es.items()], key=lambda e: e[0])

    for on, order in ORDERS.items():
        def ev(f, *args, **kw):
            r = ctx.eval("cont", "cont::" + f, SP.args(*args), ob=f"{f}/{on}", setup=setup(order), **kw)
            return None if r is None else plain(r)

        def dump(ob, anchor, got, want):
            """iteration yields every entry exactly once, whatever the order"""
            if got is None:
                return
            try:
                got = sorted(got, key=lambda e: e[0])
            except TypeError:
                ctx.note(f"{ob}/{on}", "undecided", "symbolic keys", anchor)
                return
            gk, wk = [e[0] for e in got], sorted(want)
            if gk != wk:
                ctx.fail(f"{ob}/{on}", anchor, f"iteration yields keys {gk} instead of {wk}")
            else:
                ctx.eq(f"{ob}/{on}", anchor, got, table(want))

        def eq(ob, anchor, got, want):
            """Option-valued observations compare presence, then content"""
            for i, (g, w) in enumerate(zip(got, want)):
                if (g is None) != (w is None):
                    ctx.fail(f"{ob}/{on}/{i}", anchor, f"{'absent' if g is None else 'present'} instead of {'absent' if w is None else 'present'}")
                elif g is not None:
                    ctx.eq(f"{ob}/{on}/{i}", anchor, g, w)
                else:
                    ctx.ok(f"{ob}/{on}/{i}", anchor)

        r = ev("empty")
        if r is not None:
            eq("empty", "Values::new", [r[0], r[1], r[3], r[4], r[5]], [0, True, None, 0, True])
            ctx.holds(f"empty/iter/{on}", "Values::iter", r[2] == [], "an empty Values yields entries")
        r = ev("inserted", p)
        if r is not None:
            eq("inserted", "Values::len", r[:2], [3, False])
            dump("inserted/iter", "Values::iter", r[2], base)
        r = ev("insert_returns", p)
        if r is not None:
            eq("insert", "Values::insert", r[:4], [p[0:2], None, p[2:5], 4])
            dump("insert/iter", "Values::insert", r[4], {**base, X0: p[7:9], X(1): p[9:11], Y0: p[11:13]})
        r = ev("get", p)
        if r is not None:
            eq("get", "Values::get", r, [p[0:2], p[5:7], None, p[2:5], p[5:7], None, True])
        r = ev("get_mut", p)
        if r is not None:
            eq("get_mut", "Values::get_mut", r[:3], [True, True, True])
            dump("get_mut/iter", "Values::get_mut", r[3], {**base, X5: p[7:9], Y0: p[9:12]})
        r = ev("remove", p)
        if r is not None:
            eq("remove", "Values::remove", r[:5], [p[5:7], None, None, 2, True])
            dump("remove/iter", "Values::remove", r[5], {X0: p[0:2], Y0: p[2:5]})
        r = ev("remove_all", p)
        if r is not None:
            eq("remove_all", "Values::remove", r, [0, True, p[2:5]])
        r = ev("reinsert", p)
        if r is not None:
            eq("reinsert", "Values::insert", r[:2], [None, 3])
            dump("reinsert/iter", "Values::insert", r[2], {**base, X0: p[7:9]})
        r = ev("filter", p)
        if r is not None:
            if len(r[0]) == 2 and len(r[1]) == 1:
                s = sum((e for v in r[0] for e in v), SP.Z)      # as a multiset: both entries once
                ok = any(r[0][i][0] == p[0] for i in range(2))
                r0 = r[0] if r[0][0][0] == p[0] else r[0][::-1]
                ctx.eq(f"filter/{on}", "Values::filter", [r0, r[1], r[2]], [[p[0:2], p[5:7]], [p[2:5]], 0])
            else:
                ctx.fail(f"filter/{on}", "Values::filter", f"{len(r[0])} and {len(r[1])} variables instead of 2 and 1")
        dump("into_iter", "Values::into_iter", ev("into_iter", p), base)
        r = ev("clone", p)
        if r is not None:
            dump("clone/original", "Values::clone", r[0], base)
            dump("clone/copy", "Values::clone", r[1], {**base, X0: p[7:9]})
        r = ev("entry", p)
        if r is not None:
            dump("entry", "Values::entry", r[0], {**base, X(3): p[9:11]})
        for f, dd in (("oplus", d), ("oplus_sub", d[:5])):
            r = ev(f, p, dd)
            if r is None:
                continue
            want = dict(base)
            for k, i, n in r[1]:
                want[k] = [a + dd[i + j] for j, a in enumerate(base[k])]
            dump(f, "Values::oplus_mut", r[0], want)
        refused(ctx, f"oplus_bad/{on}", "Values::oplus_mut", "oplus_bad", [p, d[:3]], order)
        a, b, e = SP.vec("a", 2), SP.vec("b", 2), SP.vec("e", 2)
        r = ev("oplus_unk", a, b, e)
        if r is not None:
            ctx.eq(f"oplus_unk/{on}", "Values::oplus_mut", [r[0], r[1]], [a, r[2]])
    r = ctx.eval("cont", "cont::raw", SP.args(p), ob="raw")
    if r is not None:
        r = plain(r)
        ks = [0, 2 ** 64 - 1, 2 ** 63, 1]
        want = {k: [p[2 * i], p[2 * i + 1]] for i, k in enumerate(ks)}
        ctx.eq("raw/len", "Values::len", r[0], 4)
        if sorted(e[0] for e in r[1]) != sorted(ks):
            ctx.fail("raw/iter", "Values::iter", "iteration does not yield the stored keys")
        else:
            ctx.eq("raw/iter", "Values::iter", sorted(r[1], key=lambda x: x[0]), table(want))
            ctx.eq("raw/filter", "Values::filter", r[2], [want[e[0]] for e in r[1]])
        if [x is None for x in r[3]] != [False] * 4 + [True]:
            ctx.fail("raw/get", "Values::get_unchecked", "wrong presence")
        else:
            ctx.eq("raw/get", "Values::get_unchecked", r[3][:4], [want[k] for k in ks])
        new = {k: [a + p[8 + i + j] for j, a in enumerate(want[k])] for k, i, _ in r[4] if k in want}
        if sorted(e[0] for e in r[5]) != sorted(ks) or sorted(new) != sorted(ks):
            ctx.fail("raw/oplus", "Values::oplus_mut", "an update changes the stored keys")
        else:
            ctx.eq("raw/oplus", "Values::oplus_mut", sorted(r[5], key=lambda x: x[0]), table(new))
    # variables of many widths
    a, e = alg.var("a"), alg.var("e")
    for on, order in ORDERS.items():
        r = ctx.eval("cont", "cont::oplus_wide", [a, e], ob=f"oplus_wide/{on}", setup=setup(order))
        if r is None:
            continue
        was, t, now, seen, n = plain(r)
        W = {5: 0, 6: 1, 12: 3, 7: 7, 8: 8, 9: 9, 10: 10, 1: 12, 2: 16, 3: 17, 4: 33, 13: 300}
        ctx.eq(f"oplus_wide/before/{on}", "Values::get_unchecked", was, [[k, [a * alg.const(i + k) for i in range(w)]] for k, w in W.items()])
        if sorted(map(tuple, seen)) != sorted(W.items()) or n != len(W):
            ctx.fail(f"oplus_wide/iter/{on}", "Values::iter", "iteration does not yield every variable with its width")
        if sorted((k, n) for k, _, n in t) != sorted(W.items()):
            ctx.fail(f"oplus_wide/order/{on}", "ValuesOrder::from_values", "the order does not list every variable with its width")
            continue
        at = {k: i for k, i, _ in t}
        ctx.eq(f"oplus_wide/after/{on}", "Values::oplus_mut", now, [[k, [a * alg.const(i + k) + e * alg.const(at[k] + i + 1) for i in range(w)]] for k, w in W.items()])
    # keys over the whole range of indices
    odd = [0, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, (1 << 16) - 1, 1 << 16, (1 << 24) + 5, 0x7fffffff, 255, 256]
    for i in range(3):
        history(ctx, f"history/odd{i}", [(o, odd[k % len(odd)], j) for o, k, j in typed((o, q % len(odd), j) for o, q, j in histories(130, 50 + i))], p, X, Y, table)
    # mixed histories
    for i in range(24 if ctx.tier == "thorough" else 6):
        history(ctx, f"history/mixed{i}", list(typed(histories(60 + 20 * i, i))), p, X, Y, table)
    # larger histories
    for n in ctx.sizes([70, 20], cap=280):
        many(ctx, n, p, X, Y, table)
        ops = [(o, 5 * k, k + j) for j, o in enumerate((0, 1, 12, 0, 2, 3, 6, 12, 11, 8, 10, 7, 1, 5, 12, 9, 0, 4, 4, 12)) for k in ((0,) if o in (11, 12) else range(n) if n < 40 or j in (0, 3) else range(n - 12, n))]
        history(ctx, f"history/{n}", ops, p, X, Y, table)
        ctx.eq(f"graph/{n}", "Graph::add_factor/len/is_empty", ctx.eval("cont", "cont::graph_many", [n] + SP.args(p), ob=f"graph/{n}"), [[i + 1, False] for i in range(n)])
    ctx.eq("graph", "Graph::add_factor/len/is_empty", ctx.eval("cont", "cont::graph", SP.args(p), ob="graph"), [[0, True], [1, False], [2, False], [3, False]])
    ctx.eq("graph_cap", "Graph::with_capacity", ctx.eval("cont", "cont::graph_cap", SP.args(p), ob="graph_cap"), [0, True, 1])


def many(ctx, n, p, X, Y, table):
    r = ctx.eval("cont", "cont::many", [n] + SP.args(p), ob=f"many/{n}")
    if r is not None:
        r = plain(r)
        want = {X(3 * i): [p[0] + alg.const(i), p[1]] for i in range(n) if i % 2}
        want.update({Y(2 * i): [p[2], p[3], p[4] * alg.const(i)] for i in range(n)})
        ctx.eq(f"many/{n}/len", "Values::len", r[0], len(want))
        got = sorted(r[1], key=lambda x: x[0])
        if [e[0] for e in got] != sorted(want):
            ctx.fail(f"many/{n}/iter", "Values::iter", "iteration does not yield the stored keys")
        else:
            ctx.eq(f"many/{n}/iter", "Values::iter", got, table(want))
        for i in range(n):
            w = want.get(X(3 * i))
            if (r[2][i] is None) != (w is None):
                ctx.fail(f"many/{n}/get{i}", "Values::get", "wrong presence")
        ctx.eq(f"many/{n}/get", "Values::get", [x for x in r[2] if x is not None], [want[X(3 * i)] for i in range(n) if i % 2])
    r = ctx.eval("cont", "cont::oplus_many", [n] + SP.args(p), ob=f"oplus/{n}")
    if r is not None:
        es, t, d, cnt = plain(r)
        at = {k: i for k, i, _ in t}
        want = {X(0): [p[0], p[1]]}
        for i in range(1, n):
            j = at.get(X(3 * i), 0)
            want[X(3 * i)] = [p[0] + alg.const(i) + p[2] * alg.const(j), p[1] + p[2] * alg.const(j + 1)]
        es = sorted(es, key=lambda x: x[0])
        if [e[0] for e in es] != sorted(want) or cnt != n:
            ctx.fail(f"oplus/{n}", "Values::oplus_mut", "the variables are not those before the step")
        else:
            ctx.eq(f"oplus/{n}", "Values::oplus_mut", es, table(want))


def history(ctx, nm, ops, p, X, Y, table):
    """the operations on a dictionary"""
    c = alg.const
    r = ctx.eval("cont", "cont::history", [Seq([Agg(-1, 0, o) for o in ops])] + SP.args(p), ob=nm)
    if r is None:
        return
    outs, es, n, empty, n3 = plain(r)

    def a(i):
        return [p[0] * c(i), p[1] + c(i)]

    def b(i):
        return [p[2], p[3] * c(i), p[4] + c(i)]
    m, want = {}, []
    for o, k, i in ops:
        q = Y(k) if o in (1, 3, 5) else X(k)
        v = m.get(q)
        w = None
        if o in (0, 1, 8):
            w, m[q] = v, (a if o == 0 else b)(i)
        elif o in (2, 3, 10):
            w = v if v and len(v) == (2 if o == 2 else 3) else None
        elif o in (4, 5):
            w = m.pop(q, None)
        elif o in (6, 7):
            if v and len(v) == o - 4:
                w, m[q] = v, (a if o == 6 else b)(i)
        elif o == 9:
            w = m.setdefault(q, a(i))
        elif o == 12:
            w = [c(len(m)), c(sum(len(x) == 2 for x in m.values()))]
        want.append(w)
    bad = [j for j, (g, w) in enumerate(zip(outs, want)) if (g is None) != (w is None) or g is not None and len(g) != len(w)]
    if bad or len(outs) != len(want):
        j = bad[0] if bad else len(outs)
        ctx.fail(nm + "/returns", "Values", f"operation {j} of the history {ops[max(0, j - 12):j + 1]}: wrong answer")
    else:
        ctx.eq(nm + "/returns", "Values", [g for g in outs if g is not None], [w for w in want if w is not None])
    es = sorted(es, key=lambda x: x[0])
    if [e[0] for e in es] != sorted(m):
        ctx.fail(nm + "/final", "Values", "iteration does not yield the stored keys")
    else:
        ctx.eq(nm + "/final", "Values", es, table(m))
    ctx.eq(nm + "/counts", "Values::len/is_empty/filter", [n, empty, n3], [len(m), not m, sum(len(x) == 3 for x in m.values())])


def histories(n, seed):
    """n + n operations over few keys, reproducibly mixed"""
    s = seed * 7919 + 12345
    for _ in range(n):
        q = []
        for _ in range(3):
            s = (s * 6364136223846793005 + 1442695040888963407) % 2 ** 64
            q.append(s >> 33)
        # removing through the wrong type is left out (the value is dropped)
        yield (q[0] % 13, q[1] % (3 + n // 20), q[2] % 97)


def typed(ops):
    """removals only of keys holding the asked type"""
    kind = {}
    for o, k, i in ops:
        if o == 4 and kind.get(k) == 3:
            continue
        if o in (0, 8):
            kind[k] = 2 if o == 0 else 3
        elif o == 4:
            kind.pop(k, None)
        elif o == 9:
            kind.setdefault(k, 2)
        yield (o, k, i)


def refused(ctx, ob, anchor, f, args, order=None):
    """every path panics"""
    from sa.interp import Diverge, Undecided, Bottom
    it = ctx.interp("cont", setup(order))
    try:
        it.call("fh_main::cont::" + f, SP.args(*args))
        ctx.fail(ob, anchor, "accepted instead of refused")
    except Diverge:
        ctx.ok(ob, anchor)
    except (Undecided, Bottom, AttributeError, TypeError, IndexError) as e:
        ctx.note(ob, "undecided", str(e)[:200], anchor)
    finally:
        ctx.stat(it)
