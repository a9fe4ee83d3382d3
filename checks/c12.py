"""Assembly: the dense image of the sparse Jacobian and right-hand side built by residual_jacobian on the pattern of sparsity_pattern (nonlinear and linear graph), with symbolic block contents, equals the matrix that holds factor f's block for key k in f's rows and k's columns and zeros elsewhere, for factors of different heights and widths, keys in any order, gaps in the columns, and several variable orders."""
from sa import spec as SP, alg
from sa.spec import plain
from sa.values import *
from checks.c17 import ORDERS, setup
from checks.c07 import Want, keys


def place(factors, order, n):
    """factors: [(rows of [(key, block rows)], b)] -> dense rows, b"""
    A, b = [], []
    for blocks, rhs in factors:
        for i in range(len(rhs)):
            row = [SP.Z] * n
            for k, blk in blocks:
                at, w = order[k]
                for j in range(w):
                    row[at + j] = row[at + j] + blk[i][j]
            A.append(row)
            b.append(rhs[i])
    return A, b


def fac(fid, nout, parts, W=None):
    """unrobust factor over an uninterpreted residual: parts = [(key, coordinates)]"""
    x = [c for _, cs in parts for c in cs]
    r = [alg.fn(f"u{fid}_{c}", *x) for c in range(nout)]
    J = [[alg.fn(f"D{j}_u{fid}_{c}", *x) for j in range(len(x))] for c in range(nout)]
    if W:
        r = [W[2 * i] * r[0] + W[2 * i + 1] * r[1] for i in range(2)]
        J = [[W[2 * i] * J[0][j] + W[2 * i + 1] * J[1][j] for j in range(len(x))] for i in range(2)]
    blocks, o = [], 0
    for k, cs in parts:
        blocks.append((k, [row[o:o + len(cs)] for row in J]))
        o += len(cs)
    return blocks, [-e for e in r]


def of_want(w, ks):
    """Want -> factor blocks"""
    blocks, o = [], 0
    for k, n in zip(ks, w.widths):
        blocks.append((k, [row[o:o + n] for row in w.A]))
        o += n
    return blocks, w.b


def decide(ctx, ob, anchor, got, factors):
    if got is None:
        return
    (nr, nc, m, b, bc), order, *at = plain(got)
    at = at[0] if at and nr * nc > 5000 else None
    if not all(isinstance(x, int) for e in order for x in e):
        ctx.note(ob, "undecided", "symbolic order", anchor)
        return
    A, rhs = place(factors, {k: (i, n) for k, i, n in order}, nc)
    dim = max(i + n for _, i, n in order)
    if nr != len(A) or at is None and len(m) != nr * nc:
        ctx.fail(ob + "/shape", anchor, f"{nr} rows instead of {len(A)}")
        return
    if nc < dim:
        ctx.fail(ob + "/shape", anchor, f"{nc} columns instead of {dim}")
        return
    ctx.ok(ob + "/shape", anchor)
    ctx.eq(ob + "/J", anchor, m, [e for row in A for e in row] if at is None else [A[i][j] for i, j in at])
    ctx.eq(ob + "/r", anchor, [b, bc], [rhs, 1])


def run(ctx):
    ks = keys(ctx)
    if ks is None:
        return
    A, B, C, D, E, F = ks
    p, q, W = SP.vec("x", 11), SP.vec("y", 11), SP.vec("w", 4)
    g3 = [of_want(Want(402, p[:5], W, None, [3, 2]), [A, B]), of_want(Want(401, p[:3], None, 41, [3]), [A]),
          of_want(Want(407, p[3:5] + p[6:8], None, 42, [2, 2]), [B, D])]
    g4 = [fac(451, 1, [(C, p[5:6]), (A, p[:3]), (B, p[3:5])]), fac(402, 2, [(A, p[:3]), (B, p[3:5])], W),
          fac(452, 3, [(D, p[6:8])]), fac(407, 2, [(B, p[3:5]), (D, p[6:8])])]
    al = [(A, p[:3]), (B, p[3:5]), (C, p[5:6]), (D, p[6:8]), (E, p[8:9]), (F, p[9:11])]
    g6 = [fac(406, 2, al), fac(404, 2, al[:4], W), fac(405, 2, al[:5])]
    for on, order in ORDERS.items():
        for f, want, extra in (("arity", g6, []), ("arity_linear", g6, []), ("assemble", g3, []), ("assemble_linear", g3, []), ("heights", g4, []), ("heights_linear", g4, []), ("moved", g4, [q])):
            r = ctx.eval("linear", "linear::" + f, SP.args(W, p, *extra), ob=f"{f}/{on}", setup=setup(order))
            decide(ctx, f"{f}/{on}", "LinearGraph::residual_jacobian on " + ("LinearGraph" if "linear" in f else "Graph") + "::sparsity_pattern", r, want)
    a, b = SP.vec("a", 40), SP.vec("b", 6)

    def blk(s, r, widths):
        c, out, o = sum(widths), [], 0
        for w in widths:
            out.append([[a[s + i * c + o + j] for j in range(w)] for i in range(r)])
            o += w
        return out
    m1, m2, m3 = blk(0, 2, [1, 3]), blk(8, 1, [2]), blk(10, 3, [3, 2, 1])
    fs = [([(3, m1[0]), (1, m1[1])], b[:2]), ([(2, m2[0])], b[2:3]), ([(1, m3[0]), (2, m3[1]), (3, m3[2])], b[3:])]
    for f in ("lin0", "lin1", "lin2"):
        r = ctx.eval("linear", "linear::" + f, SP.args(a, b), ob=f)
        decide(ctx, f, "LinearGraph::residual_jacobian", r, fs)
    # entries that are infinite or not a number stay where they are, and the others stay as they are
    cn = alg.const

    def bk(s0, r, widths):
        c0, out, o = sum(widths), [], 0
        for w in widths:
            out.append([[s0 + i * c0 + o + j for j in range(w)] for i in range(r)])
            o += w
        return out
    n1, n2, n3 = bk(0, 2, [1, 3]), bk(8, 1, [2]), bk(10, 3, [3, 2, 1])
    rows, at = [], {1: 0, 2: 3, 3: 5}
    for blocks, nr in (([(3, n1[0]), (1, n1[1])], 2), ([(2, n2[0])], 1), ([(1, n3[0]), (2, n3[1]), (3, n3[2])], 3)):
        for i in range(nr):
            row = [None] * 6
            for k, blk_ in blocks:
                row[at[k]:at[k] + len(blk_[i])] = blk_[i]
            rows += row
    for n in (0, 1, 5, 9, 10, 19, 27):
        for isb in (False, True):
            if isb and n > 5:
                continue
            for nan in (False, True):
                ob = f"special/{n}/{'b' if isb else 'A'}/{'nan' if nan else 'inf'}"
                r = ctx.eval("linear", "linear::lin_special", [n, isb, nan], ob=ob, defined=False)
                if r is not None:
                    ctx.eq(ob, "LinearGraph::residual_jacobian", r,
                           [[not isb and e == n for e in rows], [isb and i == n for i in range(6)],
                            [SP.Z if e is None or not isb and e == n else cn(e + 1) for e in rows],
                            [SP.Z if isb and i == n else cn(i + 1) for i in range(6)]])
    # a key named twice: its blocks add up
    tw = [fac(453, 2, [(B, p[3:5]), (B, p[3:5])]), fac(402, 2, [(A, p[:3]), (B, p[3:5])], W)]
    for on, order in ORDERS.items():
        r = ctx.eval("linear", "linear::twice", SP.args(W, p), ob=f"twice/{on}", setup=setup(order))
        decide(ctx, f"twice/{on}", "LinearGraph::residual_jacobian", r, tw)
    # many rows, wide variables, other factors after them
    t = SP.vec("t", 70)
    for on, order in list(ORDERS.items()):
        r = ctx.eval("linear", "linear::big", SP.args(W, p, t), ob=f"big/{on}", setup=setup(order))
        if r is not None:
            T = r.fs[2]
            decide(ctx, f"big/{on}", "LinearGraph::residual_jacobian on Graph::sparsity_pattern", Agg(-1, 0, r.fs[:2]),
                   [fac(454, 20, [(T, t), (B, p[3:5])]), fac(455, 1, [(D, p[6:8]), (T, t)]), fac(402, 2, [(A, p[:3]), (B, p[3:5])], W)])
    # sizes
    s = SP.vec("s", 4)
    c = alg.const

    def en(i, j):
        return s[0] * c(i + 1) + s[1] * c(j + 1)
    for n in ctx.sizes([9, 40]):
        for f, want in (("chain", [([(i + 1, [[en(i, 0)]]), (i, [[en(i, 1)]])], [s[2] * c(i + 1)]) for i in range(n)]),
                        ("tall", [([(1, [[en(i, 0)] for i in range(n)])], [s[2] * c(i + 1) for i in range(n)]), ([(0, [[s[3]]])], [s[0]])]),
                        ("keys", [([(j, [[en(0, j)]]) for j in range(n)], [s[2]])]),
                        ("wide", [([(0, [[en(i, j) for j in range(n)] for i in range(2)]), (1, [[en(i, n)] for i in range(2)])], [s[2], s[2] * c(2)])])):
            r = ctx.eval("linear", "linear::sized_" + f, [n] + SP.args(s), ob=f"{f}/{n}")
            decide(ctx, f"{f}/{n}", "LinearGraph::residual_jacobian", r, want)
        r = ctx.eval("linear", "linear::sized_graph", [n] + SP.args(s), ob=f"graph/{n}")
        if r is not None:
            ks = [ctx.eval("linear", "linear::sized_key", [i], ob="key") for i in range(n)]
            xs = [[s[0] * c(i + 1), s[1]] for i in range(n)]
            decide(ctx, f"graph/{n}", "Graph::linearize", Agg(-1, 0, r.fs[:3]), [fac(452, 3, [(ks[i], xs[i])]) for i in range(n)])
            cost = sum((alg.fn(f"u452_{k}", *x) * alg.fn(f"u452_{k}", *x) for x in xs for k in range(3)), SP.Z) * SP.H2
            ctx.eq(f"graph/{n}/error", "Graph::error", [r.fs[3], r.fs[4]], [cost, n])
