"""Factors: the value graphs of Factor::error and Factor::linearize over an uninterpreted residual, a symbolic whitening matrix W and an uninterpreted kernel (loss s, weight p > 0) equal loss(|W r|^2), A = sqrt(p) W J and b = -sqrt(p) W r, with keys, block offsets and block widths in key order; the linear factor's error at d equals |A d - b|^2/2 with each key's own part of d; graph errors are the sums of the factors' errors."""
from sa import spec as SP, alg
from sa.values import *

WID = [3, 2, 1, 2, 1, 2]
OFF = [0, 3, 5, 6, 8, 9, 11]


def keys(ctx):
    k = ctx.eval("factor", "factor::keys", [], ob="keys")
    return list(k.xs) if k is not None else None


class Want:
    """the factor's documented value, from the residual's function symbol"""
    def __init__(self, fid, x, W=None, robust=None, widths=None):
        n = len(x)
        self.x, self.n = x, n
        r = [alg.fn(f"u{fid}_{c}", *x) for c in range(2)]
        J = [[alg.fn(f"D{j}_u{fid}_{c}", *x) for j in range(n)] for c in range(2)]
        I = [alg.const(1), SP.Z, SP.Z, alg.const(1)]
        W = W or I
        self.r = [W[2 * i] * r[0] + W[2 * i + 1] * r[1] for i in range(2)]
        self.J = [[W[2 * i] * J[0][j] + W[2 * i + 1] * J[1][j] for j in range(n)] for i in range(2)]
        d2 = self.r[0] * self.r[0] + self.r[1] * self.r[1]
        if robust is None:
            self.err, w = d2 * alg.const(alg.Fraction(1, 2)), alg.const(1)
        else:
            self.err, w = alg.fn(f"s{robust}", d2), alg.fn(f"p{robust}", d2)
            a = alg.single_atom(w)
            (alg.atom_by_id(a) if isinstance(a, int) else a).sign = "+"
        s = alg.sqrt(w)
        self.b = [-(s * e) for e in self.r]
        self.A = [[s * e for e in row] for row in self.J]
        self.widths = widths

    def cols(self):
        return [self.A[i][j] for j in range(self.n) for i in range(2)]

    def idx(self):
        o, out = 0, []
        for w in self.widths:
            out.append(o)
            o += w
        return out

    def lin(self, keys):
        return [keys, [2, self.n], self.cols(), self.idx(), self.b, 2]

    def obs(self, keys):
        return [keys, self.err, 2, self.lin(keys)]

    def lerr(self, d):
        e = SP.Z
        for i in range(2):
            t = -self.b[i]
            for j in range(self.n):
                t = t + self.A[i][j] * d[j]
            e = e + t * t
        return e * alg.const(alg.Fraction(1, 2))


def run(ctx):
    ks = keys(ctx)
    if ks is None:
        return
    p, d = SP.vec("x", 11), SP.vec("d", 11)
    W = SP.vec("w", 4)
    for n in range(1, 7):
        w = Want(400 + n, p[:OFF[n]], W, 41, WID[:n])
        got = ctx.eval("factor", f"factor::f{n}::full", SP.args(W, p), ob=f"factor{n}")
        if got is not None:
            k, err, dim, lin = got.fs
            ctx.eq(f"keys{n}", "Factor::keys", k, ks[:n])
            ctx.eq(f"error{n}", "Factor::error", err, w.err)
            ctx.eq(f"dim_out{n}", "Factor::dim_out", dim, 2)
            for q, g, e in zip(("keys", "shape", "A", "offsets", "b", "dim"), lin.fs, w.lin(ks[:n])):
                ctx.eq(f"linearize{n}/{q}", "Factor::linearize", g, e)
        bl = ctx.eval("factor", f"factor::f{n}::blocks", SP.args(W, p), ob=f"blocks{n}")
        ctx.eq(f"blocks{n}", "MatrixBlock::get_block", bl,
               [[[2, WID[i]], [w.A[r][c] for c in range(OFF[i], OFF[i + 1]) for r in range(2)]] for i in range(n)])
        le = ctx.eval("factor", f"factor::f{n}::lerr", SP.args(W, p, d), ob=f"linear_error{n}")
        ctx.eq(f"linear_error{n}", "LinearFactor::error", le, w.lerr(d[:OFF[n]]))
        # default noise and kernel
        w0 = Want(400 + n, p[:OFF[n]], None, None, WID[:n])
        got = ctx.eval("factor", f"factor::f{n}::plain", SP.args(p), ob=f"default{n}")
        ctx.eq(f"default{n}", "Factor with default noise and kernel", got, w0.obs(ks[:n]))
    # variables wider than any of the library's
    for m, fid, ws in (("w9", 409, [3, 9, 2]), ("w17", 417, [17, 7, 1]), ("w40", 440, [8, 40, 4])):
        q, e = SP.vec("y", sum(ws)), SP.vec("e", sum(ws))
        w = Want(fid, q, W, 41, ws)
        got = ctx.eval("factor", f"factor::{m}::all", SP.args(W, q), ob=m)
        if got is not None:
            o = w.idx() + [len(q)]
            ctx.eq(f"{m}/error", "Factor::error", got.fs[0], w.err)
            ctx.eq(f"{m}/linearize", "Factor::linearize", Seq(got.fs[1].fs[1:]), w.lin([])[1:])
            ctx.eq(f"{m}/blocks", "MatrixBlock::get_block", got.fs[2], [[[2, ws[i]], [w.A[r][c] for c in range(o[i], o[i + 1]) for r in range(2)]] for i in range(3)])
        ctx.eq(f"{m}/linear_error", "LinearFactor::error", ctx.eval("factor", f"factor::{m}::lerr", SP.args(W, q, e), ob=f"{m}/linear_error"), w.lerr(e))
    for r_, fid in ((9, 461), (20, 462), (33, 463)):
        tall(ctx, p, ks[1], r_, fid)
    # one key twice
    w = Want(407, p[3:5] + p[3:5], W, 41, [2, 2])
    got = ctx.eval("factor", "factor::same_key", SP.args(W, p), ob="same_key")
    ctx.eq("same_key", "Factor over one key twice", got, w.obs([ks[1], ks[1]]))
    d2 = SP.vec("e", 2)
    ctx.eq("same_key/linear_error", "LinearFactor::error", ctx.eval("factor", "factor::same_key_lerr", SP.args(W, p, d2), ob="same_key/linear_error"), w.lerr(d2 + d2))
    # graphs
    parts = [Want(402, p[:5], W, None), Want(401, p[:3], None, 41), Want(407, p[3:5] + p[6:8], None, 42)]
    tot = SP.Z
    for q in parts:
        tot = tot + q.err
    got = ctx.eval("factor", "factor::graph_error", SP.args(W, p), ob="graph_error")
    ctx.eq("graph_error", "Graph::error", got, [tot] + [q.err for q in parts])
    ctx.eq("graph_empty", "Graph::error of an empty graph", ctx.eval("factor", "factor::graph_empty", SP.args(p), ob="graph_empty"), [SP.Z, 0, True])
    tot = parts[0].lerr(d[:5]) + parts[1].lerr(d[:3]) + parts[2].lerr(d[3:5] + d[6:8])
    got = ctx.eval("factor", "factor::lgraph_error", SP.args(W, p, d), ob="lgraph_error")
    ctx.eq("lgraph_error", "LinearGraph::error", got, [tot, tot])
    # many factors
    s, c = SP.vec("s", 4), alg.const
    for n in ctx.sizes([5, 40], cap=280):
        r = ctx.eval("linear", "linear::sized_error", [n] + SP.args(s), ob=f"size{n}")
        if r is None:
            continue
        e, le, ch = SP.Z, SP.Z, SP.Z
        for i in range(n):
            x = [s[0] * c(i + 1), s[1]]
            for k in range(3):
                u = alg.fn(f"u452_{k}", *x)
                t = u + alg.fn(f"D0_u452_{k}", *x) * s[3] * c(2 * i + 1) + alg.fn(f"D1_u452_{k}", *x) * s[3] * c(2 * i + 2)
                e, le = e + u * u, le + t * t
            # key i + 1 at n - i - 1, key i at n - i
            t = (s[0] * c(i + 1) + s[1]) * s[3] * c(n - i) + (s[0] * c(i + 1) + s[1] * c(2)) * s[3] * c(n - i + 1) - s[2] * c(i + 1)
            ch = ch + t * t
        ctx.eq(f"size{n}/error", "Graph::error", r.fs[0], e * SP.H2)
        ctx.eq(f"size{n}/linear_error", "LinearGraph::error", [r.fs[1], r.fs[2]], [le * SP.H2, ch * SP.H2])
    blocks(ctx)


def tall(ctx, p, key, r, fid):
    """a residual with many rows"""
    x = p[3:5]
    u = [alg.fn(f"u{fid}_{c}", *x) for c in range(r)]
    d2 = SP.Z
    for e in u:
        d2 = d2 + e * e
    w = alg.fn("p41", d2)
    a = alg.single_atom(w)
    (alg.atom_by_id(a) if isinstance(a, int) else a).sign = "+"
    sq = alg.sqrt(w)
    err = alg.fn("s41", d2)
    got = ctx.eval("factor", f"factor::tall{r}", SP.args(p), ob=f"tall{r}")
    A = [sq * alg.fn(f"D{j}_u{fid}_{c}", *x) for j in range(2) for c in range(r)]
    ctx.eq(f"tall{r}", "Factor::error/linearize", got, [[[key], err, r, [[key], [r, 2], A, [0], [-(sq * e) for e in u], r]], err])


def blocks(ctx):
    """linear factors of any height and width, also with empty blocks"""
    a, t, c = SP.vec("a", 4), alg.var("t"), alg.const
    for rows, ws in ((1, [1]), (9, [2]), (12, [1, 3]), (40, [1]), (3, [12, 1]), (2, [33]), (2, [2, 0, 1]), (3, [0, 2]), (2, [1, 2, 0]), (2, [0, 0, 1, 0, 2]), (5, [1] * 9), (1, [2] * 20)):
        nm = f"block{rows}x{','.join(map(str, ws))}"
        n = sum(ws)
        A = [[a[0] * c(i + 1) + a[1] * c(j * j + 1) for j in range(n)] for i in range(rows)]
        b = [a[2] * c(i + 1) + a[3] for i in range(rows)]
        off = [sum(ws[:i]) for i in range(len(ws) + 1)]
        e = SP.Z
        for i in range(rows):
            q = -b[i]
            for j in range(n):
                q = q + A[i][j] * t * c(j + 1)
            e = e + q * q
        r = ctx.eval("factor", "factor::block_factor", [rows, Seq(ws)] + SP.args(a) + [t], ob=nm)
        if r is None:
            continue
        ctx.eq(nm + "/blocks", "MatrixBlock::get_block", [r.fs[0], r.fs[1]],
               [rows, [[[rows, w], [A[i][j] for j in range(off[k], off[k] + w) for i in range(rows)]] for k, w in enumerate(ws)]])
        prod = []
        for k, w in enumerate(ws):
            col = []
            for i in range(rows):
                q = SP.Z
                for j in range(w):
                    q = q + A[i][off[k] + j] * t * c(j + 1)
                col.append(q)
            prod.append(col)
        ctx.eq(nm + "/mul", "MatrixBlock::mul", r.fs[2], prod)
        ctx.eq(nm + "/error", "LinearFactor::error", r.fs[3], e * SP.H2)
    k = alg.var("k", "+")
    for n in (1, 2, 5, 20):
        for at in {0, n // 2, n - 1}:
            r = ctx.eval("factor", "factor::graph_special", [n, at, False, k], ob=f"infinite{n}/{at}", defined=False)
            if r is not None:
                ctx.eq(f"infinite{n}/{at}", "Graph::error with an infinite factor", r.fs[1:], [True, False])
            r = ctx.eval("factor", "factor::graph_special", [n, at, True, k], ob=f"nan{n}/{at}", defined=False)
            if r is not None:
                ctx.eq(f"nan{n}/{at}", "Graph::error with a factor that is not a number", r.fs[1:], [False, True])
