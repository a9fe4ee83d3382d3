"""g2o loading: load_g20 is analysed over files whose fields are symbols (line kinds and ids concrete; 2D and 3D; vertices and edges in several orders, unknown lines interleaved, a single vertex, no lines); the loaded variables, the number of factors and the cost of the loaded graph at symbolic poses, as value graphs, equal those of the graph the lines describe. log and the Cholesky factor enter as function symbols shared by both sides; a disagreement is confirmed with the real Cholesky recurrence before it is reported."""
from sa import spec as SP, alg, models_text as MT, laws, scalar as S
from sa.values import *
from checks.c04 import loghook

IDS = [4000000007, 0, 70003]


class File:
    """text with one private-use character per symbolic field"""
    def __init__(self):
        self.tok, self.lines = {}, []

    def fld(self, e):
        c = chr(MT.PUA + len(self.tok))
        self.tok[c] = e
        return c

    def line(self, kind, ids, fields):
        self.lines.append(" ".join([kind] + [str(i) for i in ids] + [self.fld(e) for e in fields]))
        return self

    def text(self):
        return "".join(x + "\n" for x in self.lines)


class Chol:
    def __init__(self):
        self.seen = {}

    def __call__(self, it, v):
        if v not in self.seen:
            n, k = v.nr, len(self.seen)
            self.seen[v] = Mat(n, n, [alg.var(f"L{k}_{i}_{j}", "+" if i == j else None) if i >= j else SP.Z for i in range(n) for j in range(n)])
        return self.seen[v]


def upper(m, n):
    return [m[i * n + j] for i in range(n) for j in range(i, n)]


class Dim:
    def __init__(self, d, exact=None):
        self.d, self.exact = d, exact
        self.n = 3 if d == 2 else 6
        self.tag = "SE2" if d == 2 else "SE3:QUAT"
        self.chol = Chol()
        self.used = []
        # g2o order is translation first, the library's tangent is rotation first
        self.perm = [2, 0, 1] if d == 2 else [3, 4, 5, 0, 1, 2]
        self.p = [self.pose(f"p{i}") for i in range(3)]

    def pose(self, nm):
        return SP.vec(nm + "_", 3) + ([] if self.d == 2 else SP.unitquat(nm + "q"))

    def inf(self, nm):
        """the matrix as written in the file (full, symmetric)"""
        n = self.n
        m = [None] * (n * n)
        for i in range(n):
            for j in range(i, n):
                if self.exact is not None:
                    e = alg.const(self.exact(int(nm[1:]) + 1, i, j, n))
                else:
                    e = alg.var(f"{nm}_{i}{j}", "+" if i == j else None)
                m[n * i + j] = m[n * j + i] = e
        return m

    def setup(self, f=None):
        def go(it):
            if self.exact is None:
                it.chol_hook = self.chol
            loghook("se2" if self.d == 2 else "se3", self.used)(it)
            if f is not None:
                it.file_text, it.tokens = f.text(), f.tok
        return go


F = alg.Fraction
# information matrices the Cholesky recurrence is followed on exactly
EXACT = [lambda k, i, j, n: F((40 + 7 * i * k) if i == j else (i + 2 * j + k) % 5 - 2 + i, 3),
         lambda k, i, j, n: F(4 + 5 * i + k if i == j else 0),
         lambda k, i, j, n: F(1 if i == j else 0),
         lambda k, i, j, n: F(9 if i == j else 0),
         lambda k, i, j, n: F(10 ** 9 if i == j else 0, k),
         lambda k, i, j, n: F(1 if i == j else 0, 10 ** (6 + k)),
         lambda k, i, j, n: F(90 + i if i == j else -3 if (i + k) % 3 == 0 else 0),
         lambda k, i, j, n: F(50 if i == j else 6 if j == i + 1 else 0),
         lambda k, i, j, n: F(70 + 11 * i * k if i == j else 7 if j == n - 1 - i else 0)]


def run(ctx):
    for d in (2, 3):
        decide(ctx, d)


def load(ctx, D, f, ob):
    return ctx.eval("g2o", f"g2o::load{D.d}", SP.args([Seq(x) for x in D.p]), ob=ob, setup=D.setup(f), defined=True)


def quad(cost, r):
    """cost is a constant positive quadratic form in the entries of r"""
    ids = {alg.single_atom(x): i for i, x in enumerate(r)}
    if None in ids:
        return None
    ids = {(a if isinstance(a, int) else a.id): i for a, i in ids.items()}
    diag = set()
    for m, c in cost.t.items():
        if sum(e for _, e in m) != 2 or any(a not in ids for a, _ in m):
            return False
        if len(m) == 1:
            if c <= 0:
                return False
            diag.add(ids[m[0][0]])
    return len(diag) == len(r)


def decide(ctx, d):
    D = Dim(d)
    T = "SE2" if d == 2 else "SE3"
    verts = [D.pose(f"v{i}") for i in range(3)]
    want = [ctx.eval("g2o", f"g2o::pose{d}", SP.args(v), ob=f"{T}/pose{i}", setup=D.setup()) for i, v in enumerate(verts)]
    res = ctx.eval("g2o", f"g2o::prior{d}", SP.args(verts[0], [Seq(x) for x in D.p]), ob=f"{T}/prior", setup=D.setup())
    if res is None or any(w is None for w in want):
        return
    rx = laws.flatten(res)

    def vertices(f, order=(0, 1, 2)):
        for i in order:
            f.line("VERTEX_" + D.tag, [IDS[i]], verts[i])
        return f

    def edges(D, f, which=(0, 1, 2)):
        """3 -> 0, 7 -> 3, 0 -> 7; returns the cost the lines describe"""
        tot = SP.Z
        for k in which:
            a, b = ((0, 1), (2, 0), (1, 2), (1, 1), (0, 1), (1, 0))[k]
            z, m = D.pose(f"z{k}"), D.inf(f"m{k}")
            f.line("EDGE_" + D.tag, [IDS[a], IDS[b]], z + upper(m, D.n))
            q = [m[D.n * D.perm[i] + D.perm[j]] for i in range(D.n) for j in range(D.n)]
            c = ctx.eval("g2o", f"g2o::edge{d}", SP.args(z, q, D.p[a], D.p[b]), ob=f"{T}/edge{k}/described", setup=D.setup(), defined=False)
            if c is None:
                return None
            tot = S.add(tot, c)
        return tot

    def some(i):
        return Agg(-1, 1, (Seq(laws.flatten(want[i])),))
    none = Agg(-1, 0, ())

    def values(ob, r, have):
        ctx.eq(ob + "/values", "load_g20", [r.fs[2], r.fs[3]], [Seq([some(i) if i in have else none for i in range(3)]), len(have)])

    # no lines, unknown lines only
    for nm, f in (("empty", File()), ("unknown", File().line("FIX", [3], []).line("#", [], []))):
        r = load(ctx, D, f, f"{T}/{nm}")
        if r is not None:
            ctx.eq(f"{T}/{nm}", "load_g20", [r.fs[0], r.fs[1]], [0, SP.Z])
            values(f"{T}/{nm}", r, ())
    # vertices: values and the prior
    cost0 = {}
    for nm, order in (("single", (0,)), ("vertices", (0, 1, 2)), ("other order", (0, 2, 1))):
        r = load(ctx, D, vertices(File(), order), f"{T}/{nm}")
        if r is None:
            continue
        ctx.eq(f"{T}/{nm}/one prior", "load_g20", r.fs[0], 1)
        values(f"{T}/{nm}", r, order)
        c = cost0[nm] = r.fs[1]
        q = quad(c, rx) if isinstance(c, alg.Expr) else None
        ob = f"{T}/{nm}/prior"
        if q:
            ctx.ok(ob, "load_g20")
        elif q is None:
            ctx.note(ob, "undecided", "residual of the prior is not a symbol", "load_g20")
        else:
            v = laws.equal([c], [SP.Z], ctx=ctx.pid + ob)
            ctx.fail(ob, "load_g20", "the prior's cost is not a positive quadratic form in the difference between the first vertex's pose and its variable"
                     + f": {str(c)[:300]}", v.witness)
    base = cost0.get("vertices")
    if base is None:
        return

    def mk(D, nm):
        f = File()
        if nm == "one edge":
            vertices(f)
            w = edges(D, f, (1,))
            n = 1
        elif nm == "graph":
            f.line("VERTEX_" + D.tag, [IDS[0]], verts[0])
            f.line("FIX", [3], [])
            f.line("VERTEX_" + D.tag, [IDS[1]], verts[1])
            w0 = edges(D, f, (0,))
            f.line("VERTEX_" + D.tag, [IDS[2]], verts[2])
            f.line("# comment", [], [])
            w1 = edges(D, f, (1, 2))
            w = None if w0 is None or w1 is None else S.add(w0, w1)
            n = 3
        elif nm == "loops":
            # an edge from a vertex to itself, two between the same vertices and one back
            vertices(f)
            w = edges(D, f, (3, 0, 4, 5))
            n = 4
        else:
            w = edges(D, f)
            vertices(f)
            n = 3
        return f, w, n
    for nm in ("one edge", "graph", "loops", "edges first"):
        ob = f"{T}/{nm}"
        f, w, n = mk(D, nm)
        if w is None:
            continue
        r = load(ctx, D, f, ob)
        if r is None:
            continue
        ctx.eq(ob + "/factors", "load_g20", r.fs[0], 1 + n)
        values(ob, r, (0, 1, 2))
        v = laws.equal([S.sub(r.fs[1], base)], [w], ctx=ctx.pid + ob)
        if v.status == "refuted":
            # the symbols hide what the Cholesky factor is: ask again with numeric information matrices
            for i, ex in enumerate(EXACT):
                E = Dim(d, ex)
                f, w, n = mk(E, nm)
                r = load(ctx, E, f, ob + "/exact") if w is not None else None
                b = load(ctx, E, vertices(File()), ob + "/exact") if r is not None else None
                v = laws.equal([S.sub(r.fs[1], b.fs[1])], [w], ctx=f"{ctx.pid}{ob}x{i}") if b is not None else laws.Verdict("undecided", "exact comparison: " + v.detail[:200])
                if v.status == "refuted":
                    break
            if v.status == "proved":
                v = laws.Verdict("agrees", f"equal for {len(EXACT)} choices of the information matrices only")
        ctx.note(ob + "/cost", v.status, v.detail, "load_g20", v.witness)
    # long files: n further vertices, the same edge n times
    f = vertices(File())
    one = load(ctx, D, f, f"{T}/one line") if edges(D, f, (1,)) is not None else None
    for n in ctx.sizes([3, 40], cap=220, only="::utils::") if one is not None else ():
        ob = f"{T}/{n} lines"
        f = vertices(File())
        more = []
        for i in range(n):
            c = [alg.const(i), alg.const(-2), alg.const(0)] + ([] if d == 2 else [SP.Z, SP.Z, SP.Z, SP.O])
            f.lines.append(f"VERTEX_{D.tag} {10 + i} " + " ".join(str(x.cval()) for x in c))
            more.append(Agg(-1, 1, (Seq([c[0], c[1], SP.O, SP.Z, SP.Z, SP.O] if d == 2 else c),)))
        edges(D, f, (1,))
        f.lines += f.lines[-1:] * (n - 1)
        r = ctx.eval("g2o", f"g2o::many{d}", [n] + SP.args([Seq(x) for x in D.p]), ob=ob, setup=D.setup(f))
        if r is None:
            continue
        r, vs = r.fs
        ctx.eq(ob + "/counts", "load_g20", [r.fs[0], r.fs[3]], [1 + n, 3 + n])
        ctx.eq(ob + "/values", "load_g20", [r.fs[2], vs], [Seq([some(i) for i in range(3)]), Seq(more)])
        v = laws.equal([S.sub(r.fs[1], base)], [S.mul(S.sub(one.fs[1], base), alg.const(n))], ctx=ctx.pid + ob)
        # what one edge costs is decided above
        ctx.note(ob + "/cost", v.status, v.detail, "load_g20", v.witness)
