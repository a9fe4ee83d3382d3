"""Noise models: for every GaussianNoise constructor and dimension 1..6, 9, 12, 15, the whitening matrix W extracted from whiten_mat(I) satisfies W^T W Sigma = I for the covariance Sigma the constructor was given (symbolic positive sigmas/variances/informations; matrices as U U^T with U a symbolic triangular factor), whiten_vec(v) = W v with the same W, rectangular matrices are whitened column-wise; UnitNoise is the identity."""
from sa import spec as SP, alg, scalar as S
from sa.values import *


def mat(x, n):
    """column-major list -> rows"""
    return [[x[c * n + r] for c in range(n)] for r in range(n)]


def gmm(a, b):
    n, k, m = len(a), len(b), len(b[0])
    return [[gsum([gmul(a[i][q], b[q][j]) for q in range(k)]) for j in range(m)] for i in range(n)]


def gmul(x, y):
    return S.mul(x, y)


def gsum(xs):
    r = SP.Z
    for x in xs:
        r = S.add(r, x)
    return r


def tri(n, pairs, upper):
    """triangular factor with positive diagonal and the given off-diagonal couplings"""
    m = [[SP.Z] * n for _ in range(n)]
    for i in range(n):
        m[i][i] = alg.var(f"t{i}", "+")
    for i, j in pairs:
        a, b = (min(i, j), max(i, j)) if upper else (max(i, j), min(i, j))
        m[a][b] = alg.var(f"t{a}_{b}")
    return m


def run(ctx):
    cfg = "noise"
    for n in (1, 2, 3, 4, 5, 6, 9, 12, 15):
        m = f"noise::n{n}::"
        s = [alg.var(f"s{i}", "+") for i in range(n)]
        v = SP.vec("v", n)

        def judge(ob, f, got, cov):
            """got = (dim, W column-major, W v)"""
            if got is None:
                return
            anchor = f"GaussianNoise<{n}>::{f}"
            dim, W, wv = got.fs
            ctx.eq(ob + "/dim", anchor, dim, n)
            if len(W.xs) != n * n or len(wv.xs) != n:
                ctx.fail(ob + "/shape", anchor, f"whitening returns {len(W.xs)} and {len(wv.xs)} entries")
                return
            W = mat(W.xs, n)
            I = SP.eye(n)
            WtW = gmm(SP.tr(W), W)
            ctx.eq(ob + "/information", anchor, gmm(WtW, cov), I)
            ctx.eq(ob + "/whiten_vec", anchor, wv, [gsum([gmul(W[i][j], v[j]) for j in range(n)]) for i in range(n)])

        def diag(xs):
            return [[xs[i] if i == j else SP.Z for j in range(n)] for i in range(n)]
        inv = [SP.O / x for x in s]
        sq = [x * x for x in s]
        for f, cov in (("scalar_sigma", diag([sq[0]] * n)), ("scalar_cov", diag([s[0]] * n)), ("vec_sigma", diag(sq)), ("vec_cov", diag(s)),
                       ("vec_inf", diag(inv)), ("diag_sigmas", diag(sq)), ("diag_covs", diag(s))):
            if n > 6 and f.startswith("diag"):
                continue
            judge(f"{n}/{f}", "from_" + f, ctx.eval(cfg, (f"noise::diag::n{n}::" if f.startswith("diag") else m) + f, SP.args(s, v), ob=f"{n}/{f}"), cov)
        for f in ("unit", "identity"):
            got = ctx.eval(cfg, m + f, SP.args(v), ob=f"{n}/{f}")
            ctx.eq(f"{n}/{f}", f"UnitNoise<{n}>" if f == "unit" else "GaussianNoise::identity", got, [n, SP.eye(n), v])
        # full matrices up to dimension 3, every pairwise coupling beyond
        full = [(i, j) for i in range(n) for j in range(i)]
        pats = [full] if n <= 3 else [[p] for p in full] + [[(i, i - 1) for i in range(1, n, 2)], [(2, 0), (2, 1)]]
        if n > 6:
            # every index coupled to its neighbour, to the first and to its mirror
            pats = [[(i, i - 1) for i in range(1, n, 2)], [(i, i - 1) for i in range(2, n, 2)], [(n - 1, 0)], [(n - 1, n - 2)],
                    [(n - 1 - i, i) for i in range(n // 2)], [(2, 0), (2, 1)]]
        for k, pat in enumerate(pats):
            U = tri(n, pat, True)
            cov = SP.mm(U, SP.tr(U))
            got = ctx.eval(cfg, m + "matrix_cov", [Seq([Seq(r) for r in cov]), Seq(v)], ob=f"{n}/matrix_cov{k}")
            judge(f"{n}/matrix_cov{k}", "from_matrix_cov", got, cov)
            L = tri(n, pat, False)
            inf = SP.mm(L, SP.tr(L))
            got = ctx.eval(cfg, m + "matrix_inf", [Seq([Seq(r) for r in inf]), Seq(v)], ob=f"{n}/matrix_inf{k}")
            if got is not None:
                W = mat(got.fs[1].xs, n)
                ctx.eq(f"{n}/matrix_inf{k}/information", f"GaussianNoise<{n}>::from_matrix_inf", gmm(SP.tr(W), W), inf)
                ctx.eq(f"{n}/matrix_inf{k}/whiten_vec", f"GaussianNoise<{n}>::from_matrix_inf", got.fs[2], [gsum([gmul(W[i][j], v[j]) for j in range(n)]) for i in range(n)])
        M = [[alg.var(f"m{i}_{j}") for j in range(2)] for i in range(n)]
        for f, a in (("rect", [s]), ("unit_rect", [])):
            got = ctx.eval(cfg, m + f, SP.args(*a) + [Seq([Seq(r) for r in M])], ob=f"{n}/{f}")
            W = ctx.eval(cfg, m + ("vec_sigma" if a else "unit"), SP.args(*a, v), ob=f"{n}/{f}")
            if W is not None:
                W = mat(W.fs[1].xs, n)
                P = gmm(W, M)
                ctx.eq(f"{n}/{f}", "whiten_mat of a rectangular matrix", got, [n, 2, [P[i][j] for j in range(2) for i in range(n)]])
        if n in (1, 3):
            for f, a in (("rect", [s]), ("unit_rect", [])):
                for w in ctx.sizes([7], cap=400, only="noise"):
                    M = [[alg.const(i + 2 * j + 1) for j in range(w)] for i in range(n)]
                    ob = f"{n}/{f}{w}"
                    got = ctx.eval(cfg, m + f + "_n", [w] + SP.args(*a) + [Seq([Seq(r) for r in M])], ob=ob)
                    sc = [SP.O / x for x in s] if a else [SP.O] * n
                    ctx.eq(ob, "whiten_mat of a wide matrix", got, [n, w, [sc[i] * M[i][j] for j in range(w) for i in range(n)]])
