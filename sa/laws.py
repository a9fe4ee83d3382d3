"""Obligations: equality of extracted value graphs with their specification, decided on normal forms.

An obligation is *proved* when the normal form of the difference is zero under every gate; *refuted* when the
difference is a non-zero function (shown by a point of the gate's region at which the two normal forms take
different values; nothing of the program is run, only the normal forms are evaluated); *undecided* otherwise.
Only refuted obligations and panics with a feasible gate are reported.
"""
import os, re, random, time, hashlib
import mpmath
from mpmath import mpf
from . import alg
from .alg import Expr
from .values import *

mpmath.mp.dps = 50
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


POS = re.compile(r"p\d+$")
SOLVE = re.compile(r"solve(\d+)_(\d+)_(\d+)$")
FREE = re.compile(r"(D\d+_)*[musD]\d+(_\d+)*$")


class EvalError(Exception):
    pass


# ---------------------------------------------------------------- evaluation of normal forms
class Env:
    def __init__(self, seed, scales=None, fixed=None):
        self.r = random.Random(seed)
        self.v = {}
        self.fn = {}
        self.scales = scales or {}
        self.fixed = fixed or {}
        self.cc = {}
        self.base = None        # chosen values of free variables and signs, kept when the cache is cleared

    def expr(self, e):
        tot = mpf(0)
        for m, c in e.t.items():
            p = mpf(c.numerator) / c.denominator
            for a, k in m:
                x = self.atom(a)
                if k < 0 and x == 0:
                    raise EvalError("division by zero")
                p *= x ** k
            tot += p
        return tot

    def mag(self, e):
        tot = mpf(0)
        for m, c in e.t.items():
            p = abs(mpf(c.numerator) / c.denominator)
            for a, k in m:
                p *= abs(self.atom(a)) ** k
            tot += p
        return tot

    def atom(self, a):
        if a in self.v:
            return self.v[a]
        at = alg.atom_by_id(a)
        if self.base is not None and a in self.base:
            v = self.base[a]
        elif at.kind == "v":
            v = self.var(at)
            if self.base is not None and at.unit2 is None:
                self.base[a] = v
        else:
            v = self.func(at)
        self.v[a] = v
        return v

    def var(self, at):
        if at.name in self.fixed:
            return mpf(self.fixed[at.name])
        if at.unit2 is not None:
            q = self.expr(at.unit2)
            if q < 0:
                raise EvalError("unit")
            if at.sign == "+":
                s = 1
            elif self.base is not None:
                s = self.base.setdefault((at.name, "sign"), self.r.choice([1, -1]))
            else:
                s = self.r.choice([1, -1])
            return mpmath.sqrt(q) * s
        if at.name == "pi":
            return mpmath.pi()
        if at.sample is not None:
            return mpf(at.sample(self))
        if at.rng:
            lo, hi = at.rng
            lo, hi = max(lo, -6.0), min(hi, 6.0) if hi > -6 else hi
            if lo > hi:
                lo = hi = at.rng[0]
            v = self.r.uniform(lo, hi)
        elif at.isint:
            v = self.r.randint(1, 9)
        elif at.sign == "+":
            v = self.r.uniform(0.2, 3.0)
        elif at.sign == "-":
            v = -self.r.uniform(0.2, 3.0)
        else:
            v = self.r.uniform(-2.0, 2.0)
        v = mpf(round(v, 6) or 0.5)
        return v * mpf(self.scales.get(at.name, self.scales.get("*", 1)))

    def func(self, at):
        n = at.name
        if n in ("sqrt", "sin", "cos", "exp", "ln", "abs", "inv", "atan2", "tan", "asin", "acos", "floor") and all(isinstance(x, Expr) for x in at.args):
            xs = [self.expr(x) for x in at.args]
            if n == "sqrt":
                if xs[0] < 0:
                    if xs[0] > -mpf(10) ** -40:
                        return mpf(0)
                    raise EvalError("sqrt")
                return mpmath.sqrt(xs[0])
            if n == "inv":
                if xs[0] == 0:
                    raise EvalError("inv")
                return 1 / xs[0]
            if n == "ln":
                if xs[0] <= 0:
                    raise EvalError("ln")
                return mpmath.log(xs[0])
            if n == "abs":
                return abs(xs[0])
            if n == "atan2":
                return mpmath.atan2(*xs)
            if n == "exp":
                return mpmath.exp(xs[0])
            return getattr(mpmath, n)(xs[0])
        mt = SOLVE.match(n)
        if mt:
            return self.solve(*map(int, mt.groups()), [self.expr(x) for x in at.args])
        key = self.fkey(at)
        if key not in self.fn:
            u = round(self.r.uniform(0.3, 2.0), 6)
            if at.sign is None and FREE.match(n):
                # the harness's unknown functions take any value
                u *= self.r.choice([1, -1])
                if n[0] == "m":
                    u *= self.r.choice([1, 0.1])
            self.fn[key] = mpf(u)
        return self.fn[key]

    def solve(self, n, i, c, xs):
        """component of the solution of a linear system"""
        key = ("solve", n) + tuple(xs)
        if key not in self.fn:
            nc = (len(xs) - n * n) // n
            try:
                cols = []
                A = mpmath.matrix([xs[r * n:r * n + n] for r in range(n)])
                for k in range(nc):
                    cols.append(mpmath.lu_solve(A, mpmath.matrix([xs[n * n + r * nc + k] for r in range(n)])))
                self.fn[key] = cols
            except (ZeroDivisionError, ValueError):
                raise EvalError("singular system")
        return self.fn[key][c][i]

    def reset(self):
        self.v.clear()
        self.cc.clear()

    def fkey(self, at):
        return (at.name,) + tuple(mpmath.nstr(self.expr(x), 25) if isinstance(x, Expr) else repr(x) for x in at.args)

    def cond(self, c):
        """truth of a condition atom"""
        if c.id not in self.cc:
            try:
                self.cc[c.id] = self._cond(c)
            except (EvalError, ZeroDivisionError, OverflowError):
                self.cc[c.id] = None
        if self.cc[c.id] is None:
            raise EvalError("gate undefined")
        return self.cc[c.id]

    def _cond(self, c):
        if c.kind == "pos":
            x = self.expr(c.e)
            if abs(x) < mpf(10) ** -40 * (1 + self.mag(c.e)):
                return False
            return x > 0
        if c.kind == "zero":
            return abs(self.expr(c.e)) < mpf(10) ** -35 * (1 + self.mag(c.e))
        key = self.ckey(c)
        if key not in self.fn:
            self.fn[key] = self.r.random() < 0.5
        return self.fn[key]

    def ckey(self, c):
        key = []

        def walk(x):
            if isinstance(x, Expr):
                key.append(mpmath.nstr(self.expr(x), 25))
            elif isinstance(x, tuple):
                for y in x:
                    walk(y)
            else:
                key.append(repr(x))
        walk(c.key)
        return (c.kind,) + tuple(key)

    def functional(self):
        """equal arguments of an unknown function, equal values"""
        seen = {}
        for a, v in list(self.v.items()):
            at = alg.atom_by_id(a)
            if at.kind != "v" and (FREE.match(at.name) or POS.match(at.name)) and seen.setdefault(self.fkey(at), v) != v:
                return False
        self.fn.update(seen)
        return True

    def pick(self, v):
        while isinstance(v, Ite):
            v = v.t if self.cond(v.a) else v.f
        return v

    def assign(self, names):
        out = {}
        for a, v in self.v.items():
            at = alg.atom_by_id(a)
            if at.kind == "v" and at.name != "pi":
                out[at.name] = mpmath.nstr(v, 8)
        return out


# ---------------------------------------------------------------- structure
class Shape(Exception):
    pass


def flatten(v):
    """scalar leaves of a value, in order"""
    if isinstance(v, (list, tuple)):
        return [x for y in v for x in flatten(y)]
    if isinstance(v, Seq):
        return [x for y in v.xs for x in flatten(y)]
    if isinstance(v, Mat):
        return [x for y in v.xs for x in flatten(y)]
    if isinstance(v, Agg):
        return [x for y in v.fs for x in flatten(y)]
    if isinstance(v, (Seq,)):
        return list(v.xs)
    return [v]


def isnum(x):
    return isinstance(x, (Expr, int, bool)) or type(x).__name__ == "Fraction"


def zero_subst(path):
    """substitution expressing the equalities of a gate assignment, when they are solved for a variable"""
    mp = {}
    for a, val in path:
        if a.kind == "zero" and val:
            e = alg.subst(a.e, mp) if mp else a.e
            for m, c in e.t.items():
                if len(m) == 1 and m[0][1] == 1 and alg.atom_by_id(m[0][0]).kind == "v":
                    v = m[0][0]
                    rest = e - Expr({m: c})
                    if v not in alg.all_atoms(rest):
                        mp[v] = rest * alg.const(-1) / alg.const(c)
                        break
    return mp


def tight(path):
    """expressions a gate assignment forces to zero: equalities, and pairs e <= 0, -e <= 0"""
    out = [a.e for a, val in path if a.kind == "zero" and val]
    neg = [a.e for a, val in path if a.kind == "pos" and not val]
    for i, e in enumerate(neg):
        for f in neg[:i]:
            try:
                if alg.is_zero(e + f):
                    out.append(e)
            except alg.TooBig:
                pass
    return out


def settle(env, eqs):
    """choose free variables of the environment so that the equalities hold"""
    done = set()
    for e in eqs:
        for m, c in sorted(e.t.items(), key=lambda x: len(x[0])):
            ok = None
            for a, k in m:
                at = alg.atom_by_id(a)
                if k == 1 and at.kind == "v" and at.unit2 is None and at.name != "pi" and a not in done:
                    co = {}
                    rest = {}
                    for m2, c2 in e.t.items():
                        d = dict(m2)
                        if a in d:
                            if d.pop(a) != 1:
                                break
                            co[tuple(sorted(d.items()))] = c2
                        else:
                            rest[m2] = c2
                    else:
                        co, rest = Expr(co), Expr(rest)
                        if a not in alg.all_atoms(rest) and a not in alg.all_atoms(co):
                            ok = (a, co, rest)
                            break
            if ok:
                a, co, rest = ok
                v = -env.expr(rest) / env.expr(co)
                at = alg.atom_by_id(a)
                if at.rng and not at.rng[0] <= v <= at.rng[1] or at.sign == "+" and v <= 0 or at.sign == "-" and v >= 0:
                    raise EvalError("range")
                env.v[a] = v
                done.add(a)
                break


# ---------------------------------------------------------------- points of a gate's region
GRID = [mpf(0)] + [x * mpf(10) ** k for k in (-15, -12, -9, -7, -5, -4, -3, -2) for x in (1, -1)] \
    + [mpf(x) / 100 for k in (10, 30, 50, 70, 90, 100, 120, 150, 200, 280, 350, 500, 630, 900, 1500, 10000, 100000, 10 ** 7, 10 ** 9, 10 ** 12) for x in (k, -k)] \
    + [s * (h * mpmath.pi / 2 + d * mpf(10) ** -k) for h in (1, 2, 4) for k in (3, 5) for d in (1, -1) for s in (1, -1)]


def allowed(at, x):
    if at.sample is not None:
        return -1 <= x <= 1          # quaternion coordinates; the norm is checked on evaluation
    if at.rng and not at.rng[0] <= x <= at.rng[1]:
        return False
    if at.isint and x != int(x):
        return False
    return not (at.sign == "+" and x <= 0 or at.sign == "-" and x >= 0)


def knobs(es):
    """free quantities an expression depends on: independent inputs, unknown functions of the harness"""
    ids = set()
    for e in es:
        alg.all_atoms(e, ids)
    out = []
    for a in sorted(ids):
        at = alg.atom_by_id(a)
        if at.kind == "v":
            if at.unit2 is None and at.name != "pi":
                out.append(a)
        elif FREE.match(at.name) or POS.match(at.name):
            out.append(a)
    return out


def exprs_of(c):
    if c.e is not None:
        return [c.e]
    out = []

    def walk(x):
        if isinstance(x, Expr):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
    walk(c.key)
    return out


def search(path, seed, deadline, attempts=30):
    """points at which every gate of the path holds, found along one free quantity at a time: the sign changes of the gates on
    that axis split it into cells, and the cell violating the fewest gates is chosen.  Generator of environments."""
    path = [(a, v) for a, v in path]
    dep = {id(a): set(knobs(exprs_of(a))) for a, _ in path}
    names = sorted(set().union(*dep.values())) if dep else []
    if not names:
        return
    for t in range(attempts):
        r = random.Random(f"{seed}/{t}")
        env = Env(f"{seed}/{t}")
        env.base = {}
        if t % 3:
            for a in names:
                at = alg.atom_by_id(a)
                if at.kind == "v" and r.random() < 0.6:
                    x = mpf(round(r.uniform(0.3, 3) * r.choice([1, -1]), 3)) * mpf(10) ** r.choice([0, 0, 0, -1, -2, -4, -6, -9, -12, 1])
                    if r.random() < 0.15:
                        x = mpf(0)
                    if allowed(at, x):
                        env.base[a] = x

        def val(c):
            try:
                return env.expr(c.e)
            except (EvalError, ZeroDivisionError, OverflowError):
                return None

        def violated():
            out = []
            for a, v in path:
                try:
                    if env.cond(a) != v:
                        out.append((a, v))
                except (EvalError, ZeroDivisionError, OverflowError):
                    out.append((a, v))
            return out

        env.reset()
        bad = violated()
        for rounds in range(10):
            if time.time() > deadline:
                return
            if not bad:
                break
            c, want = r.choice(bad)
            if c.e is None:
                # an opaque condition: its truth is free
                try:
                    env.fn[env.ckey(c)] = want
                    env.reset()
                except (EvalError, ZeroDivisionError, OverflowError):
                    pass
                bad = violated()
                continue
            ks = sorted(dep[id(c)])
            if not ks:
                break
            a = r.choice(ks)
            at = alg.atom_by_id(a)
            old = env.base.get(a, env.v.get(a))

            def put(x):
                env.base[a] = x
                env.reset()
            near = [c2 for c2, _ in path if c2.e is not None and a in dep[id(c2)]]
            if len(near) > 6:
                near = [c] + r.sample([x for x in near if x is not c], 5)
            pts = sorted({x for x in GRID + ([old] if old is not None else []) if allowed(at, x)})
            rows = []
            for x in pts:
                put(x)
                rows.append([val(c2) for c2 in near])
            cuts = set()
            for i in range(len(pts) - 1):
                for j, c2 in enumerate(near):
                    u, w = rows[i][j], rows[i + 1][j]
                    if u is None and w is None:
                        continue
                    if u is not None and w is not None and u != 0 and w != 0 and (u > 0) == (w > 0):
                        continue
                    if u == 0 or w == 0:
                        cuts.add(pts[i] if u == 0 else pts[i + 1])
                        continue
                    lo, hi = pts[i], pts[i + 1]
                    fl = None if u is None else u > 0
                    for _ in range(420 if c2.kind == "zero" and want else 60):
                        mid = (lo + hi) / 2
                        if mid == lo or mid == hi:
                            break
                        put(mid)
                        z = val(c2)
                        if z == 0:
                            lo = hi = mid
                            break
                        if (None if z is None else z > 0) == fl:
                            lo = mid
                        else:
                            hi = mid
                    cuts.add(lo)
                    cuts.add(hi)
                    if time.time() > deadline:
                        break
            xs = sorted(cuts | set(pts))
            cand = list(xs)
            cs = sorted(cuts)
            cand += [(cs[i] + cs[i + 1]) / 2 for i in range(len(cs) - 1)]
            for x in cs:
                cand += [x * (1 + s * mpf(10) ** -k) for k in (2, 5, 9) for s in (1, -1)] if len(cs) < 8 else []
            best = None
            for x in cand:
                if not allowed(at, x):
                    continue
                put(x)
                b = len(violated())
                k = (b, r.random())
                if best is None or k < best[0]:
                    best = (k, x)
            if best is None:
                break
            put(best[1])
            bad = violated()
        if not bad:
            # equal arguments of an unknown function, equal values
            env.reset()
            try:
                if all(env.cond(a) == v for a, v in path) and env.functional():
                    yield env
            except (EvalError, ZeroDivisionError, OverflowError):
                pass


class Verdict:
    def __init__(self, status, detail="", witness=None):
        self.status, self.detail, self.witness = status, detail, witness


def mk_scales(names):
    out = [None] * 6
    if names:
        for k in (1e-1, 1e-2, 1e-3, 1e-4, 1e-6, 1e-8):
            out.append({n: k for n in names})
    return out


SEARCH = dict(each=float(os.environ.get("SA_SEARCH", "12")), left=240.0)      # seconds for one obligation, for the whole check


def equal(got, want, small=(), tol=None, tries=60, proj=None, ctx=""):
    """decide got == want for every input; gated scalars on either side.
    small: names of inputs also sampled at small scales (series branches), for which the difference may be up to
    tol(env) instead of zero."""
    g, w = flatten(got), flatten(want)
    if len(g) != len(w):
        return Verdict("refuted", f"{len(g)} components instead of {len(w)}")
    allproved = True
    todo = []
    count, over = 0, False
    for i, (x, y) in enumerate(zip(g, w)):
        if isinstance(x, Ite) or isinstance(y, Ite):
            d = lift(lambda p, q: (p, q), x, y)
        else:
            d = (x, y)
        for path, leaf in leaves(d):
            count += 1
            if count > 20000:
                if len(todo) > 3000:
                    todo = random.Random(ctx).sample(todo, 3000)
                over = True
                allproved = False
                break
            if not isinstance(leaf, tuple):
                return Verdict("undecided", "shape")
            p, q = leaf
            if isinstance(p, bool):
                p = int(p)
            if isinstance(q, bool):
                q = int(q)
            if p == q:
                continue
            if not (isnum(p) and isnum(q)):
                if isinstance(p, Str) or isinstance(q, Str) or not path and (isinstance(p, Special) and (isnum(q) or isinstance(q, Special)) or isinstance(q, Special) and isnum(p)):
                    return Verdict("refuted", f"component {i}: {p!r} instead of {q!r}")
                return Verdict("undecided", f"component {i}: {str(p)[:80]} vs {str(q)[:80]}")
            try:
                df = alg.lift(p) - alg.lift(q)
                zs = zero_subst(path)
                if zs:
                    df = alg.subst(df, zs)
                if alg.is_zero(df):
                    continue
            except alg.TooBig:
                df = None
            allproved = False
            todo.append((i, path, p, q))
    if allproved:
        return Verdict("proved")
    # disequality certificate: a point in the gate's region where the normal forms differ
    hits = {}
    agree = 0
    start = time.time()
    seen = set()
    for t in range(2 * tries):
        # second half: regions of measure zero (equal sides of a comparison), one component at a time
        if t >= tries and (hits or len(seen) == len(todo)) or time.time() - start > 90:
            break
        sc = mk_scales(small)
        env = Env(f"{SEED}/{ctx}/{t}", sc[t % len(sc)])
        for n, (i, path, p, q) in enumerate(todo):
            if n in hits and len(hits[n]) >= 2:
                continue
            if t >= tries:
                if n in seen:
                    continue
                eqs = tight(path)
                if not eqs:
                    continue
                env = Env(f"{SEED}/{ctx}/{t}/{n}", sc[t % len(sc)])
                try:
                    settle(env, eqs)
                    env.cc.clear()
                except (EvalError, ZeroDivisionError, OverflowError):
                    continue
            try:
                if not all(env.cond(a) == val for a, val in path):
                    continue
                if isinstance(p, Expr) or isinstance(q, Expr):
                    x, y = env.expr(alg.lift(p)), env.expr(alg.lift(q))
                else:
                    x, y = mpf(int(p)), mpf(int(q))
            except (EvalError, ZeroDivisionError, OverflowError):
                continue
            if t < tries:
                seen.add(n)
            err = abs(x - y)
            lim = mpf(10) ** -25 * (1 + abs(x) + abs(y))
            if tol is not None:
                lim = max(lim, tol(env, i))
            if err > lim:
                hits.setdefault(n, []).append((env, x, y))
            else:
                agree += 1
        if hits and any(len(h) >= 2 for h in hits.values()):
            break
    if not hits and len(seen) < len(todo):
        # leaves no sample fell into: look for a point of their region
        end = time.time() + min(SEARCH["each"], max(0, SEARCH["left"]))
        t0 = time.time()
        with mpmath.workdps(120):
            rest = [n for n in range(len(todo)) if n not in seen]
            random.Random(f"{SEED}/{ctx}").shuffle(rest)
            for k, n in enumerate(rest[:60]):
                i, path, p, q = todo[n]
                now = time.time()
                if now > end:
                    break
                pts = 0
                for env in search(path, f"{SEED}/{ctx}/r{n}", now + max(2, (end - now) / max(1, min(60, len(rest)) - k))):
                    try:
                        x, y = env.expr(alg.lift(p)), env.expr(alg.lift(q))
                    except (EvalError, ZeroDivisionError, OverflowError):
                        continue
                    lim = mpf(10) ** -13 * (1 + abs(x) + abs(y))
                    if tol is not None:
                        lim = max(lim, tol(env, i))
                    if abs(x - y) > lim:
                        hits.setdefault(n, []).append((env, x, y))
                        break
                    agree += 1
                    pts += 1
                    if pts >= 6:
                        break
                if hits:
                    break
        SEARCH["left"] -= time.time() - t0
    for n, h in hits.items():
        i, path, p, q = todo[n]
        env, x, y = h[0]
        cond = " and ".join(f"{'' if val else 'not '}{a!r}"[:160] for a, val in path[:4])
        return Verdict("refuted", f"component {i} is {mpmath.nstr(x, 8)} instead of {mpmath.nstr(y, 8)}"
                       + (f" where {cond}" if cond else "") + f"; value {str(p)[:300]}; specified {str(q)[:300]}",
                       env.assign(None))
    if os.environ.get("SA_LEAVES"):
        for n, t in enumerate(todo):
            print("   leaf", ctx, t[0], [(str(a)[:60], v) for a, v in t[1]], str(t[2])[:100], "|", str(t[3])[:60])
    return Verdict("agrees" if agree else "undecided", f"{len(todo)} components not reduced to zero, {agree} evaluations agree")


def feasible(assume, tries=80, small=()):
    """a point satisfying a set of gate assumptions, or None"""
    ats = [(CAtom.byid[i], v) for i, v in assume.items()]
    for t in range(tries):
        sc = mk_scales(small)
        env = Env(f"{SEED}/f/{t}", sc[t % len(sc)])
        try:
            if all(env.cond(a) == v for a, v in ats):
                return env
        except (EvalError, ZeroDivisionError, OverflowError):
            continue
    t0 = time.time()
    with mpmath.workdps(120):
        for env in search(ats, f"{SEED}/f", t0 + min(5, max(0, SEARCH["left"])), attempts=12):
            SEARCH["left"] -= time.time() - t0
            return env
    SEARCH["left"] -= time.time() - t0
    return None


def gsubst(v, mp):
    """substitution (atom id -> Expr) in gates and leaves"""
    if isinstance(v, Expr):
        return alg.subst(v, mp)
    if isinstance(v, Ite):
        a = v.a
        if a.kind == "pos":
            c = cond_pos(alg.subst(a.e, mp))
        elif a.kind == "zero":
            c = cond_zero(alg.subst(a.e, mp))
        else:
            c = Ite(a, True, False)
        t, f = gsubst(v.t, mp), gsubst(v.f, mp)
        return lift(lambda p, x, y: x if p else y, c, t, f)
    if isinstance(v, (list, tuple)):
        return [gsubst(x, mp) for x in v]
    if isinstance(v, Seq):
        return Seq([gsubst(x, mp) for x in v.xs])
    return v
