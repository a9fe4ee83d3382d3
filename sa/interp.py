"""Abstract interpreter over monomorphic MIR.

Dataflow over each function's CFG: at a branch whose condition is not constant in the domain both sides are
evaluated up to the immediate post-dominator and the two stores are joined into gated values; calls are analysed
context-sensitively on their MIR bodies; functions without a body are covered by algebraic summaries (models.py) or
become uninterpreted terms.  Loops with statically constant trip counts unroll; other loops are summarised by
abstracting the cells they modify (phi) and recording initial value, step and exit relation.
"""
import json, sys
from fractions import Fraction
from . import alg
from .alg import Expr
from .values import *

sys.setrecursionlimit(60000)

NEWTYPES = ("MaybeUninit", "ManuallyDrop", "UnsafeCell", "MaybeDangling", "Unique", "NonNull", "Wrapping", "Saturating")


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types, self.insts, self.files = d["types"], d["insts"], d["files"]
        self.roots = dict((n, i) for n, i in d["roots"])
        self.vt = {}
        for v in d["vtables"]:
            self.vt[(v["t"], v["dyn"])] = v["e"]
        self.byname = {}
        for k, i in enumerate(self.insts):
            self.byname.setdefault(i["name"], k)
        self.cfg = {}
        self.impls = {(self.types[t]["s"], n): i for t, n, i in d.get("impls", [])}
        self.tykey = {t["s"]: k for k, t in enumerate(self.types)}

    def ty(self, k):
        return self.types[k] if k is not None and k >= 0 else {"k": "other", "s": "?"}

    def tname(self, k):
        return self.ty(k).get("name", self.ty(k).get("s", "?"))

    def short(self, k):
        return self.tname(k).split("::")[-1]

    def info(self, inst):
        if inst in self.cfg:
            return self.cfg[inst]
        b = self.insts[inst]["body"]
        n = len(b["blocks"])
        EXIT = n
        succ = []
        for bl in b["blocks"]:
            t = bl["t"]
            k = t["t"]
            if k in ("goto", "drop", "assert"):
                s = [t["to"]]
            elif k == "switch":
                s = [x for _, x in t["br"]] + [t["ow"]]
            elif k == "call":
                s = [t["to"]] if t.get("to") is not None else []
            elif k == "ret":
                s = [EXIT]
            else:
                s = []
            succ.append(list(dict.fromkeys(s)))
        succ.append([])
        # blocks that can reach EXIT
        pred = [[] for _ in range(n + 1)]
        for i, s in enumerate(succ):
            for x in s:
                pred[x].append(i)
        live = {EXIT}
        st = [EXIT]
        while st:
            x = st.pop()
            for p in pred[x]:
                if p not in live:
                    live.add(p)
                    st.append(p)
        # post-dominators on the live subgraph (iterative, reverse RPO)
        order = []
        seen = set()

        def dfs(x):
            stack = [(x, iter(pred[x]))]
            seen.add(x)
            while stack:
                y, it = stack[-1]
                for z in it:
                    if z in live and z not in seen:
                        seen.add(z)
                        stack.append((z, iter(pred[z])))
                        break
                else:
                    order.append(y)
                    stack.pop()
        dfs(EXIT)
        rpo = order[::-1]
        num = {x: i for i, x in enumerate(rpo)}
        ip = {EXIT: EXIT}
        ch = True
        while ch:
            ch = False
            for x in rpo:
                if x == EXIT:
                    continue
                new = None
                for s in succ[x]:
                    if s in ip and s in num:
                        if new is None:
                            new = s
                        else:
                            a, c = new, s
                            while a != c:
                                while num[a] > num[c]:
                                    a = ip[a]
                                while num[c] > num[a]:
                                    c = ip[c]
                            new = a
                if new is not None and ip.get(x) != new:
                    ip[x] = new
                    ch = True
        # natural loops: header -> set of blocks (via DFS back edges / dominators)
        fseen, forder = set(), []

        def fdfs(x):
            stack = [(x, iter(succ[x]))]
            fseen.add(x)
            while stack:
                y, it = stack[-1]
                for z in it:
                    if z not in fseen:
                        fseen.add(z)
                        stack.append((z, iter(succ[z])))
                        break
                else:
                    forder.append(y)
                    stack.pop()
        fdfs(0)
        frpo = forder[::-1]
        fnum = {x: i for i, x in enumerate(frpo)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for x in frpo:
                if x == 0:
                    continue
                new = None
                for p in pred[x]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = new, p
                            while a != c:
                                while fnum[a] > fnum[c]:
                                    a = idom[a]
                                while fnum[c] > fnum[a]:
                                    c = idom[c]
                            new = a
                if new is not None and idom.get(x) != new:
                    idom[x] = new
                    ch = True

        def dom(a, x):
            while True:
                if a == x:
                    return True
                if x == 0 or x not in idom:
                    return False
                x = idom[x]
        loops = {}
        for x in frpo:
            for s in succ[x]:
                if s in idom and dom(s, x):
                    body = loops.setdefault(s, {s})
                    st = [x]
                    while st:
                        y = st.pop()
                        if y not in body:
                            body.add(y)
                            st.extend(p for p in pred[y] if p in idom)
        r = dict(succ=succ, ipdom=ip, live=live, exit=EXIT, loops=loops, fwd=fseen)
        self.cfg[inst] = r
        return r


class SymLoop(Exception):
    def __init__(self, frame, head):
        self.frame, self.head = frame, head


class Diverge(Exception):
    """every path from here panics"""


class Frame:
    __slots__ = ("inst", "locals", "body", "info", "id", "visits", "phimode", "depth", "callsite", "cov")


class Event:
    def __init__(self, kind, what, assume, where, data=None):
        self.kind, self.what, self.assume, self.where, self.data = kind, what, dict(assume), where, data

    def __repr__(self):
        return f"{self.kind}@{self.where}: {self.what}"


def overflows(op, a, b, t):
    """whether an operation on known integers leaves its type; unknown operands are taken not to"""
    if not (isinstance(a, int) and isinstance(b, int)) or isinstance(a, bool) or t.get("k") not in ("uint", "int"):
        return False
    w = t["b"]
    lo, hi = (0, (1 << w) - 1) if t["k"] == "uint" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    if t["k"] == "int":
        a, b = (z - (1 << w) if z > hi else z for z in (a, b))
    if op.startswith("Sh"):
        return not 0 <= b < w
    f = {"Add": a + b, "Sub": a - b, "Mul": a * b}
    return op in f and not lo <= f[op] <= hi


class Interp:
    MAXVISIT = 4000

    def __init__(self, prog, hooks=None):
        self.p = prog
        self.mem = {}
        self.n = 0
        self.assume = {}
        self.events = []
        self.hooks = dict(hooks or {})
        self.fid = 0
        self.stats = dict(insts=set(), blocks=0, calls=0, joins=0, models=set(), opaque=set(), loops=0, cov={})
        self.stack = []
        from . import models
        self.models = models
        self.steps = 0
        self.budget = 3000000
        self.maxdepth = 180
        self.symlimit = 24
        self.dhooks = {}
        self.inv_hook = None
        self.map_order = None

    # ------------------------------------------------ store
    def new(self, v, tag="h"):
        self.n += 1
        c = f"{tag}{self.n}"
        self.mem[c] = v
        return c

    def box(self, v):
        return Ref(self.new(v))

    def rst(self, v):
        return restrict(v, self.assume) if isinstance(v, Ite) else v

    def lift(self, f, *vals):
        return lift(f, *vals, assume=self.assume)

    def deep(self, v):
        """restrict everywhere under current assumptions"""
        return restrict_deep(v, self.assume)

    def proj1(self, v, pe):
        """one projection of a value (not deref)"""
        k = pe[0]
        if isinstance(v, Ite):
            return self.lift(lambda x: self.proj1(x, pe), v)
        if k == "f":
            i = pe[1]
            if isinstance(v, Agg):
                if i < len(v.fs):
                    return v.fs[i]
                raise Undecided(f"field {i} of {v}")
            if isinstance(v, Mat):
                return self.mat_field(v, i, pe)
            if isinstance(v, Dual):
                return v.re if i == 0 else (Deriv(v.eps) if v.vec else v.eps) if i == 1 else UNIT
            if isinstance(v, Deriv):
                return self.models.opt_of_eps(self, v, pe)
            if isinstance(v, Ref):
                return v  # Box / Unique / NonNull layers
            if isinstance(v, MView):
                m = self.models.mat_of(self, v)
                return self.mat_field(m, i, pe)
            if isinstance(v, Term):
                return self.models.term_field(self, v, pe)
            if v is UNINIT:
                return UNINIT
            if isinstance(v, (Seq, Str)):
                return v
            raise Undecided(f"field {pe} of {type(v).__name__} {v}")
        if k == "v":
            if isinstance(v, Agg):
                if v.vi != pe[1]:
                    raise Bottom()
                return v
            if isinstance(v, Term):
                return self.models.term_variant(self, v, pe)
            if v is UNINIT:
                return v
            raise Undecided(f"downcast of {type(v).__name__}")
        if k in ("idx",):
            i = pe[1]
            if isinstance(v, Seq):
                if isinstance(i, int):
                    if 0 <= i < len(v.xs):
                        return v.xs[i]
                    raise Bottom()
            if isinstance(v, Mat) and isinstance(i, int):
                return v.xs[(i % v.nr) * v.nc + i // v.nr]
            return self.models.seq_index(self, v, i)
        if k == "m":
            if isinstance(v, Mat):
                if not (0 <= pe[1] < v.nr and 0 <= pe[2] < v.nc):
                    raise Bottom()
                return v.at(pe[1], pe[2])
            raise Undecided(f"matrix element of {type(v).__name__}")
        if k == "win":
            if isinstance(v, Seq):
                return Seq(v.xs[pe[1]:pe[2]])
            return self.models.seq_window(self, v, pe[1], pe[2])
        if k == "map":
            return self.models.map_value(self, v, pe[1])
        if k == "cm":
            if isinstance(v, Mat):
                return Seq([v.at(r, c) for c in range(v.nc) for r in range(v.nr)])
            raise Undecided("column-major view")
        if k == "spv":
            return v.values()
        if k == "spe":
            return v.m.at(pe[1], pe[2])
        if k == "blk":
            if isinstance(v, Mat):
                _, r0, c0, nr, nc = pe
                return Mat(nr, nc, [v.at(r0 + r, c0 + c) for r in range(nr) for c in range(nc)])
            raise Undecided("block view")
        if k == "bad":
            raise Bottom()
        raise Undecided(f"projection {pe}")

    def mat_field(self, v, i, pe):
        # `data`/`_phantoms` of nalgebra's Matrix, or a coordinate (x,y,z,w,...) after Deref
        if len(pe) > 2 and pe[2] is not None:
            t = self.p.ty(pe[2])
            if t["k"] == "adt" and ("Storage" in t["s"]):
                return v
            if t["k"] == "array":
                return Seq([Seq([v.at(r, c) for r in range(v.nr)]) for c in range(v.nc)])
            if t["k"] == "adt" and "PhantomData" in t["s"]:
                return UNIT
        if v.nc == 1 or v.nr == 1:
            return v.xs[i]
        # coordinates structs of matrices are column-major m11, m21, ...
        return v.xs[(i % v.nr) * v.nc + i // v.nr]

    def upd(self, v, path, new):
        """functional update of v at path"""
        if not path:
            return new
        pe = path[0]
        rest = path[1:]
        if isinstance(v, Ite):
            return self.lift(lambda x: self.upd(x, path, new), v)
        k = pe[0]
        if k == "f":
            i = pe[1]
            if isinstance(v, Agg):
                fs = list(v.fs)
                while len(fs) <= i:
                    fs.append(UNINIT)
                fs[i] = self.upd(fs[i], rest, new)
                return Agg(v.ty, v.vi, fs)
            if isinstance(v, Mat):
                if len(pe) > 2 and pe[2] is not None and "Storage" in self.p.ty(pe[2])["s"]:
                    return self.upd(v, rest, new)
                xs = list(v.xs)
                j = i if (v.nc == 1 or v.nr == 1) else (i % v.nr) * v.nc + i // v.nr
                xs[j] = self.upd(xs[j], rest, new)
                return Mat(v.nr, v.nc, xs)
            if isinstance(v, Dual):
                if i == 0:
                    return Dual(self.upd(v.re, rest, new), v.eps, v.vec)
                if i == 1:
                    if v.vec:
                        d = self.upd(Deriv(v.eps), rest, new)
                        return self.lift(lambda dd: Dual(v.re, dd.eps, True), d)
                    return Dual(v.re, self.upd(v.eps, rest, new), False)
                return v
            if v is UNINIT:
                return self.upd(self.uninit_of(pe), path, new)
            if isinstance(v, Term):
                raise Undecided(f"write into opaque {v}")
            if isinstance(v, Seq):
                return self.upd(v, rest, new)
            raise Undecided(f"write field of {type(v).__name__}")
        if k == "v":
            if isinstance(v, Agg):
                if v.vi != pe[1]:
                    if all(f is UNINIT for f in v.fs):
                        v = Agg(v.ty, pe[1], v.fs)
                    else:
                        raise Bottom()
                return self.upd(v, rest, new)
            if v is UNINIT:
                return self.upd(Agg(None, pe[1], ()), rest, new)
            raise Undecided("write into opaque enum")
        if k == "idx":
            i = pe[1]
            if isinstance(v, Seq) and isinstance(i, int):
                if not 0 <= i < len(v.xs):
                    raise Bottom()
                xs = list(v.xs)
                xs[i] = self.upd(xs[i], rest, new)
                return Seq(xs)
            if isinstance(v, Mat) and isinstance(i, int):
                xs = list(v.xs)
                j = (i % v.nr) * v.nc + i // v.nr
                xs[j] = self.upd(xs[j], rest, new)
                return Mat(v.nr, v.nc, xs)
            if v is UNINIT:
                raise Undecided("write into uninit array")
            return self.models.seq_update(self, v, i, rest, new)
        if k == "m":
            if isinstance(v, Mat):
                if not (0 <= pe[1] < v.nr and 0 <= pe[2] < v.nc):
                    raise Bottom()
                xs = list(v.xs)
                j = pe[1] * v.nc + pe[2]
                xs[j] = self.upd(xs[j], rest, new)
                return Mat(v.nr, v.nc, xs)
            raise Undecided("matrix write")
        if k == "win":
            if isinstance(v, Seq):
                mid = self.upd(Seq(v.xs[pe[1]:pe[2]]), rest, new)
                return self.lift(lambda q: Seq(v.xs[:pe[1]] + q.xs + v.xs[pe[2]:]), mid)
            raise Undecided("window write")
        if k == "map":
            return self.models.map_update(self, v, pe[1], rest, new)
        if k == "cm":
            if isinstance(v, Mat):
                sq = self.upd(self.proj1(v, pe), rest, new)
                return self.lift(lambda q: Mat(v.nr, v.nc, [q.xs[c * v.nr + r] for r in range(v.nr) for c in range(v.nc)]), sq)
            raise Undecided("column-major write")
        if k == "spv":
            return self.lift(v.with_values, self.upd(v.values(), rest, new))
        if k == "spe":
            return v.with_entry(pe[1], pe[2], self.upd(v.m.at(pe[1], pe[2]), rest, new))
        if k == "blk":
            if isinstance(v, Mat):
                b = self.upd(self.proj1(v, pe), rest, new)
                if isinstance(b, Ite):
                    return self.lift(lambda q: self.upd(v, (pe,), q), b)
                _, r0, c0, nr, nc = pe
                if b.nr != nr or b.nc != nc:
                    raise Undecided("block shape")
                xs = list(v.xs)
                for r in range(nr):
                    for c in range(nc):
                        xs[(r0 + r) * v.nc + c0 + c] = b.at(r, c)
                return Mat(v.nr, v.nc, xs)
            raise Undecided("block write")
        raise Undecided(f"write {pe}")

    def uninit_of(self, pe):
        return Agg(None, 0, ())

    def load(self, ref):
        v = self.rst(self.mem[ref.cell])
        for pe in ref.path:
            v = self.rst(self.proj1(v, pe))
        return v

    def store(self, ref, val):
        if isinstance(ref, Ite):
            for path, r in leaves(ref):
                # conditional store
                pass
            a = ref.a
            old = dict(self.mem)
            sa = self.assume
            self.assume = implied(sa, a, True)
            self.store(self.rst(ref.t), val)
            mt = self.mem
            self.mem = old.copy()
            self.assume = implied(sa, a, False)
            self.store(self.rst(ref.f), val)
            mf = self.mem
            self.assume = sa
            self.mem = self.join(a, mt, mf)
            return
        if isinstance(ref, Term):
            raise Undecided(f"store through opaque {ref}")
        c = ref.cell
        if not ref.path:
            self.mem[c] = val
        else:
            self.mem[c] = self.upd(self.rst(self.mem[c]), ref.path, val)

    def deref(self, v):
        """value behind a reference value"""
        v = self.rst(v)
        if isinstance(v, Ite):
            return self.lift(self.deref, v)
        if isinstance(v, Ref):
            return self.load(v)
        if isinstance(v, Agg) and len(v.fs) >= 1:
            # Box / NonNull aggregates
            return self.deref(v.fs[0])
        if isinstance(v, Term):
            return self.models.term_deref(self, v)
        if isinstance(v, (Str, Seq, Mat)):
            return v
        if isinstance(v, FnV):
            return v
        raise Undecided(f"deref of {type(v).__name__} {v}")

    def join(self, a, mt, mf):
        self.stats["joins"] += 1
        out = {}
        for c, v in mt.items():
            w = mf.get(c)
            if w is None:
                out[c] = v
            elif v is w:
                out[c] = v
            else:
                out[c] = merge(a, v, w)
        for c, w in mf.items():
            if c not in out:
                out[c] = w
        return out

    # ------------------------------------------------ places
    def place_ref(self, fr, pl):
        """Ref (or gated Ref) of a place"""
        r = Ref(fr.locals[pl[0]])
        for pe in pl[1]:
            k = pe[0]
            if k == "d":
                v = self.load_g(r)
                r = self.as_ref(v)
            elif k == "f":
                r = self.ext(r, ("f", pe[1], pe[2]))
            elif k == "v":
                r = self.ext(r, ("v", pe[1]))
            elif k == "i":
                i = self.rst(self.mem[fr.locals[pe[1]]])
                i = self.as_int(i)
                r = self.ext(r, ("idx", i))
            elif k == "ci":
                v = self.load_g(r)
                n = self.models.seq_len(self, v)
                if pe[2]:
                    i = self.models.int_sub(n, pe[1])
                else:
                    i = pe[1]
                r = self.ext(r, ("idx", i))
            elif k == "ss":
                v = self.load_g(r)
                n = self.models.seq_len(self, v)
                lo, hi = pe[1], (self.models.int_sub(n, pe[2]) if pe[3] else pe[2])
                r = self.ext(r, ("win", lo, hi))
            elif k == "o":
                pass
            else:
                raise Undecided(f"place {pe}")
        return r

    def load_g(self, r):
        r = self.rst(r)
        if isinstance(r, Ite):
            return self.lift(self.load, r)
        return self.load(r)

    def as_int(self, v):
        v = self.rst(v)
        if isinstance(v, Expr) and v.is_const():
            c = v.cval()
            if c.denominator == 1:
                return int(c)
        return v

    def as_ref(self, v):
        v = self.rst(v)
        if isinstance(v, Ite):
            return self.lift(self.as_ref, v)
        if isinstance(v, Ref):
            return v
        if isinstance(v, Agg) and v.fs:
            return self.as_ref(v.fs[0])
        if isinstance(v, (Str, Term, Seq, Mat, FnV)):
            # pointee materialised on demand
            return Ref(self.new(self.deref(v)))
        if v is UNINIT:
            raise Undecided("deref of uninit")
        raise Undecided(f"as_ref {type(v).__name__}")

    def ext(self, r, pe):
        r = self.rst(r)
        if isinstance(r, Ite):
            return self.lift(lambda x: self.ext(x, pe), r)
        if pe[0] in ("idx",) and isinstance(pe[1], Ite):
            return self.lift(lambda i: self.ext(r, ("idx", i)), pe[1])
        # layers that do not exist in the abstract store
        return Ref(r.cell, r.path + (pe,), None)

    def norm_ref(self, r):
        return r

    def read_place(self, fr, pl):
        if not pl[1]:
            return self.rst(self.mem[fr.locals[pl[0]]])
        # fast path without deref
        v = self.rst(self.mem[fr.locals[pl[0]]])
        for n, pe in enumerate(pl[1]):
            k = pe[0]
            if k == "d":
                v = self.deref(v)
            elif k == "f":
                v = self.proj1(v, ("f", pe[1], pe[2]))
            elif k == "v":
                v = self.proj1(v, ("v", pe[1]))
            elif k == "i":
                i = self.as_int(self.mem[fr.locals[pe[1]]])
                v = self.idx_read(v, i)
            elif k == "ci":
                ln = self.models.seq_len(self, v)
                v = self.idx_read(v, self.models.int_sub(ln, pe[1]) if pe[2] else pe[1])
            elif k == "ss":
                ln = self.models.seq_len(self, v)
                v = self.proj1(v, ("win", pe[1], self.models.int_sub(ln, pe[2]) if pe[3] else pe[2]))
            v = self.rst(v)
        return v

    def idx_read(self, v, i):
        if isinstance(i, Ite):
            return self.lift(lambda j: self.idx_read(v, j), i)
        return self.proj1(v, ("idx", i))

    # ------------------------------------------------ constants
    def const(self, c):
        k = c["v"]
        if k == "zst":
            return self.zst(c["t"])
        if k == "c":
            return self.cval(c["x"], c["t"])
        if k == "tc":
            return self.cval(c["x"], c["t"]) if isinstance(c["x"], dict) and "v" in c["x"] else self.tc(c["x"])
        if k == "opaque":
            return Term("const", c.get("why", ""), c["t"])
        return self.cval(c, c.get("t"))

    def tc(self, x):
        if isinstance(x, dict) and "c" in x:
            return x["c"]
        return Term("tyconst", str(x))

    def zst(self, t):
        ty = self.p.ty(t)
        if ty["k"] in ("fndef",):
            return FnV(ty["inst"])
        if ty["k"] == "closure":
            return Agg(t, 0, ())
        if ty["k"] == "adt" and "Matrix<" in ty["s"][:40]:
            pass
        return Agg(t, 0, ())

    def cval(self, x, t):
        k = x["v"]
        if k == "bool":
            return bool(x["x"])
        if k == "int":
            return int(x["x"])
        if k == "char":
            return int(x["x"]) if not isinstance(x["x"], str) else ord(x["x"])
        if k == "float":
            return {"inf": INF, "-inf": NINF, "NaN": NAN}.get(x["x"]) or alg.from_float(x["x"])
        if k == "str":
            return Str(x["x"])
        if k == "array":
            return Seq([self.cval(y, y.get("t")) for y in x["x"]])
        if k == "agg":
            return Agg(x["t"], x["i"], [self.cval(y, y.get("t")) for y in x["x"]])
        if k == "ref":
            return Ref(self.new(self.cval(x["x"], None), "k"))
        if k == "fn":
            return FnV(x["i"])
        if k == "static":
            return Term("static", x["n"])
        return Term("const", x.get("why", k), x.get("t"))

    def operand(self, fr, o):
        k = o["o"]
        if k in ("cp", "mv"):
            return self.read_place(fr, o["p"])
        if k == "k":
            return self.const(o["c"])
        if k == "rt":
            return False
        raise Undecided("operand")

    # ------------------------------------------------ rvalues
    def rvalue(self, fr, r):
        k = r["r"]
        M = self.models
        if k == "use":
            return self.operand(fr, r["x"])
        if k == "ref":
            pl = r["p"]
            # reborrow &*x keeps metadata
            if pl[1] and pl[1][-1] == ["d"]:
                v = self.read_place(fr, [pl[0], pl[1][:-1]])
                if isinstance(v, (Ref, Str, Term, Ite)):
                    return v
                if isinstance(v, Agg):
                    return self.as_ref(v)
            return self.place_ref(fr, pl)
        if k == "copy":
            return self.read_place(fr, r["p"])
        if k == "discr":
            v = self.read_place(fr, r["p"])
            return self.lift(lambda x: self.discr(x, r["t"]), v)
        if k == "len":
            return M.seq_len(self, self.read_place(fr, r["p"]))
        if k == "repeat":
            v = self.operand(fr, r["x"])
            n = r["n"]
            n = n.get("c") if isinstance(n, dict) else n
            if isinstance(n, int) and n <= 4096:
                return Seq([v] * n)
            raise Undecided("repeat")
        if k == "un":
            v = self.operand(fr, r["x"])
            op = r["op"]
            if op == "Neg":
                return self.lift(lambda x: M.s_neg(x), v)
            if op == "Not":
                return self.lift(lambda x: M.s_not(x, self.p.ty(r["t"])), v)
            if op == "PtrMetadata":
                return self.lift(lambda x: M.ptr_meta(self, x), v)
            raise Undecided(op)
        if k == "bin":
            x, y = self.operand(fr, r["x"]), self.operand(fr, r["y"])
            op = r["op"]
            t = self.p.ty(r["t"])
            v = self.lift(lambda a, b: M.binop(self, op, a, b, t), x, y)
            if r["ck"]:
                return self.lift(lambda a, b, w: Agg(-1, 0, (w, overflows(op, a, b, t))), x, y, v)
            return v
        if k == "cast":
            v = self.operand(fr, r["x"])
            return self.lift(lambda x: M.cast(self, r["k"], x, r["from"], r["t"]), v)
        if k == "agg":
            xs = [self.operand(fr, o) for o in r["x"]]
            if r["k"] == "array":
                return Seq(xs)
            if r["k"] == "rawptr":
                return M.rawptr(self, xs)
            if r["k"] == "tuple":
                return Agg(-1, 0, xs)
            if r["k"] == "adt" and r["uf"] is not None:
                fs = [UNINIT] * (r["uf"] + 1)
                fs[r["uf"]] = xs[0]
                return xs[0] if self.p.short(r["t"]) in NEWTYPES else Agg(r["t"], 0, fs)
            return M.mk_agg(self, r["t"], r["vi"], xs)
        raise Undecided(f"rvalue {k}")

    def discr(self, v, t):
        if isinstance(v, Agg):
            ty = self.p.ty(v.ty if v.ty is not None and v.ty >= 0 else t)
            if ty["k"] == "adt" and ty.get("v"):
                return int(ty["v"][v.vi]["d"])
            return v.vi
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, Term):
            return self.models.term_discr(self, v, t)
        raise Undecided(f"discriminant of {type(v).__name__} {v}")

    # ------------------------------------------------ execution
    def where(self, fr, l):
        try:
            return f"{self.p.files[l[0]]}:{l[1]}"
        except Exception:
            return "?"

    def event(self, kind, what, fr=None, l=None, data=None):
        self.events.append(Event(kind, what, self.assume, self.where(fr, l) if fr and l else self.stack_str(), data))

    def stack_str(self):
        return " < ".join(self.p.insts[f.inst]["name"] for f in reversed(self.stack[-6:]))

    def call_inst(self, inst, args, rt=None, at=None, fdef=None, fargs=None, l=None):
        I = self.p.insts[inst]
        name = I["name"]
        h = self.hooks.get(name)
        if h is not None:
            return h(self, args)
        h = self.dhooks.get(I["def"])
        if h is not None:
            self.cur_call = (I, rt, at, fargs, inst)
            return h(self, args)
        if fdef and fdef.startswith("std::ops::Fn") and I["kind"] != "Item" or (fdef and fdef.startswith("std::ops::Fn") and "{closure" in I["name"].rsplit("::", 1)[-1]):
            # rust-call ABI: (self, (args,)) -> closure body(self, args...)
            return self.call_closure_inst(inst, args, fdef)
        m = self.models.find(self, I, args, fdef)
        if m is not None:
            self.stats["models"].add(I["def"])
            self.cur_call = (I, rt, at, fargs, inst)
            return m(self, args, I, rt, at)
        if "body" in I:
            return self.run_body(inst, args)
        return self.models.opaque_call(self, I, args, rt, at)

    def call_closure_inst(self, inst, args, fdef=None):
        I = self.p.insts[inst]
        if "body" not in I:
            return self.models.opaque_call(self, I, args, None, None)
        b = I["body"]
        tup = self.rst(args[1]) if len(args) > 1 else UNIT
        rest = list(tup.fs) if isinstance(tup, Agg) else [tup]
        slf = args[0]
        if "{closure" in I["name"].rsplit("::", 1)[-1]:
            # self by ref or by value as the body expects
            t = self.p.ty(b["locals"][1])
            if t["k"] == "ref":
                s = self.rst(slf)
                if not isinstance(s, Ref):
                    slf = self.box(s)
            else:
                s = self.rst(slf)
                if isinstance(s, Ref):
                    slf = self.load(s)
            return self.run_body(inst, [slf] + rest)
        # fn item / pointer shim
        s = self.rst(slf)
        if isinstance(s, Ref):
            s = self.load(s)
        if isinstance(s, FnV) and s.inst != inst:
            return self.call_inst(s.inst, rest)
        return self.run_body(inst, [slf] + rest) if b["argc"] == 1 + len(rest) else self.call_inst(inst, rest)

    def call_value(self, f, args):
        """call a closure / fn value with positional args"""
        f = self.rst(f)
        if isinstance(f, Ite):
            return self.gated(f, lambda x: self.call_value(x, args))
        if isinstance(f, Ref):
            v = self.load_g(f)
            if isinstance(v, FnV) or (isinstance(v, Ref)):
                return self.call_value(v, args)
            if isinstance(v, Agg):
                return self.call_closure(v, f, args)
            return self.call_value(v, args)
        if isinstance(f, FnV):
            I = self.p.insts[f.inst]
            return self.call_inst(f.inst, args, fdef=None)
        if isinstance(f, Agg):
            return self.call_closure(f, None, args)
        if callable(f):
            return f(self, args)
        if isinstance(f, Term):
            return Term("apply", f, *[self.snap(a) for a in args])
        raise Undecided(f"call of {type(f).__name__}")

    def call_closure(self, v, ref, args):
        t = self.p.ty(v.ty)
        if t["k"] == "fndef":
            return self.call_inst(t["inst"], args)
        if t["k"] != "closure":
            if t["k"] == "adt" and len(v.fs) >= 1 and self.p.short(v.ty) in ("Box",):
                return self.call_value(v.fs[0], args)
            raise Undecided(f"call of {t['s']}")
        inst = t["inst"]
        I = self.p.insts[inst]
        if "body" not in I:
            raise Undecided("closure without body " + I["name"])
        lt = self.p.ty(I["body"]["locals"][1])
        if lt["k"] == "ref":
            slf = ref if ref is not None else self.box(v)
        else:
            slf = v
        return self.run_body(inst, [slf] + list(args))

    def gated(self, v, f):
        """evaluate f(leaf) for each leaf of a gated value, joining stores"""
        v = self.rst(v)
        if not isinstance(v, Ite):
            return f(v)
        a = v.a
        sa, sm = self.assume, self.mem
        out = []
        for val, x in ((True, v.t), (False, v.f)):
            self.assume = implied(sa, a, val)
            self.mem = dict(sm)
            try:
                r = self.gated(x, f)
                out.append((r, self.mem))
            except (Diverge, Bottom):
                out.append(None)
            finally:
                self.assume = sa
        self.mem = sm
        if out[0] is None and out[1] is None:
            raise Diverge()
        if out[0] is None or out[1] is None:
            r, m = out[0] or out[1]
            self.mem = m
            return r
        self.mem = self.join(a, out[0][1], out[1][1])
        return merge(a, out[0][0], out[1][0])

    def snap(self, v):
        """value with references replaced by what they point to (for uninterpreted calls)"""
        v = self.rst(v)
        if isinstance(v, Ite):
            return self.lift(self.snap, v)
        if isinstance(v, Ref):
            try:
                return self.snap(self.load(v))
            except KeyError:
                return Term("dangling")
        if isinstance(v, Agg):
            return Agg(v.ty, v.vi, [self.snap(x) for x in v.fs])
        if isinstance(v, Seq):
            return Seq([self.snap(x) for x in v.xs])
        if isinstance(v, MView):
            return self.models.mat_of(self, v)
        if isinstance(v, Mat):
            return self.deep(v)
        return v

    def run_body(self, inst, args):
        I = self.p.insts[inst]
        b = I["body"]
        if len(self.stack) > self.maxdepth:
            raise Undecided("call depth")
        fr = Frame()
        fr.inst, fr.body, fr.info = inst, b, self.p.info(inst)
        self.fid += 1
        fr.id = self.fid
        fr.visits = {}
        fr.phimode = None
        fr.depth = 0
        fr.cov = self.stats["cov"].setdefault(fr.inst, set())
        args = list(args)
        if b.get("spread") is not None:
            k = b["spread"] - 1
            args = args[:k] + [Agg(-1, 0, args[k:])] if len(args) != b["argc"] else args
        if len(args) != b["argc"]:
            # rust-call tuple
            if len(args) == 2 and isinstance(self.rst(args[1]), Agg) and 1 + len(self.rst(args[1]).fs) == b["argc"]:
                args = [args[0]] + list(self.rst(args[1]).fs)
            else:
                raise Undecided(f"arity of {I['name']}: {len(args)} vs {b['argc']}")
        fr.locals = []
        for i, t in enumerate(b["locals"]):
            c = f"L{fr.id}.{i}"
            fr.locals.append(c)
            self.mem[c] = args[i - 1] if 1 <= i <= b["argc"] else UNINIT
        self.stats["insts"].add(I["name"])
        self.stats["calls"] += 1
        self.stack.append(fr)
        n0 = len(self.stack)
        try:
            ok = self.run(fr, 0, fr.info["exit"])
        finally:
            del self.stack[n0 - 1:]
        if not ok:
            raise Diverge()
        rv = self.mem[fr.locals[0]]
        for c in fr.locals:
            self.mem.pop(c, None)
        t0 = self.p.ty(b["locals"][0])
        if rv is UNINIT:
            if t0["k"] == "tuple":
                return UNIT
        return rv

    def run(self, fr, bb, stop):
        """execute from bb until stop; False if no execution gets there"""
        blocks = fr.body["blocks"]
        info = fr.info
        while True:
            if bb == stop:
                return True
            if bb == info["exit"]:
                return True
            self.steps += 1
            if self.steps > self.budget:
                raise Undecided("analysis budget")
            if fr.phimode is not None and bb == fr.phimode[0] and fr.phimode[1]:
                # back edge while summarising
                fr.phimode[2].append((dict(self.assume), dict(self.mem)))
                return False
            if fr.phimode is not None and bb == fr.phimode[0]:
                fr.phimode[1] = True
            elif bb in info["loops"] and not (fr.phimode is not None and bb == fr.phimode[0]):
                v = fr.visits.get(bb)
                if v is None or v == -1:
                    r = self.run_loop(fr, bb, stop)
                    if r is None:
                        return False
                    bb = r
                    continue
                fr.visits[bb] = v + 1
                if v > self.MAXVISIT:
                    raise Undecided(f"loop in {self.p.insts[fr.inst]['name']} does not unroll")
            bl = blocks[bb]
            self.stats["blocks"] += 1
            fr.cov.add(bb)
            try:
                for s in bl["s"]:
                    self.stmt(fr, s)
                bb = self.term(fr, bl["t"], bb, stop)
            except (Diverge, Bottom):
                return False
            if bb is None:
                return False
            if bb == "done":
                return True

    def run_loop(self, fr, head, stop):
        """first arrival at a loop header: try to unroll, else summarise"""
        fr.visits[head] = 0
        loop = fr.info["loops"][head]
        # run until control leaves the loop: the exit continuation is the post-dominator outside
        x = fr.info["ipdom"].get(head)
        while x is not None and x in loop:
            x = fr.info["ipdom"].get(x)
        tgt = stop if (x is None) else x
        ok = self.run(fr, head, tgt)
        fr.visits[head] = -1
        fr.visits.pop(("sym", head), None)
        return tgt if ok else None

    def stmt(self, fr, s):
        k = s["s"]
        if k == "=":
            v = self.rvalue(fr, s["r"])
            self.assign(fr, s["p"], v)
        elif k == "sd":
            r = self.place_ref(fr, s["p"])
            old = self.load_g(r)
            if isinstance(old, Agg):
                self.store(r, Agg(old.ty, s["v"], old.fs))
            else:
                self.store(r, Agg(None, s["v"], ()))
        elif k == "cno":
            self.models.copy_nonoverlapping(self, self.operand(fr, s["src"]), self.operand(fr, s["dst"]), self.operand(fr, s["n"]))

    def assign(self, fr, pl, v):
        if not pl[1]:
            self.mem[fr.locals[pl[0]]] = v
            return
        r = self.place_ref(fr, pl)
        self.store(r, v)

    def term(self, fr, t, bb, stop):
        k = t["t"]
        if k in ("goto", "drop"):
            return t["to"]
        if k == "ret":
            return fr.info["exit"]
        if k == "switch":
            v = self.operand(fr, t["x"])
            return self.switch(fr, t, bb, v, stop)
        if k == "assert":
            v = self.operand(fr, t["x"])
            exp = t["e"]
            c = self.lift(lambda x: self.models.truth(self, x) == exp if not isinstance(self.models.truth(self, x), Ite) else self.models.truth(self, x), v)
            return self.branch_bool(fr, c, lambda: t["to"], lambda: self.panic(fr, t.get("m", "assert"), t.get("l")), bb, stop)
        if k == "call":
            return self.do_call(fr, t, bb, stop)
        if k in ("resume", "abort", "unreach"):
            raise Diverge()
        raise Undecided(f"terminator {k}")

    def panic(self, fr, msg, l):
        self.event("panic", str(msg), fr, l)
        raise Diverge()

    def branch_bool(self, fr, c, ft, ff, bb, stop):
        c = self.rst(c)
        if not isinstance(c, Ite):
            return ft() if c else ff()
        return self.branch(fr, c, [(True, ft), (False, ff)], bb, stop)

    def switch(self, fr, t, bb, v, stop):
        v = self.rst(v)
        if isinstance(v, Ite):
            return self.branch(fr, v, None, bb, stop, t)
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, Expr) and v.is_const():
            v = int(v.cval())
        if isinstance(v, int):
            if v < 0:
                # arms hold the raw bits of the operand's type
                ty = self.p.ty(t["ty"]) if t.get("ty", -1) >= 0 else {}
                v %= 1 << ty.get("b", 128)
            for x, to in t["br"]:
                if x == v:
                    return to
            return t["ow"]
        # symbolic integer: gate on equality with each arm
        c = self.models.switch_cond(self, v, t)
        return self.branch(fr, c, None, bb, stop, t)

    def branch(self, fr, v, arms, bb, stop, t=None):
        """v is a gated value (Ite): evaluate both sides up to the join point and merge"""
        a = v.a
        info = fr.info
        # a branch that leaves a loop on a non-constant condition: the loop needs a summary
        for h, body in info["loops"].items():
            if bb in body and fr.visits.get(h, -1) >= 0 and not (fr.phimode is not None and fr.phimode[0] == h):
                ss = [s for s in info["succ"][bb] if s in info["live"]]
                if any(s not in body for s in ss) and any(s in body for s in ss):
                    k = ("sym", h)
                    fr.visits[k] = fr.visits.get(k, 0) + 1
                    if fr.visits[k] > self.symlimit:
                        raise Undecided(f"trip count of a loop in {self.p.insts[fr.inst]['name']} is not static")
        j = info["ipdom"].get(bb)
        if j is None:
            j = info["exit"]
        tgt = j
        # joining inside an enclosing region that ends at `stop`
        sa, sm = self.assume, self.mem
        sv = dict(fr.visits)
        outs = []
        for val, sub in ((True, v.t), (False, v.f)):
            self.assume = implied(sa, a, val)
            self.mem = dict(sm)
            fr.visits = dict(sv)
            pm = None
            if fr.phimode is not None:
                pm = fr.phimode[1]
            try:
                if arms is not None:
                    # boolean condition with continuations
                    nxt = self.branch_bool(fr, self.rst(sub), arms[0][1], arms[1][1], bb, tgt)
                else:
                    nxt = self.switch(fr, t, bb, self.rst(sub), tgt)
                ok = nxt is not None and (nxt == "done" or self.run(fr, nxt, tgt))
            except (Diverge, Bottom):
                ok = False
            if fr.phimode is not None and pm is not None:
                fr.phimode[1] = pm
            outs.append(self.mem if ok else None)
            self.assume = sa
        fr.visits = sv
        if outs[0] is None and outs[1] is None:
            return None
        if outs[0] is None or outs[1] is None:
            # only one side continues: its condition is a fact from here on
            val = outs[0] is not None
            self.mem = outs[0] if val else outs[1]
            self.assume = implied(sa, a, val)
            self.facts_from_panic(a, val)
            # facts persist only inside this region; callers restore their own assumption sets
        else:
            self.mem = self.join(a, outs[0], outs[1])
            self.assume = sa
        if tgt == stop:
            return "done" if True else None
        return tgt

    def facts_from_panic(self, a, val):
        pass

    def do_call(self, fr, t, bb, stop):
        f = t["f"]
        args = [self.operand(fr, o) for o in t["a"]]
        to = t.get("to")
        l = t.get("l")
        name = f.get("def", "")
        if to is None:
            # diverging call: a panic
            self.models.note_panic(self, fr, f, args, l)
            raise Diverge()
        self.cur_line = (fr, l)
        if "inst" in f:
            r = self.call_inst(f["inst"], args, t.get("rt"), t.get("at"), name, f.get("args"), l)
        elif "virt" in f:
            r = self.call_virtual(f, args, t)
        elif "ptr" in f:
            fv = self.operand(fr, f["ptr"])
            r = self.call_value(fv, args)
        else:
            r = self.models.opaque_call(self, {"name": name, "def": name, "crate": "?", "kind": "?"}, args, t.get("rt"), t.get("at"))
        self.assign(fr, t["d"], r)
        return to

    def call_virtual(self, f, args, t):
        return self.gated(args[0], lambda recv: self.call_virtual1(recv, f, args, t))

    def call_virtual1(self, recv, f, args, t):
        r = recv
        depth = 0
        while isinstance(r, Agg) and r.fs and depth < 4:
            r = self.rst(r.fs[0])
            depth += 1
        if isinstance(r, Ref) and r.meta is not None:
            ct, dt = r.meta
            es = self.p.vt.get((ct, dt))
            if es is None:
                for (c, d), e in self.p.vt.items():
                    if c == ct and self.p.ty(d)["s"] == self.p.ty(dt)["s"]:
                        es = e
            if es is not None and f["virt"] < len(es) and es[f["virt"]] is not None:
                return self.call_inst(es[f["virt"]], [Ref(r.cell, r.path)] + list(args[1:]), t.get("rt"), t.get("at"), f.get("def"))
            # fall back on the method name within the vtable
        return self.models.virtual_unknown(self, r, f, args, t)

    # ------------------------------------------------ entry
    def call(self, name, args):
        inst = self.p.byname.get(name)
        if inst is None:
            raise KeyError(name)
        try:
            r = self.run_body(inst, args)
        except Bottom:
            raise Diverge()
        return self.snap(r)


def restrict_deep(v, assume):
    if isinstance(v, Ite):
        r = restrict(v, assume)
        if isinstance(r, Ite):
            return mkite(r.a, restrict_deep(r.t, assume), restrict_deep(r.f, assume))
        return restrict_deep(r, assume)
    if not assume:
        return v
    if isinstance(v, Agg):
        return Agg(v.ty, v.vi, [restrict_deep(x, assume) for x in v.fs])
    if isinstance(v, Seq):
        return Seq([restrict_deep(x, assume) for x in v.xs])
    if isinstance(v, Mat):
        return Mat(v.nr, v.nc, [restrict_deep(x, assume) for x in v.xs])
    if isinstance(v, Dual):
        e = v.eps
        if isinstance(e, tuple):
            e = tuple(restrict_deep(x, assume) for x in e)
        return Dual(restrict_deep(v.re, assume), e, v.vec)
    return v
