"""Conversions to rerun's types (feature rerun, the real rerun crate): the value graph of every From and FromIterator impl, read back through rerun's public fields, equals the variable's own coordinates: points (x, y(, z)), quaternions (x, y, z, w), arrows = the columns of the rotation matrix anchored at the position and colored red, green, blue, collections in iteration order; the observer logs, under its topic and at the given time, exactly the conversion of the variables of its type."""
from sa import spec as SP, alg, models as M
from sa.spec import plain
from sa.values import *

RGB = [0xFF0000FF, 0x00FF00FF, 0x0000FFFF]


def rot2(p):
    c, s = alg.cos(p[0]), alg.sin(p[0])
    return [[c, s], [-s, c]]


def rot3(q):
    R = SP.quat_rot(q)
    return [[R[i][j] for i in range(3)] for j in range(3)]


WANT = {
    "vec2": ("v2", dict(v=lambda p: p, pts=lambda p: [p])),
    "vec3": ("v3", dict(v=lambda p: p, pts=lambda p: [p])),
    "rot2": ("so2", dict(arr=lambda p: [rot2(p), None, RGB[:2]])),
    "pose2": ("se2", dict(arr=lambda p: [rot2(p), [p[1:]] * 2, RGB[:2]], pts=lambda p: [p[1:]], v=lambda p: p[1:])),
    "rot3": ("so3", dict(q=lambda p: p, arr=lambda p: [rot3(p), None, RGB])),
    "pose3": ("se3", dict(tf=lambda p: [p[4:], p[:4], True, True, True, True], arr=lambda p: [rot3(p[:4]), [p[4:]] * 3, RGB], pts=lambda p: [p[4:]], v=lambda p: p[4:])),
}


def cmp(ctx, ob, anchor, got, want):
    """compares values whose Options are known"""
    if want is None or got is None:
        ctx.holds(ob, anchor, want is got, f"{'nothing' if got is None else 'a value'} instead of {'nothing' if want is None else 'a value'}")
        return
    if isinstance(want, list) and any(w is None or g is None for w, g in zip(want, got if isinstance(got, list) else [])):
        for i, w in enumerate(want):
            cmp(ctx, f"{ob}/{i}", anchor, got[i], w)
        return
    ctx.eq(ob, anchor, tolist(got), want)


def tolist(x):
    return Seq([tolist(e) for e in x]) if isinstance(x, list) else x


def cat(xs):
    return [sum((x[i] for x in xs), []) for i in range(3)]


def run(ctx):
    for m, (kind, fs) in WANT.items():
        p = SP.elem(kind, "a")
        q = [SP.elem(kind, n) for n in "abc"]
        for f, want in fs.items():
            an = f"rerun.rs: {m} -> {f}"
            r = ctx.eval("rr", f"{m}::{f}", SP.args(p), ob=f"{m}/{f}")
            if r is not None:
                for how, g in zip(("ref", "owned"), plain(r)):
                    cmp(ctx, f"{m}/{f}/{how}", an, g, want(p))
            if m.startswith("rot") or f not in ("arr", "pts"):
                continue
            r = ctx.eval("rr", f"g{m}::{f}", SP.args(sum(q, [])), ob=f"{m}s/{f}")
            if r is None:
                continue
            three, one, zero = plain(r)
            w3 = [want(x) for x in q]
            cmp(ctx, f"{m}s/{f}/three", an, three, cat(w3) if f == "arr" else sum(w3, []))
            cmp(ctx, f"{m}s/{f}/one", an, one, w3[1])
            cmp(ctx, f"{m}s/{f}/none", an, zero[0] if f == "arr" else zero, [])
    for n in ctx.sizes([17], cap=1100):
        for m, (kind, fs) in WANT.items():
            for f, want in fs.items():
                if m.startswith("rot") or f not in ("arr", "pts"):
                    continue
                p = SP.elem(kind, "a")
                r = ctx.eval("rr", f"g{m}::many::{f}", [n] + SP.args(p), ob=f"{m}s/{f}/{n}")
                if r is None:
                    continue
                w = [want(p[:-1] + [p[-1] * alg.const(i + 1)]) for i in range(n)]
                cmp(ctx, f"{m}s/{f}/{n}", f"rerun.rs: {m} -> {f}", plain(r), cat(w) if f == "arr" else sum(w, []))
    for fn, rd, kind, topic, n in (("observe2", "p2", "se2", "base/solution", 12), ("observe3", "a3", "se3", "a b", 20)):
        a, b, v = SP.elem(kind, "a"), SP.elem(kind, "b"), SP.vec("v", 2 if kind == "se2" else 3)
        p = a + v + b
        p = p + SP.vec("z", n - len(p))
        t = alg.var("t")
        for on, order in (("stored", None), ("reversed", lambda es: es[::-1])):
            rec = []

            def setup(it):
                it.map_order = order

                def log(it, args):
                    c = it.call_inst(it.p.byname["fh_main::" + rd], [args[2]])
                    rec.append(("log", text(it, args[1]), plain(c)))
                    return M.ok(UNIT, it.cur_call[1])

                def time(it, args):
                    rec.append(("time", text(it, args[1]), it.rst(args[2])))
                    return UNIT
                for I in it.p.insts:
                    if I["crate"] == "re_sdk" and I["def"].endswith("RecordingStream::log"):
                        it.dhooks[I["def"]] = log
                    if I["crate"] == "re_sdk" and I["def"].endswith("RecordingStream::set_time_seconds"):
                        it.dhooks[I["def"]] = time
            args = SP.args(p)
            r = ctx.eval("rr", fn, [Agg(-1, 0, ()), args[0], t], ob=f"{fn}/{on}", setup=setup)
            if r is None:
                continue
            an = "RerunObserver::on_step"
            kinds = [x[0] for x in rec]
            ctx.holds(f"{fn}/{on}/calls", an, kinds == ["time", "log"], f"recorded {kinds} instead of one time followed by one log")
            for k, tx, c in rec:
                if k == "time":
                    ctx.eq(f"{fn}/{on}/time", an, c, t)
                else:
                    if tx is not None:
                        ctx.holds(f"{fn}/{on}/topic", an, tx == topic, f"logged under {tx!r} instead of {topic!r}")
                    xs = [a, b] if order is None else [b, a]
                    w = [want for want in ([WANT["pose2"][1]["pts"](x) for x in xs] if rd == "p2" else [WANT["pose3"][1]["arr"](x) for x in xs])]
                    cmp(ctx, f"{fn}/{on}/variables", an, c, sum(w, []) if rd == "p2" else cat(w))


def text(it, v):
    v = it.rst(v)
    if isinstance(v, Ref):
        v = it.load(v)
    return v.s if isinstance(v, Str) else None
