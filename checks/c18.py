"""Keys: bit-provenance analysis of the conversions. The key of a symbol (letter: all 21 bits symbolic, index: 32 symbolic bits) must convert back to the same letter and index bits, and that again to the same key; every symbol declared by assign_symbols! (including the built-in A..Z) must carry its lower-case initial and its own index."""
import random
from sa import spec as SP, scalar as S
from sa.values import *


def run(ctx):
    cfg = "sym"
    c = Bits([("char:c", i) for i in range(21)] + [0] * 11)
    i = Bits([("i", k) for k in range(32)] + [0] * 32)
    ev = {f: ctx.eval(cfg, f"sym::{f}", [c, i], ob=f) for f in ("key", "back", "sym", "again")}
    same(ctx, "round-trip/symbol", "DefaultSymbol::from(Key::from(symbol))", ev["back"], ev["sym"])
    same(ctx, "round-trip/key", "Key::from(DefaultSymbol::from(key))", ev["again"], ev["key"])
    # single letters and indices (decides what depends on classes of characters)
    for ch in (0, 9, 10, 0x1F, 0x20, ord("."), ord("0"), ord("A"), ord("Z"), ord("_"), ord("a"), ord("z"), 0x7F, 0x80, 0xE9, 0x3B1, 0xD7FF, 0xE000, 0xFFFD, 0x10000, 0x1F600, 0x10FFFF):
        for ix in (0, 1, 9, 10, 2**16, 2**31, 2**32 - 1):
            ob = f"letter{ch:x}/{ix}"
            same(ctx, ob, "DefaultSymbol::from(Key::from(symbol))", ctx.eval(cfg, "sym::back", [ch, ix], ob=ob), ctx.eval(cfg, "sym::sym", [ch, ix], ob=ob))
    if ev["key"] is not None:
        # injectivity: every bit of the letter and of the index is a bit of the key
        k = ev["key"]
        # (follows from the round trip; decided directly when the bits are moved, not mixed)
        if isinstance(k, Bits) and not any(isinstance(b, tuple) and b[0] == "anf" for b in k.bs):
            lost = [b for b in c.bs + i.bs if isinstance(b, tuple) and b not in set(k.bs)]
            ctx.holds("injective", "Key::from(DefaultSymbol)", not lost, f"bits {lost} of the symbol do not reach the key")
    names = dict(apple="a", zed="z", mid="m", landmark="l", ete="é")
    names.update({f"l_{x}": x for x in "abcdefghijklmnopqrstuvwxyz"})
    for f, ch in names.items():
        got = ctx.eval(cfg, f"sym::{f}", [i], ob=f"assigned/{f}")
        want = ctx.eval(cfg, "sym::sym", [ord(ch), i], ob=f"assigned/{f}")
        wkey = ctx.eval(cfg, "sym::key", [ord(ch), i], ob=f"assigned/{f}")
        if got is not None and want is not None and wkey is not None:
            same(ctx, f"assigned/{f}/symbol", f"assign_symbols! {f}", got.fs[0], want)
            same(ctx, f"assigned/{f}/key", f"assign_symbols! {f}", got.fs[1], wkey)


def bits(v):
    if isinstance(v, bool) or isinstance(v, int):
        return tuple((int(v) >> i) & 1 for i in range(64))
    if isinstance(v, Bits):
        return v.bs + (0,) * (64 - len(v.bs))
    return v


def at(v, env):
    """the value under concrete letters and indices, plain"""
    if isinstance(v, Ite):
        k = v.a.kind
        if k in ("biteq", "bitlt"):
            x, y = (sum(S.bit_val(b, env) << i for i, b in enumerate(w)) for w in v.a.key)
            t = x == y if k == "biteq" else x < y
        elif k == "unk" and v.a.key[0] == "valid char":
            x = sum(S.bit_val(b, env) << i for i, b in enumerate(v.a.key[1]))
            t = x < 0x110000 and not 0xD800 <= x < 0xE000
        else:
            raise Undecided("gate")
        return at(v.t if t else v.f, env)
    if isinstance(v, Agg):
        return (v.vi,) + tuple(at(x, env) for x in v.fs)
    if isinstance(v, Bits):
        return sum(S.bit_val(b, env) << i for i, b in enumerate(v.bs))
    return v


def consts(v, out):
    if isinstance(v, Ite):
        if v.a.kind in ("biteq", "bitlt"):
            for w in v.a.key:
                out.add(sum(1 << i for i, b in enumerate(w) if b == 1))
        consts(v.t, out)
        consts(v.f, out)
    elif isinstance(v, Agg):
        for x in v.fs:
            consts(x, out)


def same(ctx, ob, anchor, got, want):
    """equal bit polynomials; a difference counts with a letter and an index that show it"""
    if got is None or want is None:
        return
    if got == want:
        ctx.ok(ob, anchor)
        return
    cs, r = {0}, random.Random(7)
    consts(got, cs)
    consts(want, cs)
    idx = {c + d for c in cs for d in (-1, 0, 1)} | {1 << k for k in range(32)} | {(1 << k) - 1 for k in range(33)} | {r.getrandbits(32) for _ in range(40)}
    idx = [i for i in idx if 0 <= i < 1 << 32]
    chars = [c for c in {ord("a"), ord("x"), ord("Z"), 0xe9, 0x3b1, 0x1f600, 0x10ffff, 1, 0xffff} | {1 << k for k in range(21)} | {c + d for c in cs for d in (-1, 0, 1)} | {r.randrange(0x110000) for _ in range(20)} if 0 <= c < 0x110000 and not 0xD800 <= c < 0xE000]
    try:
        for i in idx:
            for c in chars if i in idx[:4] else chars[:6]:
                env = {"char:c": c, "i": i}
                a, b = at(got, env), at(want, env)
                if a != b:
                    ctx.fail(ob, anchor, f"letter {c:#x}, index {i}: {a} instead of {b}")
                    return
        ctx.ok(ob, anchor) if all(not isinstance(x, (Ite,)) for x in (got, want)) and bitsame(got, want) else ctx.note(ob, "agrees", "not reduced to the same bits", anchor)
    except (Undecided, KeyError) as e:
        ctx.note(ob, "undecided", str(e)[:200], anchor)


def bitsame(a, b):
    if isinstance(a, Agg) and isinstance(b, Agg):
        return len(a.fs) == len(b.fs) and all(bitsame(x, y) for x, y in zip(a.fs, b.fs))
    return not isinstance(a, (Ite, Agg)) and not isinstance(b, (Ite, Agg)) and bits(a) == bits(b)
