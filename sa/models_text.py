"""Summaries of text input: files, lines, tokens, number parsing.
A character of the private use area stands for a numeric field whose value is a symbol (interp.tokens)."""
from fractions import Fraction
import re
from . import alg, models as M
from .models import m, ti, normdef, val, some, none, ok, err, integer
from .values import *

PUA = 0xE000


def text(it, v):
    v = val(it, v)
    if isinstance(v, Str) and isinstance(v.s, str):
        return v.s
    raise Undecided("unknown string")


def ref(it, s):
    return Ref(it.new(Str(s)))


def strs(it, xs):
    return IterV("list", tuple(ref(it, x) for x in xs))


@m("File::open")
def _open(it, args, I, rt, at):
    return ok(Term("file"), rt)


@m("BufReader::new", "BufReader::with_capacity")
def _bufreader(it, args, I, rt, at):
    return args[-1]


def contents(it):
    t = getattr(it, "file_text", None)
    if t is None:
        raise Undecided("contents of a file")
    return t


def lines(t):
    xs = t.split("\n")
    if xs and xs[-1] == "":
        xs.pop()
    return [x[:-1] if x.endswith("\r") else x for x in xs]


@ti("BufRead::lines")
def _lines(it, args, I, rt, at):
    return IterV("list", tuple(ok(Str(x)) for x in lines(contents(it))))


@m("fs::read_to_string", "io::read_to_string")
def _readstr(it, args, I, rt, at):
    return ok(Str(contents(it)), rt)


@ti("Read::read_to_string")
def _readto(it, args, I, rt, at):
    r = it.as_ref(args[1])
    t = contents(it)
    it.store(r, Str(text(it, it.load_g(r)) + t))
    return ok(len(t), rt)


@m("str::lines")
def _slines(it, args, I, rt, at):
    return strs(it, lines(text(it, args[0])))


def matcher(it, p):
    """pattern argument: a string, a character, a set of characters or a predicate -> python function splitting a string"""
    v = val(it, p)
    if isinstance(v, Str):
        return lambda s: s.split(v.s)
    if isinstance(v, int) and not isinstance(v, bool):
        return lambda s: s.split(chr(v))

    def pred(f):
        def sp(s):
            out, cur = [], ""
            for c in s:
                if f(c):
                    out.append(cur)
                    cur = ""
                else:
                    cur += c
            return out + [cur]
        return sp
    if isinstance(v, Seq):
        cs = {chr(integer(it, x)) for x in v.xs}
        return pred(lambda c: c in cs)

    def call(c):
        r = it.call_value(p, [ord(c)])
        if r is True or r is False:
            return r
        raise Undecided("unknown character predicate")
    return pred(call)


@m("str::split")
def _split(it, args, I, rt, at):
    return strs(it, matcher(it, args[1])(text(it, args[0])))


@m("str::split_terminator")
def _splitt(it, args, I, rt, at):
    xs = matcher(it, args[1])(text(it, args[0]))
    return strs(it, xs[:-1] if xs and xs[-1] == "" else xs)


@m("str::splitn")
def _splitn(it, args, I, rt, at):
    n = integer(it, args[1])
    v = val(it, args[2])
    s = text(it, args[0])
    sep = v.s if isinstance(v, Str) else chr(integer(it, v))
    return strs(it, s.split(sep, n - 1))


@m("str::split_once")
def _splitonce(it, args, I, rt, at):
    v = val(it, args[1])
    sep = v.s if isinstance(v, Str) else chr(integer(it, v))
    s = text(it, args[0])
    if sep not in s:
        return none(rt)
    a, b = s.split(sep, 1)
    return some(M.tup(ref(it, a), ref(it, b)), rt)


@m("str::split_whitespace", "str::split_ascii_whitespace")
def _splitws(it, args, I, rt, at):
    return strs(it, text(it, args[0]).split())


@m("str::trim")
def _trim(it, args, I, rt, at):
    return ref(it, text(it, args[0]).strip())


@m("str::trim_end")
def _trime(it, args, I, rt, at):
    return ref(it, text(it, args[0]).rstrip())


@m("str::trim_start")
def _trims(it, args, I, rt, at):
    return ref(it, text(it, args[0]).lstrip())


def plain(it, v):
    v = val(it, v)
    return v.s if isinstance(v, Str) else chr(integer(it, v))


@m("str::starts_with")
def _starts(it, args, I, rt, at):
    return text(it, args[0]).startswith(plain(it, args[1]))


@m("str::ends_with")
def _ends(it, args, I, rt, at):
    return text(it, args[0]).endswith(plain(it, args[1]))


@m("str::contains")
def _contains(it, args, I, rt, at):
    return plain(it, args[1]) in text(it, args[0])


@m("str::strip_prefix")
def _stripp(it, args, I, rt, at):
    s, p = text(it, args[0]), plain(it, args[1])
    return some(ref(it, s[len(p):]), rt) if s.startswith(p) else none(rt)


@m("str::strip_suffix")
def _strips(it, args, I, rt, at):
    s, p = text(it, args[0]), plain(it, args[1])
    return some(ref(it, s[:len(s) - len(p)]), rt) if s.endswith(p) else none(rt)


@m("slice::join")
def _join(it, args, I, rt, at):
    v = val(it, args[0])
    xs = [val(it, x) for x in v.xs]
    if all(isinstance(x, Str) for x in xs) and (xs or isinstance(val(it, args[1]), Str)):
        return Str(plain(it, args[1]).join(x.s for x in xs))
    return Seq(sum((tuple(M.seqxs(x)) for x in xs), ()))


def parse(it, args, I, rt, at):
    s = text(it, args[0])
    t = it.p.ty(rt)
    a = [x["t"] if isinstance(x, dict) and "t" in x else x for x in I["args"]] if I.get("args") else []
    ty = it.p.ty(a[0]) if a else None
    k = ty["k"] if ty else None
    tok = it.__dict__.get("tokens") or {}
    if k == "float":
        if s in tok:
            return ok(tok[s], rt)
        if re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", s):
            return ok(alg.const(Fraction(s)), rt)
        if re.fullmatch(r"[+-]?(inf|infinity|nan)", s.lower()):
            return ok(NAN if "nan" in s.lower() else (NINF if s[0] == "-" else INF), rt)
        return err(Term("ParseFloatError"), rt)
    if k in ("uint", "int"):
        if s in tok:
            return err(Term("ParseIntError"), rt)
        if re.fullmatch(r"\+?\d+" if k == "uint" else r"[+-]?\d+", s):
            lo, hi = (0, (1 << ty["b"]) - 1) if k == "uint" else (-(1 << (ty["b"] - 1)), (1 << (ty["b"] - 1)) - 1)
            if not lo <= int(s) <= hi:
                return err(Term("ParseIntError"), rt)
            return ok(int(s), rt)
        return err(Term("ParseIntError"), rt)
    if s is not None and ty and ty.get("name", "").endswith("String"):
        return ok(Str(s), rt)
    raise Undecided("parse of an unknown type")


M.D["str::parse"] = parse
M.T["FromStr::from_str"] = parse


@m("str::find", "str::rfind")
def _find(it, args, I, rt, at):
    s, p = text(it, args[0]), plain(it, args[1])
    i = s.rfind(p) if normdef(I["def"]).endswith("rfind") else s.find(p)
    return none(rt) if i < 0 else some(len(s[:i].encode()), rt)


@m("str::to_uppercase", "str::to_lowercase", "str::to_ascii_uppercase", "str::to_ascii_lowercase")
def _case(it, args, I, rt, at):
    s = text(it, args[0])
    return Str(s.upper() if "upper" in I["def"] else s.lower())


@m("str::trim_start_matches", "str::trim_end_matches", "str::trim_matches")
def _trimm(it, args, I, rt, at):
    s, p = text(it, args[0]), plain(it, args[1])
    n = normdef(I["def"])
    while p and n != "str::trim_end_matches" and s.startswith(p):
        s = s[len(p):]
    while p and n != "str::trim_start_matches" and s.endswith(p):
        s = s[:-len(p)]
    return ref(it, s)


@m("str::rsplit_once")
def _rso(it, args, I, rt, at):
    s, p = text(it, args[0]), plain(it, args[1])
    i = s.rfind(p)
    return none(rt) if i < 0 else some(M.tup(ref(it, s[:i]), ref(it, s[i + len(p):])), rt)


@m("str::replace")
def _replace(it, args, I, rt, at):
    return Str(text(it, args[0]).replace(plain(it, args[1]), text(it, args[2])))


@m("str::repeat")
def _repeat(it, args, I, rt, at):
    return Str(text(it, args[0]) * M.integer(it, args[1]))


@m("str::eq_ignore_ascii_case")
def _eqic(it, args, I, rt, at):
    return text(it, args[0]).lower() == text(it, args[1]).lower()
