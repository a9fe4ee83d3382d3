"""Query over the macro-expanded source of factrs with feature serde (a stand-in supplies the missing typetag fork's macros) and of a fixture crate with every shape of impl the marking attribute accepts: each registration's tag equals the name of the type its deserializer builds, tags are unique per trait, Tagged::tag returns the tag the type is registered under, every type implementing a marked trait is registered (const-generic ones for sizes 1..20, variables also with their prior and between residuals), and derived (de)serialization of named structs carries every field."""
import re
from sa import build


def norm(t):
    t = re.sub(r"\s+", "", t)
    t = re.sub(r"(\d+)usize", r"\1", t)
    t = re.sub(r"[A-Za-z_]\w*::", "", t)
    return t.replace("::<", "<").lstrip(":")


def balanced(s, i):
    """s[i] is just after '<': returns the text up to the matching '>'"""
    d, j = 1, i
    while j < len(s):
        if s[j] == "<":
            d += 1
        elif s[j] == ">" and s[j - 1] != "-":
            d -= 1
            if d == 0:
                return s[i:j], j
        j += 1
    return s[i:], len(s)


REG = re.compile(r"<\s*dyn\s+([\w:]+)\s*>\s*::\s*typetag_register\(\s*\"([^\"]*)\"\s*,")
IMPL = re.compile(r"impl_of\(\s*\"([^\"]*)\"\s*,\s*\"?([^\",]*)\"?\s*,\s*(\d+)(?:usize)?\s*\)")
TAGGED = re.compile(r"impl\s*(<[^>]*>)?\s*typetag::Tagged\s+for\s+([\w:]+(?:<[^>]*>)?)\s*\{")


def body(s, i):
    """text of the block whose '{' is at or after i"""
    i = s.index("{", i)
    d = 0
    for j in range(i, len(s)):
        if s[j] == "{":
            d += 1
        elif s[j] == "}":
            d -= 1
            if d == 0:
                return s[i:j + 1]
    return s[i:]


def impls(s, trait):
    """types for which the trait is implemented"""
    out = []
    for m in re.finditer(r"\bimpl\b\s*", s):
        i = m.end()
        gen = ""
        if s[i:i + 1] == "<":
            gen, i = balanced(s, i + 1)
            i += 1
        m2 = re.match(r"\s*([\w:]+)\s*(<)?", s[i:i + 200])
        if not m2 or not re.fullmatch(trait, m2.group(1).split("::")[-1]):
            continue
        k = i + m2.end()
        if m2.group(2):
            _, k = balanced(s, k)
            k += 1
        m3 = re.match(r"\s*for\s+([\w:]+)", s[k:k + 200])
        if m3:
            out.append((m3.group(1).split("::")[-1], gen))
    return out


def regs(s):
    out = []
    for m in REG.finditer(s):
        k = s.find("deserialize", m.end())
        k2 = s.find("<", k)
        nxt = s.find("typetag_register", m.end())
        ty = None if k < 0 or (0 <= nxt < k) else norm(balanced(s, k2 + 1)[0])
        out.append((m.group(1).split("::")[-1], m.group(2), ty))
    return out


def judge(ctx, where, s):
    R = regs(s)
    seen = {}
    for tr, tag, ty in R:
        ob = f"{where}/{tr}/{tag}"
        if ty is None:
            ctx.note(ob, "undecided", "deserializer not recognised", f"registration of {tag}")
            continue
        ctx.holds(ob, f"registration of {tag}", norm(tag) == ty, f"the tag {tag} deserializes as {ty}")
        ctx.holds(ob + "/unique", f"registration of {tag}", (tr, tag) not in seen, f"the tag {tag} is registered twice for {tr}")
        seen[tr, tag] = ty
    # tag() of a type is what it is registered under
    tags = {}
    for m in TAGGED.finditer(s):
        b = body(s, m.end() - 1)
        lit = re.findall(r"\"((?:[^\"\\]|\\.)*)\"", b)
        t = m.group(2).split("::")[-1]
        nm = re.match(r"\w+", t).group(0)
        ob = f"{where}/Tagged/{nm}"
        tags[nm] = m.group(1) or ""
        if len(lit) != 1:
            ctx.note(ob, "undecided", "tag() is not a literal", f"Tagged for {t}")
            continue
        if m.group(1):
            par = re.findall(r"const\s+(\w+)", m.group(1))
            ph = re.findall(r"\{(\w*)(?::([^{}]*))?\}", lit[0])
            if len(par) != 1 or len(ph) != 1 or not (ph[0][0] == par[0] or ph[0][0] in ("", "0") and re.search(r",\s*%s\s*,?\s*\)" % par[0], b)):
                ctx.note(ob, "undecided", "tag() not recognised", f"Tagged for {t}")
                continue
            spec = ph[0][1].rstrip("?")
            try:
                txt = {i: re.sub(r"\{[^{}]*\}", lambda _: format(i, spec), lit[0]) for i in range(1, 21)}
            except ValueError:
                ctx.note(ob, "undecided", "tag() not recognised", f"Tagged for {t}")
                continue
            ok = all(v == f"{nm}<{i}>" for i, v in txt.items())
            ctx.holds(ob, f"Tagged for {t}", ok, f"tag() formats {lit[0]!r}, registrations use {nm}<N>")
        else:
            ctx.holds(ob, f"Tagged for {t}", lit[0] == nm, f"tag() is {lit[0]!r}, the type is registered as {nm!r}")
    have = set(seen)
    # every implementor is registered
    def need(tr, tag, anchor):
        ctx.holds(f"{where}/{tr}/{tag}/registered", anchor, (tr, tag) in have, f"{tag} is not registered for {tr}")
    for t, gen in sorted(set(impls(s, "Variable"))):
        if t == "T" or len(t) == 1:
            continue
        names = [f"{t}<{i}>" for i in range(1, 21)] if "const" in gen else [t]
        ctx.holds(f"{where}/Tagged/{t}/present", t, t in tags, f"{t} has no tag")
        for n in names:
            need("VariableSafe", n, f"impl Variable for {t}")
            need("Residual", f"PriorResidual<{n}>", f"impl Variable for {t}")
            need("Residual", f"BetweenResidual<{n}>", f"impl Variable for {t}")
    I = [(a, norm(b), int(c)) for a, b, c in IMPL.findall(s)]
    marked = {(a, b) for a, b, c in I}
    for t, gen in sorted(set(impls(s, "NoiseModel"))):
        ctx.holds(f"{where}/NoiseModel/{t}/marked", f"impl NoiseModel for {t}", ("NoiseModel", t) in marked, f"{t} is not marked for serialization")
        if "const" in gen:
            for i in range(1, 21):
                need("NoiseModel", f"{t}<{i}>", f"impl NoiseModel for {t}")
        elif not gen:
            n = sum(1 for a, b, c in I if (a, b) == ("tag_noise", t))
            ctx.holds(f"{where}/NoiseModel/{t}/registered", f"impl NoiseModel for {t}", n == 1 or where == "factrs", f"{t} is tagged {n} times")
    for t, gen in sorted(set(impls(s, "RobustCost"))):
        ctx.holds(f"{where}/RobustCost/{t}/marked", f"impl RobustCost for {t}", ("RobustCost", t) in marked, f"{t} is not marked for serialization")
    for t, gen in sorted(set(impls(s, r"Residual[1-6]"))):
        ctx.holds(f"{where}/Residual/{t}/marked", f"impl Residual for {t}", ("Residual", t) in marked, f"{t} is not marked for serialization")
    # derived representations carry every field
    for m in re.finditer(r"_serde::Serialize\s+for\s+(\w+)", s):
        t = m.group(1)
        b = body(s, m.end())
        d = re.search(r"\bstruct\s+%s\b" % t, s)
        if not d:
            continue
        k = re.search(r"[{;(]", s[d.end():])
        if not k or k.group(0) != "{" and "(" in k.group(0) or k.group(0) == ";":
            continue
        fs = fields(body(s, d.end()))
        if not fs:
            continue
        ser = re.findall(r"serialize_field\(\s*&mut\s+__serde_state\s*,\s*\"([^\"]*)\"\s*,\s*&self\.(\w+)\s*\)", b)
        de = re.search(r"_serde::Deserialize<'de>\s+for\s+%s\b" % t, s)
        fl = re.search(r"FIELDS\s*:[^=]*=\s*&\[([^\]]*)\]", s[de.end():de.end() + 40000]) if de else None
        des = re.findall(r"\"([^\"]*)\"", fl.group(1)) if fl else None
        ctx.holds(f"{where}/fields/{t}", f"Serialize for {t}", {f for _, f in ser} == set(fs), f"fields {sorted(set(fs) - {f for _, f in ser})} of {t} are not serialized")
        if des is not None:
            ctx.holds(f"{where}/fields/{t}/back", f"Deserialize for {t}", {n for n, _ in ser} == set(des), f"{t} serializes {[n for n, _ in ser]} and reads {des}")
    return len(R)


def fields(b):
    """field names of a struct body"""
    b = re.sub(r"#\[[^\]]*\]", "", re.sub(r"//[^\n]*", "", b[1:-1]))
    out, d, cur = [], 0, ""
    for c in b:
        if c in "<([{":
            d += 1
        elif c in ">)]}":
            d -= 1
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    out.append(cur)
    return [m.group(1) for m in (re.match(r"\s*(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:", x) for x in out) if m]


def run(ctx):
    out, fix, e1, e2 = build.expanded()
    for where, s, e in (("factrs", out, e1), ("user types", fix, e2)):
        s = re.sub(r"(?m)^\s*//[/!]?.*$", "", s)
        if not s.strip():
            ctx.note(where, "undecided", "no expansion: " + e[-500:], where)
            continue
        n = judge(ctx, where, s)
        if not n:
            ctx.fail(where + "/registrations", "mark", "no type is registered for deserialization")
