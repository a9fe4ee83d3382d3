"""Check runner: obligations, known findings, evidence, exit code."""
import json, os, resource, signal, sys, time, traceback
from . import build, alg, laws, hooks as H, spec as SP
from .interp import Prog, Interp, Undecided, Diverge, Bottom, Event
from .values import *

VERIF = build.VERIF
_progs = {}


def prog(config):
    if config not in _progs:
        _progs[config] = Prog(build.dump(config))
    return _progs[config]


class Missing(Exception):
    pass


def int_consts(x):
    """integer literals in a function body"""
    out = set()
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            if y.get("v") == "array":
                continue              # texts, tables: contents, not sizes
            if y.get("v") == "int" and isinstance(y.get("x"), (int, str)):
                c = int(y["x"])
                if 2 < c <= 4096:
                    out.add(c)
            if y.get("t") == "switch":
                out |= {int(v) for v, _ in y["br"] if 2 < int(v) <= 4096}
            st.extend(y.values())
        elif isinstance(y, list):
            st.extend(y)
    return out


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obs = []            # dicts
        self.fns = set()
        self.models = set()
        self.blocks = 0
        self.calls = 0
        self.t0 = time.time()
        self.assumptions = []
        self.floor = 0
        self.cov = {}            # (program, instance) -> basic blocks evaluated
        self.lastfns = set()

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ------------------------------------------------ analysis of one harness entry
    def interp(self, config, setup=None):
        it = Interp(prog(config))
        H.install(it)
        if setup:
            setup(it)
        return it

    def eval(self, config, fn, args, setup=None, ob=None, defined=True, small=(), full=False, quiet=False):
        """value graph of harness function fn on abstract args; None when undecided (recorded).
        defined: a feasible panic is a violation"""
        name = fn if fn.startswith("fh_main::") else "fh_main::" + fn
        ob = ob or fn
        p = prog(config)
        if name not in p.byname:
            self.fail(ob, fn, f"anchor {name} is missing from the analysed program")
            return None
        it = self.interp(config, setup)
        r = None
        GATES[0] = 0
        try:
            r = it.call(name, args)
        except Diverge:
            if defined and not quiet:
                ev = [e for e in it.events if e.kind == "panic"]
                self.fail(ob, fn, "panics for every input: " + (str(ev[-1]) if ev else "diverges"))
        except (Undecided, Bottom, alg.TooBig, RecursionError, MemoryError) as e:
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc(limit=-8)
            if not quiet:
                self.note(ob, "undecided", f"{type(e).__name__}: {e}"[:300], fn)
        except (AttributeError, TypeError, IndexError, KeyError, ValueError, AssertionError, ZeroDivisionError) as e:
            # a value shape the summaries do not expect
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            if not quiet:
                self.note(ob, "undecided", f"summary gap: {type(e).__name__}: {e}"[:300], fn)
        finally:
            self.stat(it)
            if os.environ.get("SA_GATES") and GATES[0] > 20000:
                print("gates", ob, GATES[0])
        if defined and r is not None:
            for e in it.events:
                if e.kind == "panic":
                    env = laws.feasible(e.assume, small=small)
                    if env is not None:
                        self.fail(ob + "/panic", fn, f"can panic: {e}", env.assign(None))
                        break
        return (r, it) if full else r

    def stat(self, it):
        for k, v in it.stats["cov"].items():
            self.cov.setdefault((it.p, k), set()).update(v)
        self.lastfns = {n for n in it.stats["insts"] if "factrs" in n}
        self.fns |= it.stats["insts"]
        self.models |= it.stats["models"]
        self.blocks += it.stats["blocks"]
        self.calls += it.stats["calls"]

    def reach(self):
        """blocks of factrs functions: (definition, block) -> [source line, evaluated?]; blocks that only lead to a panic are left out"""
        out = {}
        for (p, k), seen in self.cov.items():
            I = p.insts[k]
            if I.get("crate") not in ("factrs",) or "body" not in I:
                continue
            info = p.info(k)
            for i, bl in enumerate(I["body"]["blocks"]):
                if i not in info["live"] or i not in info["fwd"]:
                    continue
                l = (bl["s"][0]["l"] if bl["s"] else bl["t"]["l"])
                e = out.setdefault((I["def"], i), [f"{p.files[l[0]]}:{l[1]}", False])
                e[1] = e[1] or i in seen
        return out

    def sizes(self, base, cap=300, only=""):
        """problem sizes to analyse: the given ones, then sizes around larger integer constants of the analysed factrs functions,
        and around all of a function's constants as long as one of its blocks has not been reached (only: functions whose path contains the text)"""
        done = set()
        t = time.time()
        for n in base:
            done.add(n)
            yield n
        for _ in range(3):
            rb = self.reach()
            open_ = {d for (d, i), (l, s) in rb.items() if not s and "log-0" not in l}
            ks = set()
            for (p, k) in list(self.cov):
                I = p.insts[k]
                if I.get("crate") == "factrs" and "body" in I and only in I["def"]:
                    ks |= {c for c in int_consts(I["body"]) if c > max(base) or I["def"] in open_}
            todo = sorted({n for c in ks for n in (c, c + 1, 2 * c + 1) if n not in done and n <= cap})[:10]
            if not todo:
                return
            for n in todo:
                if n not in done and time.time() - t < 240:
                    done.add(n)
                    t1 = time.time()
                    yield n
                    if time.time() - t1 > 40:
                        return

    # ------------------------------------------------ obligations
    def note(self, ob, status, detail="", anchor="", witness=None):
        if status == "refuted" and not getattr(self, "hurry", False) and ob not in known().get(self.pid, {}):
            # the verdict is settled: two more minutes for further violations
            self.hurry = True
            left = signal.alarm(0)
            if left:
                signal.alarm(min(left, 120))
        self.obs.append(dict(id=ob, status=status, detail=detail, anchor=anchor, witness=witness,
                             functions=sorted(self.lastfns)[:12] if status == "refuted" else None))

    def fail(self, ob, anchor, detail, witness=None):
        self.note(ob, "refuted", detail, anchor, witness)

    def ok(self, ob, anchor="", detail=""):
        self.note(ob, "proved", detail, anchor)

    def eq(self, ob, anchor, got, want, **kw):
        if got is None or want is None:
            return
        GATES[0] = 0
        try:
            v = laws.equal(got, want, ctx=self.pid + ob, **kw)
        except (alg.TooBig, Undecided, MemoryError) as e:
            v = laws.Verdict("undecided", f"normal form too big {e}")
        except (AttributeError, TypeError, IndexError) as e:
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            v = laws.Verdict("undecided", f"value shape: {type(e).__name__}: {e}")
        self.note(ob, v.status, v.detail, anchor, v.witness)
        return v

    def any(self, ob, anchor, pairs, **kw):
        """holds when one of several equivalent formulations is proved; refuted only if the last is refuted"""
        v = None
        for got, want in pairs:
            if got is None or want is None:
                return
            GATES[0] = 0
            try:
                if callable(got):
                    got = got()
                if callable(want):
                    want = want()
                v = laws.equal(got, want, ctx=self.pid + ob, **kw)
            except (alg.TooBig, Undecided, MemoryError) as e:
                v = laws.Verdict("undecided", f"normal form too big {e}")
            if v.status == "proved":
                break
        self.note(ob, v.status, v.detail, anchor, v.witness)
        return v

    def holds(self, ob, anchor, cond, detail):
        if cond:
            self.ok(ob, anchor)
        else:
            self.fail(ob, anchor, detail)


class OutOfTime(BaseException):
    pass


def known():
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                f = dict(x.split("=", 1) for x in l.split()[1:3])
                out.setdefault(f["property"], {})[f["key"]] = l
    return out


def numbers(ctx, mod, pid, tier):
    """where obligations stayed undecided over symbols: the same obligations on numbers; only what is refuted counts"""
    from . import spec
    left = 840 - (time.time() - ctx.t0)
    for k in range(2):
        if left < 60:
            return
        t = time.time()
        c = Ctx(pid, "quick")
        spec.NUMBERS[0] = k
        signal.alarm(int(min(200, left / 2)))
        try:
            mod.run(c)
        except (OutOfTime, Exception):
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc(limit=-4)
        finally:
            signal.alarm(0)
            spec.NUMBERS[0] = None
        if os.environ.get("SA_NUMBERS"):
            print("numbers", k, len(c.obs), {o["status"]: sum(1 for p in c.obs if p["status"] == o["status"]) for o in c.obs}, f"{time.time() - t:.0f}s")
        for o in c.obs:
            if o["status"] == "refuted":
                ctx.obs.append(dict(o, id=o["id"] + f" (numbers {k})"))
        if any(o["status"] == "refuted" for o in c.obs):
            return
        left -= time.time() - t


def main(pid, tier, level="other"):
    import importlib
    mod = importlib.import_module("checks." + pid.lower())
    ctx = Ctx(pid, tier)
    err = None
    resource.setrlimit(resource.RLIMIT_AS, (int(float(os.environ.get("SA_MEM", "12")) * 2 ** 30),) * 2)

    def late(*_):
        raise OutOfTime()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(os.environ.get("SA_LIMIT", "780" if tier == "quick" else "86000")))
    try:
        mod.run(ctx)
        signal.alarm(0)
    except OutOfTime:
        ctx.note("time", "undecided", "analysis stopped at its time limit; later obligations not examined")
    except build.BuildError as e:
        msg = str(e)
        if "driver build failed" in msg:
            print(msg)
            return 2
        if "could not compile `factrs`" in msg:
            # the library itself is not accepted by the analysis toolchain: nothing to analyse, and no verdict on the property
            print(msg[-2500:])
            ctx.note("library", "undecided", "factrs does not compile under the analysis toolchain")
        else:
            ctx.fail("harness", "public API", "the program using the documented public API no longer type-checks: " + msg[-2500:])
    except Exception as e:
        # the analyser met a value it has no rule for: no verdict on what follows, what was decided before stands
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ctx.note("internal", "undecided", f"{type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}")
    finally:
        signal.alarm(0)
    st = {o["status"] for o in ctx.obs}
    if os.environ.get("SA_NUMBERS") or "undecided" in st and "refuted" not in st and not any(o["id"] == "library" for o in ctx.obs):
        numbers(ctx, mod, pid, tier)
    n = {}
    for o in ctx.obs:
        n[o["status"]] = n.get(o["status"], 0) + 1
    kn = known().get(pid, {})
    bad = [o for o in ctx.obs if o["status"] == "refuted" and o["id"] not in kn]
    for o in ctx.obs:
        if o["status"] == "refuted" and o["id"] in kn:
            print(f"KNOWN-FINDING: property={pid} {o['id']}: {o['detail'][:200]}")
    factrs = sorted(f for f in ctx.fns if "factrs" in f)
    cov = dict(obligations=len(ctx.obs), discharged=n.get("proved", 0),
               checker_cmd=f"./check {pid} --tier {tier}",
               trusted_base=["rustc type checking and MIR construction", "sa/ abstract interpreter and normal forms",
                             "summaries of std, nalgebra, num-dual, faer in sa/models*.py", "specification in checks/" + pid.lower() + ".py"],
               rule=getattr(mod, "RULE", mod.__doc__ or "").strip(),
               not_reduced_but_agreeing=n.get("agrees", 0), undecided=n.get("undecided", 0),
               functions_analysed=len(ctx.fns), factrs_functions=len(factrs), basic_blocks=ctx.blocks, calls=ctx.calls,
               summaries_used=len(ctx.models), factrs_function_list=factrs[:80],
               samples=[dict(id=o["id"], status=o["status"], anchor=o["anchor"]) for o in ctx.obs[:12]],
               undecided_list=[dict(id=o["id"], why=o["detail"]) for o in ctx.obs if o["status"] in ("undecided", "agrees")][:60],
               explanation=getattr(mod, "RULE", mod.__doc__ or "").strip())
    rb = ctx.reach()
    cov.update(blocks_of_analysed_factrs_functions=len(rb), blocks_not_reached=sorted({f"{l} in {d}" for (d, i), (l, s) in rb.items() if not s and "log-0" not in l})[:60])
    cov.update(getattr(ctx, "extra", {}))
    ev = dict(property=pid, tier=tier, seed=laws.SEED, level=level, coverage=cov,
              assumptions=ctx.assumptions + ["real arithmetic; float constants read as their shortest decimal"],
              wall_s=round(time.time() - ctx.t0, 3), violations=len(bad))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, default=str)
    print(f"{pid}: {len(ctx.obs)} obligations, {n}, {len(ctx.fns)} functions, {ctx.blocks} blocks, {time.time() - ctx.t0:.1f}s")
    if os.environ.get("SA_COV"):
        json.dump([[d, i, l, s] for (d, i), (l, s) in ctx.reach().items()], open(os.path.join(os.environ["SA_COV"], pid + ".json"), "w"))
    if os.environ.get("SA_FNS"):
        with open(os.environ["SA_FNS"], "a") as f:
            f.writelines(x + "\n" for x in factrs)
    if os.environ.get("SA_VERBOSE"):
        for o in ctx.obs:
            if o["status"] != "proved":
                print("  ", o["status"], o["id"], o["detail"][:400])
    if bad:
        rp = os.path.join(VERIF, "evidence", pid + ".replay.json")
        json.dump(bad, open(rp, "w"), indent=1, default=str)
        for o in bad[:20]:
            print(f"  violated obligation {o['id']} at {o['anchor']}: {o['detail'][:700]}")
            if o.get("witness"):
                print("    at", dict(list(o["witness"].items())[:12]))
            if o.get("functions"):
                print("    analysed:", ", ".join(o["functions"][:6]))
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0
