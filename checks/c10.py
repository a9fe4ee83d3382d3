"""Type-level decision: for every checked entry point (FactorBuilder::new1..new6 at each key position, the builder's output dimension, FactorBuilder::noise, Values::insert/get/get_mut/remove, ImuPreintegrator::build, fac!) a program that is generic over everything and lacks exactly one of the declared agreements must be rejected by the type checker, while its twin with that agreement is accepted; the unchecked entry points accept any symbol. Concrete witnesses cover assign_symbols!, Key and DefaultSymbol."""
from sa import typed

USE = "use factrs::{assign_symbols, containers::*, linalg::*, noise::*, residuals::*, robust::*, traits::*, variables::*};\n"
N = range(1, 7)


def factor_fn(n, bounds, dim="D", call=None, unchecked=False):
    ks = ", ".join(f"K{i}" for i in range(1, n + 1))
    ar = ", ".join(f"k{i}: K{i}" for i in range(1, n + 1))
    vs = ", ".join(f"k{i}" for i in range(1, n + 1))
    wh = ", ".join(f"K{i}: {bounds(i)}" for i in range(1, n + 1))
    return USE + f"""pub fn f<R, {ks}, const D: usize, const E: usize>(r: R, {ar}) -> FactorBuilder<D>
where R: Residual{n}<DimOut = Const<{dim}>> + Residual + 'static, {wh} {{ FactorBuilder::<D>::new{n}{'_unchecked' if unchecked else ''}(r, {vs}) }}"""


def programs():
    """name -> (accepted?, what, anchor, source)"""
    P = {}
    for n in N:
        typed_ = lambda i: f"TypedSymbol<R::V{i}>"
        a = f"FactorBuilder::new{n}"
        P[f"new{n}_ok"] = (True, "all keys typed", a, factor_fn(n, typed_))
        for i in range(1, n + 1):
            P[f"new{n}_key{i}"] = (False, f"key {i} is not known to be for the residual's variable {i}", a,
                                   factor_fn(n, lambda j: "Symbol" if j == i else typed_(j)))
            if n > 1:
                o = i % n + 1
                P[f"new{n}_key{i}_other"] = (False, f"key {i} is for the residual's variable {o}", a,
                                             factor_fn(n, lambda j: typed_(o) if j == i else typed_(j)))
        P[f"new{n}_dim"] = (False, "the builder's dimension is not the residual's output dimension", a, factor_fn(n, typed_, "E"))
        P[f"new{n}_unchecked"] = (True, "any symbols", a + "_unchecked", factor_fn(n, lambda i: "Symbol", unchecked=True))
    nz = "pub fn f<N, const D: usize, const E: usize>(b: FactorBuilder<D>, n: N) -> FactorBuilder<D> where N: 'static + NoiseModel%s { b.noise(n) }"
    P["noise_ok"] = (True, "noise of the residual's dimension", "FactorBuilder::noise", USE + nz % "<Dim = Const<D>>")
    P["noise_other"] = (False, "noise of another dimension", "FactorBuilder::noise", USE + nz % "<Dim = Const<E>>")
    P["noise_any"] = (False, "noise of unknown dimension", "FactorBuilder::noise", USE + nz % "")
    for m in ("GaussianNoise", "UnitNoise"):
        for d, e in ((3, 3), (3, 2), (3, 6), (1, 2), (6, 3)):
            P[f"noise_{m}_{d}_{e}"] = (d == e, f"{m}<{e}> on an output of dimension {d}", "FactorBuilder::noise",
                                       USE + f"pub fn f(b: FactorBuilder<{d}>, n: {m}<{e}>) -> FactorBuilder<{d}> {{ b.noise(n) }}")
    vals = dict(insert="v.insert(s, x);", get="let _: Option<&V> = v.get(s);", get_mut="let _: Option<&mut V> = v.get_mut(s);", remove="let _: Option<V> = v.remove(s);",
                insert_unchecked="v.insert_unchecked(s, x);", get_unchecked="let _: Option<&V> = v.get_unchecked(s);",
                get_unchecked_mut="let _: Option<&mut V> = v.get_unchecked_mut(s);")
    for m, c in vals.items():
        g = lambda b: USE + f"pub fn f<S: {b}, V: VariableUmbrella, W: VariableUmbrella>(v: &mut Values, s: S, x: V) {{ {c} }}"
        a = "Values::" + m
        if "unchecked" in m:
            P[m] = (True, "any symbol", a, g("Symbol"))
        else:
            P[m + "_ok"] = (True, "symbol typed for the variable", a, g("TypedSymbol<V>"))
            P[m + "_other"] = (False, "symbol typed for another variable", a, g("TypedSymbol<W>"))
            P[m + "_untyped"] = (False, "untyped symbol", a, g("Symbol"))
    # the symbols themselves
    t = lambda decl, s, v: USE + f"{decl}\nfn need<S: TypedSymbol<V>, V: VariableUmbrella>() {{}}\npub fn f() {{ need::<{s}, {v}>() }}"
    VS = ["SE2", "SE3", "SO2", "SO3", "VectorVar1", "VectorVar3", "ImuBias"]
    for i, v in enumerate(VS):
        w = VS[(i + 1) % len(VS)]
        P[f"sym_{v}_ok"] = (True, f"X: {v} typed for {v}", "assign_symbols!", t(f"assign_symbols!(X: {v});", "X", v))
        P[f"sym_{v}_other"] = (False, f"X: {v} typed for {w}", "assign_symbols!", t(f"assign_symbols!(X: {v});", "X", w))
        P[f"sym_{v}_default"] = (False, f"DefaultSymbol typed for {v}", "DefaultSymbol", t("", "DefaultSymbol", v))
        P[f"sym_{v}_key"] = (False, f"Key typed for {v}", "Key", t("", "Key", v))
        P[f"sym_{v}_untyped"] = (False, f"assign_symbols!(X) typed for {v}", "assign_symbols!", t("assign_symbols!(X);", "X", v))
    P["sym_two_a"] = (True, "X: SE2, SE3 typed for SE2", "assign_symbols!", t("assign_symbols!(X: SE2, SE3);", "X", "SE2"))
    P["sym_two_b"] = (True, "X: SE2, SE3 typed for SE3", "assign_symbols!", t("assign_symbols!(X: SE2, SE3);", "X", "SE3"))
    P["sym_two_c"] = (False, "X: SE2, SE3 typed for SO3", "assign_symbols!", t("assign_symbols!(X: SE2, SE3);", "X", "SO3"))
    P["sym_list_a"] = (False, "X of X: SE2; Y: SE3 typed for SE3", "assign_symbols!", t("assign_symbols!(X: SE2; Y: SE3);", "X", "SE3"))
    P["sym_list_b"] = (True, "Y of X: SE2; Y: SE3 typed for SE3", "assign_symbols!", t("assign_symbols!(X: SE2; Y: SE3);", "Y", "SE3"))
    P["sym_generic"] = (False, "any symbol typed for any variable", "TypedSymbol", USE + "fn need<S: TypedSymbol<V>, V: VariableUmbrella>() {}\npub fn f<S: Symbol, V: VariableUmbrella>() { need::<S, V>() }")
    P["untyped_is_symbol"] = (True, "untyped symbols are symbols", "assign_symbols!", USE + "assign_symbols!(X);\nfn need<S: Symbol>() {}\npub fn f() { need::<X>(); need::<Key>(); need::<DefaultSymbol>() }")
    # fac!
    f = lambda e: USE + "use factrs::fac;\nassign_symbols!(X: SE2; Y: SE3);\npub fn f() -> Factor { %s }" % e
    P["fac_ok1"] = (True, "matching key", "fac!", f("fac![PriorResidual::new(SE2::identity()), X(0)]"))
    P["fac_bad1"] = (False, "key of another type", "fac!", f("fac![PriorResidual::new(SE2::identity()), Y(0)]"))
    P["fac_ok2"] = (True, "matching keys and noise", "fac!", f("fac![BetweenResidual::new(SE2::identity()), (X(0), X(1)), GaussianNoise::<3>::from_scalar_sigma(1.0)]"))
    P["fac_bad2"] = (False, "second key of another type", "fac!", f("fac![BetweenResidual::new(SE2::identity()), (X(0), Y(1)), GaussianNoise::<3>::from_scalar_sigma(1.0)]"))
    P["fac_bad2a"] = (False, "first key of another type", "fac!", f("fac![BetweenResidual::new(SE2::identity()), (Y(0), X(1)), GaussianNoise::<3>::from_scalar_sigma(1.0)]"))
    P["fac_bad2n"] = (False, "noise of another dimension", "fac!", f("fac![BetweenResidual::new(SE2::identity()), (X(0), X(1)), GaussianNoise::<6>::from_scalar_sigma(1.0)]"))
    P["fac_bad_n"] = (False, "two keys for a unary residual", "fac!", f("fac![PriorResidual::new(SE2::identity()), (X(0), X(1))]"))
    P["fac_ok3"] = (True, "matching keys, noise and kernel", "fac!", f("fac![PriorResidual::new(SE3::identity()), (Y(0),), UnitNoise::<6>, Huber::default()]"))
    # a residual takes part only at its own arity, and the built-in residuals have the variable's dimension
    P["dims"] = (True, "prior and between residuals have the variable's dimensions", "PriorResidual, BetweenResidual",
                 USE + "fn n1<R: Residual1<DimOut = Const<D>, DimIn = Const<I>>, const D: usize, const I: usize>() {}\nfn n2<R: Residual2<DimOut = Const<D>, DimIn = Const<I>>, const D: usize, const I: usize>() {}\n"
                 "pub fn f() { n1::<PriorResidual<SE3>, 6, 6>(); n1::<PriorResidual<SO2>, 1, 1>(); n2::<BetweenResidual<SE3>, 6, 12>(); n2::<BetweenResidual<SE2>, 3, 6>(); n2::<BetweenResidual<VectorVar<4>>, 4, 8>() }")
    imu = ["SE3", "VectorVar3", "ImuBias", "SE3", "VectorVar3", "ImuBias"]
    b = lambda ty, m="build": USE + "pub fn f<%s>(p: ImuPreintegrator, %s) -> Factor { p.%s(%s) }" % (
        ", ".join(f"K{i}: {x}" for i, x in enumerate(ty)), ", ".join(f"k{i}: K{i}" for i in range(6)), m, ", ".join(f"k{i}" for i in range(6)))
    ok = [f"TypedSymbol<{x}>" for x in imu]
    P["imu_ok"] = (True, "typed keys", "ImuPreintegrator::build", b(ok))
    for i in range(6):
        P[f"imu_{i}"] = (False, f"key {i + 1} untyped", "ImuPreintegrator::build", b(ok[:i] + ["Symbol"] + ok[i + 1:]))
        P[f"imu_{i}_other"] = (False, f"key {i + 1} for another variable", "ImuPreintegrator::build", b(ok[:i] + [ok[(i + 1) % 6]] + ok[i + 1:]))
    P["imu_unchecked"] = (True, "any symbols", "ImuPreintegrator::build_unchecked", b(["Symbol"] * 6, "build_unchecked"))
    return P


def run(ctx):
    P = programs()
    r = typed.judge("", {n: p[3] for n, p in P.items()})
    for n, (good, what, anchor, src) in P.items():
        e = r[n]
        if good:
            ctx.holds(n, anchor, not e, f"rejected although it should compile ({what}): {e[:2]}")
        elif not e:
            ctx.fail(n, anchor, f"accepted although it should not compile: {what}", {"program": src})
        elif not any(c in ("E0277", "E0271", "E0308", "E0061", "E0107", "E0282", "E0283") for c, _ in e):
            ctx.note(n, "undecided", f"rejected for another reason: {e[:2]}", anchor)
        else:
            ctx.ok(n, anchor, f"rejected: {e[0][0]} {e[0][1][:120]}")
    ctx.typed = len(P)
