"""Per property: evidence level, technique name, level note, reasons for properties not claimed."""
AI = "abstract interpretation of monomorphic MIR into gated algebraic normal forms (value numbering), compared with the specified normal form"
LEVEL = {}
TECH = {"C01": AI, "C02": AI, "C03": AI, "C04": AI, "C05": AI, "C06": AI, "C07": AI, "C08": AI, "C09": AI, "C11": AI, "C12": AI, "C13": AI, "C14": AI, "C15": AI, "C16": AI, "C17": AI, "C18": AI, "C19": AI, "C20": AI, "C21": AI}
NOTE = {"*": "Static analysis, real arithmetic. Sound for the analysed instances modulo the summaries of std/nalgebra/num-dual; "
             "obligations whose difference does not reduce to zero are refuted only with a point where the extracted normal forms differ, "
             "otherwise they are reported as undecided in the evidence."}
NA = {
    "C24": "Convergence quantifies over runtime trajectories of floating-point iterations; no static argument in reach bounds them. The step system (C16), stopping contract (C15) and derivative chain (C05-C09) are decided instead.",
    "C25": "Rounding error of arbitrary float computations is a runtime quantity; the analysis is over the reals and says nothing about accumulation of rounding error.",
}
TECH["C10"] = "type checking of generic compile-fail witnesses with compiling twins (parametric in the residual, variable, symbol and noise types)"
NOTE["C10"] = "Decided by rustc's type checker on programs generated from the property; the programs are generic, so one rejection speaks for every instance of the missing agreement."
TECH["C22"] = "query over the compiler's macro expansion of factrs (feature serde, stand-in typetag macros) and of a fixture with every accepted impl shape"
NOTE["C22"] = "Decides agreement of the tags, deserializers and registrations that the marking macros emit; the typetag fork itself is missing here, so the registry's run-time behaviour is assumed."
TECH["C23"] = AI
TECH["C26"] = AI
