AI = "abstract interpretation of the syntax trees: gated value numbering in an algebraic normal form, after static dispatch resolution"
NOTE = "one obligation per rule instance, quantified over all component values, units and batch shapes; undecided obligations are listed in the evidence"
T = {
    "C01": (AI, NOTE), "C02": (AI, NOTE), "C03": (AI, NOTE), "C04": (AI, NOTE), "C05": (AI, NOTE), "C06": (AI, NOTE), "C07": (AI, NOTE),
    "C08": (AI, NOTE), "C09": (AI + "; emptiness of out-of-range paths in the polyhedral domain", NOTE), "C10": (AI, NOTE), "C11": (AI, NOTE),
    "C12": ("abstract interpretation of the syntax trees in a domain of symbolic array shapes (named axes, index and reshape history)", NOTE),
    "C14": (AI, NOTE), "C15": (AI, NOTE), "C16": (AI, NOTE), "C17": (AI, NOTE), "C18": (AI, NOTE), "C19": (AI, NOTE), "C20": (AI, NOTE), "C22": (AI, NOTE), "C23": ("static resolution of every registered signature against every other, and abstract interpretation of each resolved conversion and operation", NOTE), "C24": (AI, NOTE), "C25": (AI, NOTE), "C26": (AI, NOTE), "C27": (AI, NOTE), "C30": (AI, NOTE), "C21": (AI, NOTE),
    "C32": (AI, NOTE),
    "C31": ("taint analysis during abstract interpretation of the syntax trees: values derived from components are followed to every Python truth test, host conversion and host-library call", "one obligation per operation and vector, operator or frame; a sink reached by a derived value is reported with its file and line"),
    "C13": ("interprocedural origin and effect analysis over the call graph, and abstract interpretation of the syntax trees with a frozen heap", NOTE),
}
NA = {
    "C28": "rounding error of compiled floating point code (XLA fusion, libm) is a runtime quantity; no sound static bound is in reach near the poles and the origin, and the value numbering here is exact-real",
    "C29": "that such calls can be traced at all is C31; that their results agree: equivalence under jit, vmap and grad depends on JAX tracing and XLA at run time, which are outside the analysed source; no static rule in reach decides it without alarms on code that traces correctly",
}
