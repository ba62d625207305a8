_T = "TLA+ reference machine over a parameter ring (spec/Machines.tla); recorded executions validated step by step by TLC (spec/Trace.tla)"
_H = "TLA+ machines of the helpers (spec/Helpers.tla); recorded executions validated step by step by TLC (spec/HTrace.tla)"
_m = lambda *n: "; design model%s %s checked exhaustively by TLC" % ("s" if len(n) > 1 else "", ", ".join(n))
TECH = {
    "C01": _T + _m("MCBlocked"), "C03": _T + _m("MCBlocked"), "C05": _T + _m("MCBlocked"), "C10": _T + _m("MCBlocked"),
    "C02": _T + _m("MCRoles"), "C04": _T + _m("MCRoles"), "C13": _T + _m("MCRoles"),
    "C06": _T + _m("MCForms"), "C07": _T + _m("MCForms"), "C08": _T + _m("MCForms"), "C09": _T + _m("MCStream"),
    "C11": _T + " over dual and hyper-dual numbers" + _m("MCAdjoint"), "C12": _T + " over dual and hyper-dual numbers" + _m("MCAdjoint"),
    "C14": "histories simulated from spec/Schedule.tla carried out against the code; recorded sessions validated by TLC against spec/Purity.tla" + _m("MCConc"),
    "C15": _T, "C19": _T + _m("MCDiag"),
    "C16": "calls generated by TLC from spec/ContractGen.tla; their outcomes, real and fake, validated by TLC against spec/Contract.tla; compiled functions validated by spec/Trace.tla" + _m("MCRoles"),
    "C17": _H + _m("MCSteady"), "C18": _H + _m("MCSteady"), "C20": _H + _m("MCSpline"), "C21": _H + _m("MCBlocked", "MCSteady"), "C22": _H + _m("MCNewton"), "C23": _H + _m("MCPfe"),
}
NOTE = {
    "C14": "Sessions: every live tensor is looked at (contents, metadata) after every event; concurrency is whatever the threads of this machine produce. ",
    "C16": "Calls one edit away from fitting ones are enumerated for the operators (sampled in the quick tier), others simulated. ",
    "C20": "Values are compared within 2e-11 plus the decay of the boundary sum. ",
    "C23": "Residues are compared on their exact grid within 1/8, poles within 1e-3. ",
    "C19": "Values are compared on the grid within 1/16, as the code decomposes in floating point. ",
}
