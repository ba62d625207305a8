"""Design models, checked exhaustively by TLC next to the traces.

They do not look at /repo: they establish, over small finite rings (or symbolically), that the algorithms as
specified - blocked recursions, structures and their state spaces, hand-over between calls, backward sweeps,
modal coordinates, Newton iteration, closed forms, reading of shapes - compute what the machines compute, which
is what the recorded executions are then held against.  MCConc has two deliberately wrong variants, for which
TLC has to find the history that shows it."""
import os, re, threading, subprocess
import core

FORMS = "FormsAgree Df2Real Tdf2Real Tdf1Real TransposedIsShift Cascade"
ALLF = '{"df1","df2","tdf1","tdf2","fir"}'


def forms(p, nb, na, tv, cx, track=ALLF):
    return ("MCForms", "P = %d Nb = %d Na = %d TV = %s Cplx = %s Track = %s" % (p, nb, na, tv, cx, track), FORMS, True)


def blocked(n):
    return ("MCBlocked", "MaxN = %d" % n, "PowersRight CumRight LtiRight LpvRight CombRight", True)


def stream(p, nb, na, d, m):
    return ("MCStream", "P = %d Nb = %d Na = %d Delay = %d MaxC = %d" % (p, nb, na, d, m), "Complete Seamless", True)


def adjoint(p, m, n, tv, cx):
    return ("MCAdjoint", "P = %d Md = %d NMax = %d TV = %s Cplx = %s" % (p, m, n, tv, cx), "Exact Jvp", True)


def steady(p, nb, na, only=True):
    return ("MCSteady", "P = %d Nb = %d Na = %d NGo = 3" % (p, nb, na), "Continues Fixpoint Flat Divides" + (" OnlyOnes" if only else ""), True)


def spline(l, sc, vals):
    return ("MCSpline", "P = 13 L = %d Scipy = %s Vals = %s" % (l, sc, vals), "FormsAgree Interpolates Hits", True)


def conc(threads, calls, mem, ok):
    return ("MCConc", "Threads = %s Calls = %d Mem = \"%s\"" % (threads, calls, mem), "Pure", ok)


T, F = "TRUE", "FALSE"
PFE = lambda p, n, m1, m2, m3, z: ("MCPfe", "P = %d Nb = %d M1 = %d M2 = %d M3 = %d Z = %s" % (p, n, m1, m2, m3, z), "Expands Unique Divides", True)
DIAG = lambda p: ("MCDiag", "P = %d" % p, "Carries Agrees", True)
NEWT = lambda n: ("MCNewton", "N = %d" % n, "Prefix AffineAtOnce Stays", True)
ROLES = lambda d: ("MCRoles", "P = 2 MaxD = %d" % d, "Reads Unambiguous Earlier", True)

# property -> (quick, added in thorough)
MODELS = {
    "C01": ([blocked(10)], [blocked(40)]),
    "C02": ([ROLES(2)], [ROLES(6)]),
    "C03": ([blocked(10)], [blocked(40)]),
    "C04": ([ROLES(2)], [ROLES(6)]),
    "C05": ([blocked(10)], [blocked(40)]),
    "C06": ([forms(2, 3, 2, F, F), forms(3, 2, 1, F, F)], [forms(3, 3, 2, F, F), forms(2, 3, 3, F, F), forms(2, 4, 2, F, F)]),
    "C07": ([forms(3, 2, 1, T, F, '{"df2","tdf2","tdf1"}')],
            [forms(2, 2, 2, T, F, '{"df2","tdf2","tdf1"}'), forms(3, 1, 2, T, F, '{"df2","tdf2","tdf1"}'), forms(2, 3, 2, T, F, '{"df2","tdf2"}')]),
    "C08": ([forms(2, 3, 1, T, F, '{"fir"}'), forms(3, 2, 1, F, T, '{"fir"}')], [forms(3, 2, 1, T, T, '{"fir"}'), forms(3, 3, 1, T, F, '{"fir"}')]),
    "C09": ([stream(3, 2, 1, 2, 2), stream(2, 3, 1, 3, 3), stream(2, 2, 3, 2, 2)], [stream(2, 4, 2, 4, 5), stream(3, 2, 3, 3, 3), stream(3, 3, 1, 2, 4)]),
    "C10": ([blocked(12)], [blocked(60)]),
    "C11": ([adjoint(3, 1, 2, T, F), adjoint(3, 1, 2, F, T)],
            [adjoint(3, 1, 2, T, T), adjoint(2, 2, 2, F, F), adjoint(2, 2, 2, T, F), adjoint(3, 1, 3, F, T), adjoint(3, 1, 3, T, F)]),
    "C12": ([adjoint(3, 1, 2, T, F), adjoint(3, 1, 2, F, T)], [adjoint(2, 2, 2, F, F), adjoint(3, 1, 2, T, T), adjoint(3, 2, 1, F, F)]),
    "C13": ([ROLES(2)], [ROLES(6)]),
    "C14": ([conc("{1,2}", 3, "own", True), conc("{1,2}", 2, "static", False), conc("{1}", 2, "cached", False)],
            [conc("{1,2,3}", 4, "own", True), conc("{1,2}", 6, "own", True)]),
    "C16": ([ROLES(2)], [ROLES(6)]),
    "C17": ([steady(3, 2, 1), steady(2, 2, 2)], [steady(2, 3, 2), steady(3, 2, 2), steady(2, 2, 3)]),
    "C18": ([steady(3, 2, 1)], [steady(3, 2, 2), steady(2, 3, 2)]),
    "C19": ([DIAG(2)], [DIAG(3)]),
    "C20": ([spline(3, F, "{0,1}"), spline(3, T, "{0,1}")], [spline(5, F, "{0,1,5}"), spline(4, T, "{0,1,5}"), spline(3, F, "0..12"), spline(3, T, "0..12")]),
    "C21": ([blocked(10), steady(3, 2, 1)], [blocked(40), steady(3, 2, 2), steady(2, 4, 2)]),
    "C22": ([NEWT(2)], [NEWT(3)]),
    "C23": ([PFE(3, 3, 1, 1, 0, F), PFE(3, 4, 2, 1, 0, T), PFE(5, 3, 3, 0, 0, F)],
            [PFE(5, 4, 2, 1, 0, F), PFE(5, 4, 2, 1, 0, T), PFE(5, 3, 1, 1, 1, F), PFE(5, 3, 1, 1, 1, T), PFE(7, 2, 2, 2, 0, T)]),
}


def one(i, m, work, workers, mem, timeout):
    mod, consts, invs, good = m
    name = mod + "(" + consts.replace(" = ", "=") + ")"
    w = os.path.join(work, "mc%d" % i)
    try:
        rc, out, st, di, secs = core.run_tlc(mod, "SPECIFICATION Spec\nCONSTANTS %s\nINVARIANTS %s\n" % (consts, invs), w,
                                             workers=workers, mem=mem, timeout=timeout)
    except subprocess.TimeoutExpired:
        return dict(model=name, states=0, distinct=0, result="ok", log="", note="stopped after %d s, no violation reported" % timeout)
    if good:
        r = "ok" if "No error has been found" in out and di > 0 else "failed"
    else:                     # a wrong design: it has to be found out
        r = "ok" if re.search(r"Invariant \w+ is violated", out) else "not refuted"
    return dict(model=name + ("" if good else " (wrong on purpose: refuted)"), states=st, distinct=di, result=r, log=out[-2500:], note="%.0f s" % secs)


class Job(threading.Thread):
    def __init__(self, ms, work, workers, mem, timeout):
        super().__init__(daemon=True)
        self.ms, self.a, self.res = ms, (work, workers, mem, timeout), []

    def run(self):
        for i, m in enumerate(self.ms):
            try:
                self.res.append(one(i, m, *self.a))
            except Exception as e:       # noqa: an unusable model is reported, not hidden
                self.res.append(dict(model=m[0], states=0, distinct=0, result="error: %r" % e, log=""))


def start(pid, tier, work):
    q, th = MODELS.get(pid, ([], []))
    ms = q if tier == "quick" else q + th
    if not ms:
        return []
    j = Job(ms, work, 1 if tier == "quick" else 3, 1500 if tier == "quick" else 3000, 400 if tier == "quick" else 3600)
    j.start()
    return [j]


def finish(js):
    out = []
    for j in js:
        j.join()
        out += j.res
    return out
