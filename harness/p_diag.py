"""C19: the diagonalised state space and the lfilter backend built on it are the plain machines."""
import numpy as np
from core import view_of, tt
import inst as I
import p_help as H


def modal_growth(V, L, W, N):
    g = 1.0
    for t in range(N + 1):
        g = max(g, (I.l1(V) @ np.diag(I.l1(L) ** t) @ I.l1(W)).sum(-1).max() if len(L) else 1.0)
    return g * 4


def recognisable(rng, M, cx, pairs):
    """an integer matrix with a structure an implementation may make use of, and its decomposition (in floating point); None: not found"""
    for _ in range(60):
        A = I.structured(rng, M, cx) * (1 if rng.random() < .7 else 2) + (np.diag(I.ints(rng, M, 2)) if rng.random() < .5 else 0)
        if not cx and np.any(A.imag): continue
        L, V = np.linalg.eig(np.asarray(A, dtype=complex))
        if not cx:
            L, V = np.linalg.eig(A.real)
            if np.iscomplexobj(L) != pairs: continue
        L, V = L.astype(complex), V.astype(complex)
        gap = min([abs(p - q) for n, p in enumerate(L) for q in L[:n]] or [9])
        if gap < .3 or np.linalg.cond(V) > 30: continue
        return A, L, V, np.linalg.inv(V)
    return None


def systems(rng, n, M, N, cx, pairs, diagonal):
    """n integer matrices A = V diag(L) W, W = V^-1 integer (or anything, for a matrix with structure)"""
    out, g = [], 1.0
    some = not diagonal and rng.random() < .3
    for _ in range(n):
        r = recognisable(rng, M, cx, pairs) if some else None
        if r is not None:
            h = modal_growth(r[2], r[1], r[3], N)
            if h < 2.0 ** 16:
                out.append(r)
                g = max(g, h)
                continue
        for att in range(60):
            if diagonal or (not pairs and rng.random() < .05):
                L = H.distinct(rng, M, cx, r=3).astype(complex) if not diagonal or rng.random() < .8 else I.ints(rng, (M,), 2, cx).astype(complex)
                V = np.eye(M, dtype=complex)
                A = np.diag(L)
            else:
                A, L, V = H.eig_system(rng, M, cx, pairs, bool(rng.random() < .4))
                V = V * I.UNITS[rng.integers(0, 4 if (cx or pairs) else 2, M)] if not pairs else V
            W = np.linalg.inv(V)
            h = modal_growth(V, L, W, N)
            if h < 2.0 ** 16 * (1 if att < 40 else 2 ** 10): break
        if not pairs: W = np.rint(W.real) + 1j * np.rint(W.imag)
        out.append((A, L, V, W))
        g = max(g, h)
    return [np.stack([o[j] for o in out]) for j in range(4)], g


def to_precision(v, like):
    """in the precision of the arguments of the call (one given precision for double)"""
    import torch
    if like in (torch.float32, torch.complex64): return v.to(torch.complex64 if v.is_complex() else torch.float32)
    return v


def diag_inst(rng, scale="any", grad=False):
    import torch
    from philtorch import lti
    cx = bool(rng.random() < .35)
    pairs = bool(not cx and rng.random() < .5)
    mode = I.pick(rng, "L", "LV", "LW", "LVW", "LA", "A", "A", "LVA", "LVWA")
    if mode == "L": pairs = False
    batched = bool(mode not in ("L", "LA") and rng.random() < .45)      # (a batch of L needs V or its inverse)
    for _ in range(400):
        B, N, M = I.pick(rng, 1, 2, 2, 3, 4, 5), I.pick(rng, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12), I.pick(rng, 1, 2, 2, 3, 3, 4)
        if scale == "grad": B, N, M = min(B, 3), min(N, 5), min(M, 3)
        if pairs and M < 2: continue
        (A, L, V, W), g = systems(rng, B if batched else 1, M, N, cx, pairs, mode == "L")
        if not pairs and not cx: assert not np.any(A.imag)
        ar = "BMM" if batched else "MM"
        if not batched: A, L, V, W = A[0], L[0], V[0], W[0]
        A = A if cx else np.rint(A.real).astype(np.int64)
        with I.budget(2.0 ** (40 if mode in ("L", "LVW") and not pairs else 31)):
            try:
                inst = I.ss_inst(rng, False, cx, scale=scale, B=B, N=N, M=M, coincide=bool(rng.random() < .3),
                                 system=(A, g))
            except I.TooBig:
                continue
        # the roles of A are drawn inside: take the ones that fit
        if inst is None or inst.axes["A"] != ar:
            if inst is None: continue
            inst.axes["A"] = ar
        break
    dcx = cx or pairs                       # dtype of the decomposition
    given = dict(L=L, V=V, Vinv=W)
    # the decomposition in a layout of its own, the same in every call; in the precision of the call
    held = {k: H.laid(rng, tt(v if dcx else np.real(v), cx=dcx), dcx) for k, v in given.items()}
    T0 = lambda k, T: to_precision(held[k], T["x"].dtype)
    real_clause = not cx and ("C" in inst.args or "A" in mode)
    same = pairs and not real_clause        # complex result holding real values
    idx = inst.opt.get("idx")

    def call(T, u, aspair=None):
        kw = {}
        if "L" in mode: kw["L"] = T["A"].diagonal() if mode == "L" else T0("L", T)
        if "V" in mode: kw["V"] = T0("V", T)
        if "W" in mode: kw["Vinv"] = T0("Vinv", T)
        if "A" in mode: kw["A"] = T["A"]
        if u is not None: kw["unroll_factor"] = u
        return lti.diag_state_space(T["x"], B=T.get("Bm"), C=T.get("C"), D=T.get("D"), zi=T.get("zi"), out_idx=idx, **kw)
    inst.cfgs = [("unroll %d" % u, lambda T, u=u: call(T, u), None) for u in I.factors(rng, inst.N, False)] + [("default", lambda T: call(T, None), None)]
    inst.fam = "lti.diag_state_space"
    inst.mode = mode
    inst.real = real_clause
    # where a derivative with respect to A is that of the function of A
    inst.wrt = sorted(k for k in inst.args if k != "A" or mode in ("A",)) if mode != "L" else sorted(k for k in inst.args if k != "A")
    inst.note = dict(given=mode, pairs=pairs, batched=batched)
    return inst


def roots_den(rng, La, N, cx, pairs, nonzero=True):
    """denominator with distinct roots; (a, roots, growth)"""
    for att in range(400):
        if pairs:
            r = []
            while len(r) < La:
                if len(r) + 2 <= La and rng.random() < .8:
                    z = int(rng.integers(-2, 3)) + 1j * int(rng.integers(1, 3))
                    r += [z, z.conjugate()]
                else:
                    r.append(complex(int(rng.choice([-3, -2, -1, 1, 2, 3] if nonzero else [-2, -1, 0, 1, 2]))))
            r = np.array(r)
        else:
            r = H.distinct(rng, La, cx, nonzero=nonzero, r=2 if att < 200 else 1 if cx else 3)
        if len(set(r.tolist())) < La or len(r) < La: continue
        a = np.poly(r)[1:] if La else np.zeros(0)
        a = np.rint(np.real(a)) + 1j * np.rint(np.imag(a))
        g = I.pow_growth(I.comp(a), N + La)
        if g < 2.0 ** 18 or att > 300: return (a if cx else np.real(a).astype(np.int64)), r.astype(complex), g
    raise RuntimeError("no denominator")


def lf_diag_inst(rng, scale="any"):
    from philtorch import lti, mat
    import torch
    cx = bool(rng.random() < .35)
    pairs = bool(not cx and rng.random() < .4)
    form = I.pick(rng, "df2", "tdf2")
    mode = I.pick(rng, "A", "A", "L", "LV", "LVW")
    oned = bool(rng.random() < .15)
    for _ in range(400):
        B, N = (1 if oned else I.pick(rng, 1, 2, 3, 4)), I.pick(rng, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11)
        La = I.pick(rng, 1, 2, 2, 3, 3, 4)
        if scale == "grad": B, N, La = min(B, 3), min(N, 6), min(La, 3)
        if pairs and La < 2: La = 2
        Lb = I.pick(rng, La + 1, La + 1, La, 1, 2, La + 2, La + 3, La + 4, int(rng.integers(1, La + 5)))
        Lb = max(1, Lb)
        ar = "" if oned else I.pick(rng, "", "B")
        br = "" if oned else I.pick(rng, "", "B")
        long = Lb > La + 1
        if mode == "L": ar = ""                        # likewise
        ps = [roots_den(rng, La, N, cx, pairs, nonzero=long) for _ in range(B if ar == "B" else 1)]
        a = np.stack([p[0] for p in ps]); L = np.stack([p[1] for p in ps])
        if ar == "": a, L = a[0], L[0]
        g = max(p[2] for p in ps)
        with I.budget(2.0 ** 29):
            try: ax = I.amp(rng, g * N * 60, scale == "grad")
            except I.TooBig: continue
        b = I.ints(rng, ((B,) if br else ()) + (Lb,), 3, cx)
        break
    x = I.ints(rng, (N,) if oned else (B, N), ax, cx)
    args, axes = dict(b=b, a=a, x=x), dict(b=br + "P", a=ar + "Q", x="N" if oned else "BN")
    zr = None if long else I.pick(rng, None, "O", "BO")
    if oned and zr == "BO": zr = "O"
    if zr: args["zi"], axes["zi"] = I.ints(rng, (B, La) if zr == "BO" else (La,), ax, cx), zr
    dcx = cx or pairs
    T0 = lambda T: to_precision(tt(L if dcx else np.real(L), cx=dcx), T["x"].dtype)

    def call(T, u, delayed):
        kw = {}
        if mode != "A": kw["L"] = T0(T)
        if "V" in mode:
            v = mat.vandermonde(T0(T))
            w = torch.linalg.inv(v)
            if form == "tdf2": v, w = w.mT, v.mT
            if mode == "LVW": kw["V"], kw["Vinv"] = v, w
            elif form == "tdf2": kw["Vinv"] = w
            else: kw["V"] = v
        if u is not None: kw["unroll_factor"] = u
        if delayed is not None: kw["delayed_form"] = delayed
        return lti.lfilter(T["b"], T["a"], T["x"], T.get("zi"), form=form, backend="diag_ssm", **kw)
    cfgs = []
    for d in (None, False, True):
        for u in [None] + I.factors(rng, N, False)[:2]:
            cfgs.append(("delayed_form %s unroll %s" % (d, u), lambda T, u=u, d=d: call(T, u, d), None))
    inst = I.Inst("lf", False, B, N, cx, args, {"form": form}, axes, cfgs, bool(zr), max(La, Lb - 1), squeeze=oned,
                  fam="lti.lfilter %s diag_ssm" % form)
    inst.real = True
    inst.wrt = sorted(k for k in args if k != "a" or mode == "A")
    inst.note = dict(given=mode, pairs=pairs, roots=[str(z) for z in np.ravel(L)])
    return inst


def any_inst(rng, ok=lambda inst: True, **kw):
    """either of the two; ok may ask for more"""
    while True:
        inst = diag_inst(rng, **kw) if rng.random() < .6 else lf_diag_inst(rng, **kw)
        if ok(inst): return inst


def job_C19(rec, rng, i, tier):
    import torch
    inst = lf_diag_inst(rng) if i % 5 >= 3 else diag_inst(rng)
    views = []
    if not inst.cx and rng.random() < .15:
        # a real system with some complex arguments: a call that returns at all is right
        import p_views
        some = [k for k in ("x", "zi", "Bm", "C", "D") if k in inst.args and rng.random() < .4] or ["zi" if "zi" in inst.args else "x"]
        p_views.complexify(rng, inst, some)
        inst.cx = True
        for lab, fn, idx in inst.cfgs:
            T = {k: tt(v, cx=np.iscomplexobj(v)) for k, v in inst.args.items()}
            v = view_of(rec, True, lambda: fn(T), times=inst.N, idx=idx)
            if "err" not in v: views.append((lab, v))
        if views: rec.add(inst.case(rec), views, dict(inst.describe(), complex_arguments=some, **inst.note))
        return
    for lab, fn, idx in inst.cfgs:
        T = inst.tensors()
        if rng.random() < .3: T = {k: H.laid(rng, v, inst.cx) for k, v in T.items()}
        views.append((lab, view_of(rec, inst.cx, lambda: fn(T), times=inst.N, idx=idx,
                                   dtype=(torch.complex128 if inst.cx else torch.float64) if inst.cx or inst.real else None)))
    rec.add(inst.case(rec), views, dict(inst.describe(), **inst.note))
