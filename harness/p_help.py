"""C17 (initial conditions), C18 (filtfilt), C20 (spline), C21 (matrix and polynomial helpers), C22 (Newton solver)."""
import numpy as np
from core import raised, tt
import inst as I
import noext


def rows(v, lead, k):
    """values by row: leading axes broadcast and flattened"""
    v = np.asarray(v)
    t = v.shape[v.ndim - k:]
    return np.broadcast_to(v, tuple(lead) + t).reshape((int(np.prod(lead, dtype=int)),) + t)


def lead_of(*parts):
    return np.broadcast_shapes(*[np.shape(v)[:np.ndim(v) - k] for v, k in parts])


def hcase(rec, op, cx, args, opt, lead):
    """args: name -> (values, number of trailing axes)"""
    n = int(np.prod(lead, dtype=int))
    return dict(op=op, ring="C" if cx else "R", B=n, opt=opt,
                arg={k: {"s": list(np.shape(v)), "v": rec.enc(rows(v, lead, d), cx)} for k, (v, d) in args.items()})


def hview(rec, cx, lead, fn, enc, scale=1, tol=1 / 16, dtype=None):
    """enc: observed array (leading axes flattened to rows) -> array with the steps in front of the rows"""
    n = int(np.prod(lead, dtype=int))
    try:
        r = fn()
        z = None
        if isinstance(r, tuple): r, z = r

        def arr(t, s):
            a = t.detach().resolve_conj().resolve_neg()
            return a.cpu().numpy().reshape((n,) + tuple(t.shape[len(lead):])) * s
        ob = {"ys": list(r.shape)}
        ob["y"] = enc(rec.c.obs(arr(r, scale), cx, tol=tol)).tolist()
        if z is not None:
            ob["zs"] = list(z.shape)
            ob["z"] = rec.c.obs(arr(z, 1), cx, tol=tol).tolist()
        if dtype is not None and r.dtype != dtype: ob["clause"] = "dtype"
        return ob
    except Exception as e:
        return {"err": raised(e)}


def steps(a):
    """(rows, steps, ...) -> (steps, rows, ...)"""
    return np.swapaxes(a, 0, 1)


def single(a):
    return a[None]


def lead_shape(rng, *more):
    return I.pick(rng, (), (), (1,), (2,), (3,), (2, 2), (4,), (2, 1, 3), *more)


def drop(rng, lead):
    """a shape that broadcasts to lead"""
    k = rng.random()
    if k < .4: return lead
    if k < .6: return ()
    out = [1 if rng.random() < .4 else n for n in lead]
    return tuple(out[int(rng.integers(0, len(out) + 1)):]) if k < .85 else tuple(out)


def laid(rng, v, cx):
    from p_views import layout
    return layout(rng, v, cx)[1] if rng.random() < .4 else v


# ---------------------------------------------------------------- C17
def dens(rng, lead, L, N, cx):
    """denominators with a(1) != 0 in every row"""
    n = int(np.prod(lead, dtype=int))
    out = np.stack([I.lti_den(rng, L, N, cx, no_dc=True)[0] for _ in range(max(n, 1))])
    return out.reshape(tuple(lead) + (L,))


def orders(rng):
    La = I.pick(rng, 0, 1, 1, 2, 2, 3, 3, 4, 5, 7)
    Lb = I.pick(rng, La + 1, La + 1, La, La + 2, La + 3, 1, 2, int(rng.integers(1, La + 5)))
    Lb = max(1, Lb)
    if La == 0 and Lb == 1: Lb = 2
    return La, Lb


def job_C17(rec, rng, i, tier):
    from philtorch import lti
    cx = bool(rng.random() < .4)
    La, Lb = orders(rng)
    lead = lead_shape(rng)
    la, lb = (lead, drop(rng, lead)) if rng.random() < .5 else (drop(rng, lead), lead)
    views = []
    if i % 2 == 0:
        form = ["tdf2", "df2"][(i // 2) % 2]
        if La == 0 and form == "df2" and Lb < 2: Lb = 2
        a = dens(rng, la, La, 6, cx)
        rb = 4 if rng.random() < .7 else 2 ** 27
        b = I.vals(rng, lb + (Lb,), rb, cx)
        nob = form == "df2" and La > 0 and rng.random() < .4
        if form == "df2": lead = la
        if form == "df2" and not nob: b = np.broadcast_to(b, np.broadcast_shapes(la, lb) + (Lb,)) if np.broadcast_shapes(la, lb) == la else I.vals(rng, la + (Lb,), rb, cx)
        if nob: b = np.zeros(Lb, dtype=b.dtype); b = b[:1] + 1
        lead = np.broadcast_shapes(la, np.shape(b)[:-1])
        s = rows(1 + a.sum(-1), lead, 0)[:, None]
        opt = {"form": form}
        if nob: opt["nob"] = True

        def call(dt=None):
            A, Bt = laid(rng, tt(a, dt, cx), cx), laid(rng, tt(b, dt, cx), cx)
            if form == "tdf2":
                return lti.lfilter_zi(A, Bt) if rng.random() < .5 else lti.lfilter_zi(A, Bt, transpose=True)
            return lti.lfilter_zi(A, transpose=False) if nob else lti.lfilter_zi(A, Bt, False)
        for n in range(3):
            views.append(("lfilter_zi %d" % n, hview(rec, cx, lead, call, single, scale=s, tol=1 / 64)))
        rec.add(hcase(rec, "steady", cx, dict(a=(a, 1), b=(b, 1)), opt, lead), views, dict(fam="lfilter_zi " + form, a=a.shape, b=b.shape, complex=cx))
    else:
        a = dens(rng, la, La, 6, cx)
        b = I.vals(rng, lb + (Lb,), 9, cx)
        rx = 99 if rng.random() < .5 else 2 ** 27
        y = I.vals(rng, drop(rng, lead) + (La,), rx, cx)
        x = I.vals(rng, drop(rng, lead) + (Lb - 1,), rx, cx) if rng.random() < .75 else None
        args = dict(a=(a, 1), b=(b, 1), y=(y, 1))
        if x is not None: args["x"] = (x, 1)
        lead = lead_of(*args.values())
        go = I.ints(rng, lead + (max(La, Lb - 1) + 2,), 5, cx)
        args["go"] = (go, 1)

        def call():
            T = {k: laid(rng, tt(v[0], cx=cx), cx) for k, v in args.items()}
            r = lti.lfiltic(T["b"], T["a"], T["y"], T["x"]) if x is not None else lti.lfiltic(T["b"], T["a"], T["y"])
            return r.broadcast_to(lead + r.shape[-1:])
        for n in range(3):
            views.append(("lfiltic %d" % n, hview(rec, cx, lead, call, single)))
        rec.add(hcase(rec, "continue", cx, args, {}, lead), views,
                dict(fam="lfiltic", complex=cx, shapes={k: list(np.shape(v[0])) for k, v in args.items()}))


# ---------------------------------------------------------------- C18
def job_C18(rec, rng, i, tier):
    from philtorch import lti
    cx = bool(rng.random() < .25)
    form = ["tdf2", "df2", "tdf2", "df2", "df1", "tdf1"][i % 6]
    for _ in range(200):
        La, Lb = orders(rng)
        nt = max(La + 1, Lb)
        mode = I.pick(rng, "replicate", "replicate", "reflect", "constant", "none", "circular")
        padlen = I.pick(rng, -1, -1, 0, 1, 2, 3, 5, 8)
        edge = 0 if mode == "none" else 3 * nt if padlen < 0 else padlen
        n = edge + int(rng.integers(1, 9))
        if cx and mode == "circular": continue
        rank = I.pick(rng, "1", "2", "2", "b", "a", "ab")
        B = 1 if rank == "1" else I.pick(rng, 1, 2, 3)
        L = n + 2 * edge
        ca = [I.lti_den(rng, La, 2 * L, cx, budget=2.0 ** 10, no_dc=True) for _ in range(B if "a" in rank else 1)]
        g = max(c[1] for c in ca)
        a = np.stack([c[0] for c in ca])
        b = I.ints(rng, (B if "b" in rank else 1, Lb), 3, cx)
        s = np.abs(1 + a.sum(-1))
        room = 2.0 ** 38 / (g * g * L * L * 9 * Lb ** 2 * 30 * s.max() ** 2)
        if room > 1: break
    else:
        return
    rx = 2 ** 25 if room > 2.0 ** 18 else 5
    if "a" not in rank: a = a[0]
    if "b" not in rank: b = b[0]
    x = I.vals(rng, (n,) if rank == "1" else (B, n), rx, cx)
    lead = () if rank == "1" else (B,)
    sc = rows(1 + a.sum(-1), lead, 0)[:, None] ** 2
    info = dict(fam="filtfilt " + form, form=form, mode=mode, padlen=padlen, n=n, B=B, a=a.shape, b=b.shape, complex=cx)
    args = dict(a=(a, 1), b=(b, 1), x=(x, 1))
    views = []
    for u in [None] + [int(v) for v in rng.choice([1, 2, 3, 4, 5, 7, 11], 2, replace=False)]:
        def call():
            T = {k: laid(rng, tt(v[0], cx=cx), cx) for k, v in args.items()}
            kw = {}
            if u: kw["unroll_factor"] = u
            if mode != "replicate" or rng.random() < .5: kw["padmode"] = None if mode == "none" else mode
            if padlen >= 0: kw["padlen"] = padlen
            if form != "tdf2" or rng.random() < .5: kw["form"] = form
            return lti.filtfilt(T["b"], T["a"], T["x"], **kw)
        views.append(("unroll %s" % u, hview(rec, cx, lead, call, steps, scale=sc)))
    rec.add(hcase(rec, "filtfilt", cx, args, dict(form=form, mode=mode, padlen=padlen, n=n), lead), views, info)


# ---------------------------------------------------------------- C20
def spline_inst(seed):
    rng = np.random.default_rng(seed)
    B = I.pick(rng, 1, 1, 2, 3, 5)
    L = I.pick(rng, 24, 25, 27, 31, 32, 40, 57)
    m = I.pick(rng, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, int(rng.integers(17, 64)), 49)
    if m > 16: L = 24 + int(rng.integers(0, 4))
    scipy = bool(rng.integers(0, 2))
    c = I.vals(rng, (B, L), 30)
    e = np.concatenate([c[:, :1], c, c[:, -1:]], 1) if scipy else np.concatenate([c[:, 1:2], c, c[:, -2:-1]], 1)
    x = e[:, :-2] + 4 * e[:, 1:-1] + e[:, 2:]
    return B, L, m, scipy, c, x


def spline_views(rec, seed, ext):
    from philtorch import lti
    from philtorch.lti.interp import cubic_spline
    rng = np.random.default_rng([seed, 2])
    B, L, m, scipy, c, x = spline_inst(seed)
    out = []
    for par in (True, False):
        for u in ([None] if ext else [None, 1, 2, int(rng.integers(3, L + 3)), 2 * L]):
            def call():
                kw = {}
                if u: kw["unroll_factor"] = u
                if not par or rng.random() < .5: kw["parallel_form"] = par
                if scipy or rng.random() < .5: kw["scipy_padding"] = scipy
                return cubic_spline(laid(rng, tt(x), False), m, **kw)
            out.append(("parallel %s unroll %s" % (par, u), hview(rec, False, (B,), call, steps, scale=float(m) ** 3, tol=min(1 / 16, m ** 3 * (2e-11 + 400 * .268 ** (L - 1))))))
    return out


def noext_c20(rec, seed):
    return spline_views(rec, seed, False)


def job_C20(rec, rng, i, tier):
    seed = int(rng.integers(1 << 40))
    B, L, m, scipy, c, x = spline_inst(seed)
    views = spline_views(rec, seed, True)
    if i % 2: views += [("without the extension: " + l, v) for l, v in noext.call("c20", rec.c.P, dict(seed=seed))]
    rec.add(hcase(rec, "spline", False, dict(c=(c, 1), x=(x, 1)), dict(m=m, scipy=scipy), (B,)), views,
            dict(fam="cubic_spline", B=B, L=L, m=m, scipy_padding=scipy))


# ---------------------------------------------------------------- C21
def stack_of(rng, lead, make):
    n = int(np.prod(lead, dtype=int))
    v = [make() for _ in range(max(n, 1))]
    return np.stack(v).reshape(tuple(lead) + v[0].shape)


def distinct(rng, M, cx, nonzero=False, r=3):
    pool = [complex(p, q) for p in range(-r, r + 1) for q in (range(-r, r + 1) if cx else (0,)) if not (nonzero and p == q == 0)]
    v = rng.permutation(np.array(pool))[:M]
    return v if cx else v.real.astype(np.int64)


def inv_int(A):
    return np.rint(np.linalg.inv(A).real) + 1j * np.rint(np.linalg.inv(A).imag)


def eig_system(rng, M, cx, pairs=False, free=False):
    """integer matrix with simple known eigenvalues; eigenvectors scaled to have first component one, unless free (then it may be
    anything; callers that look at the vectors ask for "real": real, nonzero except in real systems)"""
    while True:
        if not pairs:
            L = distinct(rng, M, cx).astype(complex)
            V = np.eye(M, dtype=complex)
            if not free: V[0] = 1
        else:                      # real matrix, conjugate pairs
            L, cols, k = [], [], 0
            base = np.eye(M, dtype=complex)
            V = np.zeros((M, M), dtype=complex)
            j = 0
            while j < M:
                if j + 1 < M and rng.random() < .7:
                    p, q = int(rng.integers(-2, 3)), int(rng.integers(1, 3))
                    L += [p + 1j * q, p - 1j * q]
                    e1, e2 = base[:, j].copy(), base[:, j + 1].copy()
                    e1[0] = 1; e2[0] = 0
                    V[:, j], V[:, j + 1] = e1 - 1j * e2, e1 + 1j * e2
                    if j == 0: V[:, 0], V[:, 1] = base[:, 0] - 1j * base[:, 1], base[:, 0] + 1j * base[:, 1]
                    j += 2
                else:
                    L.append(complex(int(rng.integers(-3, 4))))
                    e = base[:, j].copy(); e[0] = 1
                    V[:, j] = e
                    j += 1
            L = np.array(L)
        if len(set(L.tolist())) < M: continue
        for _ in range(int(rng.integers(0, 2 * M + 1))):
            p, q = rng.integers(0, M, 2)
            if p != q and (p > 0 or free): V[p] += (1 if rng.random() < .5 else -1) * V[q]
        W = np.linalg.inv(V)
        A = V @ np.diag(L) @ W
        Ai = np.rint(A.real) + 1j * np.rint(A.imag)
        if np.abs(A - Ai).max() > 1e-6 or np.abs(Ai).max() > 60: continue
        if np.abs(Ai @ V - V * L).max() > 1e-9: continue
        if free == "real" and (np.any(V[0].imag) or ((cx or pairs) and not np.all(V[0]))): continue
        return Ai, L, V


def job_C21(rec, rng, i, tier):
    import torch
    from philtorch import mat, poly
    from philtorch.lpv.utils import diag_shift
    cx = bool(rng.random() < .4)
    kind = ["companion", "vander", "powers", "cumdot", "eigvec", "polydiv", "shift"][i % 7]
    lead = lead_shape(rng)
    M = I.pick(rng, 1, 2, 2, 3, 3, 4, 5)
    views = []
    T = lambda v, dt=None: laid(rng, tt(v, dt, cx), cx)

    def add(op, args, opt, fn, enc, lead, n=2, info=None, **kw):
        for r in range(n): views.append(("%s %d" % (op, r), hview(rec, cx, lead, fn, enc, **kw)))
        rec.add(hcase(rec, op, cx, args, opt, lead), views, dict(fam=op, complex=cx, opt={k: v for k, v in opt.items() if k != "norm2"},
                                                                  shapes={k: list(np.shape(v[0])) for k, v in args.items()}, **(info or {})))
    if kind == "companion":
        a = I.vals(rng, lead + (M,), I.pick(rng, 99, 2 ** 40), cx)
        add("companion", dict(a=(a, 1)), {}, lambda: mat.companion(T(a)), steps, lead)
    elif kind == "vander":
        p = stack_of(rng, lead, lambda: distinct(rng, min(M, 4), cx, r=4))
        add("vander", dict(p=(p, 1)), {}, lambda: mat.vandermonde(T(p)), steps, lead)
    elif kind == "powers":
        n = I.pick(rng, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 18, 25, 27, 30, -1, -2, -3, -4, -6, -9, -12, int(rng.integers(1, 65)))
        M = min(M, 3) if abs(n) > 12 else M
        with I.budget(2.0 ** 40, 2.0 ** 30):
            if n >= 0:
                A = stack_of(rng, lead, lambda: I.lti_matrix(rng, M, n + 1, cx)[0])
                inv = None
            else:
                def make():
                    while True:
                        U = I.unimodular(rng, M, cx)
                        if abs(np.linalg.det(U)) > .5: return U if cx else np.rint(U.real).astype(np.int64)
                A = stack_of(rng, lead, make)
                inv = inv_int(A) if cx else inv_int(A).real
        args = dict(A=(A, 2))
        if inv is not None: args["inv"] = (inv, 2)
        add("powers", args, dict(n=n), lambda: mat.matrix_power_accumulate(T(A), n), steps, lead)
    elif kind == "cumdot":
        n = I.pick(rng, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 18, 20, 24, 25, 27, 30, 36, 48, 49, int(rng.integers(1, 65)))
        A = stack_of(rng, lead, lambda: I.lpv_matrices(rng, n, M, cx)[0])
        add("cumdot", dict(A=(A, 3)), {}, lambda: mat.matrices_cumdot(T(A)), steps, lead)
    elif kind == "eigvec":
        pairs = bool(rng.random() < .4)
        n = int(np.prod(lead, dtype=int))
        free = rng.random() < .5 and "real"
        ss = [eig_system(rng, min(M, 4), cx and not pairs, pairs, free) for _ in range(max(1, n))]
        A = np.stack([s[0] for s in ss]).reshape(lead + ss[0][0].shape)
        L = np.stack([s[1] for s in ss]).reshape(lead + ss[0][1].shape)
        V = np.stack([s[2] for s in ss])
        n2 = np.rint((np.abs(V) ** 2).sum(1)).astype(int)
        realA = not np.any(A.imag) and (pairs or not cx)
        isreal = realA and not np.any(L.imag)
        cx = True if not isreal else False
        At = A if not realA else A.real
        Lt = L if not isreal else L.real

        def call():
            ta = tt(At, torch.float64 if realA else torch.complex128)
            tl = tt(Lt, torch.float64 if isreal else torch.complex128)
            return mat.find_eigenvectors(laid(rng, ta, not realA), laid(rng, tl, not isreal))
        if cx:
            A, L = A.astype(complex), L.astype(complex)
        else:
            A, L = A.real, L.real
        add("eigvec", dict(A=(A, 2), L=(L, 1)), dict(norm2=n2.tolist()), call, lambda a: np.moveaxis(a, 2, 0), lead,
            info=dict(real_matrix=bool(realA)), scale=np.sqrt(n2)[:, None, :])
    elif kind == "polydiv":
        m, n = int(rng.integers(0, 8)), int(rng.integers(0, 6))
        lu, lv = (lead, drop(rng, lead)) if rng.random() < .5 else (drop(rng, lead), lead)
        mixed = cx and rng.random() < .3
        v = I.ints(rng, lv + (n + 1,), 2, cx and not (mixed and rng.random() < .5))
        v[..., 0] = np.where(v[..., 0] == 0, 1, v[..., 0]) if rng.random() < .5 else 1
        u = I.vals(rng, lu + (m + 1,), I.pick(rng, 9, 9, 2 ** 25), cx if not mixed else True)
        ld = np.broadcast_shapes(lu, lv)
        k = max(0, m - n + 1)
        # so that every quotient coefficient is an integer
        f = v[..., :1] ** k
        if lv != () and not np.all(f == 1):
            u = (np.broadcast_to(u, ld + (m + 1,)) * np.broadcast_to(f, ld + (1,)))
        else: u = u * f
        P = rec.c.P

        def inverse(w):
            re, im = int(np.real(w)) % P, int(np.imag(w)) % P
            d = pow((re * re + im * im) % P, -1, P)
            return complex(re * d % P, -im * d % P) if cx else re * d % P
        inv = np.array([inverse(w) for w in v[..., 0].reshape(-1)]).reshape(v.shape[:-1])
        tu = lambda: laid(rng, tt(u, cx=np.iscomplexobj(u)), np.iscomplexobj(u))
        tv = lambda: laid(rng, tt(v, cx=np.iscomplexobj(v)), np.iscomplexobj(v))
        cx = bool(np.iscomplexobj(u) or np.iscomplexobj(v))
        if not cx: inv = np.real(inv)
        add("polydiv", dict(u=(u, 1), v=(v, 1), inv=(inv, 0)), {}, lambda: poly.polydiv(tu(), tv()), steps, ld)
    else:
        t = I.pick(rng, 1, 2, 3, 4, 5, 6, 9)
        off = I.pick(rng, 0, 0, 1, 1, 2, 3)
        d = bool(rng.integers(0, 2))
        c = I.vals(rng, lead + (t, M), I.pick(rng, 99, 2 ** 40), cx)
        add("shift", dict(coef=(c, 2)), dict(offset=off, discard=d), lambda: diag_shift(T(c), off, discard_end=d) if off or rng.random() < .5 else
            diag_shift(T(c), discard_end=d), steps, lead)


# ---------------------------------------------------------------- C22
def poly_fn(f, D):
    import torch

    def call(y, x):
        z = torch.cat([y, x.expand(y.shape[:-1] + x.shape[-1:])], -1)
        comps = []
        for ms in f:
            acc = torch.zeros_like(y[..., 0])
            for c, e in ms:
                t = torch.full_like(y[..., 0], float(c)) if not y.is_complex() else torch.full_like(y[..., 0], c)
                for i, k in enumerate(e):
                    for _ in range(k): t = t * z[..., i]
                acc = acc + t
            comps.append(acc)
        return torch.stack(comps, -1)

    def jac(y, x):
        z = torch.cat([y, x.expand(y.shape[:-1] + x.shape[-1:])], -1)
        J = []
        for ms in f:
            row = []
            for j in range(D):
                acc = torch.zeros_like(y[..., 0])
                for c, e in ms:
                    if e[j] == 0: continue
                    t = torch.full_like(y[..., 0], c * e[j])
                    for i, k in enumerate(e):
                        for _ in range(k - (1 if i == j else 0)): t = t * z[..., i]
                    acc = acc + t
                row.append(acc)
            J.append(torch.stack(row, -1))
        return torch.stack(J, -2)
    return call, jac


def newton_inst(rng):
    """state j is driven by products of earlier states, by +-itself and by the input"""
    D = I.pick(rng, 1, 1, 2, 2, 3, 4)
    X = I.pick(rng, 1, 2, 3)
    affine = rng.random() < .35
    f = []
    for j in range(D):
        ms = []
        e = lambda **kw: [0] * (D + X)
        for _ in range(int(rng.integers(0, 3))):           # inputs
            q = [0] * (D + X); q[D + int(rng.integers(0, X))] = int(rng.integers(1, 3)); ms.append((int(rng.integers(-2, 3)), q))
        if rng.random() < .8:                              # itself
            q = [0] * (D + X); q[j] = 1; ms.append((int(rng.choice([-1, 1])), q))
        for _ in range(int(rng.integers(0, 3))):           # earlier states
            if j == 0: break
            q = [0] * (D + X)
            q[int(rng.integers(0, j))] += 1
            if not affine and rng.random() < .7: q[int(rng.integers(0, j))] += 1
            if rng.random() < .3: q[D + int(rng.integers(0, X))] += 1
            ms.append((int(rng.choice([-1, 1, 2])), q))
        if j == 0 and not affine and rng.random() < .7:    # nonlinear in the first state through the input only
            q = [0] * (D + X); q[D + int(rng.integers(0, X))] = 1; ms.append((1, q))
        f.append(ms or [(1, [0] * D + [1] + [0] * (X - 1))])
    if affine and D >= 2 and rng.random() < .5:            # full linear part: a signed permutation
        p = rng.permutation(D)
        for j in range(D):
            q = [0] * (D + X); q[int(p[j])] = 1
            f[j] = [(int(rng.choice([-1, 1])), q)] + [m for m in f[j] if not any(m[1][:D])]
    return D, X, f


def job_C22(rec, rng, i, tier):
    from philtorch.prototype.nl import newton_solve
    for _ in range(100):
        D, X, f = newton_inst(rng)
        B = I.pick(rng, 1, 2, 3)
        L = I.pick(rng, 3, 4, 5, 6, 8, 9, 12)
        x = I.ints(rng, (B, L, X), 3)
        y0 = I.ints(rng, (B, L, D), 3) if rng.random() < .8 else np.zeros((B, L, D), dtype=int)
        z = I.ints(rng, (B, D), 3)
        # magnitudes of anything that can occur
        h = np.abs(z).max() + 3.0
        hs = np.full(D, h)
        for t in range(L):
            v = np.concatenate([hs, np.full(X, 3.0)])
            hs = np.array([sum(abs(c) * (sum(e) + 1) * np.prod(v ** np.array(e)) for c, e in ms) for ms in f]) + hs
        if hs.max() < 2.0 ** 42: break
    else:
        return
    big = hs.max() > 1e5
    fn, jac = poly_fn(f, D)
    args = dict(x=(x, 2), init=(z, 1))
    for mi in sorted({1, 2, L - 1, int(rng.integers(1, L))}):
        if mi >= L: continue
        views = []
        for u in {1, 2, int(rng.integers(1, L + 2))}:
            for auto in (True, False):
                tol = dict(atol=1e-9, rtol=1e-13) if big or rng.random() < .5 else {}

                def call():
                    return newton_solve(fn, tt(x), tt(y0), tt(z), max_iter=mi, fprime=None if auto else jac, unroll_factor=u,
                                        return_intermediate=bool(rng.random() < .3), **tol)
                try:
                    r = call()
                    ob = hview(rec, False, (B,), lambda: r[0], steps)
                    ob["iters"] = int(r[1])
                except Exception as e:
                    ob = {"err": raised(e), "iters": 0}
                views.append(("unroll %d, %s" % (u, "autograd" if auto else "given Jacobian"), ob))
        case = hcase(rec, "newton", False, args, dict(L=L, max_iter=mi, f=[[dict(c=int(c) % rec.c.P, e=e) for c, e in ms] for ms in f]), (B,))
        case["nocontrol"] = True
        rec.add(case, views, dict(fam="newton_solve", D=D, X=X, B=B, L=L, max_iter=mi, f=f))
