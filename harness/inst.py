"""Random instances of every operation: integer arguments with bounded growth, and the ways the code can be asked for it.

An instance knows its arguments (exact integer arrays), which axis of each is the batch and which is time, and `cfgs`: the
configurations (entry point, unroll factor, backend, out_idx) that must all realise the same machine.
"""
import numpy as np

import contextlib

BUDGET = 2.0 ** 40
CAP = None
DERIV = False       # the instance being drawn is for derivatives: no long numbers inside the system (they would be multiplied)


class TooBig(Exception):
    """the system drawn grows too much for the precision asked for"""


@contextlib.contextmanager
def budget(b, matrices=None):
    """bound on every value (and partial sum) that can occur"""
    global BUDGET, CAP
    old = BUDGET, CAP
    BUDGET, CAP = b, matrices
    try:
        yield
    finally:
        BUDGET, CAP = old


class Inst:
    def __init__(self, op, tv, B, N, cx, args, opt, axes, cfgs, zf, M, squeeze=False, fam=None):
        self.op, self.tv, self.B, self.N, self.cx = op, tv, B, N, cx
        self.args = args          # name -> integer array
        self.opt = opt
        self.axes = axes          # name -> string of axis letters, e.g. "BNMM"
        self.cfgs = cfgs          # list of (label, fn(tensors) -> y or (y, zf), idx or None)
        self.zf = zf              # hands out a final state
        self.M = M
        self.squeeze = squeeze
        self.fam = fam

    def tensors(self, dtype=None):
        from core import tt
        return {k: tt(v, dtype, self.cx) for k, v in self.args.items()}

    def case(self, rec, ring=None):
        c = dict(op=self.op, tv=self.tv, ring=ring or ("C" if self.cx else "R"), B=self.B, N=self.N, opt=dict(self.opt, k=0),
                 arg={k: {"s": list(np.shape(v)), "v": rec.enc(v, self.cx)} for k, v in self.args.items()})
        if self.squeeze:
            c["squeeze"] = True
        return c

    def describe(self):
        return dict(fam=self.fam, op=self.op, tv=self.tv, B=self.B, N=self.N, M=self.M, complex=self.cx, opt=self.opt,
                    shapes={k: list(np.shape(v)) for k, v in self.args.items()}, roles=self.axes)


def roomy():
    return not CAP and BUDGET > 2.0 ** 39 and not DERIV


# ------------------------------------------------------------------ values
def ints(rng, shape, r, cx=False):
    r = int(max(1, r))
    v = rng.integers(-r, r + 1, size=shape)
    return v + 1j * rng.integers(-r, r + 1, size=shape) if cx else v


PLAIN = .85        # how often values have no particular pattern


def vals(rng, shape, r, cx=False, lead=0):
    """values of a signal or coefficient, sometimes with a pattern an implementation may treat specially; nothing exceeds r"""
    v = ints(rng, shape, r, cx)
    if rng.random() < PLAIN or not v.size: return v
    k = rng.integers(0, 9)
    if k == 0: return v * 0
    if k == 1: return v * 0 + v.flat[0]                                   # all equal
    if k == 2 and v.ndim: return np.ascontiguousarray(np.broadcast_to(v[:1], v.shape))          # all rows equal
    if k == 3 and v.ndim: return np.ascontiguousarray(np.broadcast_to(v[..., :1], v.shape))     # constant along the last axis
    if k == 4 and v.ndim > 1: return np.ascontiguousarray(np.broadcast_to(v[:, :1], v.shape))   # ... the second
    if k == 5: return v * (rng.random(v.shape) < .25)                     # mostly zero
    if k == 6: return np.sign(v.real) + (1j * np.sign(v.imag) if cx and rng.random() < .5 else 0)        # units
    if k == 7 and cx: return v.real + 0j if rng.random() < .5 else 1j * v.imag                  # complex in name only
    if k == 8 and v.ndim:
        v = v.copy()
        v[..., int(rng.integers(0, v.shape[-1])):] = 0                    # ends in zeros
    return v


def wide(rng, room):
    """a factor that no short float can carry (0: no room for it); room: what every value may still grow by"""
    if BUDGET < 2.0 ** 39 or room < 2.0 ** 24 or rng.random() < .8: return 0
    return int(rng.integers(2 ** 23, int(min(room, 2.0 ** 27)))) | 1


def widen(rng, v, w, cx):
    """the same values with many more digits"""
    return v * w + ints(rng, np.shape(v), 3, cx)


UNITS = np.array([1, -1, 1j, -1j])


def l1(v):
    return np.abs(np.real(v)) + np.abs(np.imag(v))


def perm_like(rng, M, cx):
    """each row has at most one unit entry: powers never grow"""
    A = np.zeros((M, M), dtype=np.complex128)
    p = rng.permutation(M) if rng.random() < .6 else rng.integers(0, M, M)
    for i in range(M):
        if rng.random() < .88:
            A[i, p[i]] = UNITS[rng.integers(0, 4 if cx else 2)]
    return A


def dense(rng, M, cx, r):
    return ints(rng, (M, M), r, cx).astype(np.complex128)


def unimodular(rng, M, cx):
    """a dense matrix with bounded powers: signed permutation in another integer basis"""
    U = np.eye(M, dtype=np.complex128)
    Ui = np.eye(M, dtype=np.complex128)
    for _ in range(rng.integers(1, 2 + M)):
        i, j = rng.integers(0, M, 2)
        if i != j:
            s = UNITS[rng.integers(0, 2)]
            E = np.eye(M, dtype=np.complex128); E[i, j] = s
            Ei = np.eye(M, dtype=np.complex128); Ei[i, j] = -s
            U, Ui = U @ E, Ei @ Ui
    return U @ perm_like(rng, M, cx) @ Ui


def growth(As, N):
    """bound on every state reachable with unit inputs (and on partial products), absolute values throughout"""
    M = As[0].shape[-1]
    h = np.ones(M)
    m = 1.0
    for t in range(N):
        h = l1(As[t % len(As)]) @ h + 1
        m = max(m, h.max())
        if m > 1e30:
            return m
    return m


def pow_growth(A, N):
    """bound for a constant matrix, through its actual powers"""
    P = np.eye(A.shape[-1], dtype=np.complex128)
    g = 1.0
    for _ in range(N):
        P = P @ A
        g += l1(P).sum(-1).max()
        if g > 1e30:
            return g
    return g


def structured(rng, M, cx):
    """matrices an implementation may recognise"""
    k = rng.integers(0, 9)
    S = dense(rng, M, cx, 1)
    if k == 0: return np.diag(UNITS[rng.integers(0, 4 if cx else 2, M)])
    if k == 1: return np.eye(M) * UNITS[rng.integers(0, 4 if cx else 2)]
    if k == 2: return np.zeros((M, M), dtype=complex)
    if k == 3: return np.triu(S) + np.triu(S, 1).T                        # symmetric
    if k == 4: return np.triu(S, 1) + np.triu(S, 1).conj().T + np.diag(ints(rng, M, 1))        # hermitian
    if k == 5: return np.triu(S, 1) - np.triu(S, 1).T                     # skew
    if k == 6: return np.tril(S, -1)
    if k == 7: return np.stack([np.roll(S[0], j) for j in range(M)])      # circulant
    return np.ones((M, 1)) * S[:1]                                        # of rank one


def wide_nilpotent(rng, M, cx):
    """one long number in a matrix all of whose powers stay small"""
    A = np.triu(dense(rng, M, cx, 1), 1)
    if M > 1:
        i = int(rng.integers(0, M - 1)); j = int(rng.integers(i + 1, M))
        A[i + 1:, :] *= rng.random() < .5
        A[i, j] = (2 ** 24 + 2 * int(rng.integers(0, 2 ** 12)) + 1) * UNITS[rng.integers(0, 4 if cx else 2)]
    p = rng.permutation(M)
    return A[p][:, p]


def lti_matrix(rng, M, N, cx, budget=2.0 ** 18):
    budget = CAP or budget
    if roomy() and M > 1 and N * M <= 200 and rng.random() < .04:
        A = wide_nilpotent(rng, M, cx)
        g = pow_growth(A, N)
        if g < 2.0 ** 28: return (A if cx else np.rint(A.real).astype(np.int64)), g
    style = rng.integers(0, 7)
    for _ in range(12):
        if style == 6: A = structured(rng, M, cx)
        elif style == 0: A = perm_like(rng, M, cx)
        elif style == 1: A = unimodular(rng, M, cx)
        elif style == 2: A = np.triu(dense(rng, M, cx, 2), 1) + (0 if rng.random() < .5 else np.diag(UNITS[rng.integers(0, 4 if cx else 2, M)]))
        else: A = dense(rng, M, cx, [1, 2, 3, 1][style - 2])
        g = pow_growth(A, N)
        if g < budget and np.all(A == np.rint(A.real) + 1j * np.rint(A.imag)):
            break
        style = rng.integers(0, 7)
    else:
        A = perm_like(rng, M, cx)
        g = pow_growth(A, N)
    return (A if cx else np.rint(A.real).astype(np.int64)), g


def lpv_matrices(rng, N, M, cx, budget=2.0 ** 20):
    budget = CAP or budget
    out = []
    h = np.ones(M)
    dens = rng.random()
    rare = rng.random()
    if rare < .04:            # constant in time after all
        A, g = lti_matrix(rng, M, N, cx, budget)
        return np.ascontiguousarray(np.broadcast_to(A, (N, M, M))), g
    long_at = int(rng.integers(0, N)) if rare < .08 and roomy() and N * M <= 32 else -1
    for t in range(N):
        if t == long_at:
            A = dense(rng, M, cx, 1) * (2 ** 24 + 2 * int(rng.integers(0, 2 ** 12)) + 1) * (rng.random((M, M)) < .5)
            if (l1(A) @ h).max() < 2.0 ** 29:
                h = l1(A) @ h + 1
                budget = 2.0 ** 31
                out.append(A)
                continue
        for att in range(4):
            if rare > .9 and att < 3 and rng.random() < .5:
                A = structured(rng, M, cx) if not out or rng.random() < .6 else out[-1]
            elif att < 3 and rng.random() < .3 + .7 * dens:
                A = dense(rng, M, cx, rng.integers(1, 4)) if att == 0 else dense(rng, M, cx, 1) * (rng.random((M, M)) < .6)
            else:
                A = perm_like(rng, M, cx)
            n = l1(A) @ h + 1
            if n.max() < budget:
                break
        else:
            A = np.zeros((M, M)); n = np.ones(M)
        if n.max() >= budget:
            A = np.zeros((M, M)); n = np.ones(M)
        h = n
        out.append(A)
    A = np.stack(out).astype(np.complex128)
    return (A if cx else np.rint(A.real).astype(np.int64)), max(growth([A[t] for t in range(N)], N), 1.0)


def comp(a):
    M = len(a)
    A = np.zeros((M, M), dtype=np.complex128)
    if M:
        A[0] = -np.asarray(a)
        for i in range(1, M):
            A[i, i - 1] = 1
    return A


CYCLO = [[1, 1], [1, 0, 1], [1, 1, 1], [1, -1, 1], [1, 0, 0, 0, 1], [1, 1, 1, 1, 1], [1, -1, 1, -1, 1], [1, -1]]


def lti_den(rng, La, N, cx, budget=2.0 ** 18, no_dc=False):
    """denominator coefficients a[1..La] with bounded impulse response over N steps"""
    budget = CAP or budget
    if La == 0:
        return np.zeros(0, dtype=np.complex128 if cx else np.int64), 1.0
    if budget >= 2.0 ** 18 and roomy() and not no_dc and La >= N / 2 and N * La <= 200 and rng.random() < .12:
        a = ints(rng, La, 1, cx) * (rng.random(La) < .3) * (N <= La)
        a = a.astype(complex); a[-1] = (2 ** 24 + 2 * int(rng.integers(0, 2 ** 12)) + 1) * UNITS[rng.integers(0, 4 if cx else 2)]
        g = pow_growth(comp(a), N)
        if g < 2.0 ** 29: return (a if cx else np.rint(a.real).astype(np.int64)), g
    for att in range(30):
        style = rng.integers(0, 6)
        if style == 5: a = np.zeros(La)
        elif style == 0:
            a = ints(rng, La, 2, cx)
        elif style == 1:
            a = ints(rng, La, 1, cx) * (rng.random(La) < .7)
        elif style == 2:
            p = np.array([1 + 0j])
            while len(p) - 1 < La:
                if cx:
                    q = np.array([1, -UNITS[rng.integers(0, 4)]])
                else:
                    q = np.array(CYCLO[rng.integers(0, len(CYCLO))])
                if len(p) + len(q) - 2 > La:
                    q = np.array([1, 0]) if rng.random() < .5 else np.array([1, 1])
                p = np.convolve(p, q)
            a = np.rint(p[1:].real) + (1j * np.rint(p[1:].imag) if cx else 0)
        elif style == 3:
            a = np.zeros(La, dtype=complex); a[rng.integers(0, La)] = UNITS[rng.integers(0, 4 if cx else 2)]
        else:
            a = ints(rng, La, 3, cx)
        g = pow_growth(comp(a), N)
        if g < budget and not (no_dc and 1 + np.sum(a) == 0):
            break
    else:
        a = np.zeros(La); a[-1] = 1
        g = pow_growth(comp(a), N)
    return (np.asarray(a, dtype=np.complex128) if cx else np.rint(np.real(a)).astype(np.int64)), g


def lpv_den(rng, N, La, cx, budget=2.0 ** 18):
    budget = CAP or budget
    if La == 0:
        return np.zeros((N, 0), dtype=np.complex128 if cx else np.int64), 1.0
    a = np.zeros((N, La), dtype=np.complex128)
    h = np.ones(La)
    g = 1.0
    if N > 250: budget = min(budget, 2.0 ** 8)
    if rng.random() < .05:            # constant in time after all
        v, g = lti_den(rng, La, N, cx, budget)
        if g < 2.0 ** 18:
            return np.ascontiguousarray(np.broadcast_to(v, (N, La))), max(g, pow_growth(comp(v).T, N))
    long_at = int(rng.integers(0, N)) if rng.random() < .08 and roomy() and N * La <= 64 else -1
    for t in range(N):
        v = ints(rng, La, rng.integers(1, 4), cx) * (rng.random(La) < rng.choice([.4, .8, 1]))
        if rng.random() < .03: v = v * 0
        if t == long_at and (l1(v) * h).sum() < 8:
            v = v * (2 ** 24 + 2 * int(rng.integers(0, 2 ** 12)) + 1)
            budget = 2.0 ** 28
        n = (l1(v) * h).sum() + 1
        while n > budget and np.any(v):
            k = int(np.argmax(l1(v) * h)); v[k] = 0
            n = (l1(v) * h).sum() + 1
        a[t] = v
        h = np.concatenate([[n], h[:-1]])
        g = max(g, n)
    A = [comp(v) for v in a]
    g = max(g, growth(A, N), growth([x.T for x in A], N))
    while g > 2.0 ** 30:                      # the transposed structures grow differently
        a[rng.integers(0, N, 1 + N // 50)] = 0
        A = [comp(v) for v in a]
        g = max(growth(A, N), growth([x.T for x in A], N))
    return (a if cx else np.rint(a.real).astype(np.int64)), g


def amp(rng, g, small=False):
    """amplitude of signals given the growth of the system"""
    top = BUDGET / (g * 8)
    if top < 1:
        if BUDGET < 2.0 ** 39: raise TooBig()
        top = 1.0
    if small:
        return int(min(top, 3))
    return int(min(top, 9 if rng.random() < .3 else 2 ** 27))         # few digits, or more than a short float carries


# ------------------------------------------------------------------ sizes
def pick(rng, *opts):
    return opts[rng.integers(0, len(opts))]


LONG = .015         # how often sizes are drawn beyond every threshold an implementation may have


def long_sizes(rng):
    j = lambda n: int(n + rng.integers(0, n // 4))
    return pick(rng,
                lambda: (pick(rng, 1, 2), j(pick(rng, 260, 520, 1030, 4100)), pick(rng, 1, 2, 3)),
                lambda: (j(pick(rng, 130, 260)), pick(rng, 1, 2, 5, 9), pick(rng, 1, 2, 3)),
                lambda: (pick(rng, 3, 5), j(4100), pick(rng, 2, 3)),
                lambda: (pick(rng, 1, 2), j(33000), 1),
                lambda: (pick(rng, 1, 2), pick(rng, 2, 3, 5), pick(rng, 40, 48, 63, 64, 65)))()


def sizes(rng, scale):
    """(B, N, M): small most of the time, sometimes large or coinciding"""
    global DERIV
    DERIV = scale == "grad"
    if scale == "grad":
        return pick(rng, 1, 2, 3), pick(rng, 1, 2, 3, 4, 5, 6, 7), pick(rng, 1, 2, 2, 3, 3, 4)
    k = rng.random()
    if scale == "long" or (scale == "any" and rng.random() < LONG):
        return long_sizes(rng)
    if scale == "small" or k < .69:
        B = pick(rng, 1, 2, 2, 3, 3, 4, 5)
        N = pick(rng, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16)
        M = pick(rng, 1, 2, 2, 3, 3, 4, 5, 6)
    elif k < .78:
        B = N = pick(rng, 1, 2, 3, 4, 5, 6)
        M = pick(rng, 1, 2, 3, 4, B)
    elif k < .9:
        B, N, M = pick(rng, 1, 2, 3), pick(rng, 17, 23, 25, 31, 36, 49, 50, 64, 65, 90, 130), pick(rng, 1, 2, 3, 4)
    elif k < .95:
        B, N, M = pick(rng, 9, 16, 17, 33, 65, 70, 129, int(rng.integers(6, 100))), pick(rng, 1, 3, 5, 8, 9, 12), pick(rng, 1, 2, 3)
    else:                   # every order has the same chance
        B, N, M = pick(rng, 1, 2, 3), pick(rng, 2, 3, 5, 6, 9), int(rng.integers(7, 21)) if rng.random() < .9 else pick(rng, 24, 27, 31, 32, 33)
    return B, N, M


def factors(rng, N, many):
    """unroll factors worth trying for a length"""
    if N > 250:
        return [1] + sorted({int(f) for f in (round(N ** .5), rng.integers(2, 9), rng.integers(9, 70), rng.integers(70, 140))})
    if many and N <= 12:
        return list(range(1, N + 3))
    s = {1, 2, 3, max(1, round(N ** .5)), N, N + 1, max(1, N - 1), max(1, N // 2)}
    for _ in range(4):
        s.add(int(rng.integers(1, N + 3)))
    s = sorted(s)
    if not many:
        keep = {1} | set(int(x) for x in rng.choice(s, size=min(3, len(s)), replace=False))
        s = [x for x in s if x in keep]
    return s


def norm_idx(rng, M):
    return int(rng.integers(-M, M))


# ------------------------------------------------------------------ operations
def philt():
    import torch, philtorch
    from philtorch import lti, lpv
    return torch, lti, lpv


def rec_inst(rng, tv, cx, scale="any", many=True, B=None, N=None):
    torch, lti, lpv = philt()
    b_, n_, _ = sizes(rng, scale)
    B, N = B or b_, N or n_
    if tv:
        r = pick(rng, "N", "BN")
        cols = [lpv_den(rng, N, 1, cx) for _ in range(1 if r == "N" else B)]
        a = np.stack([-c[0][:, 0] for c in cols])
        a = a[0] if r == "N" else a
    else:
        r = pick(rng, "", "1", "B")
        cols = [lti_den(rng, 1, N, cx) for _ in range(B if r == "B" else 1)]
        a = np.stack([-c[0][0] for c in cols])
        a = a[0] if r == "" else a
    g = max(c[1] for c in cols)
    ax = amp(rng, g * N, scale == "grad")
    ri = pick(rng, "", "1", "B")
    zi = vals(rng, {"": (), "1": (1,), "B": (B,)}[ri], ax, cx)
    x = vals(rng, (B, N), ax, cx)
    fn = (lpv if tv else lti).linear_recurrence
    cfgs = []
    for u in factors(rng, N, many):
        cfgs.append(("unroll %d" % u, lambda T, u=u: fn(T["a"], T["zi"], T["x"], unroll_factor=u), None))
    cfgs.append(("default", lambda T: fn(T["a"], T["zi"], T["x"]), None))
    if not tv and r in ("", "B") and _ext():
        rows = lambda T: T["zi"].reshape(-1).expand(T["x"].shape[0])
        cfgs.append(("op lti_recur", lambda T: torch.ops.philtorch.lti_recur(T["a"], rows(T), T["x"]), None))
        from philtorch.lti.recur import LTIRecurrence
        cfgs.append(("LTIRecurrence", lambda T: LTIRecurrence.apply(T["a"], rows(T), T["x"]), None))
    return Inst("rec", tv, B, N, cx, dict(a=a, zi=zi, x=x), {}, dict(a=r, zi=ri, x="BN"), cfgs, False, 1,
                fam="%s.linear_recurrence" % ("lpv" if tv else "lti"))


def _ext():
    import philtorch
    return philtorch.EXTENSION_LOADED


def matrices(rng, tv, r, B, N, M, cx):
    n = B if r.startswith("B") else 1
    parts = [(lpv_matrices(rng, N, M, cx) if tv else lti_matrix(rng, M, N, cx)) for _ in range(n)]
    if rng.random() < .05: parts = [parts[0]] * n
    A = np.stack([p[0] for p in parts])
    return (A if r.startswith("B") else A[0]), max(p[1] for p in parts)


def ssr_inst(rng, tv, cx, scale="any", many=True, B=None, N=None, M=None, xr=None, r=None):
    torch, lti, lpv = philt()
    b_, n_, m_ = sizes(rng, scale)
    B, N, M = B or b_, N or n_, M or m_
    r = r or pick(rng, *(("NMM", "BNMM") if tv else ("MM", "BMM")))
    A, g = matrices(rng, tv, r, B, N, M, cx)
    xr = xr or pick(rng, "BN", "BNM")
    ax = amp(rng, g * N * M, scale == "grad")
    x = vals(rng, (B, N) if xr == "BN" else (B, N, M), ax, cx)
    zi = vals(rng, (B, M), ax, cx)
    fn = (lpv if tv else lti).state_space_recursion
    cfgs = []
    two = [norm_idx(rng, M), norm_idx(rng, M)]
    for u in factors(rng, N, many):
        cfgs.append(("unroll %d" % u, lambda T, u=u: fn(T["A"], T["zi"], T["x"], unroll_factor=u), None))
        i = pick(rng, *two)
        cfgs.append(("unroll %d out_idx %d" % (u, i), lambda T, u=u, i=i: fn(T["A"], T["zi"], T["x"], unroll_factor=u, out_idx=i), i))
    cfgs.append(("default", lambda T: fn(T["A"], T["zi"], T["x"]), None))
    if _ext():
        o = torch.ops.philtorch

        def pad(x, M=M):
            return x if x.dim() == 3 else torch.cat([x.unsqueeze(-1), x.new_zeros(*x.shape, M - 1)], -1)
        nm = "recurN" if tv else "lti_recurN"
        cfgs.append(("op " + nm, lambda T: getattr(o, nm)(T["A"], T["zi"], pad(T["x"])), None))
        if M == 2:
            n2 = "recur2" if tv else "lti_recur2"
            cfgs.append(("op " + n2, lambda T: getattr(o, n2)(T["A"], T["zi"], pad(T["x"])), None))
        from philtorch.lti import ssm as s1
        from philtorch.lpv import ssm as s2
        e = (s2 if tv else s1)._ext_ss_recur
        i = pick(rng, *two)
        cfgs.append(("extension", lambda T: e(T["A"], T["zi"], T["x"]), None))
        cfgs.append(("extension out_idx %d" % i, lambda T, i=i: e(T["A"], T["zi"], T["x"], out_idx=i), i))
    return Inst("ssr", tv, B, N, cx, dict(A=A, zi=zi, x=x), {}, dict(A=r, zi="BM", x=xr), cfgs, False, M,
                fam="%s.state_space_recursion" % ("lpv" if tv else "lti"))


AXIS = lambda B, N, M, F, K: {"B": B, "N": N, "M": M, "F": F, "K": K, "1": 1}
BROLES = {(False, True): ["", "M", "BM"], (False, False): ["", "MF", "BMF"],
          (True, True): ["", "M", "NM", "BM", "BNM"], (True, False): ["", "MF", "NMF", "BMF", "BNMF"]}
CROLES = {False: ["", "M", "BM", "KM", "BKM"], True: ["", "M", "NM", "BM", "KM", "BNM", "NKM", "BKM", "BNKM"]}
DROLES = {(False, True): ["none", "", "1", "B", "K", "BK"], (False, False): ["none", "F", "", "1", "BF", "KF", "BKF"],
          (True, True): ["none", "", "1", "N", "B", "K", "BN", "NK", "BK", "BNK"],
          (True, False): ["none", "F", "", "1", "NF", "BF", "KF", "BNF", "NKF", "BKF", "BNKF"]}


def rest(role):
    for p in ("BN", "B", "N"):
        if role.startswith(p):
            return role[len(p):]
    return "" if role == "1" else role


def ss_inst(rng, tv, cx, scale="any", many=False, B=None, N=None, M=None, roles=None, zi_role="?", coincide=False,
            system=None):
    """roles: (A role, scalar x?, B role, C role, D role, idx?); system: (A, growth bound) to be used as the state matrix"""
    torch, lti, lpv = philt()
    b_, n_, m_ = sizes(rng, scale)
    B, N, M = B or b_, N or n_, M or m_
    for _ in range(200):
        if roles is None:
            ar = pick(rng, *(("NMM", "BNMM") if tv else ("MM", "BMM")))
            sc = bool(rng.integers(0, 2))
            br = pick(rng, *BROLES[tv, sc]); cr = pick(rng, *CROLES[tv]); dr = pick(rng, *DROLES[tv, sc])
            ix = bool(cr == "" and rng.random() < .4)
        else:
            ar, sc, br, cr, dr, ix = roles
        F = M if (br == "" or rng.random() < .2) else pick(rng, 1, 2, 3, 4)
        K = pick(rng, 1, 2, 3, 4, 5)
        if coincide:
            F = pick(rng, M, B, N); F = min(F, 6)
            K = pick(rng, B, N, M); K = min(K, 6)
            if br == "": F = M
        cvec = (len(rest(cr)) == 2) if cr else not ix
        dvec = None if dr == "none" else ((len(rest(dr)) == 1) if sc else len(rest(dr)) in (0, 2))
        if dvec is not None and dvec != cvec:
            if roles is None: continue
            return None
        if dvec and cvec:
            w = K if cr else M              # width of C h
            if not sc and rest(dr) == "":
                F2 = w
                if br == "" and F2 != M: 
                    if roles is None: continue
                    return None
                F = F2 if br != "" else M
            elif "K" in dr and not cr:
                K = M
        break
    dims = AXIS(B, N, M, F, K)
    shp = lambda role: tuple(dims[ch] for ch in role)
    A, g = system or matrices(rng, tv, ar, B, N, M, cx)
    w = wide(rng, 2.0 ** 44 / (g * N * M * 1600)) if scale != "grad" else 0
    ax = amp(rng, g * N * M * 200, scale == "grad") if not w else 3
    args = dict(A=A, x=vals(rng, (B, N) if sc else (B, N, F), ax, cx))
    axes = dict(A=ar, x="BN" if sc else "BNF")
    zr = pick(rng, None, "M", "BM", "BM") if zi_role == "?" else zi_role
    if br: args["Bm"], axes["Bm"] = vals(rng, shp(br), 3, cx), br
    if cr: args["C"], axes["C"] = vals(rng, shp(cr), 3, cx), cr
    if dr != "none": args["D"], axes["D"] = vals(rng, shp(dr), 3, cx), dr
    if zr: args["zi"], axes["zi"] = vals(rng, shp(zr), ax, cx), zr
    if w:
        k = pick(rng, *sorted(k for k in args if k != "A"))
        args[k] = widen(rng, args[k], w, cx)
    opt = {}
    if ix: opt["idx"] = norm_idx(rng, M)
    fn = (lpv if tv else lti).state_space

    def call(T, u=None):
        return fn(T["A"], T["x"], B=T.get("Bm"), C=T.get("C"), D=T.get("D"), zi=T.get("zi"), unroll_factor=u, out_idx=opt.get("idx"))
    cfgs = [("unroll %d" % u, lambda T, u=u: call(T, u), None) for u in factors(rng, N, many)]
    cfgs.append(("default", call, None))
    return Inst("ss", tv, B, N, cx, args, opt, axes, cfgs, zr is not None, M, fam="%s.state_space" % ("lpv" if tv else "lti"))


def lf_inst(rng, tv, cx, scale="any", many=False, B=None, N=None, form=None, La=None, Lb=None, zi_role="?", ar=None, br=None, oned=None,
            backend=None, no_dc=False):
    torch, lti, lpv = philt()
    b_, n_, m_ = sizes(rng, scale)
    B, N = B or b_, N or n_
    if La is None: La = m_ if rng.random() > .06 else 0
    if Lb is None:
        Lb = pick(rng, La + 1, La + 1, La, La + 2, La + 3, 1, 2, max(1, La - 1), int(rng.integers(1, La + 4)))
        if scale == "any" and rng.random() < .1: Lb = int(rng.integers(7, 25))
    Lb = max(1, Lb)
    if La == 0 and Lb == 1: Lb = 2
    n = max(La, Lb - 1)
    form = form or pick(rng, "df1", "df2", "tdf1", "tdf2")
    oned = (rng.random() < .12) if oned is None else oned
    if oned: B = 1
    lead = {True: ("N", "BN"), False: ("", "B")}[tv]
    ar = ar if ar is not None else (lead[0] if oned else pick(rng, *lead))
    br = br if br is not None else (lead[0] if oned else pick(rng, *lead))

    def coefs(role, L, den):
        k = B if role.startswith("B") else 1
        if den:
            ps = [(lpv_den(rng, N, L, cx) if tv else lti_den(rng, L, N, cx, no_dc=no_dc)) for _ in range(k)]
        else:
            ps = [(vals(rng, (N, L) if tv else (L,), 3, cx), 1.0) for _ in range(k)]
        if rng.random() < .05: ps = [ps[0]] * k
        v = np.stack([p[0] for p in ps])
        return (v if role.startswith("B") else v[0]), max(p[1] for p in ps)
    a, g = coefs(ar, La, True)
    b, _ = coefs(br, Lb, False)
    w = wide(rng, 2.0 ** 44 / (g * N * n * 320)) if scale != "grad" else 0
    ax = amp(rng, g * N * n * 40, scale == "grad") if not w else 3
    x = vals(rng, (N,) if oned else (B, N), ax, cx)
    if w: b = widen(rng, b, w, cx)
    args, axes = dict(b=b, a=a, x=x), dict(b=br + "P", a=ar + "Q", x="N" if oned else "BN")
    zr = (pick(rng, None, "O", "BO", "BO") if zi_role == "?" else zi_role)
    if oned and zr == "BO": zr = "O"
    if zr: args["zi"], axes["zi"] = vals(rng, (B, n) if zr == "BO" else (n,), ax, cx), zr
    fn = (lpv if tv else lti).lfilter
    # df1/tdf1 call the recursion directly (no default factor of their own), all take unroll_factor
    cfgs = []
    for u in factors(rng, N, many):
        cfgs.append(("ssm unroll %d" % u, lambda T, u=u: fn(T["b"], T["a"], T["x"], T.get("zi"), form=form, backend="ssm", unroll_factor=u), None))
    cfgs.append(("ssm default", lambda T: fn(T["b"], T["a"], T["x"], T.get("zi"), form=form), None))
    if form == ("df2" if tv else "tdf2"):
        cfgs.append(("all defaults", lambda T: fn(T["b"], T["a"], T["x"], T.get("zi")), None))
    if tv and form != "tdf2":
        cfgs.append(("torchlpc", lambda T: fn(T["b"], T["a"], T["x"], T.get("zi"), form=form, backend="torchlpc"), None))
    return Inst("lf", tv, B, N, cx, args, {"form": form}, axes, cfgs, bool(zr) and form in ("df2", "tdf2"), n, squeeze=oned,
                fam="%s.lfilter %s" % ("lpv" if tv else "lti", form))


def fir_inst(rng, tv, cx, scale="any", B=None, N=None, L=None, tr=None, zi="?", **_):
    torch, lti, lpv = philt()
    b_, n_, m_ = sizes(rng, scale)
    B, N = B or b_, N or n_
    L = (pick(rng, 1, m_ + 1, m_ + 1, m_, 2) if L is None else L)
    tr = bool(rng.integers(0, 2)) if tr is None else tr
    b = vals(rng, (B, N, L) if tv else (B, L), 3, cx)
    w = wide(rng, 2.0 ** 36 / L) if scale != "grad" else 0
    ax = amp(rng, 100 * L, scale == "grad") if not w else 3
    if w: b = widen(rng, b, w, cx)
    args, axes = dict(b=b, x=vals(rng, (B, N), ax, cx)), dict(b="BNP" if tv else "BP", x="BN")
    if (rng.random() < .6) if zi == "?" else zi:
        args["zi"], axes["zi"] = vals(rng, (B, L - 1), ax, cx), "BO"
    fn = (lpv if tv else lti).fir
    cfgs = [("fir", lambda T: fn(T["b"], T["x"], T.get("zi"), tr), None)]
    if tr == (not tv):
        cfgs.append(("fir default structure", lambda T: fn(T["b"], T["x"], zi=T.get("zi")), None))
    return Inst("fir", tv, B, N, cx, args, {"tr": tr}, axes, cfgs, "zi" in args, L - 1, fam="%s.fir %s" % ("lpv" if tv else "lti", "tr" if tr else "dir"))


def ap_inst(rng, tv, cx, scale="any", B=None, N=None, L=None, tr=None, zi="?", **_):
    torch, lti, lpv = philt()
    b_, n_, m_ = sizes(rng, scale)
    B, N = B or b_, N or n_
    L = (pick(rng, m_, m_, m_, m_, 1, 2, 0) if L is None else L)
    tr = bool(rng.integers(0, 2)) if tr is None else tr
    ps = [lpv_den(rng, N, L, cx) for _ in range(B)]
    a, g = np.stack([p[0] for p in ps]), max(p[1] for p in ps)
    ax = amp(rng, g * N * (L + 1) * 8, scale == "grad")
    args, axes = dict(a=a, x=vals(rng, (B, N), ax, cx)), dict(a="BNQ", x="BN")
    if (rng.random() < .6) if zi == "?" else zi:
        args["zi"], axes["zi"] = vals(rng, (B, L), ax, cx), "BO"
    cfgs = [("allpole", lambda T: lpv.allpole(T["a"], T["x"], T.get("zi"), tr), None)]
    if not tr:
        cfgs.append(("allpole default structure", lambda T: lpv.allpole(T["a"], T["x"], zi=T.get("zi")), None))
    return Inst("ap", True, B, N, cx, args, {"tr": tr}, axes, cfgs, "zi" in args, L, fam="lpv.allpole %s" % ("tr" if tr else "dir"))


def comb_inst(rng, tv, cx, scale="any", many=True, B=None, N=None, zi="?", delay=None, **_):
    torch, lti, lpv = philt()
    b_, n_, _ = sizes(rng, scale)
    B, N = B or b_, N or n_
    d = delay or pick(rng, 1, 2, 3, 4, 5, 7, N, N + 1, N + 3, max(1, N - 1), max(1, N // 2))
    if N > 2000: d = min(d, 300)
    r = pick(rng, "", "1", "B")
    ps = [lti_den(rng, 1, N // d + 1, cx) for _ in range(B if r == "B" else 1)]
    a = np.stack([p[0][0] for p in ps]); a = a[0] if r == "" else a
    g = max(p[1] for p in ps)
    ax = amp(rng, g * N, scale == "grad")
    args, axes = dict(a=a, x=vals(rng, (B, N), ax, cx)), dict(a=r, x="BN")
    zr = pick(rng, None, "O", "BO") if zi == "?" else zi
    if zr: args["zi"], axes["zi"] = vals(rng, (B, d) if zr == "BO" else (d,), ax, cx), zr
    n = -(-N // d)
    cfgs = [("unroll %d" % u, lambda T, u=u: lti.comb_filter(T["a"], d, T["x"], T.get("zi"), unroll_factor=u), None)
            for u in factors(rng, n, many)]
    cfgs.append(("default", lambda T: lti.comb_filter(T["a"], d, T["x"], T.get("zi")), None))
    return Inst("comb", False, B, N, cx, args, {"delay": d}, axes, cfgs, zr is not None, d, fam="lti.comb_filter")


ALL = [("rec", False), ("rec", True), ("ssr", False), ("ssr", True), ("ss", False), ("ss", True), ("lf", False), ("lf", True),
       ("fir", False), ("fir", True), ("ap", True), ("comb", False)]
MAKE = dict(rec=rec_inst, ssr=ssr_inst, ss=ss_inst, lf=lf_inst, fir=fir_inst, ap=ap_inst, comb=comb_inst)


def make(rng, op, tv, cx, **kw):
    for n in range(1000):
        try:
            i = MAKE[op](rng, tv, cx, **(kw if n < 25 else dict(kw, scale="grad")))
        except TooBig:
            continue
        if i is not None:
            return i
    raise RuntimeError("no instance of %s within the bounds" % op)


# ------------------------------------------------------------------ roles of a call's arguments
def first_fit(roles, shape, dims):
    """the reading of a shape the documentation gives precedence to (same lists as spec/Machines.tla)"""
    for r in roles:
        if r == "none" or len(r) != len(shape): continue
        if all((ch == "K") or dims[ch] == s for ch, s in zip(r, shape)): return r
    return None


def unambiguous(inst, shapes, B, N):
    """do these shapes (of the same call, cut or spread along batch or time) still mean what they meant?"""
    if inst.op != "ss": return True
    sc = len(inst.axes["x"]) == 2
    F = -1 if sc else shapes["x"][2]
    dims = {"B": B, "N": N, "M": inst.M, "F": F, "1": 1}
    for k, lst in (("Bm", [r for r in BROLES[inst.tv, sc] if r]), ("C", [r for r in CROLES[inst.tv] if r]),
                   ("D", DROLES[inst.tv, sc])):
        if k in shapes and first_fit(lst, shapes[k], dims) != inst.axes[k + "*"]: return False
    return True


def resolved(inst):
    """the roles the arguments really have (coinciding sizes may have turned the intended role into another)"""
    ax = dict(inst.axes)
    if inst.op != "ss": return ax
    sc = len(ax["x"]) == 2
    sh = {k: np.shape(v) for k, v in inst.args.items()}
    dims = {"B": inst.B, "N": inst.N, "M": inst.M, "F": -1 if sc else sh["x"][2], "1": 1}
    for k, lst in (("Bm", [r for r in BROLES[inst.tv, sc] if r]), ("C", [r for r in CROLES[inst.tv] if r]), ("D", DROLES[inst.tv, sc])):
        if k in sh:
            r = first_fit(lst, sh[k], dims)
            if r is None: return None
            ax[k] = r
            inst.axes[k + "*"] = r
    return ax


def take(v, role, letter, sl):
    """slice a tensor along the axis with this letter (if it has one)"""
    if letter not in role: return v
    i = role.index(letter)
    return v[(slice(None),) * i + (sl,)]
