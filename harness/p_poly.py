"""C23: polynomial algebra and partial fractions (philtorch.prototype)."""
from fractions import Fraction as F
from math import lcm
import numpy as np
from core import raised, tt
import inst as I
from p_help import laid


class G:
    """exact complex rational"""
    def __init__(s, re, im=0): s.re, s.im = F(re), F(im)
    def __add__(s, o): return G(s.re + o.re, s.im + o.im)
    def __sub__(s, o): return G(s.re - o.re, s.im - o.im)
    def __mul__(s, o): return G(s.re * o.re - s.im * o.im, s.re * o.im + s.im * o.re)
    def inv(s): n = s.re ** 2 + s.im ** 2; return G(s.re / n, -s.im / n)


def gs(v): return [G(int(np.real(x)), int(np.imag(x))) for x in v]


def shifted(p, x, n):
    """first n coefficients of p(x + t) in ascending powers of t (p highest first)"""
    p = list(p)
    out = []
    for _ in range(n):
        if not p: out.append(G(0)); continue
        acc, q = G(0), []
        for c in p:
            acc = acc * x + c
            q.append(acc)
        out.append(acc)
        p = q[:-1]
    return out


def gz(p): return G(int(p.real), int(p.imag))


def denominators(b, a0, poles, mult, z):
    """common denominator of the residues, computed exactly.  In s: of b / (a0 prod (s - p)^m) with terms over (s - p)^k;
    in z: w = 1/z, b ascending in w, a0 prod (1 - p w)^m, terms over (1 - p w)^k"""
    d = 1
    num, lead, at = gs(b), G(int(a0)), [gz(p) for p in poles]
    if z:
        num = num[::-1]
        for p, m in zip(poles, mult):
            for _ in range(m): lead = lead * (G(0) - gz(p))
        at = [p.inv() for p in at]
    for i, m in enumerate(mult):
        nu = shifted(num, at[i], m)
        den = [lead] + [G(0)] * (m - 1)
        for j, k in enumerate(mult):
            if j == i: continue
            f = at[i] - at[j]
            for _ in range(k):
                den = [den[t] * f + (den[t - 1] if t else G(0)) for t in range(m)]
        inv0, out = den[0].inv(), []
        for t in range(m):
            c = nu[t]
            for s in range(t): c = c - out[s] * den[t - s]
            out.append(c * inv0)
        for t, c in enumerate(out):      # over the power m - t
            if z:
                for _ in range(m - t): c = c * (G(0) - gz(poles[i]))
            d = lcm(d, c.re.denominator, c.im.denominator)
    return d


def polyfrom(roots):
    p = np.array([1 + 0j])
    for r in roots: p = np.convolve(p, [1, -r])
    return np.rint(p.real) + 1j * np.rint(p.imag)


def flat(rec, t, cx, scale=1, tol=1 / 16):
    return rec.c.obs(t.detach().resolve_conj().resolve_neg(), cx, scale, tol).tolist()


def observe(fn, enc):
    try:
        r = fn()
        return {"ys": [], "y": [[enc(r)]]}
    except Exception as e:
        return {"err": raised(e)}


def case(rec, op, cx, opt): return dict(op=op, ring="C" if cx else "R", B=1, arg={}, opt=opt)


def system(rng, zero, deg):
    """poles of a real polynomial: reals and conjugate pairs with multiplicities; a pole at zero only if allowed"""
    while True:
        poles, mult, n = [], [], 0
        while n < deg:
            if n + 2 <= deg and rng.random() < .5:
                p = complex(int(rng.integers(-2, 3)), int(rng.integers(1, 3)))
                m = 2 if n + 4 <= deg and rng.random() < .2 else 1
                new, k = [p, p.conjugate()], 2 * m
            else:
                p = complex(int(rng.integers(-3, 4)))
                if p == 0 and not zero: continue
                m = min(I.pick(rng, 1, 1, 1, 2, 2, 3), deg - n)
                new, k = [p], m
            if any(q in poles for q in new): continue
            poles += new; mult += [m] * len(new); n += k
        # (k-fold roots are computed to the k-th root of the accuracy of the coefficients only)
        if sum(m > 1 for m in mult) <= 2: return poles, mult


def job_C23(rec, rng, i, tier):
    import torch
    from philtorch.prototype import poly, signal
    kind = ["mul", "add", "sub", "der", "trim", "val", "qr", "roots", "pfe", "pfez", "pfe", "pfez"][i % 12]
    cx = bool(rng.random() < .4)
    single = rng.random() < .2
    R, C = (torch.float32, torch.complex64) if single else (torch.float64, torch.complex128)
    cov = lambda **k: dict(fam=kind, complex=cx, **k)

    def P(n, hi=9, z=.35, cplx=None):
        v = I.ints(rng, (n,), hi, cx if cplx is None else cplx)
        if rng.random() < z: v[:int(rng.integers(0, n + 1))] = 0
        if rng.random() < .05: v[:] = 0
        return v
    size = lambda: I.pick(rng, 1, 1, 2, 3, 4, 5, 7, int(rng.integers(1, 40)))
    T = lambda v: laid(rng, tt(v, C if cx else R), cx)
    enc = lambda v: rec.enc(v, cx)
    if kind in ("mul", "add", "sub", "der", "trim"):
        n = I.pick(rng, 1, 2, 2, 3, 4) if kind == "mul" else 2 if kind in ("add", "sub") else 1
        ps = [P(size() if kind != "mul" or n == 2 else I.pick(rng, 1, 2, 3, 4)) for _ in range(n)]
        m = I.pick(rng, 0, 1, 1, 2, 3) if kind == "der" else 0
        if kind == "der" and len(ps[0]) > 12 and m > 1: ps[0] = ps[0][:8]
        if not single and rng.random() < .4:
            w = int(rng.integers(2 ** 22, 2 ** 24)) * 2 + 1
            k = int(rng.integers(0, n))
            ps[k] = np.where(ps[k] == 0, 0, I.widen(rng, ps[k], w, cx))
        f = {"mul": lambda: (poly.polymul if n == 2 and rng.random() < .5 else poly.polysmul)(*[T(p) for p in ps]),
             "add": lambda: poly.polyadd(T(ps[0]), T(ps[1])), "sub": lambda: poly.polysub(T(ps[0]), T(ps[1])),
             "der": lambda: poly.polyder(T(ps[0]), m) if m != 1 or rng.random() < .5 else poly.polyder(T(ps[0])),
             "trim": lambda: poly.trim_zeros(T(ps[0]))}[kind]
        views = [("%s %d" % (kind, r), observe(f, lambda t: flat(rec, t, cx))) for r in range(2)]
        rec.add(case(rec, "palg", cx, dict(fn=kind, m=m, polys=[enc(p) for p in ps])), views, cov(sizes=[len(p) for p in ps], m=m))
    elif kind == "val":
        p = P(I.pick(rng, 1, 1, 2, 3, 4, 5, 6), 9)
        xs = I.pick(rng, (), (1,), (3,), (5,), (2, 3))
        x = I.ints(rng, xs, 3, cx)

        def enc_val(t):
            return flat(rec, t.reshape(-1), cx)
        views = []
        for r in range(2):
            try:
                y = poly.polyval(T(p), T(x))
                views.append(("val %d" % r, {"ys": list(y.shape), "y": [[v] for v in enc_val(y)]}))
            except Exception as e: views.append(("val %d" % r, {"err": raised(e)}))
        rec.add(case(rec, "polyval", cx, dict(polys=[enc(p)], x=enc(x.reshape(-1)), xs=list(xs))), views, cov(sizes=[len(p)], points=list(xs)))
    elif kind == "qr":
        n, m = int(rng.integers(1, 6)), int(rng.integers(1, 9))
        v = P(n, 2, .3)
        if not np.any(v): v[-1] = 1
        lead = np.flatnonzero(v)[0]
        w = v[lead]
        if rng.random() < .5: v[lead] = w = 1
        u = P(m, 9)
        if m - (n - lead) + 1 > 0: u = u * w ** (m - (n - lead) + 1)
        e = lambda r: {"q": flat(rec, r[0], cx), "r": flat(rec, r[1], cx)}
        views = [("qr %d" % r, observe(lambda: poly.polydiv(T(u), T(v)), e)) for r in range(2)]
        rec.add(case(rec, "qr", cx, dict(polys=[enc(u), enc(v)])), views, cov(sizes=[len(u), len(v)]))
    elif kind == "roots":
        deg = int(rng.integers(0, 6))
        po, mu = system(rng, True, deg) if deg else ([], [])
        po = [p for p, m in zip(po, mu) if m == 1 or p == 0 for _ in range(m)]
        p = np.concatenate([np.zeros(int(rng.integers(0, 3))), polyfrom(po).real * int(rng.integers(1, 4)) * (-1 if rng.random() < .5 else 1)])
        if rng.random() < .1: p[:] = 0
        if rng.random() < .05: p = np.zeros(len(p)); p[int(rng.integers(0, len(p)))] = 3
        f = lambda: poly.roots(laid(rng, tt(p, torch.float64), False))

        def e(r):
            assert r.is_complex(), "real roots"
            return flat(rec, r, True)
        rec.add(case(rec, "roots", True, dict(polys=[rec.enc(p.astype(complex), True)])), [("roots %d" % r, observe(f, e)) for r in range(2)],
                cov(sizes=[len(p)]))
    else:
        z = kind == "pfez"
        for _ in range(50):
            po, mu = system(rng, not z, int(rng.integers(1, 6)))
            # residues in 1/z: H = sum r / (1 - p/z)^m; in s: sum r / (s - p)^m
            full = [p for p, m in zip(po, mu) for _ in range(m)]
            a0 = int(rng.integers(1, 4)) * (-1 if rng.random() < .3 else 1)
            a = polyfrom(full).real * a0
            b = I.ints(rng, (int(rng.integers(1, len(a) + 3)),), 9, False)
            if rng.random() < .1: b[:int(rng.integers(0, len(b)))] = 0
            # (a quotient on the grid, too)
            n = len(b) - len(a) + 1
            if n > 0: b = b * int(abs(a[-1 if z else 0])) ** n
            d = denominators(b, a0, po, mu, z)
            if d <= 20000 and np.max(np.abs(b)) < 5000: break
        else: return
        inv = pow(d % rec.c.P, -1, rec.c.P)
        f = (signal.residuez if z else signal.residue)
        TT = lambda v: laid(rng, tt(v, torch.float64), False)
        tol = 1 / 8
        e = lambda r: {"r": flat(rec, r[0], True, d, tol), "p": flat(rec, r[1], True, 1, 1e-3), "k": flat(rec, r[2], True, 1, 1e-3)}
        Cc = lambda v: rec.enc(np.asarray(v).astype(complex), True)
        views = [("%s %d" % (kind, r), observe(lambda: f(TT(b), TT(a)), e)) for r in range(2)]
        rec.add(case(rec, "pfe", True, dict(fn="z" if z else "s", d=[d % rec.c.P, 0], inv=[inv, 0], polys=[Cc(b), Cc(a)])), views,
                cov(b=b.tolist(), a=a.tolist(), multiplicities=mu))
