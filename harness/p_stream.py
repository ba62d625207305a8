"""C09 (chunked processing), C10 (block sizes and backends)."""
import numpy as np
from core import view_of, raised
import inst as I
import noext


def cuts(rng, N):
    """a random composition of N, as boundaries [0, ..., N]"""
    k = rng.random()
    if N > 300:      # long signals: up to 50 pieces, single samples among them
        c = set(int(v) for v in rng.integers(0, N + 1, size=rng.integers(1, 50)))
        return sorted({0, N} | c | {min(v + 1, N) for v in list(c)[:5]})
    if k < .2: return list(range(N + 1))
    if k < .5: return sorted({0, N} | set(int(c) for c in rng.integers(0, N + 1, size=rng.integers(1, 4))))
    p = rng.random()
    return [0] + [t for t in range(1, N) if rng.random() < p] + [N]


def chunked(inst, bounds, choose):
    """process the signal piece by piece, handing each final state to the next call"""
    import torch
    ax = I.resolved(inst)
    T = inst.tensors()
    shapes = lambda s, e: {k: tuple(I.take(v, ax[k], "N", slice(s, e)).shape) for k, v in T.items()}
    for s, e in zip(bounds, bounds[1:]):
        if not I.unambiguous(inst, shapes(s, e), inst.B, e - s): return None

    def run():
        z, ys, zs = T["zi"], [], []
        for s, e in zip(bounds, bounds[1:]):
            t = {k: I.take(v, ax[k], "N", slice(s, e)) for k, v in T.items()}
            t["zi"] = z
            lab, fn, idx = choose()
            r = fn(t)
            if inst.op in ("rec", "ssr"):
                y = r
                z = y[:, -1]
            else:
                y, z = r
                zs.append((e, z))
            ys.append(y)
        y = torch.cat(ys, 0 if inst.squeeze else 1)
        return (y, zs) if zs else y
    return run


def streamable(rng, k, cx, scale="any"):
    op, tv = [("ss", False), ("ss", True), ("lf", False), ("lf", True), ("lf", False), ("lf", True), ("fir", False), ("fir", True), ("ap", True),
              ("comb", False), ("ssr", False), ("ssr", True), ("rec", False), ("rec", True)][k % 14]
    kw = dict(scale=scale)
    if op == "ss": kw["zi_role"] = I.pick(rng, "M", "BM")
    if op == "lf":
        kw["zi_role"] = I.pick(rng, "O", "BO"); kw["form"] = ("df2" if k % 28 < 14 else "tdf2") if k % 14 < 4 else ("tdf2" if k % 28 < 14 else "df2")
    if op in ("fir", "ap"): kw["zi"] = True
    if op == "comb": kw["zi"] = I.pick(rng, "O", "BO")
    return op, tv, kw


def record_chunks(rec, rng, inst, histories, info=None):
    if I.resolved(inst) is None: return
    plain = [c for c in inst.cfgs if c[2] is None]
    views = []
    lab, fn, idx = plain[rng.integers(len(plain))]
    T = inst.tensors()
    views.append(("whole, " + lab, view_of(rec, inst.cx, lambda: fn(T), times=inst.N)))
    for h in histories:
        same = rng.random() < .3
        first = plain[rng.integers(len(plain))]
        used = []

        def choose():
            c = first if same else plain[rng.integers(len(plain))]
            used.append(c[0])
            return c
        run = chunked(inst, h, choose)
        if run is None: continue
        views.append(("chunks %s" % (h,), view_of(rec, inst.cx, run)))
    rec.add(inst.case(rec), views, dict(inst.describe(), **(info or {})))


def job_C09(rec, rng, i, tier):
    cx = bool(rng.random() < .4)
    op, tv, kw = streamable(rng, i, cx)
    if i < 14 * 16:                 # every way of cutting a short signal
        N = 1 + (i // 14) % 5
        inst = I.make(rng, op, tv, cx, **dict(kw, scale="small", N=N))
        hs = [[0] + [t for t in range(1, N) if m >> (t - 1) & 1] + [N] for m in range(2 ** (N - 1))]
    else:
        inst = I.make(rng, op, tv, cx, **kw)
        hs = [cuts(rng, inst.N) for _ in range(4)]
    record_chunks(rec, rng, inst, hs)


# ---------------------------------------------------------------- C10
def c10_inst(rng, i):
    if i % 13 == 12:
        import p_diag
        return p_diag.any_inst(rng)
    op, tv = I.ALL[i % len(I.ALL)]
    cx = bool(rng.random() < .4)
    kw = {} if op in ("fir", "ap") else {"many": bool(rng.random() < .7)}
    if op in ("ssr", "ss") and rng.random() < .3:       # many blocks of blocks for a low order
        kw.update(B=int(rng.integers(1, 3)), N=int(rng.integers(24, 140)), M=I.pick(rng, 1, 2, 2, 3))
    return I.make(rng, op, tv, cx, **kw)


def job_C10(rec, rng, i, tier):
    if i % 50 == 33:
        import p_help
        return p_help.job_C20(rec.module("HTrace"), rng, 1, tier)
    seed = int(rng.integers(1 << 40))
    inst = c10_inst(np.random.default_rng(seed), i)
    views = []
    for lab, fn, idx in inst.cfgs:
        T = inst.tensors()
        views.append((lab, view_of(rec, inst.cx, lambda: fn(T), times=inst.N, idx=idx)))
    if rng.random() < .35:
        views += [("without the extension: " + l, v) for l, v in noext.call("c10", rec.c.P, dict(seed=seed, i=i))]
    rec.add(inst.case(rec), views, inst.describe())


def noext_c10(rec, seed, i):
    inst = c10_inst(np.random.default_rng(seed), i)
    out = []
    for lab, fn, idx in inst.cfgs:
        T = inst.tensors()
        out.append((lab, view_of(rec, inst.cx, lambda: fn(T), times=inst.N, idx=idx)))
    return out
