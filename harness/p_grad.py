"""C11 (reverse mode), C12 (forward mode, second derivatives)."""
import numpy as np
from core import view_of, raised, tt, to_np, tmajor
import inst as I
import noext


def dual_case(rec, inst, tan, ring):
    """arguments as [value, [derivative in direction 1, ...]]; tan: name -> list over directions of integer arrays (or None)"""
    cx = inst.cx
    case = inst.case(rec, ring=ring)
    for k, v in inst.args.items():
        val = rec.c.res(v, cx)
        ds = [None if d is None else rec.c.res(d, cx) for d in tan.get(k, [])]
        if all(d is None for d in ds):
            case["arg"][k]["v"] = pack(val, None, cx)
        else:
            z = np.zeros_like(val)
            case["arg"][k]["v"] = pack(val, [z if d is None else d for d in ds], cx)
    return case


def pack(val, ds, cx):
    """nested lists of [v, [d1, ...]]"""
    nd = val.ndim - (1 if cx else 0)

    def rec_(ix):
        if len(ix) == nd:
            a = val[tuple(ix)]
            return [a.tolist(), [] if ds is None else [d[tuple(ix)].tolist() for d in ds]]
        return [rec_(ix + [j]) for j in range(val.shape[len(ix)])]
    return rec_([])


def pack_hyper(val, d1, d2, cx):
    nd = val.ndim - (1 if cx else 0)
    z = [0, 0] if cx else 0

    def rec_(ix):
        if len(ix) == nd:
            t = tuple(ix)
            return [val[t].tolist(), d1[t].tolist() if d1 is not None else z, d2[t].tolist() if d2 is not None else z, z]
        return [rec_(ix + [j]) for j in range(val.shape[len(ix)])]
    return rec_([])


def flat(v, cx):
    v = np.asarray(v)
    return v.reshape((-1, 2) if cx else (-1,)).tolist()


def ints_like(rng, v, r, cx):
    return I.ints(rng, np.shape(v), r, cx)


def fin_shape(inst):
    return (inst.M,) if inst.squeeze else (inst.B, inst.M)


def run_once(inst, cfg):
    """(y, zf or None)"""
    r = cfg[1](inst.tensors())
    return r if isinstance(r, tuple) else (r, None)


def wtensor(w, cx, how):
    """the cotangent, in different memory layouts"""
    import torch
    t = tt(w, cx=cx)
    if how == 1 and t.dim() >= 2: return t.transpose(0, 1).contiguous().transpose(0, 1)
    if how == 2: return torch.cat([t, t], -1)[..., :t.shape[-1]] if t.dim() else t
    if how == 3 and cx: return t.conj().resolve_conj().conj()
    return t


def grad_view(rec, inst, cfg, need, wy, wz, how=0):
    """gradients of Re<wy, y> + Re<wz, zf> with respect to the arguments in need"""
    import torch
    try:
        T = inst.tensors()
        for k in need: T[k].requires_grad_(True)
        r = cfg[1](T)
        y, zf = r if isinstance(r, tuple) else (r, None)
        outs, ws = [], []
        if wy is not None and y.requires_grad:
            outs.append(y); ws.append(torch.ones((), dtype=y.dtype).expand(y.shape) if how == 9 else wtensor(wy, inst.cx, how))
        if wz is not None and zf.requires_grad: outs.append(zf); ws.append(wtensor(wz, inst.cx, how))
        if not outs:
            return {"g": {k: flat(rec.c.res(np.zeros(np.shape(inst.args[k])), inst.cx), inst.cx) for k in need}}
        gs = torch.autograd.grad(outs, [T[k] for k in need], ws, allow_unused=True)
        g = {}
        for k, v in zip(need, gs):
            if v is None: v = torch.zeros_like(T[k])
            if v.shape != T[k].shape: return {"err": "gradient of %s has shape %s, not %s" % (k, tuple(v.shape), tuple(T[k].shape))}
            if v.dtype != T[k].dtype: return {"err": "gradient of %s has dtype %s, not %s" % (k, v.dtype, T[k].dtype)}
            g[k] = flat(rec.c.obs(v, inst.cx), inst.cx)
        return {"g": g}
    except Exception as e:
        return {"err": raised(e)}


def diag_inst(rng, i):
    """a diagonalised system with amplitudes small enough for derivatives of its decomposition"""
    import p_diag
    with I.budget(2.0 ** 29):
        while True:
            inst = p_diag.diag_inst(rng, "grad") if (i // 14) % 2 else p_diag.lf_diag_inst(rng, "grad")
            if inst.cx or inst.real or not inst.note["pairs"]: return inst      # (else a complex result holding real values)


def long_digits(rng, inst, cfg, names, wy, wz, cx):
    """one factor of the gradients gets more digits than a short float carries (each gradient is linear in each of them)"""
    if rng.random() > .25: return
    k = I.pick(rng, *(["w"] * 3 + [k for k in names if k in ("x", "zi", "C", "D", "Bm", "b")]))
    w = int(rng.integers(2 ** 22, 2 ** 24)) * 2 + 1
    import torch
    try:
        T = inst.tensors()
        for q in names: T[q].requires_grad_(True)
        r = cfg[1](T)
        y, zf = r if isinstance(r, tuple) else (r, None)
        tot = sum((t.abs().sum() for t, v in ((y, wy), (zf, wz)) if v is not None and t is not None))
        gs = torch.autograd.grad(tot, [T[q] for q in names], allow_unused=True)
        top = max([float(tot.detach())] + [float(g.abs().max()) for g in gs if g is not None and g.numel()])
    except Exception:
        return
    if top * w * 8 > 2.0 ** 44: return
    if k == "w":
        for v in (wy, wz):
            if v is not None: v[...] = I.widen(rng, v, w, cx)
    else:
        inst.args[k] = I.widen(rng, inst.args[k], w, cx)


def c11_inst(seed, i):
    rng = np.random.default_rng(seed)
    op, tv = I.ALL[i % len(I.ALL)]
    cx = bool(rng.random() < .4)
    kw = dict(scale="grad")
    if op in ("rec", "ssr", "comb"): kw["many"] = bool(rng.random() < .4)
    if op == "lf": kw["La"] = int(rng.integers(0, 4)); kw["form"] = ["df1", "df2", "tdf1", "tdf2"][(i // len(I.ALL)) % 4]
    if op == "lf" and kw["La"] == 0: kw["Lb"] = 2
    inst = diag_inst(rng, i) if i % 14 == 13 else I.make(rng, op, tv, cx, **kw)
    cx = inst.cx
    rng = np.random.default_rng([seed, 1])          # from here on the same with and without the extension
    names = getattr(inst, "wrt", sorted(inst.args))
    idxs = sorted({c[2] for c in inst.cfgs if c[2] is not None and c[0].startswith("unroll")})
    idx = idxs[rng.integers(len(idxs))] if idxs and rng.random() < .3 else None
    cfgs = [c for c in inst.cfgs if c[2] == idx]
    try:
        y, zf = run_once(inst, cfgs[0])
        ysh = tuple(y.shape)
    except Exception:
        ysh = None
    mode = I.pick(rng, "y", "zf", "both", "both") if inst.zf else "y"
    ones = bool(rng.random() < .15)
    wy = None
    if mode != "zf" and ysh is not None:
        wy = I.ints(rng, ysh, 3, cx)
        if ones: wy = np.ones(ysh, dtype=np.complex128 if cx else np.int64)
    wz = I.ints(rng, fin_shape(inst), 3, cx) if mode != "y" else None
    if not hasattr(inst, "wrt") and ysh is not None and not ones: long_digits(rng, inst, cfgs[0], names, wy, wz, cx)
    subsets = [names] + [sorted(rng.permutation(names)[:rng.integers(1, len(names) + 1)].tolist()) for _ in range(3)]
    return rng, inst, names, idx, cfgs, wy, wz, subsets, ones


def grad_views(rec, rng, inst, cfgs, wy, wz, subsets, ones):
    out = []
    for c in cfgs:
        for need in (subsets if len(cfgs) < 4 else [subsets[rng.integers(0, len(subsets))]]):
            how = 9 if ones and wz is None and rng.random() < .6 else int(rng.integers(0, 4))
            out.append(("%s, d/d{%s}, cotangent layout %d" % (c[0], ",".join(need), how), grad_view(rec, inst, c, need, wy, wz, how)))
    return out


def noext_c11(rec, seed, i):
    rng, inst, names, idx, cfgs, wy, wz, subsets, ones = c11_inst(seed, i)
    return grad_views(rec, rng, inst, cfgs, wy, wz, subsets, ones)


def vjp_case(rec, rng, inst, names, idx, wy, wz):
    P = rec.c.P
    cx = inst.cx
    tan = {}
    for n, k in enumerate(names):
        d = rng.integers(0, P, np.shape(inst.args[k]))
        if cx: d = d + 1j * rng.integers(0, P, np.shape(inst.args[k]))
        tan[k] = [d if m == n else None for m in range(len(names))]
    case = dual_case(rec, inst, tan, "DC" if cx else "DR")
    case["acc0"] = [0] * len(names)
    case["tan"] = {k: flat(rec.c.res(tan[k][n], cx), cx) for n, k in enumerate(names)}
    case["dir"] = {k: n + 1 for n, k in enumerate(names)}
    w = {}
    if wy is not None:
        w["y"] = tmajor(rec.c.res(wy, cx), np.ndim(wy))
        if idx is not None: w["idx"] = idx
    if wz is not None: w["zf"] = rec.c.res(wz, cx).tolist()
    case["w"] = w
    return case


def job_C11(rec, rng, i, tier):
    seed = int(rng.integers(1 << 40))
    rng, inst, names, idx, cfgs, wy, wz, subsets, ones = c11_inst(seed, i)
    if wy is None and wz is None:      # the forward call itself failed
        return rec.add(inst.case(rec), [(cfgs[0][0], view_of(rec, inst.cx, lambda: cfgs[0][1](inst.tensors()), times=inst.N))], inst.describe())
    views = grad_views(rec, rng, inst, cfgs, wy, wz, subsets, ones)
    if rng.random() < .2:
        views += [("without the extension: " + l, v) for l, v in noext.call("c11", rec.c.P, dict(seed=seed, i=i))]
    rec.add(vjp_case(rec, rng, inst, names, idx, wy, wz), views, inst.describe())


# ---------------------------------------------------------------- C12
RAW = ("op ", "extension", "LTIRecurrence")


def fwd_view(rec, inst, cfg, sub, tan, idx):
    import torch
    import torch.autograd.forward_ad as fwAD
    cx = inst.cx
    try:
        with fwAD.dual_level():
            T = inst.tensors()
            for k in sub: T[k] = fwAD.make_dual(T[k], tt(tan[k], cx=cx))
            r = cfg[1](T)
            y, zf = r if isinstance(r, tuple) else (r, None)

            def parts(t):
                p, d = fwAD.unpack_dual(t)
                return p, torch.zeros_like(p) if d is None else d
            yp, yt = parts(y)
            ob = {"ys": list(yp.shape), "y": tmajor(rec.c.obs(yp, cx), yp.dim()), "jy": tmajor(rec.c.obs(yt, cx), yp.dim()), "zf": []}
            if yt.shape != yp.shape: return {"err": "tangent of shape %s for a value of shape %s" % (yt.shape, yp.shape)}
            if zf is not None:
                zp, zt = parts(zf)
                ob["zf"] = [{"t": inst.N, "s": list(zp.shape), "v": rec.c.obs(zp, cx).tolist()}]
                z = rec.c.obs(zt, cx)
                ob["jzf"] = (z[None] if inst.squeeze else z).tolist()
            if idx is not None: ob["idx"] = idx
            return ob
    except Exception as e:
        return {"err": raised(e)}


def tangent_size(inst, cfg, sub, tan):
    import torch
    import torch.autograd.forward_ad as fwAD
    try:
        with fwAD.dual_level():
            T = inst.tensors()
            for k in sub: T[k] = fwAD.make_dual(T[k], tt(tan[k], cx=inst.cx))
            r = cfg[1](T)
            ts = [fwAD.unpack_dual(t)[1] for t in (r if isinstance(r, tuple) else (r,))]
            return max([1.0] + [float(t.abs().max()) for t in ts if t is not None and t.numel()])
    except Exception:
        return 2.0 ** 60


def second_view(rec, inst, cfg, sub, U, wy, wz):
    """H = gradient of sum_n Re<dL/da_n, u_n>, L = Re<wy, y> + Re<wz, zf>"""
    import torch
    cx = inst.cx
    try:
        T = inst.tensors()
        for k in sub: T[k].requires_grad_(True)
        r = cfg[1](T)
        y, zf = r if isinstance(r, tuple) else (r, None)
        if not cx:                       # (a diagonalisation may hold the real values in complex numbers)
            y = y.real if y.is_complex() else y
            zf = zf.real if zf is not None and zf.is_complex() else zf
        L = 0
        wt = []
        if wy is not None:
            wt.append(tt(wy, cx=cx).requires_grad_(True))
            L = L + (wt[0].conj() * y).real.sum() if cx else L + (wt[0] * y).sum()
        if wz is not None:
            z = tt(wz, cx=cx)
            L = L + ((z.conj() * zf).real.sum() if cx else (z * zf).sum())
        if not L.requires_grad:
            return None
        gs = torch.autograd.grad(L, [T[k] for k in sub], create_graph=True, allow_unused=True)
        S = 0
        for k, g in zip(sub, gs):
            if g is not None and g.requires_grad:
                u = tt(U[k], cx=cx)
                S = S + ((u.conj() * g).real.sum() if cx else (u * g).sum())
        zero = lambda k: torch.zeros_like(T[k])
        if isinstance(S, int):
            hs = [zero(k) for k in sub]; hw = None
        else:
            res = torch.autograd.grad(S, [T[k] for k in sub] + wt, allow_unused=True)
            hs = [zero(k) if h is None else h for k, h in zip(sub, res)]
            hw = res[-1] if wt else None
        ob = {"h": {k: flat(rec.c.obs(h, cx), cx) for k, h in zip(sub, hs)}}
        if wt:
            if hw is None: hw = torch.zeros_like(wt[0])
            ob["hw"] = tmajor(rec.c.obs(hw, cx), hw.dim())
        return ob
    except Exception as e:
        return {"err": raised(e)}


def job_C12(rec, rng, i, tier):
    op, tv = I.ALL[i % len(I.ALL)]
    cx = bool(rng.random() < .4)
    second = (i // len(I.ALL)) % 2 == 1 if i % 26 < 24 else i % 2 == 1
    kw = dict(scale="grad")
    if op == "lf":
        kw["form"] = ["df1", "df2", "tdf1", "tdf2"][(i // (2 * len(I.ALL))) % 4]
        kw["La"] = int(rng.integers(0, 4))
        if kw["La"] == 0: kw["Lb"] = 2
    inst = diag_inst(rng, i // 2) if i % 26 >= 24 else I.make(rng, op, tv, cx, **kw)
    cx = inst.cx
    names = getattr(inst, "wrt", sorted(inst.args))
    sub = sorted(rng.permutation(names)[:rng.integers(1, len(names) + 1)].tolist()) if rng.random() < .6 else names
    idxs = sorted({c[2] for c in inst.cfgs if c[2] is not None})
    idx = idxs[rng.integers(len(idxs))] if idxs and rng.random() < .3 else None
    cfgs = [c for c in inst.cfgs if c[2] == idx]
    info = dict(inst.describe(), wrt=sub, order=2 if second else 1)
    if not second:
        cfgs = [c for c in cfgs if not c[0].startswith(RAW)]
        tan = {k: I.ints(rng, np.shape(inst.args[k]), 3, cx) for k in sub}
        if not hasattr(inst, "wrt") and rng.random() < .2:
            w = int(rng.integers(2 ** 22, 2 ** 24)) * 2 + 1
            if tangent_size(inst, cfgs[0], sub, tan) * w * 8 < 2.0 ** 44: tan = {k: I.widen(rng, v, w, cx) for k, v in tan.items()}
        case = dual_case(rec, inst, {k: [tan[k]] for k in sub}, "DC" if cx else "DR")
        # where no direction is given the derivative is zero
        views = [("forward mode, " + c[0], fwd_view(rec, inst, c, sub, tan, idx)) for c in cfgs]
        rec.add(case, views, info)
        return
    P = rec.c.P
    try:
        y, _ = run_once(inst, cfgs[0])
    except Exception:
        return rec.add(inst.case(rec), [(cfgs[0][0], view_of(rec, cx, lambda: cfgs[0][1](inst.tensors()), times=inst.N))], info)
    mode = I.pick(rng, "y", "zf", "both") if inst.zf else "y"
    wy = I.ints(rng, tuple(y.shape), 2, cx) if mode != "zf" else None
    wz = I.ints(rng, fin_shape(inst), 2, cx) if mode != "y" else None
    U = {k: I.ints(rng, np.shape(inst.args[k]), 2, cx) for k in sub}
    tan = {}
    for k in sub:
        d = rng.integers(0, P, np.shape(inst.args[k]))
        tan[k] = d + 1j * rng.integers(0, P, np.shape(inst.args[k])) if cx else d
    case = inst.case(rec, ring="HC" if cx else "HR")
    for k, v in inst.args.items():
        case["arg"][k]["v"] = pack_hyper(rec.c.res(v, cx), rec.c.res(U[k], cx) if k in sub else None, rec.c.res(tan[k], cx) if k in sub else None, cx)
    case["acc0"] = [0]
    case["tan"] = {k: flat(rec.c.res(tan[k], cx), cx) for k in sub}
    case["dir"] = {k: 1 for k in sub}
    w = {}
    if wy is not None:
        w["y"] = tmajor(rec.c.res(wy, cx), np.ndim(wy))
        if idx is not None: w["idx"] = idx
    if wz is not None: w["zf"] = rec.c.res(wz, cx).tolist()
    case["w"] = w
    views = []
    for c in cfgs:
        v = second_view(rec, inst, c, sub, U, wy, wz)
        if v is not None:
            if "hw" in v and idx is not None: v["idx"] = idx
            views.append(("second derivative, " + c[0], v))
    if views: rec.add(case, views, info)
