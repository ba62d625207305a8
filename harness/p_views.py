"""C13 (rows are independent), C15 (memory layout and dtype)."""
import numpy as np
from core import view_of, raised, tt, tmajor
import inst as I
import p_grad as G


def cat_views(fns, squeeze=False):
    """a call made in parts along the batch; the parts are put together again"""
    import torch

    def run():
        rs = [f() for f in fns]
        if isinstance(rs[0], tuple):
            return torch.cat([r[0] for r in rs], 0), torch.cat([r[1] for r in rs], 0)
        return torch.cat(rs, 0)
    return run


def roles_ok(inst, ax, shapes, B, N):
    if inst.op != "ss": return True
    saved = dict(inst.axes)
    for k in ("Bm", "C", "D"):
        if k in ax: inst.axes[k + "*"] = ax[k]
    try:
        return I.unambiguous(inst, shapes, B, N)
    finally:
        inst.axes = saved


def restrict(inst, ax, T, ix):
    return {k: v if "B" not in ax[k] else v.index_select(ax[k].index("B"), ix) for k, v in T.items()}


SPREAD = {"MM": "BMM", "NMM": "BNMM", "M": "BM", "1": "B", "N": "BN", "O": "BO", "P": "BP", "Q": "BQ", "NP": "BNP", "NQ": "BNQ", "": "B",
          "F": "BF", "KF": "BKF", "MF": "BMF", "NMF": "BNMF", "NM": "BNM", "KM": "BKM", "NKM": "BNKM", "K": "BK", "NK": "BNK", "NF": "BNF",
          "NKF": "BNKF"}


def spread(rng, inst, ax, T):
    """some of the shared arguments repeated for every row"""
    names = [k for k in T if "B" not in ax[k] and k != "x" and ax[k] in SPREAD]
    if getattr(inst, "note", {}).get("given", "A") != "A": names = [k for k in names if k not in "Aa"]    # (the decomposition would have to follow)
    if not names: return None
    pickd = [k for k in names if rng.random() < .7] or names[:1]
    ax2, T2 = dict(ax), dict(T)
    for k in pickd:
        new = SPREAD[ax[k]]
        if k == "D" and ax[k] == "" and len(ax["x"]) == 3: continue
        v = T[k]
        if ax[k] == "1": v = v[0]
        T2[k] = v.unsqueeze(0).repeat((inst.B,) + (1,) * v.dim())
        ax2[k] = new
    if ax2 == ax: return None
    if not roles_ok(inst, ax2, {k: tuple(v.shape) for k, v in T2.items()}, inst.B, inst.N): return None
    return [k for k in T if ax2[k] != ax[k]], T2


def batch_inst(rng, i, rows=False, **kw):
    op, tv = I.ALL[i % len(I.ALL)]
    cx = bool(rng.random() < .4)
    B = I.pick(rng, 2, 2, 3, 3, 4, 5, 6, 9, 17, 33) if kw.get("scale") != "grad" else I.pick(rng, 2, 3)
    if op == "lf": kw["oned"] = False
    if rows and rng.random() < .08:
        import p_diag
        return p_diag.any_inst(rng, lambda n: n.B > 1 and not n.squeeze and (n.note["given"] == "A" or not any(r.startswith("B") for k, r in n.axes.items() if k in "Aa")))
    inst = I.make(rng, op, tv, cx, B=B, **kw)
    return inst


def job_C13(rec, rng, i, tier):
    import torch
    n = len(I.ALL)
    kind = (i // n) % 3
    if kind == 2 and rng.random() < .5: return taint_grad(rec, rng, i)
    if kind >= 1: return taint(rec, rng, i)
    inst = batch_inst(rng, i, rows=True)
    ax = I.resolved(inst)
    if ax is None: return
    views = []
    plain = [c for c in inst.cfgs]

    def add(label, cfg, run):
        views.append(("%s, %s" % (label, cfg[0]), view_of(rec, inst.cx, run, times=inst.N, idx=cfg[2])))
    B = inst.B
    for rep in range(3):
        cfg = plain[rng.integers(len(plain))]
        lab, fn, idx = cfg
        T = inst.tensors()
        add("batch", cfg, lambda: fn(T))
        # cut into parts: single rows, or any partition
        parts = [[b] for b in range(B)] if rep == 0 or rng.random() < .3 else [p.tolist() for p in np.array_split(np.arange(B), int(rng.integers(1, B + 1)))]
        sh = [{k: tuple(v.shape) for k, v in restrict(inst, ax, T, torch.tensor(p)).items()} for p in parts]
        if all(roles_ok(inst, ax, s, len(p), inst.N) for s, p in zip(sh, parts)):
            add("parts %s" % parts, cfg, cat_views([lambda p=p: fn(restrict(inst, ax, T, torch.tensor(p))) for p in parts]))
        p = torch.tensor(rng.permutation(B))
        inv = torch.argsort(p)

        def perm():
            r = fn(restrict(inst, ax, T, p))
            return (r[0][inv], r[1][inv]) if isinstance(r, tuple) else r[inv]
        add("permuted", cfg, perm)
        s = spread(rng, inst, ax, T)
        if s: add("repeated " + ",".join(s[0]), cfg, lambda: fn(s[1]))
        # one row repeated many times gives one row many times
        if rep == 0:
            b = int(rng.integers(B))
            q = torch.tensor([b] + list(range(B)) + [b])
            Tq = restrict(inst, ax, T, q)
            if roles_ok(inst, ax, {k: tuple(v.shape) for k, v in Tq.items()}, B + 2, inst.N):
                def grown():
                    r = fn(Tq)
                    return (r[0][1:-1], r[1][1:-1]) if isinstance(r, tuple) else r[1:-1]
                add("among more rows", cfg, grown)
    rec.add(inst.case(rec), views, dict(inst.describe(), kind="rows"))


BAD = [float("nan"), float("inf"), float("-inf")]


def spoil(rng, inst, ax, T, rows):
    """NaN or infinity somewhere in the given rows"""
    names = [k for k in T if "B" in ax[k] and T[k].numel()]
    some = [k for k in names if rng.random() < .6] or ["x"]
    for k in some:
        for b in rows:
            v = T[k].select(ax[k].index("B"), b)
            if v.numel() == 0: continue
            m = v.numel()
            where = range(m) if rng.random() < .25 else set(int(j) for j in rng.integers(0, m, size=rng.integers(1, 3)))
            for j in where:
                ix = np.unravel_index(j, tuple(v.shape))
                v[ix] = BAD[rng.integers(3)] if not inst.cx or rng.random() < .5 else complex(0, BAD[rng.integers(3)])
    return T


def taint(rec, rng, i):
    inst = batch_inst(rng, i, many=False) if I.ALL[i % len(I.ALL)][0] not in ("fir", "ap") else batch_inst(rng, i)
    ax = I.resolved(inst)
    if ax is None: return
    rows = sorted(rng.permutation(inst.B)[:rng.integers(1, inst.B)].tolist())
    views = []
    state = rng.integers(1 << 40)
    for lab, fn, idx in inst.cfgs:
        T = spoil(np.random.default_rng(state), inst, ax, inst.tensors(), rows)
        views.append((lab, view_of(rec, inst.cx, lambda: fn(T), times=inst.N, idx=idx)))
    case = inst.case(rec)
    case["taint"] = [r + 1 for r in rows]
    rec.add(case, views, dict(inst.describe(), kind="tainted rows", rows=rows))


def taint_grad(rec, rng, i):
    inst = batch_inst(rng, i, scale="grad")
    ax = I.resolved(inst)
    if ax is None: return
    cx = inst.cx
    rows = sorted(rng.permutation(inst.B)[:rng.integers(1, inst.B)].tolist())
    names = sorted(k for k in inst.args if "B" in ax[k] and np.size(inst.args[k]))
    cfgs = [c for c in inst.cfgs if c[2] is None]
    try:
        y, zf = G.run_once(inst, cfgs[0])
    except Exception:
        return rec.add(inst.case(rec), [(cfgs[0][0], view_of(rec, cx, lambda: cfgs[0][1](inst.tensors()), times=inst.N))], inst.describe())
    wy = I.ints(rng, tuple(y.shape), 3, cx)
    wz = I.ints(rng, G.fin_shape(inst), 3, cx) if inst.zf else None
    state = rng.integers(1 << 40)
    plain = inst.tensors
    inst.tensors = lambda: spoil(np.random.default_rng(state), inst, ax, plain(), rows)
    views = []
    for c in cfgs:
        v = G.grad_view(rec, inst, c, names, wy, wz)
        for k, g in v.get("g", {}).items():        # nothing is said about the tainted rows themselves
            sh = np.shape(inst.args[k])
            a = np.array(g).reshape(sh + ((2,) if cx else ()))
            sl = [slice(None)] * a.ndim
            sl[ax[k].index("B")] = rows
            a[tuple(sl)] = 0
            v["g"][k] = G.flat(a, cx)
        views.append(("gradient, " + c[0], v))
    del inst.tensors
    case = G.vjp_case(rec, rng, inst, names, None, wy, wz)
    case["taint"] = [r + 1 for r in rows]
    rec.add(case, views, dict(inst.describe(), kind="gradients with tainted rows", rows=rows))


# ---------------------------------------------------------------- C15
def layout(rng, v, cx, grad=False):
    """the same values in another memory layout; differentiable"""
    import torch
    k = rng.integers(0, 8)
    d = v.dim()
    if k == 0 or v.numel() == 0: return "contiguous", v.contiguous()
    if k == 1 and d >= 2:
        p = rng.permutation(d).tolist()
        return "permuted %s" % p, v.permute(p).contiguous().permute(np.argsort(p).tolist())
    if k == 2:
        s = int(rng.integers(2, 4))
        at = int(rng.integers(0, d + 1))
        pos = int(rng.integers(0, s))
        junk = torch.full_like(v.detach(), 7)
        return "strided by %d at %d" % (s, at), torch.stack([v if j == pos else junk for j in range(s)], at).select(at, pos)
    if k == 3 and d:
        ax = int(rng.integers(0, d))
        pre, post = int(rng.integers(1, 4)), int(rng.integers(0, 3))
        j = lambda n: torch.full([n if q == ax else v.size(q) for q in range(d)], 5, dtype=v.dtype)
        return "slice of axis %d" % ax, torch.cat([j(pre), v, j(post)], ax).narrow(ax, pre, v.size(ax))
    if k == 4 and cx: return "conjugate view", v.conj_physical().conj()
    if k in (4, 5): 
        if not cx: return "negative view", torch._neg_view(-v)
        return "conjugate and negative view", torch._neg_view(-v).conj_physical().conj()
    if k == 6:
        if not cx: return "real part view", torch.view_as_complex(torch.stack([v, torch.full_like(v.detach(), 3)], -1)).real if v.dtype in (torch.float32, torch.float64) else v
        return "permuted conj", (v.mT.contiguous().mT.conj_physical().conj() if d >= 2 else v.conj_physical().conj())
    if k == 7 and not cx and v.dtype in (torch.float32, torch.float64):
        return "imaginary part of a conjugate", torch.view_as_complex(torch.stack([torch.full_like(v.detach(), 3), -v], -1)).conj().imag
    return "contiguous", v.contiguous()


def lay_inst(rng, i, budget, grad=False):
    op, tv = I.ALL[i % len(I.ALL)]
    cx = bool(rng.random() < .45)
    kw = {} if op in ("fir", "ap") else {"many": False}
    if grad: kw["scale"] = "grad"
    with I.budget(budget):
        return I.make(rng, op, tv, cx, **kw)


def job_C15(rec, rng, i, tier):
    import torch
    n = len(I.ALL)
    kind = (i // n) % 6
    torch.set_default_dtype(torch.float64 if rng.random() < .25 else torch.float32)     # (not the business of any function with tensor arguments)
    if kind == 5: return mixed(rec, rng, i)
    if kind in (0, 1): return layouts(rec, rng, i)
    if kind == 2: return layout_grads(rec, rng, i)
    if kind == 3: return dtypes(rec, rng, i)
    return expanded(rec, rng, i) if rng.random() < .6 else half(rec, rng, i)


def layouts(rec, rng, i):
    import p_diag
    inst = lay_inst(rng, i, 2.0 ** 40) if rng.random() > .08 else p_diag.any_inst(rng)
    views = []
    for lab, fn, idx in inst.cfgs:
        for _ in range(2):
            T, names = inst.tensors(), []
            for k in T:
                l, T[k] = layout(rng, T[k], inst.cx)
                names.append("%s %s" % (k, l))
            views.append(("%s: %s" % (lab, "; ".join(names)), view_of(rec, inst.cx, lambda: fn(T), times=inst.N, idx=idx)))
    rec.add(inst.case(rec), views, dict(inst.describe(), kind="layout"))


def layout_grads(rec, rng, i):
    inst = lay_inst(rng, i, 2.0 ** 40, grad=True)
    cx = inst.cx
    names = sorted(inst.args)
    cfgs = [c for c in inst.cfgs if c[2] is None]
    try:
        y, zf = G.run_once(inst, cfgs[0])
    except Exception:
        return rec.add(inst.case(rec), [(cfgs[0][0], view_of(rec, cx, lambda: cfgs[0][1](inst.tensors()), times=inst.N))], inst.describe())
    wy = I.ints(rng, tuple(y.shape), 3, cx)
    wz = I.ints(rng, G.fin_shape(inst), 3, cx) if inst.zf else None
    views = []
    for c in cfgs:
        used = []

        def fn(T):
            T = dict(T)
            for k in T:
                l, T[k] = layout(rng, T[k], cx)
                used.append("%s %s" % (k, l))
            return c[1](T)
        v = G.grad_view(rec, inst, (c[0], fn, None), names, wy, wz, int(rng.integers(0, 4)))
        views.append(("gradient, %s: %s" % (c[0], "; ".join(used)), v))
    rec.add(G.vjp_case(rec, rng, inst, names, None, wy, wz), views, dict(inst.describe(), kind="gradients through layouts"))


def dtypes(rec, rng, i):
    import torch
    inst = lay_inst(rng, i, 2.0 ** 21)
    views = []
    for dt in ((torch.complex64, torch.complex128) if inst.cx else (torch.float32, torch.float64)):
        for lab, fn, idx in inst.cfgs:
            T = inst.tensors(dt)
            if rng.random() < .4: T = {k: layout(rng, v, inst.cx)[1] for k, v in T.items()}
            views.append(("%s, %s" % (str(dt)[6:], lab), view_of(rec, inst.cx, lambda: fn(T), times=inst.N, idx=idx, dtype=dt)))
    rec.add(inst.case(rec), views, dict(inst.describe(), kind="dtype"))


def complexify(rng, inst, some):
    """makes some arguments of a real instance complex, without changing how anything grows"""
    for k in some:
        v = inst.args[k]
        m = int(np.abs(v).max()) if np.size(v) else 1
        inst.args[k] = v * rng.choice([1j, -1j]) if k in "Aa" else v + 1j * I.ints(rng, np.shape(v), max(m, 1))


def mixed(rec, rng, i):
    """arguments of different dtypes: a call that returns at all has promoted them"""
    import torch
    import p_diag
    op, tv = I.ALL[i % len(I.ALL)]
    single = rng.random() < .3
    if rng.random() < .12 and not single: inst = p_diag.any_inst(rng, lambda n: not n.cx)
    else:
        with I.budget(2.0 ** 21 if single else 2.0 ** 40): inst = I.make(rng, op, tv, bool(single and rng.random() < .4), **({} if op in ("fir", "ap") else {"many": False}))
    names = sorted(inst.args)
    if inst.fam.endswith(("diag_state_space", "diag_ssm")): names = [k for k in names if k not in "Aa"]
    some = [k for k in names if rng.random() < .5] or ["x"]
    if single:
        lo, hi = (torch.complex64, torch.complex128) if inst.cx else (torch.float32, torch.float64)
        kinds = {k: lo if k in some else hi for k in inst.args}
    else:
        complexify(rng, inst, some)
        inst.cx = True
        kinds = {k: torch.complex128 if k in some else torch.float64 for k in inst.args}
    views = []
    for lab, fn, idx in inst.cfgs:
        T = {k: tt(v, kinds[k], inst.cx) for k, v in inst.args.items()}
        v = view_of(rec, inst.cx, lambda: fn(T), times=inst.N, idx=idx)
        if "err" not in v: views.append((lab, v))
    if views: rec.add(inst.case(rec), views, dict(inst.describe(), kind="mixed dtypes", lower=some))


def abs_bound(inst):
    """no partial sum of any way of computing the recursion is larger"""
    B, N = inst.B, inst.N
    x, zi = np.abs(inst.args["x"]), np.abs(inst.args["zi"])
    if inst.op == "rec":
        a = np.abs(inst.args["a"])
        A = a.reshape(1, N, 1, 1) if inst.axes["a"] == "N" else a.reshape(B, N, 1, 1) if inst.tv else a.reshape(-1, 1, 1, 1)
        zi = np.broadcast_to(zi, (B,))[:, None]
        x = x[..., None]
    else:
        A = np.abs(inst.args["A"])
        A = (A[None] if A.ndim == 3 else A) if inst.tv else (A[None, None] if A.ndim == 2 else A[:, None])
        if x.ndim == 2: x = np.concatenate([x[..., None], np.zeros(x.shape + (inst.M - 1,))], -1)
    A = np.broadcast_to(A, (B, N) + A.shape[2:]).astype(float)
    h = np.maximum(zi, 1).astype(float)
    m = h.max()
    for t in range(N + 2):
        h = np.einsum("bij,bj->bi", A[:, t % N], h) + np.maximum(x[:, t % N], 1)
        m = max(m, h.max())
    return m


def half(rec, rng, i):
    """half precisions and integers, for the compiled operators and the plain recursions"""
    import torch
    op = ["ssr", "rec"][rng.integers(0, 2)]
    tv = bool(rng.integers(0, 2)) if op == "ssr" else False
    tiny = rng.random() < .7
    if tiny:
        with I.budget(2.0 ** 40, 2.0 ** 5):
            for _ in range(60):
                inst = I.make(rng, op, tv, False, scale="grad")
                top = abs_bound(inst)
                if top < 2 ** 11: break
    else:
        inst = I.make(rng, op, tv, False)
        top = np.inf
    views = []
    for lab, fn, idx in inst.cfgs:
        ds = []
        if lab.startswith(("extension", "LTIRecurrence")): continue
        if lab.startswith("op ") and op == "ssr": ds.append(torch.int64)
        if top < 2 ** 11: ds.append(torch.float16)
        if top < 2 ** 8: ds.append(torch.bfloat16)
        for dt in ds:
            T = inst.tensors(dt)
            views.append(("%s, %s" % (str(dt)[6:], lab), view_of(rec, False, lambda: fn(T), times=inst.N, idx=idx, dtype=dt)))
    if views: rec.add(inst.case(rec), views, dict(inst.describe(), kind="half and int64"))


def expanded(rec, rng, i):
    """arguments that are constant along an axis, given with stride 0"""
    import torch
    inst = lay_inst(rng, i, 2.0 ** 40)
    cand = [(k, a) for k, v in inst.args.items() for a in range(np.ndim(v)) if np.shape(v)[a] > 1 and np.size(v)]
    rng.shuffle(cand)
    used = []
    small = inst.op in ("lf", "ap", "comb", "rec") and not inst.tv     # keep the growth bound: rows may be made equal, other axes of the state matrix not
    for k, a in cand:
        k, a = str(k), int(a)
        role = inst.axes[k]
        if len(role) != np.ndim(inst.args[k]): continue
        if k in ("A", "a") and role[a] != "B": continue
        if any(u == k for u, _ in used): continue
        v = inst.args[k]
        inst.args[k] = np.repeat(np.take(v, [0], axis=a), v.shape[a], axis=a)
        used.append((k, a))
        if len(used) == 3: break
    if not used: return
    views = []
    for lab, fn, idx in inst.cfgs:
        T = inst.tensors()
        views.append((lab, view_of(rec, inst.cx, lambda: fn(T), times=inst.N, idx=idx)))
        T = inst.tensors()
        for k, a in used:
            T[k] = T[k].narrow(a, 0, 1).expand(*T[k].shape)
        views.append(("%s, expanded %s" % (lab, used), view_of(rec, inst.cx, lambda: fn(T), times=inst.N, idx=idx)))
    rec.add(inst.case(rec), views, dict(inst.describe(), kind="expanded", expanded=used))
