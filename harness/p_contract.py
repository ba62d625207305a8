"""C16: which arguments are taken and what comes back.  Calls come from spec/ContractGen.tla and are decided by spec/CTrace.tla;
calls under compilers and tracers are recorded as values and decided by spec/Trace.tla."""
import json, os, re, warnings
import numpy as np
from core import run_tlc, raised, tt, view_of, TlcError
import inst as I

CALLS = []
GROUP = 12


def prepare(tier, seed, work, njobs):
    """the calls: every operator call one edit away from one that fits, the rest by simulation"""
    global CALLS

    def run(kind, sizes, K, extra, w):
        cfg = "SPECIFICATION Spec\nINVARIANTS Safe Fitting\nVIEW View\nCONSTANTS Kind = \"%s\" Sizes = {%s} K = %d\n" % (
            kind, ", ".join(map(str, sizes)), K)
        rc, out, st, di, _ = run_tlc("ContractGen", cfg, os.path.join(work, w), workers=1, mem=2500, extra=extra)
        if "is violated" in out: raise TlcError("contract model: " + out[-1500:])
        cs = sorted(set(json.loads(m)[2:] for m in re.findall(r'^("H .*")$', out, re.M)))
        if not cs: raise TlcError("no calls: " + out[-800:])
        return [json.loads(c) for c in cs]

    def sim(kind, sizes, K, n):
        return run(kind, sizes, K, ["-simulate", "num=%d" % n, "-depth", "18", "-seed", str(seed * 7919 + 13 + K)], "%s%d" % (kind, K))
    q = tier == "quick"
    rng = np.random.default_rng([seed, 16])
    allc = []
    raw = run("raw", (0, 1, 2, 3), 1, [], "raw")
    n = GROUP * njobs
    take = lambda cs, m: [cs[j] for j in rng.permutation(len(cs))[:m]]
    allc += take(raw, int(n * .45)) if q else raw
    allc += sim("raw", (0, 1, 2, 3, 4), 3, int(n * .1))
    small = run("rec", (1, 2, 3), 1, [], "rec1") + run("ssr", (1, 2, 3), 1, [], "ssr1")
    allc += take(small, int(n * .12)) if q else small
    allc += sim("rec", (1, 2, 3, 4), 2, int(n * .03)) + sim("ssr", (1, 2, 3, 4), 2, int(n * .06))
    for K, f in ((0, .03), (1, .12), (2, .06)): allc += sim("filt", (1, 2, 3, 4), K, int(n * f))
    rest = max(500, n - len(allc))
    allc += sim("ss", (1, 2, 3, 4), 0, rest // 3) + sim("ss", (1, 2, 3, 4, 5), 1, rest // 3) + sim("ss", (1, 2, 3), 2, rest // 3 + 1)
    CALLS = [allc[j] for j in rng.permutation(len(allc))][:n]


FLOATS = ["float32", "float64", "complex64", "complex128"]
EXTRA = {"lti_recur": ["float16", "bfloat16"]}


def obs(r):
    y, f = r if isinstance(r, tuple) else (r, None)
    return dict(ys=list(y.shape), fs=[-1] if f is None else list(f.shape), dt=str(y.dtype)[6:])


def layouts(torch, rng, v):
    """the same shape, stored differently"""
    k = rng.integers(0, 3)
    if k == 0 and v.dim() >= 2: return v.transpose(0, -1).contiguous().transpose(0, -1)
    if k == 1: return torch.stack([v, v], -1)[..., 0]
    return torch.cat([v.new_ones(3), v.flatten()])[3:].view(v.shape)


def raw_case(rec, rng, c):
    import torch
    from torch._subclasses.fake_tensor import FakeTensorMode
    op = getattr(torch.ops.philtorch, c["op"])
    ok = FLOATS + EXTRA.get(c["op"], ["float16", "bfloat16", "int64"])
    dts = [I.pick(rng, *ok)] * 3 if rng.random() < .5 else ["float32"] * 3
    if rng.random() < .06:
        dts = list(dts)
        dts[rng.integers(0, 3)] = I.pick(rng, *FLOATS)
    dt = dict(zip(("A", "zi", "x"), dts))
    mk = lambda dev=None: [torch.ones(c["sh"][k], dtype=getattr(torch, dt[k]), device=dev) for k in ("A", "zi", "x")]

    def go(args, alias=False):
        try:
            y = op(*args)
            o = obs(y)
            o["st"] = list(y.stride())
            return o
        except Exception as e:
            return {"err": "raised"}
    views = [("eager", go(mk())), ("eager other layout", go([layouts(torch, rng, v) for v in mk()]))]
    with FakeTensorMode():
        views.append(("fake", go(mk())))
        views.append(("fake other layout", go([layouts(torch, rng, v) for v in mk()])))
    views.append(("meta", go(mk("meta"))))
    rec.add(dict(op=c["op"], sh=c["sh"], dt=dt, ix=False, tv=False), views, dict(fam="op " + c["op"], shapes=c["sh"], dtypes=dt))


def pub_call(c):
    from philtorch import lti, lpv
    m = lpv if c["tv"] else lti
    ix = 0 if c["ix"] else None
    kw = lambda u: {} if u is None else dict(unroll_factor=u)
    if c["op"] == "rec": return lambda T, u: m.linear_recurrence(T["a"], T["zi"], T["x"], **kw(u))
    if c["op"] == "ssr": return lambda T, u: m.state_space_recursion(T["A"], T["zi"], T["x"], out_idx=ix, **kw(u))
    if c["op"] == "fir": return lambda T, u: m.fir(T["b"], T["x"], T.get("zi"))
    if c["op"] == "ap": return lambda T, u: m.allpole(T["a"], T["x"], T.get("zi"))
    if c["op"] == "comb": return lambda T, u: m.comb_filter(T["a"], c["d"], T["x"], T.get("zi"), **kw(u))
    if c["op"] == "lf": return lambda T, u: m.lfilter(T["b"], T["a"], T["x"], T.get("zi"), form=c["form"], backend=c["be"], **({} if c["be"] == "torchlpc" else kw(u)))
    return lambda T, u: m.state_space(T["A"], T["x"], B=T.get("Bm"), C=T.get("C"), D=T.get("D"), zi=T.get("zi"), out_idx=ix, **kw(u))


def pub_case(rec, rng, c):
    import torch
    from torch._subclasses.fake_tensor import FakeTensorMode
    fn = pub_call(c)
    dt = I.pick(rng, *FLOATS)
    sh = c["sh"]
    N = sh["x"][1] if len(sh["x"]) > 1 else 2
    mk = lambda: {k: torch.ones(v, dtype=getattr(torch, dt)) for k, v in sh.items()}

    def go(u):
        try:
            return obs(fn(mk(), u))
        except Exception as e:
            return {"err": "torchlpc" if "torchlpc." in str(e) else "raised"}
    us = [None, 1, 2, N, N + 1] if rng.random() < .3 else [None, 1, int(rng.integers(2, N + 2))]
    if c["op"] in ("fir", "ap") or c.get("be") == "torchlpc": us = [None]
    views = [("unroll %s" % u, go(u)) for u in us]
    if rng.random() < .5:
        with FakeTensorMode():
            # torchlpc, a dependency, has no fake kernels: nothing to see where the call ends up there
            views += [(l, v) for l, v in [("fake unroll %s" % u, go(u)) for u in us[:2] + us[2:][:1]] if v.get("err") != "torchlpc"]
    more = {k: c[k] for k in ("form", "be", "d") if k in c}
    rec.add(dict(op=c["op"], sh=sh, dt={k: dt for k in sh}, ix=c["ix"], tv=c["tv"], **more), views,
            dict(more, fam="%s.%s" % ("lpv" if c["tv"] else "lti", c["op"]), shapes=sh, dtype=dt, out_idx=c["ix"]))


# ---------------------------------------------------------------- compilers and tracers
def traced(rec, rng, tier):
    """an instance evaluated through torch.compile, make_fx or functionalisation, forward and backward"""
    import torch
    t = rec.module("Trace")
    op, tv = I.ALL[rng.integers(0, len(I.ALL))]
    cx = bool(rng.random() < .3)
    inst = I.make(rng, op, tv, cx, scale="small", **({} if op in ("fir", "ap") else {"many": False}))
    lab, fn, ix = inst.cfgs[rng.integers(0, len(inst.cfgs))]
    T = inst.tensors()
    names = sorted(T)
    flat = lambda *a: fn(dict(zip(names, a)))
    args = [T[k] for k in names]
    how = ["make_fx", "make_fx symbolic", "make_fx fake", "aot_eager", "aot_eager dynamic", "functionalize", "inductor", "export"][
        rng.choice(8, p=[.2, .12, .1, .2, .12, .16, .05, .05])]

    def run():
        from torch.fx.experimental.proxy_tensor import make_fx
        torch._dynamo.reset()
        if how.startswith("make_fx"):
            mode = {"make_fx": "real", "make_fx symbolic": "symbolic", "make_fx fake": "fake"}[how]
            g = make_fx(flat, tracing_mode=mode)(*[a.clone() for a in args])
            return tup(g(*[a.clone() for a in args]))
        if how == "functionalize":
            return tup(torch.func.functionalize(flat)(*[a.clone() for a in args]))
        if how == "export":
            class Mod(torch.nn.Module):
                def forward(self, *a): return flat(*a)
            ep = torch.export.export(Mod(), tuple(a.clone() for a in args), strict=False)
            return tup(ep.module()(*[a.clone() for a in args]))
        g = torch.compile(flat, backend=how.split()[0], dynamic=True if "dynamic" in how else None, fullgraph=False)
        return tup(g(*[a.clone() for a in args]))

    def tup(r):
        return tuple(r) if isinstance(r, (list, tuple)) else r
    views = [("eager " + lab, view_of(t, inst.cx, lambda: fn(inst.tensors()), times=inst.N, idx=ix)),
             (how + " " + lab, view_of(t, inst.cx, run, times=inst.N, idx=ix, dtype=args[0].dtype))]
    # dependencies that cannot be traced: torchlpc has no fake kernels, functionalize no rule for autograd functions
    views = [v for v in views if not any(w in v[1].get("err", "") for w in ("torchlpc.", "Functionalize rule for custom_function"))]
    t.add(inst.case(t), views, dict(inst.describe(), how=how, fam="traced " + how))


def job_C16(rec, rng, i, tier):
    import logging
    for n in ("torch", "torch._subclasses.fake_tensor", "torch._dynamo", "torch._inductor", "torch.export", "torch.fx"):
        logging.getLogger(n).setLevel(logging.CRITICAL)
    if i % 8 == 7:
        return traced(rec, rng, tier)
    for c in CALLS[i * GROUP:(i + 1) * GROUP]:
        (raw_case if c["op"] in ("lti_recur", "lti_recurN", "lti_recur2", "recurN", "recur2") else pub_case)(rec, rng, c)
