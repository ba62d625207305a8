"""C14: calls are pure.  Histories come from spec/Schedule.tla (TLC simulation), sessions are checked against spec/Purity.tla."""
import hashlib, json, os, re, threading
import numpy as np
from core import run_tlc, tt, raised, TlcError
import inst as I
import p_help as H

MODES = ["plain", "nograd", "inference", "grad", "backward", "threads1", "threads4", "thread"]
HIST = []


def prepare(tier, seed, work, njobs):
    """as many histories as there are jobs; every short history first in the thorough tier"""
    global HIST
    HIST = []

    def run(S, K, modes, extra, w):
        cfg = "SPECIFICATION Spec\nINVARIANT TypeOK\nCONSTANTS S = %d K = %d Modes = {%s}\n" % (S, K, ", ".join('"%s"' % m for m in modes))
        rc, out, st, di, _ = run_tlc("Schedule", cfg, os.path.join(work, w), workers=1, mem=1500, extra=extra)
        hs = [json.loads(json.loads(m)[2:]) for m in re.findall(r'^("H .*")$', out, re.M)]
        if not hs: raise TlcError("no schedules: " + out[-800:])
        return hs
    short = run(1, 3, ["plain", "grad", "backward"], ["-continue"], "short") if tier == "quick" else run(2, 3, ["plain", "grad", "backward", "nograd"], [], "short")
    rng = np.random.default_rng(seed)
    HIST = [short[j] for j in rng.permutation(len(short))[:njobs // 4]]
    HIST += run(4, 18, MODES, ["-simulate", "num=%d" % (njobs - len(HIST)), "-depth", "20", "-seed", str(seed * 7919 + 13)], "sim")


# ---------------------------------------------------------------- what can be called
class Slot:
    def __init__(self, name, T, calls, exact, spoil, diff=True):
        self.name, self.T, self.calls, self.exact, self.diff = name, T, calls, exact, diff
        self.spoil = spoil
        self.gen = 0
        self.orig = None
        self.last = None


def inst_slot(rng, k=None):
    cx = bool(rng.random() < .4)
    k = rng.integers(0, 14) if k is None else k
    if k < 12:
        op, tv = I.ALL[k]
        kw = {} if op in ("fir", "ap") else {"many": False}
        with I.budget(2.0 ** 36):
            inst = I.make(rng, op, tv, cx, **kw)
        exact = True
    else:
        import p_diag
        with I.budget(2.0 ** 29):
            inst = p_diag.diag_inst(rng) if k == 12 else p_diag.lf_diag_inst(rng)
        exact = False
    raw = ("op ", "LTIRec", "extension")
    T = inst.tensors()
    if rng.random() < .25:
        import torch
        dt = I.pick(rng, torch.float32, torch.float64) if not inst.cx else I.pick(rng, torch.complex64, torch.complex128)
        g = torch.Generator().manual_seed(int(rng.integers(1 << 30)))
        T = {k: (torch.randn(v.shape, generator=g, dtype=dt) * .3) for k, v in T.items()}
        exact = False
    calls = [(c[0], (lambda fn: lambda T: fn(T))(c[1])) for c in inst.cfgs]
    if inst.fam == "lti.lfilter df2" and inst.args.get("zi") is None and rng.random() < .5: pass
    return Slot(inst.fam, T, calls, exact, [k for k in T if k in ("x", "zi", "b", "C", "D", "Bm")])


def helper_slot(rng, kind=None):
    import torch
    from philtorch import mat, poly, lti
    from philtorch.lpv.utils import diag_shift
    from philtorch.lti.interp import cubic_spline
    from philtorch.prototype.nl import newton_solve
    cx = bool(rng.random() < .4)
    M = I.pick(rng, 1, 2, 3, 4)
    lead = I.pick(rng, (), (2,), (3,))
    t = lambda shape, r=9: tt(I.ints(rng, shape, r, cx), cx=cx)
    kind = rng.integers(0, 12) if kind is None else kind
    if kind == 0: return Slot("companion", dict(a=t(lead + (M,))), [("", lambda T: mat.companion(T["a"]))], True, ["a"])
    if kind == 1: return Slot("vandermonde", dict(p=t(lead + (M,), 3)), [("", lambda T: mat.vandermonde(T["p"]))], True, ["p"])
    if kind == 2:
        n = int(rng.integers(0, 20))
        A = tt(I.lti_matrix(rng, M, n + 1, cx)[0], cx=cx)
        return Slot("matrix_power_accumulate", dict(A=A), [("%d" % n, lambda T: mat.matrix_power_accumulate(T["A"], n)),
                                                          ("1", lambda T: mat.matrix_power_accumulate(T["A"], 1)),
                                                          ("3", lambda T: mat.matrix_power_accumulate(T["A"], 3))], True, ["A"])
    if kind == 3:
        n = int(rng.integers(1, 20))
        A = tt(I.lpv_matrices(rng, n, M, cx)[0], cx=cx)
        return Slot("matrices_cumdot", dict(A=A), [("", lambda T: mat.matrices_cumdot(T["A"]))], True, ["A"])
    if kind == 4:
        u, v = t(lead + (int(rng.integers(1, 7)),)), t(lead + (int(rng.integers(1, 5)),), 2)
        v[..., 0] = 1
        return Slot("polydiv", dict(u=u, v=v), [("", lambda T: poly.polydiv(T["u"], T["v"]))], True, ["u"])
    if kind == 5:
        La, Lb = H.orders(rng)
        La = max(La, 1)
        a, b = tt(H.dens(rng, (), La, 6, cx), cx=cx), t((Lb,))
        x = t((Lb - 1,)); y = t((La,))
        return Slot("initial conditions", dict(a=a, b=b, x=x, y=y), [("lfilter_zi", lambda T: lti.lfilter_zi(T["a"], T["b"])),
                    ("lfilter_zi df2", lambda T: lti.lfilter_zi(T["a"], T["b"], transpose=False)),
                    ("lfiltic", lambda T: lti.lfiltic(T["b"], T["a"], T["y"], T["x"])), ("lfiltic no x", lambda T: lti.lfiltic(T["b"], T["a"], T["y"]))],
                    False, ["b", "x", "y"])
    if kind == 6:
        La, Lb = H.orders(rng)
        La = max(La, 1)
        a, b = tt(H.dens(rng, (), La, 6, False)), tt(I.ints(rng, (Lb,), 3))
        n = 3 * max(La + 1, Lb) + int(rng.integers(1, 6))
        x = tt(I.ints(rng, (2, n), 9)) * .01
        return Slot("filtfilt", dict(a=a * .1, b=b, x=x), [("", lambda T: lti.filtfilt(T["b"], T["a"], T["x"])),
                    ("df2", lambda T: lti.filtfilt(T["b"], T["a"], T["x"], form="df2")),
                    ("unpadded", lambda T: lti.filtfilt(T["b"], T["a"], T["x"], padmode=None))], False, ["x", "b"])
    if kind == 7:
        x = tt(I.ints(rng, (2, 26), 9))
        m = int(rng.integers(1, 6))
        return Slot("cubic_spline", dict(x=x), [("", lambda T: cubic_spline(T["x"], m)), ("scipy", lambda T: cubic_spline(T["x"], m, scipy_padding=True)),
                    ("cascade", lambda T: cubic_spline(T["x"], m, parallel_form=False))], False, ["x"])
    if kind == 8:
        c = t(lead + (int(rng.integers(1, 6)), M))
        return Slot("diag_shift", dict(c=c), [("%d %s" % (o, d), lambda T, o=o, d=d: diag_shift(T["c"], o, discard_end=d)) for o in (0, 1, 2) for d in (True, False)], True, ["c"])
    if kind == 9:
        A, L, V = H.eig_system(rng, min(M, 3), cx)
        return Slot("find_eigenvectors", dict(A=tt(A, cx=True), L=tt(L, cx=True)), [("", lambda T: mat.find_eigenvectors(T["A"], T["L"]))], False, [])
    if kind == 10:
        for _ in range(50):
            D, X, f = H.newton_inst(rng)
            if sum(len(m) for m in f) < 6: break
        fn, jac = H.poly_fn(f, D)
        L = int(rng.integers(3, 7))
        T = dict(x=tt(I.ints(rng, (2, L, X), 1)) * .1, y0=tt(I.ints(rng, (2, L, D), 1)) * .1, z=tt(I.ints(rng, (2, D), 1)) * .1)
        return Slot("newton_solve", T, [("%d %s" % (mi, j is None), lambda T, mi=mi, j=j: newton_solve(fn, T["x"], T["y0"], T["z"], max_iter=mi, fprime=j))
                                        for mi in (1, 2) for j in (None, jac)], False, ["x", "y0", "z"], diff=False)
    # the compiled operators directly
    o = torch.ops.philtorch
    B, N = int(rng.integers(1, 4)), int(rng.integers(1, 7))
    if rng.random() < .5:
        T = dict(a=t((B,), 1), z=t((B,)), x=t((B, N)))
        return Slot("op lti_recur", T, [("", lambda T: o.lti_recur(T["a"], T["z"], T["x"]))], True, ["x", "z"])
    M = I.pick(rng, 2, 3)
    T = dict(A=t((M, M), 1), Bt=t((B, M, M), 1), At=t((N, M, M), 1), z=t((B, M)), x=t((B, N, M)))
    calls = [("lti_recurN", lambda T: o.lti_recurN(T["A"], T["z"], T["x"])), ("lti_recurN batch", lambda T: o.lti_recurN(T["Bt"], T["z"], T["x"])),
             ("recurN", lambda T: o.recurN(T["At"], T["z"], T["x"]))]
    if M == 2: calls += [("lti_recur2", lambda T: o.lti_recur2(T["A"], T["z"], T["x"])), ("recur2", lambda T: o.recur2(T["At"], T["z"], T["x"]))]
    return Slot("ops", T, calls, True, ["x", "z"])


# ---------------------------------------------------------------- looking at memory
def digest(t):
    import torch
    with torch.no_grad():
        v = t.detach().resolve_conj().resolve_neg().contiguous()
        v = v.view(torch.uint8) if v.dtype == torch.bool else torch.view_as_real(v) if v.is_complex() else v
        a = v.numpy()
        if a.dtype.kind == "f": a = a + 0.0
        return hashlib.blake2b(a.tobytes() + str((tuple(t.shape), str(t.dtype))).encode(), digest_size=9).hexdigest()


def meta(t):
    import torch
    ver = "-" if t.is_inference() else t._version
    try:
        leaf, rg = t.is_leaf, t.requires_grad
    except RuntimeError:        # a view whose history was made invalid by the caller
        leaf = rg = "-"
    return "%s %s %s %s %s %s %s %s%s" % (tuple(t.shape), tuple(t.stride()), t.storage_offset(), t.dtype, ver, rg, t.grad is None if leaf is True else "", t.is_conj(), t.is_neg())


def storage(t):
    return t.untyped_storage().data_ptr() or -id(t)


def env():
    import torch
    return "%s %s %s %d %d %s %s" % (torch.is_grad_enabled(), torch.is_inference_mode_enabled(), torch.get_default_dtype(), torch.get_num_threads(),
                                     int(torch.get_rng_state().to(torch.int64).sum()) % 100003, torch.are_deterministic_algorithms_enabled(),
                                     hashlib.md5(np.random.get_state()[1].tobytes()).hexdigest()[:6])


# with nothing to compute (a factor, a power or a length of one) these hand back what they were given
IDENTITY = ("cubic_spline", "matrices_cumdot", "matrix_power_accumulate")


class Session:
    def __init__(self, rng):
        self.rng = rng
        self.live = {}          # id -> tensor
        self.events = []
        self.n = 0
        self.env0 = env()

    def track(self, t, kind):
        self.n += 1
        k = "%s%d" % (kind, self.n)
        self.live[k] = t
        return k

    def look(self, ev):
        ev["look"] = {k: digest(t) for k, t in self.live.items()}
        ev["meta"] = {k: meta(t) for k, t in self.live.items()}
        ev["env"] = env()
        self.events.append(ev)

    def adopt(self, slot):
        """arguments of a slot, and the memory around them, become visible"""
        import torch
        slot.ids = {}
        for k, t in slot.T.items():
            slot.ids[k] = self.track(t, "a")
            base = t._base
            if base is not None: self.track(torch.as_strided(base.detach(), (base.untyped_storage().nbytes() // base.element_size(),), (1,), 0)
                                            if not (base.is_conj() or base.is_neg()) else base, "m")
        self.look(dict(k="new"))

    def shared(self, slot, results):
        """results (not gradients) that live in the memory of an argument"""
        if slot.name in IDENTITY: return []
        args = slot.ids.values()
        st = {storage(self.live[k]) for k in args if self.live[k].numel()}
        return [k for k in results if self.live[k].numel() and storage(self.live[k]) in st]

    def forget(self, slot):
        st = {storage(t) for t in slot.T.values()}
        for k in [k for k, t in self.live.items() if k in slot.ids.values() or k[0] in "am" and storage(t) in st]: del self.live[k]
        self.look(dict(k="drop"))

    def write(self, t, fn):
        import torch
        try:
            if t.is_inference():
                with torch.inference_mode(): fn(t)
            else:
                with torch.no_grad(): fn(t)
        except RuntimeError:
            return
        s = storage(t)
        self.look(dict(k="write", shares=[k for k, x in self.live.items() if storage(x) == s]))


def flat_results(r):
    import torch
    if isinstance(r, torch.Tensor): return [r]
    if isinstance(r, (tuple, list)): return [x for e in r for x in flat_results(e)]
    return []


def run_call(slot, call, mode, cot):
    """carry the call out in a mode; returns (result tensors, extra argument tensors, key suffix)"""
    import torch
    T = slot.T
    if mode == "plain" or mode == "thread": return flat_results(call[1](dict(T)))
    if mode == "nograd":
        with torch.no_grad(): return flat_results(call[1](dict(T)))
    if mode == "inference":
        with torch.inference_mode(): return flat_results(call[1](dict(T)))
    if mode in ("threads1", "threads4"):
        n = torch.get_num_threads()
        torch.set_num_threads(int(mode[-1]))
        try: return flat_results(call[1](dict(T)))
        finally: torch.set_num_threads(n)
    L = {k: v.detach().requires_grad_() if v.dtype.is_floating_point or v.is_complex() else v for k, v in T.items()}
    r = flat_results(call[1](dict(L)))
    if mode == "grad": return r
    outs = [x for x in r if x.requires_grad]
    ws = [w for x, w in zip(r, cot) if x.requires_grad]
    gs = []
    for rep in range(2):        # twice through the same graph
        g = torch.autograd.grad(outs, list(L.values()), ws, allow_unused=True, retain_graph=rep == 0) if outs else []
        gs.append([x for x in g if x is not None])
    return r + gs[0] + gs[1]


# ---------------------------------------------------------------- the same calls after different histories
_zygote = None


def start_zygote():
    """a process that never calls anything: its children are processes without a history"""
    global _zygote
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    if os.fork():
        os.close(r1); os.close(w2)
        _zygote = (os.fdopen(w1, "w"), os.fdopen(r2, "r"))
        return
    try:
        os.close(w1); os.close(r2)
        import torch, torchlpc
        from philtorch import lti, lpv, mat, poly
        import philtorch.prototype.nl, philtorch.lti.interp, philtorch.lpv.utils, p_diag, p_views
        torch.set_num_threads(1)
        src = os.fdopen(r1, "r")
        while True:
            line = src.readline()
            if not line: break
            if not os.fork():
                out = os.fdopen(w2, "w")
                try:
                    ans = fresh_run(*json.loads(line))
                except BaseException as e:
                    import traceback
                    ans = traceback.format_exc()
                out.write(json.dumps(ans) + "\n")
                out.flush()
                os._exit(0)
            if os.wait()[1]:
                os.write(w2, b'"a call ended the process"\n')
    finally:
        os._exit(0)


def family(seed):
    """slots that are alike: the same kind of call with other values, sizes, dtypes"""
    import torch
    rng = np.random.default_rng(seed)
    if rng.random() < .55:
        k = int(rng.integers(0, 14)); mk = lambda r: inst_slot(r, k)
    else:
        k = int(rng.integers(0, 12)); mk = lambda r: helper_slot(r, k)
    s1 = int(rng.integers(1 << 40))
    slots = [mk(np.random.default_rng(s1)), mk(np.random.default_rng(s1)), mk(np.random.default_rng(int(rng.integers(1 << 40))))]
    g = torch.Generator().manual_seed(int(rng.integers(1 << 30)))
    for n, sl in enumerate(slots):
        if rng.random() < .8:
            sl.T = {k: (torch.randn(v.shape, generator=g, dtype=v.dtype) * (.3 if k in ("a", "A", "L", "Bt", "At") else 1) if v.is_floating_point() or v.is_complex() else v)
                    for k, v in sl.T.items()}
    low = {torch.float64: torch.float32, torch.complex128: torch.complex64}
    for sl in (slots[1], slots[2] if rng.random() < .5 else slots[0]):
        if rng.random() < .7: sl.T = {k: v.to(low.get(v.dtype, v.dtype)) for k, v in sl.T.items()}
    items = []
    for n, sl in enumerate(slots):
        for c in rng.permutation(len(sl.calls))[:2]:
            items.append((n, int(c), I.pick(rng, "plain", "grad", "backward") if sl.diff else "plain"))
    return slots, items


def fresh_run(seed, order):
    import torch, warnings
    warnings.filterwarnings("ignore")
    slots, items = family(seed)
    ses = Session(None)
    ses.look(dict(k="fresh"))
    for sl in slots: ses.adopt(sl)
    for j in order:
        n, c, mode = items[j]
        sl = slots[n]
        call = sl.calls[c]
        d = dict(key="%d %s %s %s" % (n, sl.name, call[0], mode), args=list(sl.ids.values()), res=[])
        try:
            L = dict(sl.T)
            if mode != "plain": L = {k: v.detach().requires_grad_() if v.is_floating_point() or v.is_complex() else v for k, v in L.items()}
            r = flat_results(call[1](L))
            if mode == "backward":
                outs = [x for x in r if x.requires_grad]
                g = torch.Generator().manual_seed(5)
                ws = [torch.randn(x.shape, generator=g, dtype=x.dtype) for x in outs]
                r = r + [x for x in (torch.autograd.grad(outs, list(L.values()), ws, allow_unused=True) if outs else []) if x is not None]
            d["res"] = [ses.track(t, "r") for t in r]
            if mode != "backward": d["shared"] = ses.shared(sl, d["res"])
        except Exception as e:
            d["err"] = raised(e).split(":")[0]
        ses.look(dict(k="call", calls=[d]))
    return dict(events=ses.events, env=ses.env0, names=[s.name for s in slots], n=len(items))


def histories(rec, rng, i):
    seed = int(rng.integers(1 << 40))
    events, env_ = [], None

    def go(order):
        _zygote[0].write(json.dumps([seed, order]) + "\n")
        _zygote[0].flush()
        r = json.loads(_zygote[1].readline())
        if isinstance(r, str): raise RuntimeError(r)
        events.extend(r["events"])
        return r
    first = go([])
    n = first["n"]
    orders = [list(range(n)), [int(j) for j in rng.permutation(n)], [int(j) for j in rng.integers(0, n, 2 * n)], [int(rng.integers(n))], [n - 1]]
    for o in orders: go(o)
    rec.add(dict(op="session", events=events, env=first["env"], nocontrol=True), [("the same calls in other orders", {"n": len(events)})],
            dict(fam="other histories", slots=first["names"], orders=orders, seed=seed))
    rec.execs += sum(len(o) for o in orders)


STORMS = ["lti_recur", "lti_recurN", "lti_recurN rows", "recurN", "recurN rows", "lti ss", "lpv ss", "lti lfilter", "lpv lfilter", "rec", "comb", "unrolled"]


def kind_slow(kind):
    """with a state of order one these take a step of Python per sample"""
    return kind in ("lti ss", "lpv ss", "lti lfilter", "lpv lfilter", "unrolled")


def storm_slots(rng):
    """the same kind of call on long signals, one per thread; states stay small integers, so any order of summation gives the same"""
    import torch
    from philtorch import lti, lpv
    o = torch.ops.philtorch
    B = I.pick(rng, 1, 1, 1, 2, 3)
    M = I.pick(rng, 1, 2, 2, 3, 4, 7)
    if kind_slow(kind := I.pick(rng, *STORMS)): M = max(M, 2)
    N = int(rng.integers(2000, 30000)) // M
    dt = I.pick(rng, torch.float64, torch.float64, torch.float32, torch.complex128)
    t = lambda v: tt(v, cx=bool(np.iscomplexobj(v))).to(dt)
    P = lambda: np.real(I.perm_like(rng, M, False)).astype(np.int64)
    if kind in ("lti_recur", "rec", "comb"): N = N * M // (8 if kind != "lti_recur" else 1)
    if kind == "unrolled": N = N // 4
    slots = []
    for _ in range(4):
        x, z = t(I.ints(rng, (B, N, M), 2)), t(I.ints(rng, (B, M), 2))
        cm = {}
        if kind == "lti_recur":
            T = dict(a=t(I.ints(rng, (B,), 1)), z=z[:, 0].contiguous(), x=x.reshape(B, -1)[:, :N].contiguous())
            f = lambda T: o.lti_recur(T["a"], T["z"], T["x"])
        elif kind.startswith("lti_recurN"):
            T = dict(A=t(np.stack([P() for _ in range(B)]) if "rows" in kind else P()), z=z, x=x)
            f = (lambda T: o.lti_recur2(T["A"], T["z"], T["x"])) if M == 2 and rng.random() < .5 else (lambda T: o.lti_recurN(T["A"], T["z"], T["x"]))
        elif kind.startswith("recurN"):
            pool = np.stack([P() for _ in range(8)])
            T = dict(A=t(pool[rng.integers(0, 8, (B, N) if "rows" in kind else (N,))]), z=z, x=x)
            f = (lambda T: o.recur2(T["A"], T["z"], T["x"])) if M == 2 and rng.random() < .5 else (lambda T: o.recurN(T["A"], T["z"], T["x"]))
        elif kind in ("lti ss", "lpv ss"):
            pool = np.stack([P() for _ in range(8)])
            T = dict(A=t(P() if kind == "lti ss" else pool[rng.integers(0, 8, N)]), zi=z, x=x, C=t(I.ints(rng, (M,), 2)))
            fn = (lti if kind == "lti ss" else lpv).state_space
            f = lambda T, fn=fn: fn(T["A"], T["x"], C=T["C"], zi=T["zi"], unroll_factor=1)
        elif kind == "lti lfilter":
            a = np.zeros(M); a[-1] = rng.choice([1, -1])
            T = dict(b=t(I.ints(rng, (M + 1,), 2)), a=t(a), x=x[..., 0].contiguous(), zi=z)
            fm = I.pick(rng, "df2", "tdf2", "df1", "tdf1")
            f = lambda T, fm=fm: lti.lfilter(T["b"], T["a"], T["x"], T["zi"], form=fm, unroll_factor=1)
        elif kind == "lpv lfilter":
            a = np.zeros((N, M)); a[np.arange(N), rng.integers(0, M, N)] = rng.choice([1, -1])
            a[:, :-1] = 0
            a[:, -1] = rng.choice([1, -1], N)
            T = dict(b=t(I.ints(rng, (N, M + 1), 2)), a=t(a), x=x[..., 0].contiguous(), zi=z)
            bk = I.pick(rng, "ssm", "torchlpc")
            f = lambda T, bk=bk: lpv.lfilter(T["b"], T["a"], T["x"], T["zi"], form="df2", backend=bk, **(dict(unroll_factor=1) if bk == "ssm" else {}))
        elif kind == "rec":
            T = dict(a=t(I.ints(rng, (B,), 1)), zi=z[:, 0].contiguous(), x=x[..., 0].contiguous())
            f = lambda T: lti.linear_recurrence(T["a"], T["zi"], T["x"], unroll_factor=64)
        elif kind == "comb":
            T = dict(a=t(I.ints(rng, (B,), 1)), x=x[..., 0].contiguous())
            d = int(rng.integers(1, 40))
            f = lambda T, d=d: lti.comb_filter(T["a"], d, T["x"], unroll_factor=16)
        else:
            T = dict(A=t(P()), zi=z, x=x)
            f = lambda T: lti.state_space_recursion(T["A"], T["zi"], T["x"], unroll_factor=50)
        slots.append(Slot("%s B %d N %d M %d" % (kind, B, N, M), T, [("", f)], True, []))
    return slots


def storm(rec, rng, i):
    """threads calling all at once, again and again"""
    import torch
    slots = storm_slots(rng)
    ses = Session(rng)
    for sl in slots: ses.adopt(sl)
    nt = torch.get_num_threads()

    def entry(n, sl, r):
        d = dict(key="%d %s" % (n, sl.name), args=list(sl.ids.values()), res=[])
        if isinstance(r, str): d["err"] = r.split(":")[0]
        else:
            d["res"] = [ses.track(t, "r") for t in r]
            d["shared"] = ses.shared(sl, d["res"])
        return d

    def one(sl):
        try: return flat_results(sl.calls[0][1](dict(sl.T)))
        except Exception as e: return raised(e)
    for n, sl in enumerate(slots): ses.look(dict(k="call", calls=[entry(n, sl, one(sl))]))
    bar = threading.Barrier(len(slots))
    outs = [[] for _ in slots]

    def worker(n):
        torch.set_num_threads(1)
        for _ in range(10):
            bar.wait()
            outs[n].append(one(slots[n]))
    ths = [threading.Thread(target=worker, args=(n,)) for n in range(len(slots))]
    for t in ths: t.start()
    for t in ths: t.join()
    torch.set_num_threads(nt)
    ses.look(dict(k="call", calls=[entry(n, sl, r) for n, sl in enumerate(slots) for r in outs[n]]))
    rec.add(dict(op="session", events=ses.events, env=ses.env0, nocontrol=True), [("threads, " + slots[0].name, {"n": len(ses.events)})],
            dict(fam="concurrent calls", slots=[s.name for s in slots]))
    rec.execs += 44


def tiny_slot(rng):
    """the smallest calls, where steps of the computation have nothing to do"""
    op, tv = I.ALL[int(rng.integers(0, len(I.ALL)))]
    kw = dict(scale="small", B=I.pick(rng, 1, 2, 3), N=I.pick(rng, 1, 1, 2, 3))
    M = I.pick(rng, 1, 2)
    if op in ("ss", "ssr"): kw["M"] = M
    if op == "ss" and rng.random() < .7:
        sc = bool(rng.integers(0, 2))
        kw.update(roles=(I.pick(rng, *(("NMM", "BNMM") if tv else ("MM", "BMM"))), sc, I.pick(rng, "", "", I.BROLES[tv, sc][-1]), "", "none", bool(rng.random() < .3)),
                  zi_role=I.pick(rng, None, "M", "BM", "BM"))
    if op == "lf": kw.update(La=I.pick(rng, 0, 1, 2), Lb=I.pick(rng, 1, 1, 2, 3))
    if op in ("fir", "ap"): kw["L"] = I.pick(rng, 0, 1, 2) if op == "ap" else I.pick(rng, 1, 1, 2)
    if op == "comb": kw["delay"] = I.pick(rng, 1, 2, kw["N"], kw["N"] + 1)
    with I.budget(2.0 ** 36):
        inst = I.make(rng, op, tv, bool(rng.random() < .4), **kw)
    T = inst.tensors()
    return Slot(inst.fam, T, [(c[0], (lambda fn: lambda T: fn(T))(c[1])) for c in inst.cfgs], True, [])


def tiny(rec, rng, i):
    ses = Session(rng)
    names = []
    for n in range(10):
        sl = tiny_slot(rng)
        names.append(sl.name)
        ses.adopt(sl)
        first = None
        for c in [sl.calls[int(j)] for j in rng.permutation(len(sl.calls))[:4]]:
            mode = I.pick(rng, "plain", "plain", "grad", "nograd", "inference")
            d = dict(key="%d %s %s" % (n, sl.name, c[0]), args=list(sl.ids.values()), res=[])
            try:
                d["res"] = [ses.track(t, "r") for t in run_call(sl, c, mode, [])]
                d["shared"] = ses.shared(sl, d["res"])
            except Exception as e:
                d["err"] = raised(e).split(":")[0]
            ses.look(dict(k="call", calls=[d]))
            if d["res"] and rng.random() < .3:
                for k in d["res"]:
                    if ses.live[k].numel(): ses.write(ses.live[k] if ses.live[k].is_inference() else ses.live[k].detach(), lambda t: t.fill_(3))
        ses.forget(sl)
        for k in [k for k in ses.live if k[0] == "r"]: del ses.live[k]
        ses.look(dict(k="drop"))
    rec.add(dict(op="session", events=ses.events, env=ses.env0, nocontrol=True), [("session of small calls", {"n": len(ses.events)})],
            dict(fam="small calls", slots=names))
    rec.execs += 40


def job_C14(rec, rng, i, tier):
    import torch
    from p_views import layout
    import random
    if i % 3 == 2: return histories(rec, rng, i)
    if i % 15 == 6: return storm(rec, rng, i)
    if i % 15 == 9: return tiny(rec, rng, i)
    hist = HIST[i % len(HIST)]
    ses = Session(rng)
    slots = []
    want = max([s for h in hist for s in (h["s"] if isinstance(h["s"], list) else [h["s"]])])
    for _ in range(want):
        sl = inst_slot(rng) if rng.random() < .65 else helper_slot(rng)
        if rng.random() < .45:
            sl.T = {k: layout(rng, v, v.is_complex())[1] for k, v in sl.T.items()}
        sl.T = {k: (v.clone() if v._base is None and not v.is_contiguous() else v) for k, v in sl.T.items()}
        # the calls of a slot that the session uses
        k = rng.permutation(len(sl.calls))[:3]
        sl.calls = [sl.calls[j] for j in k]
        slots.append(sl)
        ses.adopt(sl)
    cots = {}

    def cotangents(sl, call):
        """upstream gradients for the results of a call: tensors of the caller like any other"""
        key = (id(sl), call[0])
        if key not in cots:
            with torch.no_grad():
                r = flat_results(call[1](dict(sl.T)))
            cots[key] = [tt(I.ints(rng, tuple(x.shape), 3, x.is_complex()), cx=x.is_complex()).to(x.dtype) for x in r]
            cots[key] = [(w, ses.track(w, "w")) for w in cots[key]]
            ses.look(dict(k="new"))
        return cots[key]

    def one(sl, call, mode, out, bar=None):
        try:
            w = [x[0] for x in cot.get((id(sl), call[0]), [])]
            if bar: bar.wait()
            out.append(run_call(sl, call, mode, w))
        except Exception as e:
            out.append(raised(e))

    def entry(sl, call, mode, res, conc):
        ids = list(sl.ids.values())
        back = mode == "backward"
        key = "%s %s %s" % (slots.index(sl), sl.name, call[0]) + (" backward" if back else "")
        if not sl.exact:
            key += " %s gen %d" % (mode, sl.gen)
            if mode == "threads4" or conc: key += " event %d" % len(ses.events)
        d = dict(key=key, args=ids, res=[])
        if isinstance(res, str):
            d["err"] = res.split(":")[0]
            return d
        if back: d["args"] = ids + [k for _, k in cot[(id(sl), call[0])]]
        d["res"] = [ses.track(t, "r") for t in res]
        if not back: d["shared"] = ses.shared(sl, d["res"])
        sl.last = d["res"]
        return d

    for h in hist:
        if h["do"] == "call":
            sl = slots[h["s"] - 1]
            mode = h["mode"]
            if mode in ("grad", "backward") and not sl.diff: mode = "nograd"
            call = sl.calls[rng.integers(len(sl.calls))]
            cot = {}
            try:
                if mode == "backward": cot[(id(sl), call[0])] = cotangents(sl, call)
            except Exception:
                mode = "plain"
            out = []
            if mode == "thread":
                th = threading.Thread(target=one, args=(sl, call, mode, out))
                th.start(); th.join()
            else:
                one(sl, call, mode, out)
            ses.look(dict(k="call", calls=[entry(sl, call, mode, out[0], False)]))
        elif h["do"] == "together":
            ss = [slots[s - 1] for s in h["s"]]
            jobs = []
            cot = {}
            for sl in ss:
                for _ in range(2):
                    call = sl.calls[rng.integers(len(sl.calls))]
                    mode = "backward" if h["mode"] == "grad" and sl.diff and rng.random() < .5 else "plain"
                    try:
                        if mode == "backward": cot[(id(sl), call[0])] = cotangents(sl, call)
                    except Exception:
                        mode = "plain"
                    jobs.append((sl, call, mode, []))
            bar = threading.Barrier(len(jobs))
            ths = [threading.Thread(target=one, args=j + (bar,)) for j in jobs]
            for t in ths: t.start()
            for t in ths: t.join()
            ses.look(dict(k="call", calls=[entry(j[0], j[1], j[2], j[3][0], True) for j in jobs]))
        elif h["do"] == "spoil":
            sl = slots[h["s"] - 1]
            sl.orig = {k: v.clone() for k, v in sl.T.items()}
            for k in sl.spoil:
                if sl.T[k].numel(): ses.write(sl.T[k], lambda t: t.copy_(-t.clone()))
        elif h["do"] == "restore":
            sl = slots[h["s"] - 1]
            for k in sl.spoil:
                if sl.T[k].numel(): ses.write(sl.T[k], lambda t: t.copy_(sl.orig[k]))
        elif h["do"] == "scribble":
            sl = slots[h["s"] - 1]
            for k in sl.last or []:
                if ses.live[k].numel(): ses.write(ses.live[k].detach() if not ses.live[k].is_inference() else ses.live[k], lambda t: t.fill_(3))
        elif h["do"] == "renew":
            sl = slots[h["s"] - 1]
            ses.forget(sl)
            sl.T = {k: v.resolve_conj().resolve_neg().clone() if rng.random() < .5 else layout(rng, v.resolve_conj().resolve_neg().clone(), v.is_complex())[1]
                    for k, v in sl.T.items()}
            sl.gen += 1
            ses.adopt(sl)
    case = dict(op="session", events=ses.events, env=ses.env0, nocontrol=len(ses.events) < 6)
    labels = []
    rec.add(case, [("session of " + "; ".join(s.name for s in slots), {"n": len(ses.events)})],
            dict(fam="session", history=hist, slots=[s.name for s in slots]))
    rec.execs += sum(len(e.get("calls", [])) for e in ses.events)
