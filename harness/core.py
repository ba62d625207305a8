"""Recorder: runs the real code on exactly representable inputs and writes what it did as traces for TLC.

A case is a dict with the call (op, tv, ring, B, N, arg, opt, ...) and `views`, a list of (label, thunk) pairs; a thunk runs
the implementation and returns the observation.  Nothing here knows what the right answer is: the machines in spec/ do.
"""
import json, math, os, random, re, shutil, subprocess, sys, tempfile, time, traceback
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
PRIMES = [32749, 32719, 32717, 32713, 32707, 32693, 32687, 32653, 32647, 32633, 32621, 32611, 32609, 32603, 32587, 32579]
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
LIMIT = 2.0 ** 46


class OffGrid(Exception):
    pass


# ---------------------------------------------------------------- encoding
class Codec:
    def __init__(self, P):
        self.P = P

    def res(self, v, cx):
        """array of exact integers (numpy int/float/complex) -> residues; cx: as [re, im] pairs"""
        v = np.asarray(v)
        P = self.P
        if cx:
            re_ = np.mod(np.asarray(v.real).astype(np.int64), P)
            im_ = np.mod(np.asarray(v.imag).astype(np.int64) if np.iscomplexobj(v) else np.zeros(v.shape, np.int64), P)
            return np.stack([re_, im_], -1)
        if np.iscomplexobj(v):
            assert not np.any(v.imag)
            v = v.real
        return np.mod(v.astype(np.int64), P)

    def obs(self, x, cx, scale=1, tol=1.0 / 16, limit=LIMIT):
        """observed tensor -> residues of x * scale; -1 where it is not an integer within tol"""
        if hasattr(x, "detach"):
            x = to_np(x)
        v = np.asarray(x) * scale
        if not cx and np.iscomplexobj(v):
            bad = np.abs(v.imag) > tol
            v = np.where(bad, np.nan, v.real)
        if not cx:
            return self._grid(v, tol, limit)
        re_ = self._grid(v.real, tol, limit)
        im_ = self._grid(v.imag if np.iscomplexobj(v) else np.zeros(v.shape), tol, limit)
        bad = (re_ < 0) | (im_ < 0)
        re_ = np.where(bad, -1, re_)
        im_ = np.where(bad, -1, im_)
        return np.stack([re_, im_], -1)

    def _grid(self, v, tol, limit):
        v = np.asarray(v, dtype=np.float64)
        ok = np.isfinite(v)
        w = np.where(ok, v, 0.0)
        r = np.rint(w)
        ok &= (np.abs(w - r) <= tol) & (np.abs(r) < limit)
        return np.where(ok, np.mod(np.where(ok, r, 0).astype(np.int64), self.P), -1)


def to_np(x):
    import torch
    x = x.detach()
    if x.layout != torch.strided or type(x) is not torch.Tensor:
        x = torch.Tensor(x)
    x = x.resolve_conj().resolve_neg()
    if x.dtype in (torch.bfloat16, torch.float16, torch.float32):
        x = x.double()
    if x.dtype in (torch.complex64, torch.complex32):
        x = x.to(torch.complex128)
    return x.cpu().numpy()


def tt(v, dtype=None, cx=None):
    """exact integers -> torch tensor"""
    import torch
    v = np.asarray(v)
    if dtype is None:
        dtype = torch.complex128 if (np.iscomplexobj(v) if cx is None else cx) else torch.float64
    return torch.as_tensor(v.astype(np.complex128) if dtype.is_complex else v.astype(np.float64)).to(dtype).clone()


# ---------------------------------------------------------------- recording
class Recorder:
    """Collects encoded cases; one per shard."""

    def __init__(self, P, pid, seed):
        self.c = Codec(P)
        self.pid = pid
        self.seed = seed
        self.cases = []
        self.meta = {}
        self.views = 0
        self.execs = 0
        self.job = None
        self.subs = {}

    def module(self, name):
        """cases that another specification decides"""
        if name not in self.subs:
            self.subs[name] = Recorder(self.c.P, self.pid, self.seed)
        self.subs[name].job = self.job
        return self.subs[name]

    def enc(self, v, cx):
        return self.c.res(v, cx).tolist()

    def add(self, case, views, info=None):
        """case: plain dict already JSON-ready except arg arrays; views: list of (label, observation dict)"""
        cid = len(self.cases) + 1
        case = dict(case)
        case["id"] = cid
        seen, out, labels = {}, [], []
        for lab, ob in views:
            self.execs += 1
            key = json.dumps(ob, sort_keys=True)
            if key in seen:
                labels[seen[key]].append(lab)
                continue
            seen[key] = len(out)
            out.append(ob)
            labels.append([lab])
        case["views"] = out
        self.cases.append(case)
        self.meta[cid] = dict(labels=labels, info=info, job=self.job)
        self.views += len(out)
        return cid


def tmajor(v, nd):
    """(rows, steps, ...) -> nested list by step, then row (a result without a row axis is by step already)"""
    return (np.swapaxes(v, 0, 1) if nd >= 2 else v).tolist()


def raised(e):
    return "%s: %s" % (type(e).__name__, str(e).split("\n")[0][:160])


def view_of(rec, cx, fn, *, zf=True, times=None, idx=None, dtype=None, scale=1, tol=1 / 16, zscale=None, squeezed=False):
    """Run fn and encode what it returns: y, (y, zf) or (y, [(t, zf), ...])"""
    try:
        r = fn()
    except Exception as e:
        return {"err": raised(e)}
    zs = []
    if isinstance(r, tuple):
        y, z = r
        zs = z if isinstance(z, list) else [(times, z)]
    else:
        y = r
    ob = {"ys": list(y.shape), "y": tmajor(rec.c.obs(y, cx, scale, tol), y.dim())}
    ob["zf"] = [{"t": t, "s": list(z.shape), "v": rec.c.obs(z, cx, zscale or scale, tol).tolist()} for t, z in zs]
    if idx is not None:
        ob["idx"] = idx
    if dtype is not None and y.dtype != dtype:
        ob["clause"] = "dtype"
    if dtype is not None and any(z.dtype != dtype for _, z in zs):
        ob["clause"] = "dtype"
    return ob


# ---------------------------------------------------------------- TLC
def java_opts(mem):
    return ["-XX:+UseSerialGC" if mem <= 1500 else "-XX:+UseParallelGC", "-Xmx%dm" % mem, "-Xss64m", "-XX:TieredStopAtLevel=4",
            "-cp", JARS, "tlc2.TLC"]


class TlcError(Exception):
    pass


def run_tlc(module, cfg_text, work, workers=2, mem=1500, timeout=800, extra=(), env=None):
    """Run TLC on spec/<module>.tla with a generated configuration; returns (output, states, distinct, secs)."""
    os.makedirs(work, exist_ok=True)
    cfg = os.path.join(work, module + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    cmd = ["java"] + java_opts(mem) + ["-config", cfg, "-workers", str(workers), "-metadir", os.path.join(work, "meta"),
           "-noGenerateSpecTE", "-nowarning", "-deadlock"] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, cwd=SPEC, env=env)
    out = p.stdout
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    st, di = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    return p.returncode, out, st, di, time.time() - t0


def validate(rec, work, workers=2, mem=1800, module="Trace", consts=""):
    """Write the cases, let TLC decide them; returns ({id: (verdict, detail)}, states, distinct)."""
    if not rec.cases:
        return {}, 0, 0
    os.makedirs(work, exist_ok=True)
    f = os.path.join(work, "cases.ndjson")
    with open(f, "w") as h:
        for c in rec.cases:
            h.write(json.dumps(c, separators=(",", ":")) + "\n")
    cfg = 'SPECIFICATION Spec\nCONSTANTS P = %d\n File = "%s"\n%s' % (rec.c.P, f, consts)
    rc, out, st, di, secs = run_tlc(module, cfg, work, workers=workers, mem=mem)
    verd = {}
    for m in re.finditer(r'^"V (\d+) (ACC|REJ|OUT) (.*)"$', out, re.M):
        verd[int(m.group(1))] = (m.group(2), m.group(3).replace('\\"', '"'))
    missing = [c["id"] for c in rec.cases if c["id"] not in verd]
    if rc != 0 or missing:
        keep = os.path.join(VERIF, "evidence", "tlc-error-%s.log" % rec.pid)
        with open(keep, "w") as h:
            h.write(out)
        raise TlcError("TLC gave no verdict for %d of %d cases (rc %d), see %s: %s" % (len(missing), len(rec.cases), rc, keep,
                       [l for l in out.splitlines() if "rror" in l][:3]))
    return verd, st, di
