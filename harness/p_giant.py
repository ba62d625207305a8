"""Calls with more than 2^31 elements (thorough tier only, one at a time): a few rows of the batch are recorded, the rest is ballast."""
import numpy as np
from core import view_of
import inst as I


def giant(rec, rng, kind):
    import torch
    H, o = torch.float16, torch.ops.philtorch
    N = 1023
    M = {"lti_recur": 1, "lti_recur2": 2, "lti_recurN": 3, "recur2": 2, "recurN": 4, "recurN shared": 3}[kind]
    per_row = (N + 1) * (M * M if kind in ("recur2", "recurN") else M)
    B = 2 ** 31 // per_row + 9
    rows = np.array([0, 1, B // 2, B // 2 + 1, B - 2, B - 1])
    R = len(rows)
    # values stay below 2048: rotations and few inputs
    turn = lambda: np.diag(rng.choice([-1, 1], M))[rng.permutation(M)]
    x = rng.integers(-1, 2, (N, M))
    zi = rng.integers(-9, 10, (B, M))
    zt = torch.as_tensor(zi).to(H)
    xt = torch.as_tensor(x).to(H).expand(B, N, M)
    if kind == "lti_recur":
        a = int(rng.choice([-1, 1]))
        x = np.ascontiguousarray(np.broadcast_to(x[:, 0], (R, N)))
        at = torch.tensor(float(a), dtype=H)
        fn = lambda: o.lti_recur(at, zt[:, 0].contiguous(), xt[:, :, 0])
        inst = I.Inst("rec", False, R, N, False, dict(a=np.array(a), zi=zi[rows, 0], x=x), {}, dict(a="", zi="B", x="BN"), [], False, 1)
    else:
        tv = not kind.startswith("lti")
        shape = "MM" if not tv else "NMM" if kind == "recurN shared" else "BNMM"
        A = turn() if not tv else np.stack([turn() for _ in range(N)])
        At = torch.as_tensor(A).to(H)
        if shape == "BNMM":
            At = At.expand(B, N, M, M)
            A = np.ascontiguousarray(np.broadcast_to(A, (R, N, M, M)))
        fn = lambda: getattr(o, kind.split()[0])(At, zt, xt)
        inst = I.Inst("ssr", tv, R, N, False, dict(A=A, zi=zi[rows], x=np.ascontiguousarray(np.broadcast_to(x, (R, N, M)))), {},
                      dict(A=shape, zi="BM", x="BNM"), [], False, M)
    inst.fam = "more than 2^31 elements: " + kind

    def run():
        y = fn()
        assert y.shape[0] == B, "rows"
        return y[torch.as_tensor(rows)].double()
    rec.add(inst.case(rec), [("op " + kind, view_of(rec, False, run))], dict(inst.describe(), rows_of=B))
