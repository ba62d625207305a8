"""Per property: the jobs that produce traces.  A job gets (rec, rng, i, tier) and records cases on rec."""
import numpy as np
from core import view_of, tt, raised
import inst as I
from p_stream import job_C09, job_C10
from p_grad import job_C11, job_C12
from p_views import job_C13, job_C15
from p_diag import job_C19
from p_pure import job_C14
import p_pure, p_contract
from p_contract import job_C16
from p_help import job_C17, job_C18, job_C20, job_C21, job_C22
from p_poly import job_C23
from p_giant import giant


def plain(rec, inst, info=None):
    """one case; every configuration of the instance is a view"""
    views = []
    for lab, fn, idx in inst.cfgs:
        T = inst.tensors()
        views.append((lab, view_of(rec, inst.cx, lambda: fn(T), times=inst.N, idx=idx)))
    rec.add(inst.case(rec), views, dict(inst.describe(), **(info or {})))


def cxof(rng):
    return bool(rng.random() < .4)


GIANT = dict(C01=["lti_recurN", "lti_recur2"], C03=["recurN", "recurN shared", "recur2"], C05=["lti_recur"])


def huge(rec, rng, i, tier):
    """the first jobs of one recorder in the thorough tier"""
    k = GIANT.get(rec.pid, [])
    if tier == "thorough" and i % 6 == 0 and i // 6 < len(k):
        giant(rec, rng, k[i // 6])


def job_C01(rec, rng, i, tier):
    huge(rec, rng, i, tier)
    plain(rec, I.ssr_inst(rng, False, cxof(rng)))


def job_C03(rec, rng, i, tier):
    huge(rec, rng, i, tier)
    plain(rec, I.ssr_inst(rng, True, cxof(rng)))


def job_C05(rec, rng, i, tier):
    huge(rec, rng, i, tier)
    k = i % 3
    plain(rec, I.rec_inst(rng, False, cxof(rng)) if k == 0 else I.rec_inst(rng, True, cxof(rng)) if k == 1 else I.comb_inst(rng, False, cxof(rng)))


def all_roles(tv):
    out = []
    for ar in (("NMM", "BNMM") if tv else ("MM", "BMM")):
        for sc in (True, False):
            for br in I.BROLES[tv, sc]:
                for cr in I.CROLES[tv]:
                    for dr in I.DROLES[tv, sc]:
                        for ix in ((False, True) if cr == "" else (False,)):
                            out.append((ar, sc, br, cr, dr, ix))
    return out


def job_ss(tv):
    roles = all_roles(tv)

    def job(rec, rng, i, tier):
        if i < len(roles):       # every combination of roles once, small and with pairwise different sizes where possible
            r = roles[i]
            n = rng.permutation([2, 3, 4])
            inst = I.ss_inst(rng, tv, cxof(rng), scale="small", roles=r, B=int(n[0]), N=int(n[1] + 2), M=int(n[2]),
                             coincide=bool(rng.random() < .25))
            if inst is not None:
                plain(rec, inst)
        else:
            k = rng.random()
            if k < .4:            # sizes that coincide
                s = int(rng.integers(1, 5))
                z = [s if rng.random() < .75 else int(rng.integers(1, 5)) for _ in range(3)]
                inst = I.make(rng, "ss", tv, cxof(rng), B=z[0], N=z[1], M=z[2], coincide=True)
            else:
                inst = I.make(rng, "ss", tv, cxof(rng))
            plain(rec, inst)
    return job, len(roles)


def job_C06(rec, rng, i, tier):
    plain(rec, I.lf_inst(rng, False, cxof(rng), form=["df1", "df2", "tdf1", "tdf2"][i % 4]))


def job_C07(rec, rng, i, tier):
    plain(rec, I.lf_inst(rng, True, cxof(rng), form=["df1", "df2", "tdf1", "tdf2"][i % 4]))


def job_C08(rec, rng, i, tier):
    k = i % 6
    cx = cxof(rng)
    if k < 2: plain(rec, I.fir_inst(rng, False, cx, tr=bool(k)))
    elif k < 4: plain(rec, I.fir_inst(rng, True, cx, tr=bool(k - 2)))
    else: plain(rec, I.ap_inst(rng, True, cx, tr=bool(k - 4)))


J2, N2 = job_ss(False)
J4, N4 = job_ss(True)

# pid -> (job, number of jobs in quick, in thorough)
JOBS = {
    "C01": (job_C01, 3000, 40000), "C03": (job_C03, 3000, 40000), "C05": (job_C05, 4800, 60000),
    "C02": (J2, N2 + 2400, N2 + 40000), "C04": (J4, N4 + 2000, N4 + 40000),
    "C06": (job_C06, 4000, 60000), "C07": (job_C07, 3600, 40000), "C08": (job_C08, 5000, 60000),
    "C09": (job_C09, 2500, 40000), "C10": (job_C10, 3000, 30000), "C11": (job_C11, 4800, 60000), "C12": (job_C12, 4500, 50000),
    "C13": (job_C13, 2400, 40000), "C15": (job_C15, 3600, 40000),
    "C17": (job_C17, 4800, 60000, "HTrace"), "C18": (job_C18, 1800, 20000, "HTrace"), "C20": (job_C20, 360, 6000, "HTrace"),
    "C14": (job_C14, 720, 18000, "Purity"),
    "C16": (job_C16, 1600, 12000, "CTrace"),
    "C19": (job_C19, 4000, 50000),
    "C21": (job_C21, 6000, 80000, "HTrace"), "C22": (job_C22, 1500, 15000, "HTrace"),
    "C23": (job_C23, 3600, 60000, "HTrace"),
}

# done once before the recorders are forked
PREPARE = {"C14": p_pure.prepare, "C16": p_contract.prepare}
# done in every recorder before its first call
START = {"C14": p_pure.start_zygote}
