"""Builds /repo if needed, records traces in parallel shards, has TLC decide them, reports, writes the evidence."""
import glob, hashlib, json, multiprocessing as mp, os, random, re, shutil, subprocess, sys, tempfile, time, traceback
from core import *

SHARDS = 6
BATCH = {"CTrace": 6}     # light cases: more of them per TLC run


def build():
    """rebuild the extension from the working tree unless the last build saw exactly these sources"""
    seen = os.path.join(REPO, "build", "seen")
    srcs = [os.path.join(REPO, "setup.py")] + sorted(glob.glob(os.path.join(REPO, "philtorch", "csrc", "*")))
    have = {os.path.basename(p): p for p in glob.glob(os.path.join(seen, "**"), recursive=True) if os.path.isfile(p)}

    def same(a, b):
        with open(a, "rb") as x, open(b, "rb") as y:
            return x.read() == y.read()
    ok = glob.glob(os.path.join(REPO, "philtorch", "_C*.so")) and set(have) == {os.path.basename(s) for s in srcs} \
        and all(same(s, have[os.path.basename(s)]) for s in srcs)
    if ok:
        return
    p = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-3000:])
        raise SystemExit("build failed")


def known_findings(pid):
    out = []
    f = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get("property") == pid and d.get("status") == "open":
                    out.append(d)
    return out


def controls(rec, salt):
    """Corrupted copies of a few recorded cases: the specification has to reject every one of them (otherwise it says nothing)."""
    import copy
    rng = random.Random(salt)
    ids = []
    for _ in range(6):
        src = rng.choice(rec.cases)
        if src["id"] in [rec.meta[i]["control"] for i in ids] or "control" in rec.meta[src["id"]] or src.get("nocontrol"): continue
        c = copy.deepcopy(src)
        if not corrupt(c, rng, rec.c.P): continue
        c["id"] = len(rec.cases) + 1
        rec.cases.append(c)
        rec.meta[c["id"]] = dict(labels=[], info=None, control=src["id"])
        ids.append(c["id"])
    return ids


def corrupt(c, rng, P):
    """change one recorded number of an untainted row by one"""
    if "events" in c:        # a session: some tensor that was there before a call looks different after it
        ii = [n for n, e in enumerate(c["events"]) if n and e["k"] == "call" and c["events"][n - 1]["look"]]
        if not ii: return False
        n = rng.choice(ii)
        k = rng.choice(sorted(c["events"][n - 1]["look"]))
        c["events"][n]["look"][k] = "changed"
        return True
    if "sh" in c:            # a call against the contract: another shape, or the other decision
        v = rng.choice(c["views"])
        if "err" in v: v.clear(); v.update(ys=[7, 7, 7, 7], fs=[-1])
        elif v["ys"]: v["ys"][0] += 1
        else: return False
        return True
    for _ in range(20):
        if not c.get("views"): return False
        v = rng.choice(c["views"])
        f = rng.choice([k for k in ("y", "z", "zf", "jy", "jzf", "g", "h", "hw") if v.get(k)] or ["-"])
        if f == "-": continue
        if f in ("g", "h"):
            n = rng.choice(sorted(v[f])) if isinstance(v[f], dict) else None
            if n is None or n not in c["tan"]: continue
            flat = lambda d: [x for e in d for x in (e if isinstance(e, list) else [e])]
            ii = [i for i, e in enumerate(c["tan"][n]) if (e[0] if isinstance(e, list) else e) % P]
            if not ii: continue
            i = rng.choice(ii)
            if isinstance(v[f][n][i], list): v[f][n][i][0] = (v[f][n][i][0] + 1) % P
            else: v[f][n][i] = (v[f][n][i] + 1) % P
            return True
        d = v[f]
        if f == "zf":
            z = rng.choice(d)
            d = z["v"]
        if c.get("taint"): continue
        while isinstance(d, list) and d and isinstance(d[0], list):
            d = rng.choice(d)
        if not isinstance(d, list) or not d: continue
        i = rng.randrange(len(d))
        if not isinstance(d[i], int): continue
        d[i] = (d[i] + 1) % P
        return True
    return False


def shard_main(pid, tier, seed, sh, nsh, work, q, only=None):
    try:
        t0 = time.time()
        import torch, warnings
        warnings.filterwarnings("ignore")
        torch.set_num_threads(2 if sh % 2 else 1)
        import props
        P = PRIMES[(seed + sh) % len(PRIMES)]
        job, nq, nt, *more = props.JOBS[pid]
        if pid in props.START: props.START[pid]()
        module = more[0] if more else "Trace"
        n = nq if tier == "quick" else nt
        cap = float(os.environ.get("VERIF_CAP", 300 if tier == "quick" else 20000))
        res = dict(states=0, distinct=0, cases=0, execs=0, acc=0, out=0, bad=[], samples=[], jobs=0, controls=0, capped=False, fams={})
        idx = list(range(sh, n, nsh)) if only is None else [only]
        batch = 700 if tier == "quick" else 1500
        rec = Recorder(P, pid, seed)
        bi = 0

        def flush():
            nonlocal rec
            for mod, sub in rec.subs.items():
                decide(sub, mod)
            decide(rec, module)
            rec = Recorder(P, pid, seed)

        def decide(rec, module):
            nonlocal bi
            if not rec.cases:
                return
            w = os.path.join(work, "s%d_%d" % (sh, bi)); bi += 1
            ctl = controls(rec, sh + 100 * bi)
            verd, st, di = validate(rec, w, workers=1, module=module)
            for n in ctl:
                src = rec.meta[n]["control"]
                if verd[src][0] == "ACC":
                    res["controls"] += 1
                    if verd[n][0] != "REJ":
                        raise TlcError("a corrupted copy of case %d was accepted: %s" % (src, json.dumps(rec.cases[n - 1])[:600]))
            del rec.cases[len(rec.cases) - len(ctl):]
            res["states"] += st; res["distinct"] += di; res["cases"] += len(rec.cases); res["execs"] += rec.execs
            for c in rec.cases:
                v, d = verd[c["id"]]
                m = rec.meta[c["id"]]
                fam = (m["info"] or {}).get("fam", c.get("op", "?"))
                fs = res["fams"].setdefault(fam, [0, 0]); fs[0] += 1; fs[1] += len(c["views"])
                if v == "ACC": res["acc"] += 1
                elif v == "OUT": res["out"] += 1
                else:
                    res["bad"].append(dict(detail=d, labels=m["labels"], info=m["info"], job=m.get("job"), case=c, P=P))
                if v == "ACC" and len(res["samples"]) < 2 and c["id"] % 97 == 5:
                    res["samples"].append(dict(m["info"] or {}, views=[l[:4] for l in m["labels"]][:6]))
            shutil.rmtree(w, ignore_errors=True)

        for k, i in enumerate(idx):
            if time.time() - t0 > cap:
                res["capped"] = True
                break
            rng = np.random.default_rng([seed, int(hashlib.sha256(pid.encode()).hexdigest()[:6], 16), i])
            rec.job = i
            job(rec, rng, i, tier)
            res["jobs"] += 1
            if len(rec.cases) >= BATCH.get(module, 1) * batch or any(len(r.cases) >= batch for r in rec.subs.values()):
                flush()
        flush()
        import noext
        noext.stop()
        q.put(("ok", sh, res))
    except BaseException:
        q.put(("err", sh, traceback.format_exc()))


def run_shards(pid, tier, seed, work, nsh, only=None):
    import torch, philtorch  # noqa: loaded once, the shards are forked from here
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    ps = [ctx.Process(target=shard_main, args=(pid, tier, seed, s, nsh, work, q, only)) for s in range(nsh)]
    for p in ps: p.start()
    results = []
    import queue
    while len(results) < nsh:
        try:
            results.append(q.get(timeout=5))
        except queue.Empty:
            dead = [p for p in ps if not p.is_alive() and p.exitcode not in (0, None)]
            if dead and all(not p.is_alive() for p in ps):
                # a recorder died (crash inside the implementation, e.g. a segmentation fault)
                for p in dead:
                    results.append(("crash", ps.index(p), "recorder process ended with code %s" % p.exitcode))
                break
    for p in ps: p.join(10)
    return results


def describe(b):
    m = re.findall(r'<<(\d+), "([^"]+)", (-?\d+), (-?\d+)>>', b["detail"])
    outs = []
    for v, cl, t, r in m[:3]:
        labs = b["labels"][int(v) - 1]
        ob = b["case"]["views"][int(v) - 1]
        outs.append("%s: %s at step %s row %s%s" % (", ".join(labs[:3]) + ("..." if len(labs) > 3 else ""), cl, t, r,
                    " (" + ob["err"] + ")" if "err" in ob else ""))
    return "; ".join(outs)


def matches(kf, b):
    """a known finding names a family and the clause/labels it fails with; every failing view has to be covered by it"""
    info = b["info"] or {}
    for k, want in kf.get("match", {}).items():
        if k == "views": continue
        have = info.get(k)
        if have != want: return False
    return True


def main(argv):
    if argv and argv[0] == "--replay":
        d = json.load(open(argv[1]))
        os.environ["VERIF_SEED"] = str(d["seed"])
        return main([d["property"], "--job", str(d["job"]), "--tier", d["tier"]])
    pid = argv[0]
    only = int(argv[argv.index("--job") + 1]) if "--job" in argv else None
    tier = argv[argv.index("--tier") + 1] if "--tier" in argv else os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    build()
    work = tempfile.mkdtemp(prefix="philcheck-")
    try:
        import mc
        models = [] if only is not None else mc.start(pid, tier, work)
        import props
        if pid in props.PREPARE:
            props.PREPARE[pid](tier, seed, work, props.JOBS[pid][1 if tier == "quick" else 2])
        nsh = 1 if only is not None else SHARDS
        results = run_shards(pid, tier, seed, work, nsh, only)
        mres = mc.finish(models)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    errs = [r for r in results if r[0] == "err"]
    crashes = [r for r in results if r[0] == "crash"]
    for e in errs:
        print("shard %d failed:\n%s" % (e[1], e[2]))
    ok = [r[2] for r in results if r[0] == "ok"]
    bad = [b for r in ok for b in r["bad"]]
    kfs = known_findings(pid)
    hits = {k["id"]: [] for k in kfs}
    fresh = []
    for b in bad:
        for k in kfs:
            if matches(k, b):
                hits[k["id"]].append(b)
                break
        else:
            fresh.append(b)
    tot = {k: sum(r[k] for r in ok) for k in ("states", "distinct", "cases", "execs", "acc", "out", "jobs", "controls")}
    fams = {}
    for r in ok:
        for k, v in r["fams"].items():
            f = fams.setdefault(k, [0, 0]); f[0] += v[0]; f[1] += v[1]
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=tot["distinct"] + sum(m["distinct"] for m in mres), transitions=tot["states"] + sum(m["states"] for m in mres),
                            traces_validated_against_impl=tot["execs"], samples=[s for r in ok for s in r["samples"]][:6] or [{}],
                            cases=tot["cases"], accepted=tot["acc"], outside_specification=tot["out"], jobs=tot["jobs"],
                            corrupted_copies_rejected=tot["controls"],
                            cases_by_family={k: dict(cases=v[0], distinct_observations=v[1]) for k, v in sorted(fams.items())},
                            models=[{k: m[k] for k in ("model", "states", "distinct", "result")} for m in mres],
                            known_findings={k: len(v) for k, v in hits.items()},
                            time_capped=any(r["capped"] for r in ok)),
              assumptions=["float arithmetic on exactly representable values below 2^46 is exact; results are compared modulo a prime below 2^15"],
              wall_s=round(time.time() - t0, 1), violations=len(fresh) + len(crashes))
    if only is None:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print("%s %s seed %d: %d cases, %d executions, %d accepted, %d outside the specification, %d rejected; %d states; models: %s; %.0f s" % (
        pid, tier, seed, tot["cases"], tot["execs"], tot["acc"], tot["out"], len(bad), ev["coverage"]["states"],
        ", ".join("%s %s" % (m["model"], m["result"]) for m in mres) or "none", time.time() - t0))
    for k in kfs:
        if hits[k["id"]]:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    code = 0
    if fresh or crashes:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for n, b in enumerate(fresh[:8]):
            path = os.path.join(rd, "%s-%d-%s.json" % (pid, seed, b["job"]))
            with open(path, "w") as f:
                json.dump(dict(property=pid, seed=seed, tier=tier, job=b["job"], detail=b["detail"], info=b["info"], P=b["P"],
                               labels=b["labels"], case=b["case"]), f, indent=1, default=str)
            print("  %s: %s" % ((b["info"] or {}).get("fam"), describe(b)))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        for c in crashes:
            path = os.path.join(rd, "%s-%d-crash%d.json" % (pid, seed, c[1]))
            with open(path, "w") as f:
                json.dump(dict(property=pid, seed=seed, tier=tier, job=None, detail=c[2]), f)
            print("  " + c[2])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        code = 1
    badm = [m for m in mres if m["result"] != "ok"]
    if errs or badm:
        for m in badm:
            print("model %s: %s" % (m["model"], m["log"][-1500:]))
        if not code:
            code = 2
    return code
