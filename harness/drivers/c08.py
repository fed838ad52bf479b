"""Fit and transform under many thread counts and interleavings of the parallel iterations."""
import json
import os
from lifelib import *  # noqa: F401,F403

KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]
POLICIES = ["seq", "rev", "perm", "weave", "weave", "plan", "plan", "plan"]
_GEN = None


def schedules():
    global _GEN
    if _GEN is None:
        _GEN = [json.loads(x)["s"] for x in open(os.environ["VERIF_GEN"])]
    return _GEN


def accesses(what, log):
    """One parallel loop: what each iteration read and wrote, of the cells that some iteration wrote."""
    written = set().union(*[w for _, _, w in log]) if log else set()
    names = {a: i + 1 for i, a in enumerate(sorted(written))}
    return {"what": what, "its": [{"r": sorted(names[a] for a in r & written), "w": sorted(names[a] for a in w)} for _, r, w in log]}


def plan(tier):
    return [(k, i) for k in KINDS for i in range(11 if tier == "quick" else 90)]


def run(job, rng, tier):
    import numba
    from numba.sched import SCHED
    kind, _ = job
    T = rng.choice([8, 11, 14])
    X, y, _ = make_data(rng, kind, rng.randint(3, 5), T, ch=rng.choice([2, 3]), spread=3)
    params = base_params("rdst", rng, kinds=(kind,), ns=rng.choice([6, 10, 14]), alpha=rng.choice([.25, .5, .75]),
                         max_channels=None, n_jobs=False)
    Z = make_data(rng, kind, 3, 2 * T, ch=X[0].shape[0], spread=4)[0]
    SCHED.set("off")
    numba.reset_rng(1)
    est = build("rdst", params).fit(X, y)
    refs = {"fit": model_digest(est, "rdst"), "transform": digest(est.transform(Z)), "fixed": digest(est.transform(Z))}
    runs = []
    loops = switches = 0
    recorded = []
    try:
        SCHED.set("record")
        for what in ("fit", "transform"):
            SCHED.recorded = []
            if what == "fit":
                e2 = build("rdst", dict(params, n_jobs=False)).fit(X, y)
                out = model_digest(e2, "rdst")
            else:
                out = digest(e2.transform(Z))
            runs.append({"what": what + ":record", "ref": what, "out": out})
            recorded += [accesses(what, log) for log in SCHED.recorded]
        for k in range(8 if tier == "quick" else 14):
            pol, threads = POLICIES[k % len(POLICIES)], rng.choice([1, 2, 3, 4, 8])
            numba.reset_rng(rng.randrange(10 ** 6))
            SCHED.loops = SCHED.switches = 0
            SCHED.plan = rng.choice(schedules())
            SCHED.set(pol, rng.randrange(10 ** 6), threads)
            e2 = build("rdst", dict(params, n_jobs=rng.choice([False, threads]) if threads <= 8 else False))
            r = limited(lambda: e2.fit(X, y))
            what = "fit:%s:%d" % (pol, threads)
            runs.append({"what": what, "ref": "fit", "out": model_digest(e2, "rdst") if r[0] == "ok" else r[1]})
            if r[0] == "ok":
                runs.append({"what": what.replace("fit", "transform"), "ref": "transform", "out": outcome(lambda: digest(e2.transform(Z)))})
            runs.append({"what": what.replace("fit", "transform-fixed"), "ref": "fixed", "out": outcome(lambda: digest(est.transform(Z)))})
            loops += SCHED.loops
            switches += SCHED.switches
    finally:
        SCHED.set("off")
    return {"tag": kind, "refs": refs, "runs": runs, "loops": recorded, "interleaved": loops, "switches": switches}


def corrupt(case, rng):
    loops = [l for l in case["loops"] if len(l["its"]) > 1 and any(x["w"] for x in l["its"])]
    if loops and rng.random() < .5:
        its = rng.choice(loops)["its"]
        a = rng.choice([i for i, x in enumerate(its) if x["w"]])
        its[a - 1]["r" if rng.random() < .5 else "w"].append(rng.choice(its[a]["w"]))
    else:
        rng.choice(case["runs"])["out"] = "000000000000"
    return case
