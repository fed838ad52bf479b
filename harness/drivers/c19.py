"""R_DST_Ensemble under many orders of its tasks and numbers of jobs, with the workers and threads it uses."""
import os
from enslib import *  # noqa: F401,F403

KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]


def plan(tier):
    return [(k, i) for k in KINDS for i in range(15 if tier == "quick" else 60)]


def run(job, rng, tier):
    import joblib
    import numba
    import numpy as np
    from convst.utils import checks_utils
    kind, _ = job
    nm = rng.choice([1, 2, 3, 4, 5])
    X, y, _ = make_data(rng, kind, rng.randint(4, 6), rng.choice([9, 12]), classes=rng.choice([2, 3]))
    Z, _, _ = make_data(rng, kind, 3, 14)
    p = base_params("ensemble", rng, ns=rng.choice([3, 5]), proba_norm=[rng.choice([0., .5, 1.]) for _ in range(nm)], n_jobs=1)
    p["input_transformers"] = [Tag(t % 4 + 1) for t in range(nm)]
    cpus = rng.choice([1, 2, 4, 6, 8, 12, 16])
    real, runs, calls = os.cpu_count, [], []
    mine = getattr(checks_utils, "cpu_count", None)
    default = numba.config.NUMBA_NUM_THREADS, numba._THREADS[0]

    def go(est, what, n_jobs, f):
        del joblib.ORDER["log"][:]
        r = outcome(f, 60)
        for x in joblib.ORDER["log"]:
            calls.append({"what": what, "jobs": 1 if n_jobs is None else n_jobs, "models": nm, "workers": x["workers"] or 1,
                          "threads": x["threads"]})
        return r

    def result(est):
        return lambda: model_digest(est.fit(X, y), "ensemble")
    try:
        os.cpu_count = lambda: cpus
        if mine:
            checks_utils.cpu_count = os.cpu_count
        numba.config.NUMBA_NUM_THREADS = numba._THREADS[0] = cpus
        joblib.set_order("seq")
        numba.reset_rng(1)
        est = build("ensemble", p)
        refs = {"fit": go(est, "fit", 1, result(est))}
        refs["use"] = go(est, "predict", 1, lambda: use(est, "ensemble", Z))
        for k in range(5 if tier == "quick" else 12):
            n_jobs = rng.choice([None, 1, 2, 3, 4, cpus, cpus + 3, -1, -2, -cpus, -cpus - 5])
            joblib.set_order(rng.choice(["rev", "perm", "perm"]), rng.randrange(10 ** 6))
            numba.reset_rng(rng.randrange(10 ** 6))
            numba._THREADS[0] = cpus
            e = build("ensemble", dict(p, n_jobs=n_jobs, prefer=rng.choice([None, "threads"])))
            for again in range(rng.choice([1, 1, 2, 3])):
                runs.append({"what": "fit%d:%r" % (again, n_jobs), "ref": "fit", "out": go(e, "fit", n_jobs, result(e))})
                if rng.random() < .7:
                    numba._THREADS[0] = cpus if rng.random() < .5 else numba._THREADS[0]
                    runs.append({"what": "use%d:%r" % (again, n_jobs), "ref": "use", "out": go(e, "predict", n_jobs, lambda: digest(*e.predict(Z)))})
        # what predict alone gives, in the order and with the workers of any of these
        refs["use"] = outcome(lambda: digest(*est.predict(Z)))
    finally:
        os.cpu_count = real
        if mine:
            checks_utils.cpu_count = mine
        numba.config.NUMBA_NUM_THREADS, numba._THREADS[0] = default
        joblib.set_order("seq")
    return {"tag": kind, "cpus": cpus, "refs": refs, "runs": runs, "calls": calls}


def corrupt(case, rng):
    if rng.random() < .5:
        rng.choice(case["runs"])["out"] = "0"
    else:
        x = rng.choice([x for x in case["calls"]])
        x["workers"] += 1
    return case
