"""Equal seeds, unequal states of the other generators; and no seed."""
from lifelib import *  # noqa: F401,F403

KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]


def plan(tier):
    a, b, c = (64, 20, 20) if tier == "quick" else (320, 80, 80)
    return [("rdst", i) for i in range(a)] + [("ridge", i) for i in range(b)] + [("ensemble", i) for i in range(c)]


def run(job, rng, tier):
    import numba
    import numpy as np
    cls, i = job
    kind = KINDS[i % 4]
    X, y, _ = make_data(rng, kind, rng.randint(6, 8), rng.choice([9, 14]), spread=3)
    Z = make_data(rng, kind, 3, 28, spread=3)[0]
    params = base_params(cls, rng, ns=rng.choice([6, 12]))
    params["n_samples"] = rng.choice([None, .5, .75, 1.5])
    params["shapelet_lengths_bounds"] = None
    params["shapelet_lengths"] = [3, 5]

    def noise(k):
        if k % 3 == 1:
            np.random.seed(rng.randrange(10 ** 6))
        np.random.rand(rng.randint(0, 9))
        if k % 3 == 2:
            numba.reset_rng(rng.randrange(10 ** 6))
            build("rdst", base_params("rdst", rng)).fit(X, y)

    def one(seed):
        e = build(cls, dict(params, random_state=seed)).fit(X, y)
        return e, model_digest(e, cls), use(e, cls, Z)
    s = rng.choice([params["random_state"], params["random_state"], 0, 0, 1, 2 ** 32 - 1, np.int64(7), np.int32(0), np.uint8(200)])
    e, m, u = one(s)
    refs, runs = {"model": m, "use": u}, []
    for k in range(3):
        noise(k)
        r = limited(lambda: one(s), 40)
        a, b = (r[1][1], r[1][2]) if r[0] == "ok" else (r[1], r[1])
        runs += [{"what": "model%d" % k, "ref": "model", "out": a}, {"what": "use%d" % k, "ref": "use", "out": b}]
    r = limited(lambda: e.fit(X, y), 40)                       # and the same estimator again
    runs.append({"what": "refit", "ref": "model", "out": model_digest(e, cls) if r[0] == "ok" else r[1]})
    apart = []
    for k in range(3):
        apart.append(one(None)[1])
    e0 = build(cls, dict(params, random_state=None))
    for k in range(2):
        apart.append(model_digest(e0.fit(X, y), cls))
    return {"tag": cls + ("+subsample" if params["n_samples"] else ""), "refs": refs, "runs": runs, "apart": apart}


def corrupt(case, rng):
    if rng.random() < .5:
        rng.choice(case["runs"])["out"] = "000000000000"
    else:
        case["apart"][1] = case["apart"][0]
    return case
