"""normalize_output."""
from lifelib import *  # noqa: F401,F403

KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]


def plan(tier):
    return [(k, i) for k in KINDS for i in range(70 if tier == "quick" else 220)]


def run(job, rng, tier):
    import numpy as np
    from sklearn.linear_model import RidgeClassifierCV
    kind, i = job
    T = rng.choice([8, 12])
    X, y, _ = make_data(rng, kind, rng.randint(4, 6), T, spread=4)
    Z, _, logged = make_data(rng, kind, 3, 2 * T, spread=9, style=rng.choice(["distinct", "small", "runs"]))
    p = base_params("rdst", rng, ns=10)
    a = build("rdst", dict(p, normalize_output=False)).fit(X, y)
    b = build("rdst", dict(p, normalize_output=True)).fit(X, y)

    def rows(M, unit):
        M = np.asarray(M)
        return [[[int(round(float(r[3 * s]) * 1000)), fixed(r[3 * s + 1], unit), fixed(r[3 * s + 2], unit)] for s in range(len(r) // 3)]
                for r in M]
    ridge = ["", ""]
    if i % 3 == 0:
        q = {k: v for k, v in p.items()}
        from convst.transformers._input_transformers import c_StandardScaler
        want = c_StandardScaler(with_mean=True).fit_transform(b.transform(X))
        RidgeClassifierCV.LOG = []
        try:
            build("ridge", dict(q, alphas_ridge=[1.], normalize_output=True)).fit(X, y)
            ridge = [digest(want), digest(RidgeClassifierCV.LOG[-1][1])]
        finally:
            RidgeClassifierCV.LOG = None
    return {"tag": kind, "len": [len(x[0]) for x in logged], "plain": rows(a.transform(Z), 1), "scaled": rows(b.transform(Z), 10 ** 6),
            "models": [model_digest(a, "rdst"), model_digest(b, "rdst")], "ridge": ridge}


def corrupt(case, rng):
    case["scaled"][rng.randrange(3)][0][rng.randrange(3)] += rng.choice([-5000, 5000])
    return case
