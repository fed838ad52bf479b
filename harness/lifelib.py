"""Estimators, data sets and observations for the checks that treat an estimator as a black box."""
from common import *  # noqa: F401,F403
from fractions import Fraction


def base_params(cls, rng, kinds=("univariate",), **kw):
    ns = kw.pop("ns", None)
    common_kw = dict(shapelet_lengths=rng.choice([[3], [3, 5], [.25, .5], [3], [3, 5], [.25, .5], [4, 60], [70, 3, 90]]), phase_invariance=rng.random() < .5,
                     percentiles=rng.choice([[5, 10], [20, 60]]), prime_dilations=rng.random() < .3,
                     n_samples=rng.choice([None, None, .75]), random_state=rng.randint(0, 10 ** 6))
    if rng.random() < .25:
        common_kw.update(shapelet_lengths_bounds=rng.choice([[.2, .5], [3, 6]]), lengths_bounds_reduction=rng.choice([0., .5]))
    if cls == "ensemble":
        common_kw.update(n_shapelets_per_estimator=ns or rng.choice([4, 8]), proba_norm=[.5, .5],
                         input_transformers="raw+derivate", shp_alpha=rng.choice([0., .5]), alphas_ridge=[.1, 1., 10.])
    else:
        common_kw.update(n_shapelets=ns or rng.choice([5, 10]), alpha=rng.choice([0., .5, .75]),
                         proba_norm=rng.choice([0., .5, 1.]))
    if cls == "ridge":
        common_kw.update(alphas_ridge=[.1, 1., 10.])
    common_kw.update(kw)
    return common_kw


def build(cls, params):
    from convst.transformers import R_DST
    from convst.classifiers import R_DST_Ridge, R_DST_Ensemble
    p = dict(params)
    for k in ("shapelet_lengths", "percentiles", "proba_norm", "alphas_ridge"):
        if isinstance(p.get(k), list):
            p[k] = list(p[k])
    if p.get("input_transformers") == "raw+derivate":
        from convst.transformers._input_transformers import Raw, Derivate
        p["input_transformers"] = [Raw(), Derivate()]
    return {"rdst": R_DST, "ridge": R_DST_Ridge, "ensemble": R_DST_Ensemble}[cls](**p)


def make_data(rng, kind, n, T, ch=2, classes=2, style=None, spread=5):
    """-> (what the estimator is given, labels, logged integers)"""
    import numpy as np
    variable = kind.endswith("_variable")
    c = ch if kind.startswith("multi") else 1
    lens = [T + (rng.randint(0, spread) if i else 0) for i in range(n)] if variable else T
    if variable:
        rng.shuffle(lens)
    X = rnd_data(rng, n, c, lens, style or "distinct")
    y = [i % classes for i in range(n)]
    rng.shuffle(y)
    return to_real(X, variable), np.array(y), X


def rdst_of(est, cls):
    """The fitted transformers inside est."""
    if cls == "rdst":
        return [est]
    if cls == "ridge":
        return [est.transformer]
    return [s for m in est.models for _, s in m.steps if hasattr(s, "shapelets_")]


def model_digest(est, cls):
    arrays = []
    for t in rdst_of(est, cls):
        arrays += list(t.shapelets_)
    if cls == "ensemble":
        arrays.append(est.model_weights)
    return digest(*arrays)


def use(est, cls, X):
    if cls == "rdst":
        return digest(est.transform(X))
    if cls == "ridge":
        return digest(est.transformer.transform(X), est.predict(X))
    parts = [m[:-1].transform(X) if hasattr(m, "__getitem__") else None for m in est.models]
    return digest(*parts, est.predict(X))
