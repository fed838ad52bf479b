"""Thresholds."""
from fitlib import *  # noqa: F401,F403


def plan(tier):
    return [("fit", i) for i in range(900 if tier == "quick" else 2400)]


def run(job, rng, tier):
    import numpy as np
    m = mode(rng)
    T = rng.choice([8, 11, 16])
    lens = rng.choice([[4], [5], [4, 6], [3, 5], [7]])
    n = rng.choice([1, 2, 3, 4, 6])
    perc = rng.choice([(50, 50), (30, 30), (0, 0), (100, 100), (5, 10), (90, 95), (40, 60), (0, 1), (1, 1), (0, 100), (1, 2)])
    given = rng.choice([list, lambda v: [float(p) for p in v], lambda v: np.array(v, dtype=float), np.array])(perc)
    return fit_record(rng, "fit", n=n, T=T, lens_cfg=lens, n_shapelets=rng.choice([4, 8, 12]), alpha8=rng.choice([0, 4]),
                      proba=rng.choice([0, .5, .5, 1]), perc=perc,
                      classes=rng.choice([1, 2, 2, 3, n]), spread=rng.choice([2, 7]), maxch=rng.choice([None, None, 1]), est_kw={"percentiles": given}, **m)


def corrupt(case, rng):
    if not case["shp"]:
        return None
    s = rng.choice(case["shp"])
    s["th100"] = rng.choice([-100000000, s["th100"] * 3 + 60000000])
    return case
