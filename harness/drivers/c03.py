"""Where shapelets come from."""
from fitlib import *  # noqa: F401,F403
import math


def plan(tier):
    return [("fit", i) for i in range(900 if tier == "quick" else 2400)]


def run(job, rng, tier):
    m = mode(rng)
    T = rng.choice([6, 7, 9, 12, 17])
    lens = [l for l in rng.choice([[4], [5], [4, 6], [3, 5], [2, 4], [5, 7, 9]]) if l <= T]
    n = rng.choice([1, 3, 4, 5, 8])
    return fit_record(rng, "fit", n=n, T=T, lens_cfg=lens, n_shapelets=rng.choice([3, 8, 12]),
                      alpha8=rng.choice([0, 2, 4, 7]), proba=rng.choice([0, .5, .5, 1]), prime=rng.random() < .3,
                      maxch=rng.choice([None, None, 1]), spread=rng.choice([1, 4, 9]),
                      style=rng.choice(["distinct", "distinct", "distinct", "neg", "wide", "small", "runs"]),
                      min_len=rng.choice([None, None, None, T - 1, T + 20]) if m["variable"] else None,
                      est_kw={"n_samples": rng.choice([None, .5, .75, 1., 1.5, 2.])} if n > 3 else None, **m)


def corrupt(case, rng):
    if not case["shp"] or not case["nonzero"]:
        return None
    s = rng.choice(case["shp"])
    if len(s["v"][0]) < 3:
        return None
    rng.choice(s["v"])[rng.randrange(s["l"])] += 1237
    return case
