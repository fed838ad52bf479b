"""Subsampling."""
from fitlib import *  # noqa: F401,F403


def plan(tier):
    return [("fit", i) for i in range(360 if tier == "quick" else 1600)]


def run(job, rng, tier):
    m = dict(ch=rng.choice([1, 1, 2]), variable=rng.random() < .6, phase=rng.random() < .5)
    p = rng.choice([0, 16, 24, 4, 6, 8, 8, 10, 12, 14])
    n = rng.choice([4, 5, 6, 8, 9]) if p else rng.choice([2, 3, 4])
    if p == 16:
        n = rng.choice([2, 3, 4])
    case = fit_record(rng, "n_samples=%d/16" % p, n=n, T=rng.choice([9, 11]), lens_cfg=[4], n_shapelets=64 if p in (0, 16) else rng.choice([24, 40]),
                      alpha8=0, proba=rng.choice([0, .5, 1]), perc=rng.choice([(50, 50), (0, 100), (30, 35)]), spread=rng.choice([3, 8]),
                      classes=rng.choice([1, 2, 3]) if n > 5 else rng.choice([1, 2]),
                      est_kw={"n_samples": {0: None, 16: rng.choice([1, 1.0])}.get(p, p / 16)}, **m)
    case["p"] = p
    return case


def corrupt(case, rng):
    if 0 < case["p"] < 16 and len(case["shp"]) > 20:
        case["p"] = 2
        return case
    return None
