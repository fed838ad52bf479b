"""Parameters of the retained shapelets."""
from fitlib import *  # noqa: F401,F403


def plan(tier):
    return [("fit", i) for i in range(800 if tier == "quick" else 4000)] + [("many", i) for i in range(40 if tier == "quick" else 160)]


def run(job, rng, tier):
    m = mode(rng)
    if job[0] == "many":
        return fit_record(rng, "many", n=rng.choice([4, 6]), T=rng.choice([60, 90]), lens_cfg=rng.choice([[3], [5], [4, 7]]),
                          n_shapelets=rng.choice([100, 129, 260]), alpha8=rng.choice([0, 0, 2]), proba=rng.choice([0, .5, 1]), **m)
    m["ch"] = rng.choice([1, 1, 2, 3, 5])
    T = rng.choice([5, 6, 9, 14, 25, 40, 64, 65, 90])
    lens = [l for l in rng.choice([[2], [3], [3, 4], [5], [2, 9], [T], [7, 11, 13], [T // 2, T // 2 + 1]]) if 2 <= l <= T] or [2]
    lens = sorted(set(lens))
    return fit_record(rng, "fit", n=rng.choice([2, 3, 5]), T=T, lens_cfg=lens, n_shapelets=rng.choice([1, 9, 24, 40]),
                      alpha8=rng.choice([0, 4, 8]), proba=rng.choice([0, .5, 1]), prime=rng.random() < .5,
                      maxch=rng.choice([None, 1, max(1, m["ch"] - 1)]), spread=rng.choice([1, 9, 40]),
                      style=rng.choice([None, "distinct"]),
                      min_len=rng.choice([None, None, max(lens), T + 20]) if m["variable"] else None, **m)


def corrupt(case, rng):
    if not case["shp"]:
        return None
    s = rng.choice(case["shp"])
    how = rng.randrange(3)
    if how == 0:
        s["d"] = case["ml"] + 1
    elif how == 1:
        s["ch"] = s["ch"] + [s["ch"][0]]
    else:
        s["l"] = max(case["lens"]) + 1
    return case
