"""Alpha similarity: many shapelets on few short series, so that positions collide and run out."""
from fitlib import *  # noqa: F401,F403


def plan(tier):
    return [("fit", i) for i in range(800 if tier == "quick" else 3000)]


def run(job, rng, tier):
    m = mode(rng)
    m["ch"] = rng.choice([1, 1, 1, 2, 3])
    T = rng.choice([8, 10, 13, 18])
    lens = rng.choice([[4], [5], [5], [4, 6], [5, 7]])
    return fit_record(rng, "fit", n=rng.choice([1, 2, 3]), T=T, lens_cfg=lens, n_shapelets=rng.choice([10, 20, 30]),
                      alpha8=rng.choice([0, 2, 4, 5, 6, 8, 8]), proba=rng.choice([0, 1, .5]), prime=rng.random() < .3,
                      maxch=rng.choice([None, None, 1]), spread=rng.choice([1, 5]), classes=1, **m)


def corrupt(case, rng):
    """A shapelet that appears twice, or one that vanished while there was room."""
    if case["kind"].startswith("multi") or len(case["shp"]) < 2 or case["al"] < 4:
        return None
    if rng.random() < .5 and len(case["lens"]) == 1:
        s = case["shp"][0]
        case["shp"] = [s] + case["shp"]
        case["n"] += 1
        return case
    if case["al"] == 4 and len(case["shp"]) == case["n"] and len(case["X"]) == 3:
        case["shp"] = case["shp"][:3]
        return case
    return None
CANARIES = 120
