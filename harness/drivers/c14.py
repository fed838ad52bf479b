"""Configurations of lengths enumerated by TLC (Gen_Lengths), applied by fit."""
import json
import os
import warnings
from lifelib import *  # noqa: F401,F403

KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]
CANARIES = 60
_G = None


def gen():
    global _G
    if _G is None:
        _G = [json.loads(x) for x in open(os.environ["VERIF_GEN"])]
    return _G


def plan(tier):
    n = len(gen())
    k = 420 if tier == "quick" else n
    return [("config", i) for i in range(k)]


def width(x):
    a, b = (v if x["g"]["how"] == "bint" else v * x["m"] // 16 for v in x["g"]["e"])
    return max(b, 3) - max(a, 3) + 1


def run(job, rng, tier):
    import numpy as np
    full = tier != "quick"
    g = gen()[job[1]] if full else rng.choice(gen())
    if not full and g["g"]["how"] in ("bint", "bfrac") and g["m"] < 9 and rng.random() < .7:
        g = rng.choice([x for x in gen() if x["m"] >= 9])
    if not full and rng.random() < .25:
        g = rng.choice([x for x in gen() if x["g"]["how"] in ("bint", "bfrac") and 3 <= width(x) <= 5] or gen())
    m, how, e = g["m"], g["g"]["how"], g["g"]["e"]
    kind = rng.choice(KINDS)
    variable = kind.endswith("_variable")
    use_min = variable and rng.random() < .5
    T = m + rng.randint(1, 6) if use_min else m
    X, y, _ = make_data(rng, kind, 4, T, ch=2, spread=5)
    kw = {}
    nums = [a if how in ("int", "bint") else a / 16 for a in e]
    if how in ("int", "frac"):
        kw["shapelet_lengths"] = rng.choice([list, np.array])(nums)
    else:
        kw["shapelet_lengths_bounds"] = nums
        kw["lengths_bounds_reduction"] = g["g"]["red"] / 16
    est = build("rdst", dict(n_shapelets=160, alpha=0., proba_norm=.5, random_state=rng.randint(0, 10 ** 6), transform_type=kind,
                             min_len=m if use_min else None, phase_invariance=True, **kw))
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = limited(lambda: est.fit(X, y))
    case = {"tag": how, "kind": kind, "g": g["g"], "m": m, "out": "ok" if r[0] == "ok" else r[1], "seen": [], "all": False,
            "warned": any(issubclass(x.category, UserWarning) for x in w)}
    if r[0] == "ok":
        case["seen"] = sorted(set(int(a) for a in est.shapelets_[1]))
        case["all"] = len(est.shapelets_[1]) == 160
    return case


def corrupt(case, rng):
    if case["out"] != "ok":
        case["out"] = "ok"
    else:
        case["seen"] = case["seen"] + [97]
    return case
