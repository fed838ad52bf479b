"""Histories of one estimator, enumerated by TLC (Gen_Lifecycle), replayed on the real classes."""
import json
import os
from lifelib import *  # noqa: F401,F403

KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]
PER = 12
_GEN = None


def histories():
    global _GEN
    if _GEN is None:
        _GEN = [json.loads(x) for x in open(os.environ["VERIF_GEN"])]
    return _GEN


def plan(tier):
    a, b, c = (24, 8, 8) if tier == "quick" else (300, 80, 60)
    return [("rdst", i) for i in range(a)] + [("ridge", i) for i in range(b)] + [("ensemble", i) for i in range(c)]


def run(job, rng, tier):
    from sklearn.base import clone
    cls, i = job
    kinds = rng.choice([[k] * 3 for k in KINDS] + [rng.sample(KINDS, 3) for _ in range(8)])
    explicit = len(set(kinds)) == 1 and rng.random() < .4
    tt0 = kinds[0] if explicit else "auto"
    extra = {}
    if cls == "rdst":
        extra = {"max_channels": rng.choice([None, None, 1]), "min_len": rng.choice([None, None, 7]), "n_samples": rng.choice([None, .75, 1.5])}
    params = base_params(cls, rng, **extra)
    seeds = [params["random_state"], params["random_state"] + 1]
    names = ["A", "B", "C"]
    data = {n: make_data(rng, k, rng.randint(5, 7), rng.choice([8, 10, 14]), ch=rng.choice([2, 2, 3]), spread=3, classes=rng.choice([2, 2, 3]))
            for n, k in zip(names, kinds)}
    bad = make_data(rng, "univariate", 4, 9)[0][:, 0]            # two-dimensional

    refs, ests = {}, {}

    def ref(p, tt, d, x=None):
        """What a fresh estimator does."""
        key = "%d|%s|%s" % (p, tt, d)
        if key not in refs:
            est = build(cls, dict(params, random_state=seeds[p - 1], transform_type=tt))
            r = limited(lambda: est.fit(data[d][0], data[d][1]), 30)
            ests[key] = est if r[0] == "ok" else None
            refs[key] = model_digest(est, cls) if r[0] == "ok" else r[1]
        if x is not None and key + "|" + x not in refs:
            refs[key + "|" + x] = outcome(lambda: use(ests[key], cls, data[x][0])) if ests[key] is not None else "unfitted"
        return key
    pd = []
    for p in (1, 2):
        pd.append(params_digest(build(cls, dict(params, random_state=seeds[p - 1], transform_type=tt0))))
    out = []
    for k in range(PER if cls == "rdst" else 8):
        h = rng.choice(histories())
        est = build(cls, dict(params, transform_type=tt0))
        ops, p, fitted, usable = [], 1, True, True
        decl, det, key = tt0, False, None          # which fresh estimators the specification will ask for
        for op, arg in h:
            if op == "use" and not usable:
                continue
            if op == "fit":
                key = ref(p, decl, arg)
                key, det = (p, decl, arg), decl == "auto"
                r = limited(lambda: est.fit(data[arg][0], data[arg][1]))
                fitted = usable = r[0] == "ok"
                o = model_digest(est, cls) if fitted else r[1]
            elif op == "bad":
                r = limited(lambda: est.fit(bad, data["A"][1][:4]))
                o, fitted = ("accepted" if r[0] == "ok" else r[1]), False
                usable = False
            elif op == "use":
                if key:
                    ref(*key, x=arg)
                o = outcome(lambda: use(est, cls, data[arg][0]))
            elif op == "clone" and not fitted:
                break               # what transform_type reads after a refused fit is left open
            elif op == "clone":
                est, usable, o = clone(est), True, ""
                if cls == "rdst" and det:
                    decl = kinds[names.index(key[2])]
                key, det = None, False
            elif op == "seed":
                p = 3 - p
                est.set_params(random_state=seeds[p - 1])
                o = ""
            else:
                est.set_params(transform_type="auto")
                decl, det = "auto", False
                usable = usable and key is None
                o = ""
            ops.append({"op": op, "arg": arg, "out": o, "tt": str(est.transform_type), "ps": params_digest(est)})
        out.append({"tag": cls, "tracks": cls == "rdst", "tt0": tt0, "kinds": dict(zip(names, kinds)), "refs": refs, "pd": pd,
                    "ops": ops})
    return out


def corrupt(case, rng):
    ops = [o for o in case["ops"] if len(o["out"]) == 12]
    if not ops:
        return None
    o = rng.choice(ops)
    if rng.random() < .3:
        o["ps"] = "000000000000"
    else:
        o["out"] = "000000000000"
    return case
