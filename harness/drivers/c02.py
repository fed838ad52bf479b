"""Transform as a function of one series: batches that reorder, repeat, drop and add series."""
from lifelib import *  # noqa: F401,F403

KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]


def plan(tier):
    return [(k, i) for k in KINDS for i in range(60 if tier == "quick" else 220)]


def run(job, rng, tier):
    import numpy as np
    kind, _ = job
    T = rng.choice([8, 11, 15])
    style = rng.choice([None, "distinct", "small", "runs"])
    X, y, _ = make_data(rng, kind, rng.randint(4, 6), T, ch=rng.choice([2, 3]), style="distinct")
    params = base_params("rdst", rng, normalize_output=rng.random() < .3, ns=rng.choice([4, 9, 15]),
                         transform_type=rng.choice(["auto", kind]))
    est = build("rdst", params).fit(X, y)
    shp = est.shapelets_
    span = int(((shp[1] - 1) * shp[2]).max()) + 1 if len(shp[1]) else 3
    variable = kind.endswith("_variable")
    ch = X[0].shape[0]
    n = rng.randint(4, 7)
    low = 3 if params["phase_invariance"] else max(3, span)
    lens = [rng.choice([low, low + 1, T, T + 6, low + rng.randint(0, 20)]) for _ in range(n)] if variable else max(low, rng.choice([T, T + 4]))
    if variable:
        lens = [max(low, a) for a in lens]
    pool = rnd_data(rng, n, ch, lens, style)
    if rng.random() < .3:
        pool[1] = [list(s) for s in pool[0]]                    # a duplicate
    if rng.random() < .3:
        pool[2] = [[0] * len(s) for s in pool[2]]               # all zero
    R = to_real(pool, variable)

    def batch(idx):
        if variable:
            b = [R[j].copy() for j in idx]
            if rng.random() < .4:
                o = np.empty(len(b), dtype=object)
                for a, v in enumerate(b):
                    o[a] = v
                return o
            return b
        b = R[idx].copy()
        if rng.random() < .3:
            b.flags.writeable = False
        return b
    rows, model = [], model_digest(est, "rdst")
    for j in range(n):
        rows.append(digest(np.asarray(est.transform(batch([j])))[0]))
    maps = [list(range(n)), list(range(n))[::-1], rng.sample(range(n), n), [rng.randrange(n) for _ in range(n + 2)],
            rng.sample(range(n), rng.randint(1, n - 1)), [rng.randrange(n)] * 2, rng.sample(range(n), n), list(range(n))]
    if variable:                                                # with and without the longest and the shortest
        order = sorted(range(n), key=lambda j: len(pool[j][0]))
        maps += [order[:-1], order[1:], order[::-1]]
    if rng.random() < .35:                                      # many rows
        big = [rng.randrange(n) for _ in range(rng.randint(66, 140))]
        maps.append(rng.choice([big, sorted(big), sorted(big, key=lambda j: -len(pool[j][0]))]))
    calls, B = [], None
    for mp in maps:
        if B is not None and len(B) == len(mp) and rng.random() < .6 and (isinstance(B, list) or B.flags.writeable):
            new = batch(mp)                                     # the container of the call before, with other series
            for a in range(len(mp)):
                B[a] = new[a]
        else:
            B = batch(mp)
        before = data_digest(B)
        r = limited(lambda: est.transform(B))
        M = r[1] if r[0] == "ok" else None
        ok = r[0] == "ok" and getattr(M, "ndim", 0) == 2
        calls.append({"map": [j + 1 for j in mp], "raised": "" if r[0] == "ok" else r[1],
                      "nrows": int(M.shape[0]) if ok else -1, "ncols": int(M.shape[1]) if ok else -1,
                      "finite": bool(ok and np.isfinite(M).all()), "out": [digest(row) for row in M] if ok else [],
                      "same_input": data_digest(B) == before, "model": model_digest(est, "rdst")})
    return {"tag": kind, "rows": rows, "model": model, "nshp": len(shp[1]), "calls": calls}


def corrupt(case, rng):
    r = rng.choice(case["calls"])
    how = rng.randrange(4)
    if how == 0:
        r["same_input"] = False
    elif how == 1:
        r["model"] = "0"
    elif how == 2 and len(set(r["out"])) > 1:
        r["out"] = r["out"][1:] + r["out"][:1]
        if all(r["out"][j] == case["rows"][r["map"][j] - 1] for j in range(len(r["map"]))):
            return None
    else:
        r["ncols"] += 1
    return case
