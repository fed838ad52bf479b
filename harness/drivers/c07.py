"""Sound and unsound input for one fitted model."""
from lifelib import *  # noqa: F401,F403

KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]


def plan(tier):
    return [(k, i) for k in KINDS for i in range(40 if tier == "quick" else 200)]


def _series(rng, c, n):
    import numpy as np
    return np.array([rnd_series(rng, n, "wide") for _ in range(c)], dtype=float).reshape(c, n) / Q


def describe(X):
    import numpy as np
    if isinstance(X, np.ndarray) and X.dtype != object:
        d = {"coll": "array", "nd": X.ndim, "n": int(X.shape[0]) if X.ndim else 0, "ch": [], "len": []}
        if X.ndim == 3:
            d["ch"], d["len"] = [int(X.shape[1])] * d["n"], [int(X.shape[2])] * d["n"]
        return d
    nds = [np.ndim(x) for x in X]
    d = {"coll": "list" if isinstance(X, list) else "object", "nd": 1 + (nds[0] if len(set(nds)) == 1 else 0) if nds else 3,
         "n": len(X), "ch": [], "len": []}
    if d["nd"] == 3:
        d["ch"], d["len"] = [int(x.shape[0]) for x in X], [int(x.shape[1]) for x in X]
    return d


def run(job, rng, tier):
    import numpy as np
    kind, _ = job
    variable = kind.endswith("_variable")
    T = rng.choice([9, 12, 18])
    X, y, _ = make_data(rng, kind, rng.randint(3, 5), T, ch=rng.choice([2, 3]))
    c = X[0].shape[0]
    phase = rng.random() < .35
    params = base_params("rdst", rng, ns=rng.choice([1, 5, 10]), phase_invariance=phase, n_samples=None,
                         transform_type=rng.choice(["auto", kind]), min_len=None)
    est = build("rdst", params).fit(X, y)
    shp = est.shapelets_
    span = int(((shp[1] - 1) * shp[2]).max()) + 1 if len(shp[1]) else 1
    s = lambda n, k=c: _series(rng, k, n)  # noqa: E731

    def obj(l):
        o = np.empty(len(l), dtype=object)
        for a, v in enumerate(l):
            o[a] = v
        return o
    if variable:
        ins = [[s(span), s(max(span, 3))], [s(T + 3), s(max(span - 1, 3)), s(T)], [s(T), s(T, c + 1)], [s(T, c + 1), s(T, c + 1)],
               [np.arange(float(T))] * 2, [], [s(2), s(2)], [s(T), s(max(span, 3) + 4)], [s(T).reshape(1, c, T)] * 2,
               obj([s(T), s(T + 5)]), obj([s(T), s(T, c + 2)]), obj([s(max(3, span - 1)), s(T)]), [s(max(span, 3))]]
        if span <= 3:
            ins[0] = [s(3), s(5)]
        if c > 1:
            ins += [[s(T, 1), s(T, 1)], [s(T, c - 1), s(T)], [s(T), s(T + 1, 1)], [s(T, 1), s(T)], obj([s(T), s(T), s(T + 2, 1)]),
                    [s(T), s(T, 1), s(T, c - 1)]]
        mixed = [[s(T), s(T, 1), s(T)], [s(T, 1), s(T, c), s(T + 1, c)], [s(T, 3), s(T, 2), s(T + 1, 1)], obj([s(T, 2), s(T + 1, 1)])]
        ins += [np.arange(float(T)), obj([np.arange(3.), np.arange(4.)]), np.zeros((0, c, T))]
    else:
        st = lambda n, m, k=c: np.array([s(m, k) for _ in range(n)]).reshape(n, k, m)  # noqa: E731
        ins = [st(2, max(span, 3)), st(2, max(span - 1, 3)), st(1, max(span - 1, 3)), st(2, T, c + 1), st(3, T)[:, 0], np.arange(float(T)),
               st(2, 2), st(3, T)[:0], st(2, T)[:, :0], st(2, T)[:, :, :0], st(2, T).reshape(2, c, T, 1), st(1, T + 7), st(2, 1),
               st(2, max(span, 3) + 1)]
        mixed = []
        if c > 1:
            ins += [st(2, T, c - 1)]
    rng.shuffle(ins)
    probe = X
    ref, model = digest(est.transform(probe)), model_digest(est, "rdst")
    calls = []

    def log(op, x, r):
        calls.append({"op": op, "x": describe(x), "out": "ok" if r[0] == "ok" else r[1], "model": model_digest(est, "rdst"),
                      "again": outcome(lambda: digest(est.transform(probe)))})
    for x in ins:
        log("transform", x, limited(lambda: est.transform(x)))
    for x in rng.sample(ins, 4) + mixed:
        d = describe(x)
        if not d["ch"] or min(d["ch"] or [0]) != max(d["ch"] or [1]) or min(d["len"]) < 3 or d["n"] < 1:
            log("fit", x, limited(lambda: build("rdst", dict(params, shapelet_lengths=[3], shapelet_lengths_bounds=None)).fit(
                x, np.arange(len(x)) % 2)))
    # the model itself, fitted again: a refused fit on data of the kind it knows leaves it as it was
    again = [[s(m) for m in (T, 2, T)], [s(2), s(2)], obj([s(T), s(1)])] if variable else [np.array([s(2), s(2)]), np.array([s(1)]), np.array([s(T), s(T)])[:0]]
    if variable:
        again += [[s(T), s(T, c + 1)], obj([s(T), s(T), s(T + 1, c + 1)])]
    for x in rng.sample(again, 2):
        log("fit", x, limited(lambda: est.fit(x, np.arange(len(x)) % 2)))
    if params["shapelet_lengths"] == [.25, .5] and params.get("shapelet_lengths_bounds") is None:
        x = [s(T), s(7), s(T)] if variable else np.array([s(7), s(7)])       # a quarter of seven is less than two
        log("refused", x, limited(lambda: est.fit(x, np.arange(len(x)) % 2)))
    # a min_len above the shortest training series
    a = b = "-"
    if variable:
        m = min(x.shape[1] for x in X)
        a = model_digest(build("rdst", dict(params, min_len=m)).fit(X, y), "rdst")
        b = outcome(lambda: model_digest(build("rdst", dict(params, min_len=m + rng.choice([1, 5, 100]))).fit(X, y), "rdst"))
    return {"tag": kind, "nch": c, "span": span, "phase": phase, "ref": ref, "model": model, "calls": calls, "minlen": [a, b]}


def corrupt(case, rng):
    r = rng.choice(case["calls"])
    r["out"] = "ok" if r["out"] != "ok" else "ValueError"
    return case
