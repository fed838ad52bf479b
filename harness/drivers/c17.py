"""Histories of R_DST_Ridge: fits, predictions and scores, with what the ridge classifier is given."""
import math
from lifelib import *  # noqa: F401,F403

KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]
LABELS = [lambda k: k, lambda k: [7, -3, 12, 5][k], lambda k: "dbca"[k] + "x", lambda k: k + 1]


def plan(tier):
    return [(k, i) for k in KINDS for i in range(50 if tier == "quick" else 260)]


def scale_of(col):
    r = max(col) - min(col)
    return 2.0 ** math.floor(math.log2(4000 / r)) if r else 1.0


def units(M):
    """Matrix -> (offsets, scales) of its columns, or None if a column is constant up to rounding only."""
    off, sc = [], []
    for j in range(M.shape[1]):
        col = [float(v) for v in M[:, j]]
        r = max(col) - min(col)
        if r == 0 and col[0] * 4 != int(col[0] * 4) or 0 < r < 1e-7 * (1 + max(map(abs, col))):
            return None
        off.append(col[0])
        sc.append(scale_of(col))
    return off, sc


def ints(M, u, std):
    out = []
    for r in M:
        row = []
        for j, v in enumerate(r):
            x = (float(v) - u[0][j]) * u[1][j]
            row.append(BAD if not math.isfinite(x) or std[j] == 0 or abs(x) > 20 * std[j] * u[1][j] else int(round(x)))
        out.append(row)
    return out


def show(v):
    if v is None or isinstance(v, (str, bool)):
        return repr(v)
    if isinstance(v, dict):
        return repr(sorted((str(k), float(w)) for k, w in v.items()))
    return repr([float(x) for x in v])


def options(alphas, class_weight, fit_intercept):
    return digest([show(alphas), show(class_weight), show(bool(fit_intercept))])


def shared(est, params):
    got = est.get_params(deep=False)
    return digest([show_p(got[k]) for k in sorted(params)])


def show_p(v):
    return repr(v.tolist() if hasattr(v, "tolist") else list(v) if isinstance(v, (list, tuple)) else v)


def run(job, rng, tier):
    import numpy as np
    from sklearn.linear_model import RidgeClassifierCV as R
    kind, i = job
    classes = rng.choice([2, 2, 3])
    label = LABELS[i % 4]
    style = rng.choice(["distinct", "small", "runs"])
    p = base_params("rdst", rng, ns=rng.choice([4, 7]), random_state=None, normalize_output=rng.random() < .4,
                    n_samples=rng.choice([None, None, .75]), shapelet_lengths=rng.choice([[3], [3, 5]]),
                    min_len=rng.choice([None, None, 8]))
    p.pop("max_channels", None)
    opts = {"alphas_ridge": rng.choice([[.1, 1., 10.], [3.], [.5, 50.]]), "fit_intercept": rng.random() < .7,
            "class_weight": rng.choice([None, None, "balanced", "dict"])}
    if opts["class_weight"] == "dict":
        opts["class_weight"] = {label(k): 1. + k for k in range(classes)}
    p["random_state"] = rng.randint(0, 10 ** 6)
    amp = rng.choice([1., 1., 2. ** -9, 2. ** -12])
    ops, names = [], {}
    R.LOG, R.ASKED = [], []
    try:
        est = build("ridge", dict(p, **opts))
        u = std = None
        if rng.random() < .3:
            X = make_data(rng, kind, 3, 12)[0]
            ops.append({"op": "predict", "refused": refuses(lambda: est.predict(X))})
        for k in range(rng.choice([1, 1, 2])):
            for attempt in range(20):
                if k or attempt:
                    p["random_state"] = rng.randint(0, 10 ** 6)
                    q = {"random_state": p["random_state"]}
                    if rng.random() < .5:
                        opts["alphas_ridge"] = rng.choice([[2., 20.], [.7]])
                        q["alphas_ridge"] = opts["alphas_ridge"]
                    est.set_params(**q)
                X, y, _ = make_data(rng, kind, rng.randint(5, 8), rng.choice([10, 12, 16]), classes=classes, style=style)
                X = tiny(X, amp)
                y = np.array([label(v) for v in y])
                if rng.random() < .3 and style != "runs":
                    for x in X:
                        x[:, :] = x[:, :1]          # constant series: many constant features
                    X[-1][0, 2] += 1
                del R.LOG[:]
                free = build("rdst", p).fit(X, y)
                if not any(len(set(c)) > 1 for c in np.asarray(free.transform(X)).T.tolist()):
                    continue                        # nothing varies: there is nothing to learn from
                est.fit(X, y)
                M = np.asarray(est.transformer.transform(X), dtype=float)
                u = units(M)
                if u is not None and any(len(set(c)) > 1 for c in M.T.tolist()):
                    break
            else:
                return None
            std = M.std(axis=0)
            cols = [list(c) for c in zip(*[[int(round((v - u[0][j]) * u[1][j])) for j, v in enumerate(r)] for r in M])]
            for v in y:
                names.setdefault(str(v), len(names) + 1)
            me, seen, ly = R.LOG[-1]
            inner = {}
            for v in ly:
                inner.setdefault(str(v), len(inner) + 1)
            ops.append({"op": "fit", "cols": cols, "y": [names[str(v)] for v in y], "seen": [[fixed(v, 1000) for v in r] for r in seen],
                        "ly": [inner[str(v)] for v in ly],
                        "cfg": [options(opts["alphas_ridge"], opts["class_weight"], opts["fit_intercept"]),
                                options(me.alphas, me.class_weight, me.fit_intercept)],
                        "shp": [digest(*free.shapelets_), digest(*est.transformer.shapelets_)],
                        "par": [shared(free, p), shared(est.transformer, p)]})
            for _ in range(rng.choice([1, 2])):
                Z = tiny(make_data(rng, kind, rng.randint(1, 5), 16, style=style)[0], amp)
                F = np.asarray(est.transformer.transform(Z), dtype=float)
                del R.ASKED[:]
                out = est.predict(Z)
                dec = np.concatenate([a[2].reshape(len(a[1]), -1) for a in R.ASKED]) if R.ASKED else np.zeros((0, 1))
                ops.append({"op": "predict", "refused": False, "rows": ints(F, u, std),
                            "seen": [[fixed(v, 1000) for v in r] for a in R.ASKED for r in a[1]],
                            "dec": [[fixed(v, min(1e6, 2. ** 29 / (1e-9 + max(abs(float(w)) for w in r)))) for v in r] for r in dec],
                            "classes": [inner[str(v)] for v in me.classes_],
                            "out": [names.get(str(v), 0) for v in out]})
                true = np.array([label(rng.randrange(classes)) for _ in out])
                got = est.score(Z, true)
                code = dict(names)
                for v in true:
                    code.setdefault(str(v), len(code) + 1)
                ops.append({"op": "score", "y": [code[str(v)] for v in true], "pred": [code.get(str(v), 0) for v in out], "out": fixed(got, 10 ** 6)})
    finally:
        R.LOG = R.ASKED = None
    return {"tag": kind, "ops": ops}


def tiny(X, amp):
    return [x * amp for x in X] if isinstance(X, list) else X * amp


def refuses(f):
    return limited(f)[0] == "raise"


def corrupt(case, rng):
    o = rng.choice([o for o in case["ops"] if not o.get("refused")])
    if o["op"] == "score":
        o["out"] += 1000
    elif rng.random() < .5 and o["seen"]:
        r = rng.choice(o["seen"])
        r[rng.randrange(len(r))] += rng.choice([-300, 300])
        if o["op"] == "predict":
            r[:] = [v + 700 for v in r]
    elif o["op"] == "fit":
        o["seen"][0], o["seen"][1] = [v + 50 for v in o["seen"][1]], o["seen"][0]
    else:
        o["out"].append(1)
    return case
