"""R_DST_Ensemble on scripted ridge classifiers, whose votes the specification counts."""
import math
from enslib import *  # noqa: F401,F403
import c17

KINDS = c17.KINDS
LABELS = [lambda k: k, lambda k: [7, -3, 12, 5][k], lambda k: "dbca"[k] + "x", lambda k: [2.5, -1.25, 0., 8.][k],
          lambda k: [10, 9, 100, 1][k], lambda k: ["10", "9", "b", "B"][k]]


def plan(tier):
    return [(k, i) for k in KINDS for i in range(70 if tier == "quick" else 200)]


def units(M):
    off, sc = [], []
    for j in range(M.shape[1]):
        col = [float(v) for v in M[:, j]]
        r = max(col) - min(col)
        off.append(col[0])
        sc.append(0. if r < 1e-7 * (1 + max(map(abs, col))) else c17.scale_of(col))
    return off, sc


def ints(M, u, std, far=True):
    out = []
    for r in M:
        row = []
        for j, v in enumerate(r):
            x = (float(v) - u[0][j]) * u[1][j]
            row.append(BAD if far and (u[1][j] == 0 or abs(x) > 20 * std[j] * u[1][j]) else int(round(x)))
        out.append(row)
    return out


def close(rng, n):
    """n exponents, often tied"""
    return [rng.choice([0, 0, 1, 1, 2, -1]) for _ in range(n)]


def run(job, rng, tier):
    import joblib
    import numpy as np
    R = RidgeClassifierCV
    kind, i = job
    label = LABELS[i % len(LABELS)]
    ncls, nm = rng.choice([2, 2, 3, 4]), rng.choice([1, 2, 2, 3, 4])
    n = rng.randint(ncls + 1, 6)
    T = rng.choice([10, 12])
    X, y0, _ = make_data(rng, kind, n, T, classes=ncls)
    y = np.array([label(v) for v in y0])
    names = sorted(set(y.tolist()))
    code = {v: k + 1 for k, v in enumerate(names)}
    Z, _, _ = make_data(rng, kind, rng.randint(1, 4), T + 3)
    alphas = rng.choice([[.1, 1., 10.], [3.], [1., 5.], [5., 1.], [10., 1., .1], [1., 50., .25, 7.]])
    aw = rng.choice([0, 1, 2, 3, 4, 4, .5, 1.5, 2.5])
    p = base_params("ensemble", rng, ns=3, n_samples=None, shapelet_lengths=[3], proba_norm=[rng.choice([0., .5, 1.]) for _ in range(nm)],
                    a_w=aw, alphas_ridge=alphas, n_jobs=rng.choice([1, 2, 3]), class_weight=rng.choice([None, "balanced"]),
                    fit_intercept=rng.random() < .7, normalize_output=rng.random() < .3)
    p.update(max_channels=rng.choice([None, 1, 2]), min_len=rng.choice([None, T - 2]), percentiles=rng.choice([[5, 10], [20, 60]]),
             shp_alpha=rng.choice([0., .25, .5]))
    p["input_transformers"] = [Tag(t + 1) for t in range(nm)]
    ny = 1 if ncls == 2 else ncls
    style = rng.choice(["free", "tied", "close", "huge", "opposed"])
    shared = close(rng, ny)
    against = [rng.sample(range(-1, 2), ny) if ny < 4 else rng.sample(range(-2, 2), ny) for _ in Z]
    loo, dec, owner, fits, asked, ptr, cfgs = {}, {}, {}, {}, {t: [] for t in range(1, nm + 1)}, {}, {}
    for t in range(1, nm + 1):
        loo[t], dec[t] = [], []
        good = rng.random()
        for k in range(n):
            win = code[y[k].item()] if rng.random() < good else rng.randint(1, ncls)
            if ncls == 2:
                loo[t].append([(1 if win == 2 else -1) * rng.choice([1, 2, 5])])
            else:
                v = rng.sample(range(-5, 5), ncls)
                v[win - 1] = 6
                loo[t].append(v)
        for r in range(len(Z)):
            d = [rng.randint(-3, 3) for _ in range(ny)] if style == "free" else close(rng, ny)
            if style == "tied" and rng.random() < .8:
                d = [0] if ny == 1 else [max(shared)] * 2 + [min(shared)] * (ny - 2)
                d = d[-(r % ny):] + d[:-(r % ny)] if r % ny else d
            if style == "huge" and rng.random() < .7:
                d = [rng.choice([1500, -1500, 0, 0, 1]) for _ in range(ny)]
            if style == "opposed":                                 # one half of the models against the other
                d = [-v for v in against[r]] if t % 2 else against[r]
            dec[t].append(d)
    ai = rng.randrange(len(alphas))

    def trained(me, A, b):
        t = NOW["tag"]
        NOW["keep"].append(me)
        cfgs[t] = c17.options(me.alphas, me.class_weight, me.fit_intercept)
        owner[id(me)], fits[t] = t, (A.copy(), list(b))
        v = np.array([[[float(x) for x in row] for row in loo[t]]] * len(alphas))          # alpha, series, class
        for k in range(len(alphas)):
            if k != ai:
                v[k] = -v[k][::-1] if ncls == 2 else np.roll(v[k], k + 1, axis=1)          # what other alphas would say
        me.cv_values_, me.alpha_ = np.transpose(v, (1, 2, 0)).copy(), np.float64(alphas[ai])

    def script(me, A, s):
        t = owner[id(me)]
        k = ptr.get(t, 0)
        ptr[t] = k + len(A)
        asked[t] += [[fixed(v, 1000) for v in r] for r in A]
        d = np.array([dec[t][(k + r) % len(Z)] for r in range(len(A))], dtype=float).reshape(len(A), ny) * LN2
        return d.ravel() if ny == 1 else d
    joblib.set_order(rng.choice(["seq", "rev", "perm"]), rng.randrange(10 ** 6))
    with Recorded():
        R.TRAINED, R.SCRIPT = trained, script
        est = build("ensemble", p)
        if rng.random() < .3:                                                            # a refit
            X2, y2, _ = make_data(rng, kind, n, T, classes=ncls)
            est.fit(X2, np.array([label(v) for v in y2]))
            est.predict(Z)
            owner.clear(), fits.clear(), ptr.clear()
            for t in asked:
                asked[t] = []
        NOW["events"] = fev = []
        est.fit(X, y)
        NOW["events"] = aev = []
        out = est.predict(Z)
    models = []
    for t in range(1, nm + 1):
        M = [e["M"] for e in fev if e["tag"] == t and e["ev"] == "r-out"]
        F = [e["M"] for e in aev if e["tag"] == t and e["ev"] == "r-out"]
        if M:
            M = np.asarray(M[-1], dtype=float)
            u, std = units(M), M.std(axis=0)
        inner = {}
        A, b = fits.get(t, ([], []))
        models.append({"loo": loo[t], "dec": dec[t], "y": digest([str(v) for v in y]),
                       "fit": [strip(e) for e in fev if e["tag"] == t], "ask": [strip(e) for e in aev if e["tag"] == t],
                       "cols": [list(c) for c in zip(*ints(M, u, std, False))] if len(M) else [],
                       "seen": [[fixed(v, 1000) for v in r] for r in A], "par": [shown(build("rdst", expected(p, t))), [e["par"] for e in fev if e["tag"] == t and e["ev"] == "r-fit"]],
                       "cfg": [c17.options(alphas, p["class_weight"], p["fit_intercept"]), cfgs.get(t, "")],
                       "ly": [inner.setdefault(str(v), len(inner) + 1) for v in b],
                       "rows": [r for f in F for r in ints(f, u, std)] if len(M) else [], "asked": asked[t]})
    return {"tag": kind, "x": data_digest(X), "z": data_digest(Z), "y": [code[v] for v in y.tolist()], "aw": int(2 * aw), "nz": len(Z),
            "models": models, "out": [code.get(v, 0) for v in np.asarray(out).tolist()]}


def expected(p, t):
    """What the R_DST of model t is to be built with."""
    q = {k: v for k, v in p.items() if k not in ("input_transformers", "a_w", "alphas_ridge", "class_weight", "fit_intercept", "n_jobs",
                                                 "random_state", "shp_alpha", "n_shapelets_per_estimator")}
    return dict(q, alpha=p["shp_alpha"], n_shapelets=p["n_shapelets_per_estimator"], proba_norm=p["proba_norm"][t - 1])


def strip(e):
    return {"ev": e["ev"], "who": e["who"], "given": e["given"], "made": e.get("made", ""), "y": e.get("y", "")}


def corrupt(case, rng):
    m = rng.choice(case["models"])
    w = rng.randrange(4)
    if w == 0:
        case["out"].append(1)
    elif w == 1:
        e = rng.choice(m["ask"])
        e["given"] = "0"
    elif w == 2:
        m["asked"].append(m["asked"][0])
    else:
        v = m["seen"][0]
        v[:] = [x + 900 for x in v]
    return case
