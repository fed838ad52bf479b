"""Derivate, Periodigram, Z_normalizer, Raw, FastHankelTransform and the constant-dropping scalers."""
from datalib import *  # noqa: F401,F403
import c17

KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]
WHAT = ["derivate", "raw", "znorm", "pgram", "fht", "standard", "minmax"]


def plan(tier):
    n = 40 if tier == "quick" else 80
    return [(w, k, i) for w in WHAT for k in (KINDS if w not in ("znorm", "fht") else KINDS[:2]) for i in range(n)]


def data(rng, kind, T=None):
    import numpy as np
    X, _, logged = make_data(rng, kind, rng.randint(1, 5), T or rng.choice([5, 8, 13]), ch=rng.choice([2, 3]),
                             style=rng.choice(["distinct", "walk", "runs", "small", "const"]))
    if kind.endswith("_variable") and rng.random() < .4:
        Z = np.empty(len(X), dtype=object)
        for k, x in enumerate(X):
            Z[k] = x
        X = Z
    return X, logged


def run(job, rng, tier):
    import numpy as np
    from convst.transformers import _input_transformers as I
    what, kind, i = job
    ops = []
    if what in ("standard", "minmax"):
        sc = (I.c_StandardScaler if what == "standard" else I.c_MinMaxScaler)()
        for k in range(rng.choice([1, 2])):
            n, m = rng.randint(2, 8), rng.randint(1, 7)
            cols = [[rng.choice([-8, 0, 4, 30])] * n if rng.random() < .4 else rnd_series(rng, n, rng.choice(["wide", "small", "runs", "neg"]))
                    for _ in range(m)]
            if all(len(set(c)) == 1 for c in cols):
                cols[rng.randrange(m)][0] += 5
            if rng.random() < .4:                                  # as it began, so it ends
                for c in cols:
                    if n > 2 and rng.random() < .7:
                        c[-1] = c[0]
                if all(len(set(c)) == 1 for c in cols):
                    cols[rng.randrange(m)][1 % n] += 5
            unit = rng.choice([.25, .25, 2. ** -10, 2. ** -20, 2. ** 12])
            M = np.array(cols, dtype=float).T * unit
            b = data_digest(M)
            how = rng.random() < .5
            out = sc.fit_transform(M) if how else sc.fit(M).transform(M)
            ops.append({"op": "fit", "cols": cols, "before": b, "after": data_digest(M)})
            ops.append({"op": "scale", "how": what, "rows": [list(r) for r in zip(*cols)], "out": [[fixed(v, 1000) for v in r] for r in out],
                        "before": b, "after": data_digest(M)})
            for _ in range(rng.choice([1, 2])):
                rows = [[rng.randint(-500, 500) for _ in range(m)] for _ in range(rng.randint(1, 4))]
                Z = np.array(rows, dtype=float) * unit
                b = data_digest(Z)
                out = sc.transform(Z)
                far = [[BAD if abs(v - cols[j][0]) > 15 * np.std(cols[j]) else v for j, v in enumerate(r)] for r in rows]
                ops.append({"op": "scale", "how": what, "rows": far, "out": [[fixed(v, 1000) for v in r] for r in out],
                            "before": b, "after": data_digest(Z)})
        return {"tag": what, "ops": ops}
    names = Names()
    if what == "derivate":
        t = I.Derivate(random=True) if rng.random() < .3 else I.Derivate(order=rng.randint(1, 4))
    elif what == "raw":
        t = I.Raw()
    elif what == "znorm":
        t = I.Z_normalizer()
    elif what == "pgram":
        t = I.Periodigram(random=True) if rng.random() < .3 else I.Periodigram(rng.choice(["boxcar", "hann", "cosine", "taylor", "hamming"]))
        window = t.window_type
    else:
        o = dict(dln=rng.choice([.5, .25]), mu=rng.choice([0, 1, 2.]), bias=rng.choice([0., .5, -.25]), use_optimal_offset=rng.random() < .5)
        if not o["use_optimal_offset"]:
            o["offset"] = rng.choice([0., 1., -.5])
        t = I.FastHankelTransform(**o)
    X, _ = data(rng, kind)
    np.random.seed(rng.randrange(10 ** 6))
    if rng.random() < .3:
        t.fit_transform(X, None)
    t.fit(X)
    for _ in range(rng.choice([1, 2])):
        X, logged = data(rng, kind)
        if what == "znorm" and rng.random() < .4:
            X = X * rng.choice([2. ** -9, 2. ** -7, 2. ** 20])
        b = data_digest(X)
        out = t.transform(X)
        op = {"before": b, "after": data_digest(X)}
        if what in ("derivate", "raw"):
            op.update(op=what, order=int(getattr(t, "order", 1)), x=logged, out=[[[exact(v) for v in ch] for ch in s] for s in out])
        elif what == "znorm":
            op.update(op=what, x=logged, out=[[[fixed(v) for v in ch] for ch in s] for s in out])
        else:
            if what == "pgram":
                from scipy.signal import WINDOWS, periodogram
                option = str(t.window_type) in WINDOWS and (t.random or t.window_type == window)

                def f(ch):
                    return periodogram(ch, window=str(t.window_type), detrend=False)[1]
            else:
                from scipy.fft import fht, fhtoffset
                option = True
                off = fhtoffset(o["dln"], o["mu"], bias=o["bias"]) if o["use_optimal_offset"] else o["offset"]

                def f(ch):
                    return fht(ch, o["dln"], o["mu"], offset=off, bias=o["bias"])
            op.update(op="names", option=bool(option), x=[[names(digest(ch)) for ch in s] for s in X],
                      out=[[names("f" + digest(ch)) for ch in s] for s in out],
                      table=[[names(digest(ch)), names("f" + digest(f(ch)))] for s in X for ch in s])
        ops.append(op)
    return {"tag": what, "ops": ops}


def corrupt(case, rng):
    o = rng.choice([o for o in case["ops"] if o["op"] != "fit"])
    if rng.random() < .3:
        o["after"] = "0"
    elif o["op"] == "scale":
        o["out"].append(o["out"][0])
    elif o["op"] == "names":
        o["out"][0][0] += 1000
    else:
        o["out"][-1][-1][-1] += 40
    return case
