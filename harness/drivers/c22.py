"""The interpreter of a fitted model, drawn on the recorder."""
import re
from fitlib import *  # noqa: F401,F403


def plan(tier):
    a, b, c, d = (110, 110, 90, 24) if tier == "quick" else (600, 600, 500, 40)
    return [("shapelet", i) for i in range(a)] + [("rdst", i) for i in range(b)] + [("ridge", i) for i in range(c)] + \
        [("refused", i) for i in range(d)]


def run(job, rng, tier):
    return {"shapelet": handmade, "rdst": rdst, "ridge": ridge, "refused": refused}[job[0]](rng)


# ------------------------------------------------------------------ reading the recorder
def drawn(f):
    from matplotlib import pyplot as plt
    del plt.CALLS[:]
    f()
    return list(plt.CALLS)


def axis(rng):
    from matplotlib.pyplot import Recorder
    return Recorder("ax0,0") if rng.random() < .4 else None


def only(calls, name, who=None):
    return [(a, k) for w, n, a, k in calls if n == name and (who is None or w == who)]


def title(calls):
    t = " ".join(str(a[0]) for w, n, a, k in calls if n in ("title", "set_title") and "threshold" in str(a[0]))
    g = re.fullmatch(r"d=(\d+),normalize=(\w+),threshold=(\S+)", t)
    if not g or g.group(2) not in ("True", "False", "0", "1"):
        return {"d": -1, "nm": False, "th": 0}
    return {"d": int(g.group(1)), "nm": g.group(2) in ("True", "1"), "th": fixed(float(g.group(3)), 100)}


def curve(a, unit):
    f = exact if unit == Q else fixed
    return [f(v) if unit == Q else f(v, unit) for v in a]


def plot_of(calls, nm, who=None):
    sub = [c for c in calls if who is None or c[0] == who]
    p = only(sub, "plot")
    return dict(title(sub), v=curve(p[0][0][0], K if nm else Q) if len(p) == 1 else [])


def matches_of(calls, who=None):
    sub = [c for c in calls if who is None or c[0] == who]
    out = []
    for (a, k), (b, _) in zip(only(sub, "plot"), only(sub, "scatter")):
        out.append({"line": curve(a[0], Q), "pos": [exact(v, 1) for v in b[0]], "vals": [fixed(float(v) * Q, 100) for v in b[1]],
                    "label": k.get("label")})
    return out if len(only(sub, "plot")) == len(only(sub, "scatter")) else []


def vectors_of(calls, nm, who=None):
    sub = [c for c in calls if who is None or c[0] == who]
    out = []
    for (a, k), (b, _) in zip(only(sub, "plot"), only(sub, "hlines")):
        out.append({"dv": curve(a[0], K if nm else Q), "th": fixed(b[0], 10000), "span": [exact(b[1], 1), exact(b[2], 1)], "label": k.get("label")})
    return out if len(only(sub, "plot")) == len(only(sub, "hlines")) else []


def draw_ops(rng, s, sh, phase, T, pool, plot, on_x, vector):
    """Three drawings of shapelet s."""
    import numpy as np
    span = 1 if phase else (sh["l"] - 1) * sh["d"] + 1
    n = max(span, rng.choice([span, span + 1, T, T + 5]))
    n = max(n, sh["l"])
    x = list(rng.choice(pool)) if rng.random() < .3 else rnd_series(rng, n, rng.choice([None, "small", "runs", "const"]))
    if len(x) < max(span, sh["l"]):
        x = rnd_series(rng, n)
    X = np.array(x) / Q
    before = X.copy()
    ops = []
    got = plot_of(drawn(lambda: plot(axis(rng))), sh["nm"])
    ops.append(dict(op="plot", s=s + 1, **got))
    got = matches_of(drawn(lambda: on_x(X, axis(rng))))
    got = got[0] if len(got) == 1 else {"line": [], "pos": [], "vals": []}
    ops.append({"op": "match", "s": s + 1, "x": x, "line": got["line"], "pos": got["pos"], "vals": got["vals"]})
    got = vectors_of(drawn(lambda: vector(X, axis(rng))), sh["nm"])
    got = got[0] if len(got) == 1 else {"dv": [], "th": 0, "span": []}
    ops.append({"op": "vector", "s": s + 1, "x": x, "dv": got["dv"], "th": got["th"], "span": got["span"]})
    if not np.array_equal(before, X):
        raise RuntimeError("the series was changed")
    return ops


# ------------------------------------------------------------------ what is drawn
def handmade(rng):
    import numpy as np
    from convst.interpreters.rdst_interpreter import Shapelet
    l, phase, nm = rng.choice([2, 3, 4, 5, 7]), rng.random() < .5, rng.random() < .5
    T = rng.choice([8, 12, 20, 31])
    d = rng.randint(1, max(1, (T - 1) // (l - 1)))
    pool = [rnd_series(rng, T) for _ in range(2)]
    if rng.random() < .6:
        x = rng.choice(pool)
        i = rng.randrange(T if phase else T - (l - 1) * d)
        row = [x[(i + j * d) % T] for j in range(l)]
    else:
        row = rnd_series(rng, l)
    v = np.array(row) / Q
    if nm:
        v = (v - v.mean()) / (v.std() + 1e-8)
    th = rng.choice([0., 1.25, 17.375, 3.14159, 1234.5])
    S = Shapelet(list(v) if rng.random() < .3 else v, l, d, nm, th, phase)
    sh = record([v], l, d, th, nm, [0])
    ops = []
    for _ in range(2):
        ops += draw_ops(rng, 0, sh, phase, T, pool, lambda ax: S.plot(ax=ax), lambda X, ax: S.plot_on_X(X, ax=ax),
                        lambda X, ax: S.plot_distance_vector(X, ax=ax))
    return {"tag": "shapelet", "phase": phase, "shp": [sh], "th": [fixed(th, 10000)], "ops": ops}


def model_kw(rng):
    return dict(n_shapelets=rng.choice([2, 4, 6]), shapelet_lengths=rng.choice([[3], [3, 5], [4, 7, 3]]), proba_norm=rng.choice([0., .5, 1.]),
                alpha=rng.choice([0., .5]), phase_invariance=rng.random() < .5, percentiles=rng.choice([[5, 10], [20, 60]]),
                random_state=rng.randint(0, 10 ** 6))


def rdst(rng):
    import numpy as np
    from convst.transformers import R_DST
    from convst.interpreters.rdst_interpreter import RDST_interpreter
    variable, T, n = rng.random() < .4, rng.choice([9, 12, 20]), rng.randint(3, 6)
    lens = [T + rng.randint(0, 6) for _ in range(n)] if variable else T
    data = rnd_data(rng, n, 1, lens)
    est = R_DST(**model_kw(rng))
    est.fit(to_real(data, variable), np.array([i % 2 for i in range(n)]))
    shp = shapelets(est, 1)
    I = RDST_interpreter(est)
    ops = []
    for s in rng.sample(range(len(shp)), min(3, len(shp))):
        ops += draw_ops(rng, s, shp[s], est.phase_invariance, T, [x[0] for x in data], lambda ax: I.plot(s, ax=ax),
                        lambda X, ax: I.plot_on_X(s, X, ax=ax), lambda X, ax: I.plot_distance_vector(s, X, ax=ax))
    return {"tag": "rdst", "phase": est.phase_invariance, "shp": shp, "th": [fixed(t, 10000) for t in est.shapelets_[3]], "ops": ops}


def ridge(rng):
    import numpy as np
    from convst.classifiers import R_DST_Ridge
    from convst.interpreters.rdst_interpreter import RDST_Ridge_interpreter
    classes = rng.choice([2, 2, 3])
    T, n = rng.choice([9, 12, 18]), rng.randint(2 * classes, 8)
    style = rng.choice(["distinct", "small", "runs", "wide"])
    for _ in range(20):
        data = rnd_data(rng, n, 1, T, style)
        y = [i % classes for i in range(n)]
        rng.shuffle(y)
        if rng.random() < .3:
            for x in data:
                x[0] = [x[0][0]] * T
            data[-1][0][2] += 1
        est = R_DST_Ridge(**model_kw(rng))
        try:
            est.fit(to_real(data, False), np.array(y))
        except ValueError as e:
            if "shape (%d, 0)" % n in str(e):      # every feature is constant: nothing to learn from
                continue
            raise
        M = np.asarray(est.transformer.transform(to_real(data, False)), dtype=float)
        if all(max(c) - min(c) > 1e-6 * (1 + max(map(abs, c))) or len(set(c)) == 1 and c[0] * 4 == int(c[0] * 4) for c in M.T.tolist()) \
                and any(len(set(c)) > 1 for c in M.T.tolist()):
            break
    else:
        return None
    cols = [[sorted(set(c)).index(v) for v in c] for c in M.T.tolist()]
    coefs = [[coded(v) for v in r] for r in np.asarray(est.classifier[-1].coef_)]
    I = RDST_Ridge_interpreter(est)
    shp = shapelets(est.transformer, 1)
    phase = est.phase_invariance
    ops = []
    for k in range(classes):
        ops.append({"op": "importance", "k": k + 1, "coefs": coefs, "cols": cols, "imp": [coded(v) for v in I._get_shp_importance(k)]})
    if rng.random() < .7:
        data = rnd_data(rng, rng.randint(3, 6), 1, T + rng.choice([0, 4]), style)
        y = [i % classes for i in range(len(data))]
        rng.shuffle(y)
    X = to_real(data, False)
    feats = np.asarray(est.transformer.transform(X), dtype=float)
    k, m = rng.choice(sorted(set(y))), rng.choice([1, 2, 3, 50])
    np.random.seed(rng.randrange(10 ** 6))
    calls = drawn(lambda: I.visualize_best_shapelets_one_class(X, np.array(y), k, n_shp=m))
    figs, now = [], None
    for c in calls:
        if c[1] == "subplots":
            now = []
            figs.append(now)
        elif now is not None:
            now.append(c)
    code = {}
    ops.append({"op": "best", "k": k + 1, "n": m, "coefs": coefs, "cols": cols, "y": y, "X": [x[0] for x in data],
                "feats": [[number(v, code) for v in c] for c in feats.T.tolist()], "figs": [figure(f, est, y, k, code) for f in figs]})
    return {"tag": "ridge", "phase": phase, "shp": shp, "th": [fixed(t, 10000) for t in est.transformer.shapelets_[3]], "ops": ops}


def figure(calls, est, y, k, code):
    boxes = {kw["ax"]._label: kw for a, kw in only(calls, "boxplot")}
    order = [boxes[l] for l in ("ax0,0", "ax0,1", "ax0,2")]
    split = [bool(v) for v in order[0]["x"]]
    if any([bool(v) for v in b["x"]] != split for b in order):
        split = []
    head = title([c for c in calls if c[0] == "ax1,1"])
    who = dict(plot_of(calls, head["nm"], "ax1,1"))
    mine = {"Class %s" % k: True, "Other class": False}
    on = [dict(d, mine=mine[d.pop("label")]) for d in matches_of(calls, "ax1,0")]
    vec = [dict(d, mine=mine[d.pop("label")]) for d in vectors_of(calls, who["nm"], "ax1,2")]
    return dict(who, split=split, boxes=[[number(v, code) for v in b["y"]] for b in order], on=on, vec=vec)


def number(v, code):
    """Numbers that are the same get the same name."""
    return code.setdefault(round(float(v), 9) + 0., len(code))


def coded(v):
    return clip(round(float(v) * 10 ** 7))


def refused(rng):
    import numpy as np
    from convst.transformers import R_DST
    from convst.classifiers import R_DST_Ridge
    from convst.interpreters import rdst_interpreter as R
    ops = []

    def ask(want, f):
        r = limited(f)
        ops.append({"op": "refused", "want": want, "got": r[1] if r[0] == "raise" else r[0]})
    ask("ValueError", lambda: R.RDST_interpreter(R_DST()))
    ask("ValueError", lambda: R.RDST_Ridge_interpreter(R_DST_Ridge()))
    kind = rng.choice(["multivariate", "multivariate_variable"])
    variable = kind.endswith("variable")
    data = rnd_data(rng, 4, 2, [12, 12, 14, 13] if variable else 12)
    X, y = to_real(data, variable), np.array([0, 1, 0, 1])
    kw = model_kw(rng)
    if rng.random() < .5:
        kw["transform_type"] = kind
    est = R_DST(**kw).fit(X, y)
    I = R.RDST_interpreter(est)
    x = np.array(data[0][0]) / Q
    for f in (lambda: I.plot(0), lambda: I.plot_on_X(1, x), lambda: I.plot_distance_vector(0, x)):
        ask("NotImplementedError", f)
    m = R_DST_Ridge(**kw).fit(X, y)
    J = R.RDST_Ridge_interpreter(m)
    ask("NotImplementedError", lambda: J.rdst_interp.plot(0))
    ask("TypeError", lambda: R.RDST_interpreter(m.transformer and Odd(m)))
    return {"tag": "refused", "phase": False, "shp": [], "th": [], "ops": ops}


class Odd:
    """Fitted, but not a transformer of this library."""
    def __init__(self, m):
        self.shapelets_ = m.transformer.shapelets_

    def fit(self, X, y):
        return self


def corrupt(case, rng):
    ops = [o for o in case["ops"] if o["op"] != "refused"]
    if not case["ops"]:
        return None
    if not ops:
        case["ops"][0]["got"] = "ok"
        return case
    o = rng.choice(ops)
    if o["op"] == "plot":
        o[rng.choice(["d", "th"])] += 5
    elif o["op"] == "match":
        o["pos"][0] += 1
    elif o["op"] == "vector":
        o["th"] += 50
    elif o["op"] == "importance":
        o["imp"][rng.randrange(len(o["imp"]))] += 7
    else:
        o["figs"][0]["split"][0] = not o["figs"][0]["split"][0]
    return case
