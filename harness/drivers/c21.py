"""cross_validate_UCR_UEA, _sklearn_cv and grid_search_UCR_UEA with a recording pipeline."""
from datalib import *  # noqa: F401,F403
from sklearn.base import BaseEstimator, ClassifierMixin

KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]
REC = {}


def plan(tier):
    return [(k, i) for k in KINDS for i in range(120 if tier == "quick" else 260)]


class Probe(ClassifierMixin, BaseEstimator):
    """Predicts a scripted label for every series: a function of its content."""

    def __init__(self, a=0, b=None):
        self.a, self.b = a, b

    def fit(self, X, y):
        REC["events"].append({"ev": "fit", "data": items(REC["names"], X, y), "out": []})
        self.fitted_ = True
        return self

    def predict(self, X):
        import numpy as np
        n = REC["names"]
        s = n.series(X)
        out = np.array([REC["labels"][(7 * v + self.a) % REC["mod"] % len(REC["labels"])] for v in s])
        REC["events"].append({"ev": "predict", "data": s, "out": [n(label_key(v)) for v in out]})
        if REC["spoil"]:
            for x in X:
                pass
        return out


def run(job, rng, tier):
    import aeon.datasets as ads
    import numpy as np
    from sklearn.metrics import accuracy_score
    from sklearn.model_selection import GridSearchCV
    from convst.utils import experiments_utils as E
    kind, i = job
    variable = kind.endswith("_variable")
    lab = rng.choice(FEW)
    ncls = rng.choice([2, 3, 4])
    a, b, _, _ = make_split(rng, kind, ncls, lab, per=rng.choice([(1, 3), (2, 4)]), style="distinct")
    if kind == "multivariate" and rng.random() < .6:      # distinct series that agree in a channel, or in all points but one
        rows = [x for part in (a, b) for x in part[0]]
        c = rng.randrange(len(rows[0]))
        for x in rows[1:] if rng.random() < .7 else rows[1::2]:
            x[c] = rows[0][c]
    elif not variable and rng.random() < .4:
        rows = [x for part in (a, b) for x in part[0]]
        t = rng.choice([0, -1, 1])
        for j, x in enumerate(rows):
            x[:] = rows[0]
            x[-1, t] += j
    name = "D%d" % rng.randrange(10 ** 6)
    names = Names()
    ads.REGISTRY[name] = {"train": a, "test": b}
    enc = {v: k for k, v in enumerate(sorted(set(a[1].tolist())))}
    y0, z0 = np.array([enc[v] for v in a[1].tolist()]), np.array([enc[v] for v in b[1].tolist()])
    n = rng.choice([1, 2, 3, 4])
    REC.update(names=names, events=[], labels=list(range(ncls)), mod=rng.choice([5, 7, 11]), spoil=False)
    splits = [[items(names, a[0], y0), items(names, b[0], z0)]]
    for s in range(1, n):
        X, y, Z, z = E._resample(a[0], y0, b[0], z0, s)
        splits.append([items(names, X, y), items(names, Z, z)])
    cls = rng.randrange(ncls)

    def missed(y_true, y_pred):
        return int(((np.asarray(y_true) == cls) & (np.asarray(y_pred) != cls)).sum())
    ops = []
    for rep in range(2):
        scorers = rng.choice([{"right": accuracy_score}, {"right": accuracy_score, "missed": missed}, {"missed": missed}])
        if rng.random() < .3:
            np.random.seed(rng.randrange(1000))
        cv = E.cross_validate_UCR_UEA(n, name, scorers=scorers)
        for again in range(rng.choice([1, 2])):
            REC["events"] = []
            df = cv.score(Probe(rng.randrange(4)))
            ops.append({"op": "cv", "n": n, "events": list(REC["events"]), "rows": [int(v) for v in df.index], "columns": [str(v) for v in df.columns],
                        "scorers": sorted(scorers), "class": names(label_key(cls)),
                        "table": [{"right": fixed(r["right"], 10 ** 6) if "right" in df else 0, "missed": exact(r["missed"], 1) if "missed" in df else 0,
                                   "time": 1 if float(r["time"]) >= 0 else -1} for _, r in df.iterrows()]})
    if not variable:
        pool = np.concatenate([a[0], b[0]])
        py = np.concatenate([y0, z0])
        for rep in range(2):
            o = list(range(len(pool)))
            if rep:
                rng.shuffle(o)
            sp = E._sklearn_cv(n, name)
            pos = [[[int(v) for v in tr], [int(v) for v in te]] for tr, te in sp.split(pool[o], py[o] if rng.random() < .5 else None)]
            ops.append({"op": "pos", "n": n, "pool": names.series(pool[o]), "positions": pos, "said": int(sp.get_n_splits(pool, py))})
        GridSearchCV.LOG = []
        try:
            grid = {"a": [0, 1, 2][:rng.randint(1, 3)], "b": [None, 5][:rng.randint(1, 2)]}
            df = E.grid_search_UCR_UEA(n, name, rng.choice([1, 2])).score(Probe, grid)
            X, y, sp = GridSearchCV.LOG[-1]
        finally:
            GridSearchCV.LOG = None
        ops.append({"op": "grid", "n": n, "pool": items(names, X, y), "positions": [[[int(v) for v in t] for t in s] for s in sp],
                    "candidates": len(grid["a"]) * len(grid["b"]), "results": len(df)})
    del ads.REGISTRY[name]
    return {"tag": kind, "splits": splits, "ops": ops}


def corrupt(case, rng):
    o = rng.choice(case["ops"])
    if o["op"] == "cv":
        e = rng.choice(o["events"])
        e["data"] = e["data"][1:] + e["data"][:1] if len(e["data"]) > 1 else []
    else:
        p = rng.choice(o["positions"])
        p[0][0] = p[1][0]
    return case
