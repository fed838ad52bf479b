"""Archive data sets for the loaders, resampling and cross validation."""
from lifelib import *  # noqa: F401,F403

LABELS = {"int": lambda k: [3, 1, 2, 7][k], "neg": lambda k: [-1, 1, 0, 5][k], "str": lambda k: ["b", "a", "10", "9"][k],
          "text": lambda k: ["class one", "Class one", "z", "class"][k], "float": lambda k: [1.5, -.5, 0., 2.][k],
          "many": lambda k: [3, 1, 2, 7, 10, 0, 4, 12, 11, 20, 5, 100, 9][k], "manyfloat": lambda k: [2., 1.5, 10., 9.5, 100., -3., 20., 8., 11., 4., 30., 7., 6.][k],
          "manystr": lambda k: ["c%d" % k if k % 2 else "C %d" % k, str(k)][k % 3 == 0]}
FEW = sorted(k for k in LABELS if not k.startswith("many"))


def make_split(rng, kind, classes, lab, per=(1, 4), T=None, shape=2, style=None, distinct=True):
    """-> ((X, y) train, (X, y) test, logged train, logged test); every class in both"""
    import numpy as np
    variable = kind.endswith("_variable")
    ch = rng.choice([2, 3]) if kind.startswith("multi") else 1
    T = T or rng.choice([4, 6, 9])
    out, logs, seen = [], [], set()
    for part in range(2):
        ys = [c for c in range(classes) for _ in range(rng.randint(*per))]
        rng.shuffle(ys)
        rows = []
        for _ in ys:
            while True:
                n = T + (rng.randint(0, 4) if variable else 0)
                s = rnd_data(rng, 1, ch, n, style or rng.choice(["walk", "distinct", "small"]))[0]
                if not distinct or repr(s) not in seen:
                    break
            seen.add(repr(s))
            rows.append(s)
        X = to_real(rows, variable)
        out.append((X, np.array([LABELS[lab](c) for c in ys])))
        logs.append(rows)
    if not variable:
        assert out[0][0].ndim == 3
    return out[0], out[1], logs[0], logs[1]


class Names:
    """Small numbers for contents."""

    def __init__(self):
        self.d = {}

    def __call__(self, key):
        return self.d.setdefault(key, len(self.d) + 1)

    def series(self, X):
        return [self(digest(x)) for x in X]


def label_key(v):
    """1, 1.0 and '1.0' of one label: a resample may turn integer labels into floats."""
    v = v.item() if hasattr(v, "item") else v
    return ("s", v) if isinstance(v, str) else ("n", float(v))


def items(names, X, y):
    if len(X) != len(y):
        return [[0, 0]] * (len(X) + 1)
    return [[a, names(label_key(b))] for a, b in zip(names.series(X), y)]
