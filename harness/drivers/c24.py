"""The loaders on archives of every kind."""
from datalib import *  # noqa: F401,F403

KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]


def plan(tier):
    return [(k, i) for k in KINDS for i in range(220 if tier == "quick" else 350)]


def chars(v):
    v = v.item() if hasattr(v, "item") else v
    return [ord(ch) for ch in v] if isinstance(v, str) else [int(round(float(v) * 4))]


def run(job, rng, tier):
    import aeon.datasets as ads
    import numpy as np
    from convst.utils import dataset_utils as D
    kind, i = job
    lab = FEW[i % len(FEW)]
    a, b, la, lb = make_split(rng, kind, rng.choice([1, 2, 3, 4]), lab, per=(1, 3), T=rng.choice([3, 5, 8, 12]), distinct=False,
                              style=rng.choice(["walk", "small", "runs", "const", "distinct"]))
    if rng.random() < .4 and kind.startswith("multi"):
        for X in (la, lb):                     # channels that are constant next to others that are not
            for s in X:
                if rng.random() < .5:
                    s[rng.randrange(len(s))][:] = [rng.choice([0, 4, -8, 13])] * len(s[0])
        variable = kind.endswith("_variable")
        a, b = (to_real(la, variable), a[1]), (to_real(lb, variable), b[1])
    if rng.random() < .4:                      # a class without a test series
        gone = rng.choice(sorted(set(b[1].tolist())))
        left = [k for k, v in enumerate(b[1].tolist()) if v != gone]
        if left:
            lb = [lb[k] for k in left]
            b = (to_real(lb, kind.endswith("_variable")), b[1][left])
    strange = lab in ("int", "neg", "str") and rng.random() < .15       # a label in the test split only
    if strange:
        k, extra = rng.randrange(len(b[1])), rng.choice({"int": [0, 9], "neg": [-7, 9], "str": ["0", "c"]}[lab])
        z = b[1].copy().astype(object)
        z[k] = extra
        b = (b[0], np.array(z.tolist()))
    name = "L%d" % rng.randrange(10 ** 6)
    ads.REGISTRY[name] = {"train": a, "test": b}
    ops = []
    try:
        for k in range(rng.choice([2, 3, 4])):
            norm = rng.random() < .5
            f = fixed if norm else exact

            def rows(X):
                return [[[f(v) for v in ch] for ch in x] for x in X]

            def codes(y):
                return [exact(v, 1) for v in y]
            if strange or rng.random() < .6:
                r = limited(lambda: D.load_UCR_UEA_dataset_split(name, normalize=norm) if norm or rng.random() < .5 else D.load_UCR_UEA_dataset_split(name))
                if r[0] != "ok" and not strange:
                    raise RuntimeError(r[1] + r[2])
                X, Z, y, z, m = r[1] if r[0] == "ok" else ([], [], [], [], 0)
                ops.append({"op": "split", "norm": norm, "train": rows(X), "test": rows(Z), "ytrain": codes(y), "ytest": codes(z),
                            "min_len": exact(m, 1), "kinds": [shape(X), shape(Z)], "raised": r[1] if r[0] != "ok" else ""})
            else:
                X, y = D.load_UCR_UEA_dataset(name, normalize=norm)
                ops.append({"op": "whole", "norm": norm, "train": rows(X), "test": [], "ytrain": codes(y), "ytest": [], "min_len": 0,
                            "kinds": [shape(X)], "raised": ""})
    finally:
        del ads.REGISTRY[name]
    return {"tag": kind, "train": la, "test": lb, "ytrain": [chars(v) for v in a[1]], "ytest": [chars(v) for v in b[1]],
            "kind": shape(a[0]), "ops": ops}


def shape(X):
    return "list" if isinstance(X, list) else "array%d" % X.ndim


def corrupt(case, rng):
    o = rng.choice(case["ops"])
    if o["raised"]:
        return None
    w = rng.randrange(3)
    if w == 0:
        o["train"][-1][0][0] += 9
    elif w == 1:
        o["ytrain"][0] += 1
    else:
        o["train"].pop()
    return case
