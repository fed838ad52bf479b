"""One data set in many representations."""
from lifelib import *  # noqa: F401,F403

KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]


def plan(tier):
    return [(k, i) for k in KINDS for i in range(50 if tier == "quick" else 150)]


def exact_in(f, x):
    """x survives the representation"""
    import numpy as np
    return bool((f(x.copy()).astype(np.float64) == x).all())


def narrow(x):
    """x in the narrowest type that holds it"""
    for k in ("int16", "int64", "float32"):
        if exact_in(lambda a: a.astype(k), x):
            return x.astype(k)
    return x.astype("float64")


def _reps(X, variable):
    import numpy as np

    def ro(a):
        a = np.array(a)
        a.flags.writeable = False
        return a

    def strided(a):
        b = np.full(tuple(2 * d for d in a.shape), 777., dtype=float)
        b[tuple(slice(0, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(0, None, 2) for _ in a.shape)]

    def reversed_(a):
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    one = {"float64": lambda a: a.astype(np.float64), "int64": lambda a: a.astype(np.int64), "int32": lambda a: a.astype(np.int32),
           "int16": lambda a: a.astype(np.int16), "uint16": lambda a: a.astype(np.uint16), "float16": lambda a: a.astype(np.float16),
           "bigint": lambda a: a.astype(">i4"), "float32": lambda a: a.astype(np.float32), "fortran": np.asfortranarray,
           "transposed": lambda a: np.ascontiguousarray(a.T).T, "strided": strided, "readonly": ro, "reversed": reversed_,
           "bigendian": lambda a: a.astype(">f8")}
    one = {k: f for k, f in one.items() if all(exact_in(f, x) for x in X)}
    if not variable:
        return {k: (lambda f=f: f(X.copy())) for k, f in one.items()}

    def obj(l):
        o = np.empty(len(l), dtype=object)
        for a, v in enumerate(l):
            o[a] = v
        return o
    out = {}
    for k, f in one.items():
        out["list+" + k] = lambda f=f: [f(x.copy()) for x in X]
    for k in sorted({"float64", "int32", "uint16", "readonly", "fortran"} & set(one)):
        out["object+" + k] = lambda f=one[k]: obj([f(x.copy()) for x in X])
    out["list+mixed"] = lambda: [(np.int64(x) if i % 2 and exact_in(lambda a: a.astype(np.int64), x) else x.astype(np.float32)) for i, x in enumerate(X)]
    out["list+fitting"] = lambda: [narrow(x) for x in X]
    if len({x.shape for x in X}) == 1:
        out["object3"] = lambda: np.array([x.copy() for x in X], dtype=object)
    out["object+fitting"] = lambda: obj([narrow(x) for x in X])
    return out


def run(job, rng, tier):
    kind, _ = job
    variable = kind.endswith("_variable")
    n = rng.randint(3, 5)
    X, y, _ = make_data(rng, kind, n, rng.choice([8, 12]), ch=rng.choice([2, 3, 4]), spread=rng.choice([0, 4]))
    X = [(x * Q) for x in X] if variable else X * Q             # integers
    if rng.random() < .3:                                       # no negative value
        low = min(x.min() for x in X)
        X = [x - low for x in X] if variable else X - low
    if rng.random() < .4:                                       # fractions in some series
        for x in X[1:] if rng.random() < .7 else X[:-1]:
            x[:, rng.randrange(2)::rng.choice([1, 2, 3])] += rng.choice([.25, .5])
    params = base_params("rdst", rng, ns=8)
    reps = _reps(X, variable)
    names = ["list+float64" if variable else "float64"] + sorted(reps)
    base = build("rdst", dict(params, transform_type=kind)).fit(reps[names[0]](), y)
    refs = {"model": model_digest(base, "rdst"), "transform": digest(base.transform(reps[names[0]]())), "kind": kind}
    runs = []
    for k in rng.sample(names[1:], min(len(names) - 1, 7 if tier == "quick" else 20)):
        e = build("rdst", dict(params, transform_type=rng.choice(["auto", "auto", kind, kind.upper()])))
        d = reps[k]()
        r = limited(lambda: e.fit(d, y))
        runs.append({"what": "fit:" + k, "ref": "model", "out": model_digest(e, "rdst") if r[0] == "ok" else r[1]})
        runs.append({"what": "kind:" + k, "ref": "kind", "out": str(e.transform_type)})
        runs.append({"what": "transform:" + k, "ref": "transform", "out": outcome(lambda: digest(base.transform(reps[k]())))})
    return {"tag": kind, "refs": refs, "runs": runs, "apart": []}


def corrupt(case, rng):
    rng.choice(case["runs"])["out"] = "univariat"
    return case
