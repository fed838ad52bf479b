"""_resample on splits of every kind, over many seeds."""
import random as pyrandom
from math import comb
from datalib import *  # noqa: F401,F403

KINDS = ["univariate", "multivariate", "univariate_variable", "multivariate_variable"]


def plan(tier):
    return [(k, i) for k in KINDS for i in range(100 if tier == "quick" else 400)]


def run(job, rng, tier):
    import numpy as np
    from convst.utils.experiments_utils import _resample
    kind, i = job
    lab = rng.choice(sorted(LABELS))
    many = lab not in FEW
    a, b, _, _ = make_split(rng, kind, rng.randint(9, 13) if many else rng.choice([1, 2, 3, 4]), lab,
                            per=(1, 4) if many else rng.choice([(1, 1), (1, 4), (1, 7), (3, 6)]),
                            distinct=rng.random() < .8)
    names = Names()
    old = [items(names, *a), items(names, *b)]

    def ins():
        return digest([repr([data_digest(a[0]), digest(a[1]), data_digest(b[0]), digest(b[1])])])
    before = ins()
    runs = []
    seeds = [0, 1, 2, 3, rng.randint(4, 10 ** 6)]
    for s in seeds + rng.sample(seeds, 2):
        np.random.seed(rng.randrange(10 ** 6))
        np.random.rand(rng.randint(0, 3))
        given = np.int64(s) if rng.random() < .2 else np.random.RandomState(s) if rng.random() < .2 else s
        r = limited(lambda: _resample(a[0], a[1], b[0], b[1], given))
        if r[0] != "ok":
            runs.append({"seed": s, "refused": True, "new": [[], []], "kind": "", "inputs": ins(), "digest": r[1]})
            continue
        X, y, Z, z = r[1]
        new = [items(names, X, y), items(names, Z, z)]
        runs.append({"seed": s, "refused": False, "new": new, "kind": "%s %s" % (isinstance(X, list), isinstance(Z, list)),
                     "inputs": ins(), "digest": digest([repr(new)])})
    ways = 1
    for v in set(map(label_key, a[1])):
        ways *= comb(sum(label_key(w) == v for w in list(a[1]) + list(b[1])), sum(label_key(w) == v for w in a[1]))
    return {"tag": kind, "old": old, "kind": "%s %s" % ((isinstance(a[0], list),) * 2), "in": before, "runs": runs, "free": ways >= 5000 and
            len(set(s for s, _ in old[0] + old[1])) == len(old[0] + old[1])}


def corrupt(case, rng):
    r = rng.choice([r for r in case["runs"]])
    if not r["new"][0]:
        return None
    w = rng.randrange(3)
    if w == 0:
        r["new"][1][0][0] = 999
    elif w == 1:
        r["new"][1].append(r["new"][0].pop())
    else:
        r["inputs"] = "0"
    return case
