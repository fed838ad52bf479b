"""The calls enumerated by TLC (Gen_Values), made on the validators."""
import json
import os
from common import *  # noqa: F401,F403

BLOCK = 40
CANARIES = 40


def gen():
    return [json.loads(x) for x in open(os.environ["VERIF_GEN"])]


def plan(tier):
    n = len(gen())
    return [("block", i) for i in range((n + BLOCK - 1) // BLOCK)]


def build(x, rng):
    import numpy as np
    import pandas as pd
    t, sh = x["ty"], tuple(x["shape"])
    dt = rng.choice([np.float64, np.float64, np.int64, np.float32, np.int8])
    n = int(np.prod(sh)) if sh else 1
    a = np.array([rng.randint(-50, 50) for _ in range(n)], dtype=dt).reshape(sh)
    if t == "arr":
        if a.ndim > 1 and rng.random() < .3:
            a = np.asfortranarray(a)
        if rng.random() < .2:
            a.flags.writeable = False
        return a
    if t == "list":
        return a.tolist()
    if t == "df":
        names = ["r%d" % i for i in range(sh[0])]
        index = rng.choice([names, names[::-1], rng.sample(range(-50, 50), sh[0]), [0] * sh[0]])
        if len(sh) == 2 and rng.random() < .7:
            return pd.DataFrame(a, index=index, columns=rng.choice([None, ["c%d" % i for i in range(sh[1])][::-1], rng.sample(range(99), sh[1])]))
        return pd.DataFrame(a, index=index)
    return {"tuple": ((1., 2.), (3., 4.)), "str": "abc", "none": None, "number": 3.5, "ragged": [[1., 2.], [3.]], "dict": {"a": 1},
            "set": {1, 2}}[t]


def run(job, rng, tier):
    import numpy as np
    import pandas as pd
    from convst.utils import checks_utils as cu
    out = []
    for call in gen()[job[1] * BLOCK:(job[1] + 1) * BLOCK]:
        x = build(call["x"], rng)
        before = repr(x)
        if call["v"] == 3:
            f = lambda: cu.check_array_3D(x, is_univariate=call["uni"], min_timestamps=call["mn"])  # noqa: E731
            if call["mn"] == 2 and rng.random() < .5:
                f = lambda: cu.check_array_3D(x, is_univariate=call["uni"])  # noqa: E731
        elif call["v"] == 2:
            f = lambda: cu.check_array_2D(x, coerce_to_numpy=call["coerce"])  # noqa: E731
        else:
            f = lambda: cu.check_array_1D(x)  # noqa: E731
        r = limited(f)
        case = dict(call, tag="%dD:%s" % (call["v"], call["x"]["ty"]), out="ok" if r[0] == "ok" else r[1], oshape=[], same=False,
                    isarr=False, unchanged=repr(x) == before)
        if r[0] == "ok":
            v = r[1]
            case["isarr"] = isinstance(v, np.ndarray)
            if isinstance(v, (np.ndarray, pd.DataFrame)):
                case["oshape"] = list(v.shape)
                case["same"] = bool(np.array_equal(np.asarray(v), np.asarray(x)))
                if isinstance(v, pd.DataFrame):
                    case["same"] = case["same"] and bool(v.equals(x))
        out.append(case)
    return out


PER = BLOCK


def corrupt(case, rng):
    if case["out"] == "ok":
        case[rng.choice(["same", "unchanged"])] = False
    else:
        case["out"] = "ok"
    return case
