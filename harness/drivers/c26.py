"""The compiled helpers on every small input TLC enumerates (Gen_Helpers)."""
import json
import os
from lifelib import *  # noqa: F401,F403

SIZE = 40
_GEN = None


def calls():
    global _GEN
    if _GEN is None:
        _GEN = [json.loads(x) for x in open(os.environ["VERIF_GEN"])]
    return _GEN


def plan(tier):
    return list(range((len(calls()) + SIZE - 1) // SIZE)) + [-k for k in range(1, 48 if tier == "quick" else 200)]


def ilist(a):
    return [exact(v, 1) for v in a]


def large(rng):
    """Inputs beyond what is enumerated."""
    out = []
    for _ in range(2):
        n, w, v = rng.randint(17, 90), rng.randint(1, 3), rng.choice([2, 3])
        out.append({"f": "unique", "m": [[rng.randrange(v) for _ in range(w)] for _ in range(n)]})
    n, w = rng.randint(3, 40), rng.randint(4, 8)
    a = [0 if rng.random() < .6 else rng.randrange(3) for _ in range(w)]
    m = [[v if rng.random() < .85 else rng.randrange(3) for v in a] for _ in range(n)]
    out.append({"f": "unique", "m": m})
    for _ in range(2):
        k = rng.randint(4, 30)
        out.append({"f": "pairs", "x": [rng.randint(1, 4) for _ in range(k)], "y": [rng.randint(1, 4) for _ in range(k)]})
    l, d = rng.randint(1, 9), rng.randint(1, 9)
    n = (l - 1) * d + rng.randint(1, 12)
    out.append({"f": "windows", "n": n, "l": l, "d": d, "phase": rng.random() < .5})
    out.append({"f": "windows", "n": rng.randint(1, n), "l": l, "d": d, "phase": True})
    out.append({"f": "prime", "n": rng.randint(200, 1200)})
    return out


def run(job, rng, tier):
    import numpy as np
    from convst.transformers import _commons as C
    from convst.utils import numba_utils as N
    from numba import types
    from numba.extending import OVERLOADS
    ops = []
    for k in calls()[job * SIZE:(job + 1) * SIZE] if job >= 0 else large(rng):
        if k["f"] == "unique":
            vals = rng.choice([[0, 1, 2], [-3, 5, 7], [-2, -1, 0], [1, 2, 3]])                 # three values in order
            m = [[vals[v] for v in r] for r in k["m"]]
            A = np.array(m, dtype=np.int64)
            if rng.random() < .6:                                           # fractions
                A = A / rng.choice([1., 4., 8.]) + rng.choice([0., .5])
            unit = {tuple(a): r for a, r in zip(A.tolist(), m)}
            B = np.ascontiguousarray(A.T)
            copies = A.copy(), B.copy()
            r0 = N.nb_unique(A) if rng.random() < .5 else N.nb_unique(A, axis=0)
            r1 = N.nb_unique(B, axis=1)
            cols = np.asarray(r1[0])
            cols = cols.T if cols.shape[0] == len(r1[1]) and cols.shape[1] == len(m[0]) else cols
            ops.append({"f": "unique", "m": m, "out": [[unit.get(tuple(r), [BAD]) for r in np.asarray(r0[0]).tolist()], ilist(r0[1]), ilist(r0[2])],
                        "out1": [[list(r) for r in zip(*[unit.get(tuple(r), [BAD] * len(m[0])) for r in cols.T.tolist()])], ilist(r1[1]), ilist(r1[2])],
                        "kept": same(A, copies[0]) and same(B, copies[1])})
            for f in OVERLOADS.get("all", []):
                b = np.array(k["m"]) != 0
                ax = f(types.Array(None, 2), types.Integer())
                ops.append({"f": "all", "m": k["m"], "out0": [bool(v) for v in ax(b, 0)], "out1": [bool(v) for v in ax(b, 1)],
                            "out": bool(f(types.Array(None, 2), types.NoneType())(b)), "row": bool(f(types.Array(None, 1), types.NoneType())(b[0]))})
        elif k["f"] == "prime":
            ops.append({"f": "prime", "n": k["n"], "out": ilist(C.prime_up_to(k["n"]))})
        elif k["f"] == "pairs":
            sc = rng.choice([1, 5])
            x, y = [v * sc for v in k["x"]], [v * 2 for v in k["y"]]
            ops.append({"f": "pairs", "x": x, "y": y, "out": [ilist(r) for r in C._combinations_1d(np.array(x), np.array(y))]})
            a, b = rnd_series(rng, 5, "small"), rnd_series(rng, 5, "small")
            ra, rb = np.array(a, dtype=float), np.array(b, dtype=float)
            ops.append({"f": "distances", "a": a, "b": b, "l1": exact(C.manhattan(ra, rb), 1), "sq": exact(C.squared_euclidean(ra, rb), 1),
                        "l2": fixed(C.euclidean(ra, rb), 100)})
        else:
            n, l, d, phase = k["n"], k["l"], k["d"], k["phase"]
            x = rnd_data(rng, 1, rng.choice([1, 2]), n, rng.choice(["distinct", "runs"]))[0]
            R = np.array(x, dtype=float) / 4
            keep = R.copy()
            shp = rnd_series(rng, l, "wide")
            sn = [rng.randint(-8000, 8000) for _ in range(l)]
            w1, w2 = C.generate_strides_1D(R[0], l, d, phase), C.generate_strides_2D(R, l, d, phase)
            count = len(w1)
            ops.append({"f": "windows", "x": x, "l": l, "d": d, "phase": phase, "out1": [[exact(v) for v in r] for r in w1],
                        "out2": [[[exact(v) for v in r] for r in c] for c in w2],
                        "subs": [[exact(v) for v in C.get_subsequence(R[0], i, l, d, False, phase)] for i in range(count)],
                        "znrm": [[fixed(v) for v in C.get_subsequence(R[0], i, l, d, True, phase)] for i in range(count)],
                        "shp": shp, "shpn": sn,
                        "dist": [exact(v) for v in C.compute_shapelet_dist_vector(R[0], np.array(shp) / 4., l, d, False, phase)],
                        "distn": [fixed(v) for v in C.compute_shapelet_dist_vector(R[0], np.array(sn) / float(K), l, d, True, phase)]})
            if not same(R, keep):
                raise RuntimeError("the series was changed")
    return {"tag": "helpers", "ops": ops}


def corrupt(case, rng):
    o = rng.choice([o for o in case["ops"] if o["f"] != "distances"])
    if o["f"] == "windows":
        o["out1"][0][0] += 1
    elif o["f"] == "unique":
        o["out"][2][0] += 1
    elif o["f"] == "all":
        o["out0"][0] = not o["out0"][0]
    else:
        o["out"] = o["out"] + [o["out"][-1]] if o["out"] else [1]
    return case
