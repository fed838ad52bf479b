"""Constructor calls enumerated by TLC (Gen_Params)."""
import json
import os
from common import *  # noqa: F401,F403

BLOCK = 100
PER = BLOCK
CANARIES = 60
_G = None


def gen():
    global _G
    if _G is None:
        _G = [json.loads(x) for x in open(os.environ["VERIF_GEN"])]
    return _G


def plan(tier):
    single = [i for i, g in enumerate(gen()) if len(g) == 1]
    n = len(gen())
    return [("block", i) for i in range((n + BLOCK - 1) // BLOCK)] + [("ensemble", 0), ("jobs", 0)] if single else []


def value(d):
    import numpy as np
    t = d["ty"]
    if t in ("int", "npint"):
        return (int if t == "int" else np.int64)(d["n"] // 1000)
    if t in ("float", "npfloat"):
        return (float if t == "float" else np.float32 if d["n"] % 250 == 0 else np.float64)(d["n"] / 1000)
    if t in ("bool", "npbool"):
        return (bool if t == "bool" else np.bool_)(d["b"])
    if t == "str":
        return d["s"]
    if t == "none":
        return None
    e = [value(x) for x in d["e"]]
    return {"list": lambda: e, "arr": lambda: np.array(e), "nested": lambda: [e]}[t]()


def equal(a, b):
    import numpy as np
    if isinstance(a, (list, np.ndarray)):
        return isinstance(b, (list, np.ndarray)) and np.array_equal(np.asarray(a), np.asarray(b))
    if a is None or b is None:
        return a is b
    return a == b


def run(job, rng, tier):
    import multiprocessing
    import numpy as np
    from convst.transformers import R_DST
    cpus = os.cpu_count()
    if job[0] == "ensemble":
        from convst.classifiers import R_DST_Ensemble
        from convst.transformers._input_transformers import Raw
        out = []
        for nt in (None, 1, 2, 3, 4):
            for np_ in (1, 2, 3, 4):
                kw = {"proba_norm": [.5] * np_, "input_transformers": None if nt is None else [Raw() for _ in range(nt)]}
                r = limited(lambda: R_DST_Ensemble(**kw))
                out.append({"tag": "ensemble", "np": np_, "nt": 3 if nt is None else nt, "out": "ok" if r[0] == "ok" else r[1]})
        return out
    if job[0] == "jobs":
        from convst.utils.checks_utils import check_n_jobs
        out = []
        for d in [{"ty": "int", "n": 1000 * n} for n in range(-2 * cpus - 2, 2 * cpus + 3)] + [{"ty": "npint", "n": 1000 * n} for n in (-3, 0, 5)] + \
                [{"ty": "none"}, {"ty": "float", "n": 1000}, {"ty": "str", "s": "all"}]:
            r = limited(lambda: check_n_jobs(value(d)))
            out.append({"tag": "jobs", "arg": d, "cpus": cpus, "out": "ok" if r[0] == "ok" else r[1],
                        "jobs": int(r[1]) if r[0] == "ok" else -1})
        return out
    out = []
    for g in gen()[job[1] * BLOCK:(job[1] + 1) * BLOCK]:
        kw = {p: value(d) for p, d in g.items()}
        r = limited(lambda: R_DST(**kw))
        case = {"tag": "R_DST", "args": g, "cpus": cpus, "out": "ok" if r[0] == "ok" else r[1], "stored_type": "", "stored_jobs": 0,
                "changed": ""}
        if r[0] == "ok":
            e = r[1]
            case["stored_type"] = str(e.transform_type)
            case["stored_jobs"] = int(e.n_jobs)
            for p, v in kw.items():
                if p not in ("transform_type", "n_jobs") and not equal(v, getattr(e, p)):
                    case["changed"] = p
        out.append(case)
    return out


def corrupt(case, rng):
    case["out"] = "ok" if case["out"] == "ValueError" else "ValueError"
    return case
