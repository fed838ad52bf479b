"""Features of fitted and of hand-made shapelets."""
from common import *  # noqa: F401,F403


def _fit(rng, ch, variable, phase, T, q=Q, by=0, **kw):
    from convst.transformers import R_DST
    n = rng.randint(3, 6)
    lens = [rng.randint(T, T + 8) for _ in range(n)] if variable else T
    data = shifted(rnd_data(rng, n, ch, lens, kw.pop("style", None)), by)
    import numpy as np
    est = R_DST(phase_invariance=phase, random_state=rng.randint(0, 10 ** 6), **kw)
    est.fit(to_real(data, variable, q), np.array([i % 2 for i in range(n)]))
    return est


def _spans(shp):
    return max([(s["l"] - 1) * s["d"] + 1 for s in shp] or [1])


def _case(est, ch, variable, phase, data, tag, q=Q):
    shp = shapelets(est, ch, q)
    M = est.transform(to_real(data, variable, q))
    return {"tag": tag, "kind": kind_name(ch, variable), "phase": phase, "X": data, "shp": shp,
            "out": features(M, shp, len(data), q)}


def fitted(rng, tier):
    ch = rng.choice([1, 1, 2, 3, 4])
    variable = rng.random() < .5
    phase = rng.random() < .5
    T = rng.choice([5, 8, 12, 20, 26])
    lengths = rng.choice([[2], [3], [3, 5], [4, 5, 7], [2, 3, 9], [5]])
    lengths = [l for l in lengths if l <= T] or [2]
    q, by = rng.choice(SCALES)
    est = _fit(rng, ch, variable, phase, T, q, by, n_shapelets=rng.choice([1, 6, 12, 18]), shapelet_lengths=lengths,
               proba_norm=rng.choice([0., .5, .5, 1.]), alpha=rng.choice([0., .5]),
               percentiles=rng.choice([[5, 10], [0, 100], [20, 60]]), prime_dilations=rng.random() < .3)
    span = 3 if phase else max(3, _spans(shapelets(est, ch)))
    n = rng.choice([1, 2, 5])
    if tier == "many":
        n = 40
    if variable:
        lens = [rng.choice([span, span + 1, T, T + 9, rng.randint(span, span + 25)]) for _ in range(n)]
        lens = [max(a, span) for a in lens]
    else:
        lens = max(span, rng.choice([span, T, T + 3, 40]))
    return _case(est, ch, variable, phase, shifted(rnd_data(rng, n, ch, lens), by), "many" if n == 40 else "fitted", q)


def _pack(est, uni, shp):
    """Give est these shapelets (values already in real units)."""
    import numpy as np
    L = np.array([s["l"] for s in shp], dtype=np.int64)
    D = np.array([s["d"] for s in shp], dtype=np.int64)
    th = np.array([s["th"] for s in shp], dtype=float)
    nm = np.array([s["nm"] for s in shp], dtype=bool)
    if uni:
        V = np.zeros((len(shp), int(L.max())))
        for i, s in enumerate(shp):
            V[i, :s["l"]] = s["v"][0]
        est.shapelets_ = (V, L, D, th, nm)
    else:
        V = np.concatenate([np.concatenate([np.asarray(r, dtype=float) for r in s["v"]]) for s in shp])
        est.shapelets_ = (V, L, D, th, nm, np.array([len(s["ch"]) for s in shp], dtype=np.int64),
                          np.array([c for s in shp for c in s["ch"]], dtype=np.int64))


def _znorm(v):
    import numpy as np
    v = np.asarray(v, dtype=float)
    return (v - v.mean()) / (v.std() + 1e-8)


def injected(rng, tier, big=False, huge=False):
    import numpy as np
    ch = rng.choice([1, 1, 2, 3, 5])
    variable = rng.random() < .5
    phase = rng.random() < .5
    T = rng.choice([60, 110]) if big else rng.choice([6, 9, 14, 22])
    n = rng.choice([1, 2, 4])
    lens = [T + rng.choice([0, 0, 1, 7]) for _ in range(n)] if variable else T
    q, by = rng.choice(SCALES)
    if huge:                  # values that need up to 27 bits
        q, by, ch = 4, 0, min(ch, 2)
        data = [[[rng.randint(-2 ** 26, 2 ** 26) for _ in range(lens[i] if variable else lens)] for _ in range(ch)] for i in range(n)]
    else:
        data = shifted(rnd_data(rng, n, ch, lens), by)
    combos = []
    for _ in range(rng.choice([1, 2, 3])):
        l = rng.choice([2, 3, 4, 5, 11, 16, 33] if big else [2, 3, 4, 5, 6])
        l = min(l, T) if not huge else min(l, 3)
        dmax = max(1, (T - 1) // (l - 1))
        combos.append((l, rng.choice([1, rng.randint(1, dmax), dmax] + ([T, T + 3] if phase else []))))
    shp = []
    for _ in range(rng.choice([1, 4, 8, 12]) if big != 2 else 90):
        l, d = rng.choice(combos)
        nm = rng.random() < .5
        if big and l > 20:
            nm = rng.random() < .3
        nm = nm and not huge
        chs = rng.sample(range(ch), rng.randint(1, ch))
        rows = []
        for c in chs:
            how = rng.random()
            if how < .5:      # cut from a series of the batch: distances of exactly 0
                s = data[rng.randrange(n)][c]
                i = rng.randrange(len(s)) if phase else rng.randrange(len(s) - (l - 1) * d)
                row = [s[(i + j * d) % len(s)] for j in range(l)]
            elif how < .6:
                row = [by] * l
            else:
                row = [a + by for a in rnd_series(rng, l)]
            row = [x / q for x in row]
            rows.append(_znorm(row) if nm else row)
        s = {"l": l, "d": d, "nm": nm, "ch": chs, "v": rows, "th": 0.}
        # thresholds: on a distance exactly, between distances, extreme
        x = data[rng.randrange(n)]
        m = len(x[0])
        k = m if phase else m - (l - 1) * d
        i = rng.randrange(k)
        dist = 0.
        for r, c in zip(rows, chs):
            w = np.array([x[c][(i + j * d) % m] for j in range(l)]) / q
            w = _znorm(w) if nm else w
            dist += float(np.abs(w - r).sum())
        s["th"] = rng.choice([dist, dist, dist + .5 / q, dist - .5 / q, 0., -1., 1e6 if q == Q else 1e3, dist / 2])
        if huge:
            s["th"] = rng.choice([dist, dist + .25, dist - .25])
        if nm and s["th"] == dist:
            s["th"] = dist + rng.choice([.05, -.05])
        shp.append(s)
    est = _fit(rng, ch, variable, phase, 8, n_shapelets=2, shapelet_lengths=[3], proba_norm=.5)
    _pack(est, ch == 1, shp)
    return _case(est, ch, variable, phase, data, "injected", q)


def exhaustive(rng, which):
    """Every series of length 5 over {0, 1, 2} against shapelets over the same values."""
    import itertools
    phase, variable = which % 2 == 1, which // 2 % 2 == 1
    data = [[[4 * a for a in t]] for t in itertools.product(range(3), repeat=5)]
    est = _fit(rng, 1, variable, phase, 8, n_shapelets=2, shapelet_lengths=[3], proba_norm=.5)
    shp = []
    for l, d in ((2, 1), (3, 2), (2, 3)):
        for nm in (False, True):
            for _ in range(1 if nm else 2):
                row = [rng.randint(0, 2) for _ in range(l)]
                shp.append({"l": l, "d": d, "nm": nm, "ch": [0], "v": [_znorm(row) if nm else row],
                            "th": rng.choice([0., 1., 2.]) + (.05 if nm else 0)})
    rng.shuffle(shp)
    _pack(est, True, shp)
    return _case(est, 1, variable, phase, data, "exhaustive")


def plan(tier):
    a, b, c = (280, 420, 24) if tier == "quick" else (900, 1500, 120)
    return [("fitted", i) for i in range(a)] + [("injected", i) for i in range(b)] + [("big", i) for i in range(c)] + \
        [("huge", i) for i in range(24 if tier == "quick" else 80)] + [("many", i) for i in range(18 if tier == "quick" else 60)] + [("exhaustive", i) for i in range(4 if tier == "quick" else 16)]


def run(job, rng, tier):
    what, i = job
    if what == "fitted":
        return fitted(rng, tier)
    if what == "exhaustive":
        return exhaustive(rng, i)
    if what == "many":
        return fitted(rng, what) if i % 2 else injected(rng, tier, 2)
    return injected(rng, tier, what == "big", what == "huge")


def corrupt(case, rng):
    """Canaries: one observation changed."""
    if not case["out"] or not case["shp"] or len(case["X"]) > 50:
        return None
    i, s = rng.randrange(len(case["out"])), rng.randrange(len(case["shp"]))
    j = rng.randrange(3)
    case["out"][i][s][j] += 1000 if j == 0 else 1 if (j == 1 and not case["shp"][s]["nm"]) else 1000
    return case
