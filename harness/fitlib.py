"""Recorded fits, shared by C03-C06 and others."""
from common import *  # noqa: F401,F403


def fit_record(rng, tag, ch, variable, phase, n, T, lens_cfg, n_shapelets, alpha8=4, proba=.5, prime=False, perc=(5, 10),
               maxch=None, style="distinct", classes=2, min_len=None, spread=6, est_kw=None):
    import numpy as np
    from convst.transformers import R_DST
    lens = [T + (rng.randint(0, spread) if i else 0) for i in range(n)] if variable else [T] * n
    rng.shuffle(lens)
    q, by = rng.choice(SCALES)
    X = shifted(rnd_data(rng, n, ch, lens, style), by)
    y = [1 + i % classes for i in range(n)]
    rng.shuffle(y)
    kw = dict(n_shapelets=n_shapelets, shapelet_lengths=list(lens_cfg), alpha=alpha8 / 8, proba_norm=float(proba),
              phase_invariance=phase, percentiles=list(perc), prime_dilations=prime, random_state=rng.randint(0, 10 ** 6))
    if maxch is not None:
        kw["max_channels"] = maxch
    if min_len is not None:
        kw["min_len"] = min_len
    kw.update(est_kw or {})
    est = R_DST(**kw)
    labels = rng.choice([lambda v: 10 * v, lambda v: v, lambda v: 1 - v, lambda v: v / 8, lambda v: 2. - v / 4])
    est.fit(to_real(X, variable, q), np.array([labels(v) for v in y]))
    shp = shapelets(est, ch, q)
    th = est.shapelets_[3]
    for s, t in zip(shp, th):
        s["th100"] = floor_to(t, 100 * (K if s["nm"] else q))
    ml = min(lens)
    if variable and min_len is not None:
        ml = min(ml, min_len)
    alls = [a for x in X for s in x for a in s]
    return {"tag": tag, "kind": kind_name(ch, variable), "X": X, "y": y, "phase": phase, "n": n_shapelets,
            "lens": list(lens_cfg), "al": alpha8, "pn": {0: 0, 1: 1}.get(proba, 2), "prime": prime,
            "maxch": maxch or ch, "ml": ml, "pl": perc[0], "ph": perc[1], "shp": shp,
            "nonzero": all(alls) and style in ("distinct", "neg", "wide"), "seed": kw["random_state"]}


def mode(rng):
    return dict(ch=rng.choice([1, 1, 2, 3]), variable=rng.random() < .5, phase=rng.random() < .5)
