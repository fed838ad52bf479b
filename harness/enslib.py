"""Test doubles for R_DST_Ensemble: tagged input transformers, recorded R_DST calls, scripted ridge classifiers."""
import math
from lifelib import *  # noqa: F401,F403
from sklearn.base import BaseEstimator, TransformerMixin
from sklearn.linear_model import RidgeClassifierCV

NOW = {"tag": None, "events": None, "keep": None}
LN2 = math.log(2)


def note(ev, who, given, **k):
    if NOW["events"] is not None:
        NOW["events"].append(dict(k, tag=NOW["tag"], ev=ev, who="%x" % (id(who) % 10 ** 8), given=data_digest(given)))


class Tag(BaseEstimator, TransformerMixin):
    """Centres on the first training value of every channel and scales by a factor of its own."""

    def __init__(self, tag=1):
        self.tag = tag

    def fit(self, X, y=None):
        NOW["tag"] = self.tag
        note("t-fit", self, X)
        self.centre_ = [float(v) for v in X[0][:, 0]]
        return self

    def transform(self, X):
        import numpy as np
        NOW["tag"] = self.tag
        out = [(x - np.array(self.centre_)[:, None]) * [1, -2, .5, 4][self.tag - 1] for x in X]
        if not (isinstance(X, list) or X.dtype == object):
            out = np.array(out)
        note("t-out", self, X, made=data_digest(out))
        return out


def shown(est):
    """The parameters of an R_DST that an ensemble is given as such."""
    p = est.get_params(deep=False)
    keep = ["n_shapelets", "alpha", "n_samples", "normalize_output", "proba_norm", "shapelet_lengths", "phase_invariance", "prime_dilations",
            "shapelet_lengths_bounds", "lengths_bounds_reduction", "percentiles", "min_len", "max_channels"]

    def v(x):
        return repr(x.tolist() if hasattr(x, "tolist") else list(x) if isinstance(x, (list, tuple)) else x)
    return digest([v(p[k]) for k in keep])


class Recorded:
    """Context: R_DST.fit and transform are recorded under the tag of the input transformer used last."""

    def __enter__(self):
        from convst.transformers import R_DST
        self.cls, self.fit, self.transform = R_DST, R_DST.fit, R_DST.transform
        fit, transform = self.fit, self.transform

        def rfit(me, X, y=None, *a, **k):
            NOW["keep"].append(me)                     # so that no other object gets its id
            note("r-fit", me, X, par=shown(me), y=digest([str(v) for v in y]) if y is not None else "")
            return fit(me, X, y, *a, **k)

        def rtransform(me, X, *a, **k):
            out = transform(me, X, *a, **k)
            note("r-out", me, X, made=digest(out))
            if NOW["events"] is not None:
                NOW["events"][-1]["M"] = out
            return out
        R_DST.fit, R_DST.transform = rfit, rtransform
        NOW.update(tag=None, events=[], keep=[])
        return self

    def __exit__(self, *a):
        self.cls.fit, self.cls.transform = self.fit, self.transform
        NOW.update(tag=None, events=None, keep=None)
        RidgeClassifierCV.TRAINED = RidgeClassifierCV.SCRIPT = None
