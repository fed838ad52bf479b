"""Surrogate tests with the interface of scipy.stats.  wilcoxon's p-value is a function of the *paired* differences only:
p = (number of pairs with y >= x) / n - eps-free, so that pairing mistakes are visible."""
import numpy as np

CALLS = []
HOOK = {"wilcoxon": None}


class _Result(tuple):
    @property
    def statistic(self):
        return self[0]

    @property
    def pvalue(self):
        return self[1]


def wilcoxon(x, y=None, zero_method="wilcox", correction=False, alternative="two-sided", **k):
    x = np.asarray(x, dtype=float)
    y = np.asarray(y, dtype=float)
    if x.shape != y.shape:
        raise ValueError("The samples x and y must have the same length.")
    CALLS.append((x.copy(), y.copy(), zero_method))
    if HOOK["wilcoxon"] is not None:
        return _Result((0.0, HOOK["wilcoxon"](x, y)))
    d = x - y
    return _Result((0.0, float((d != 0).mean())))


def friedmanchisquare(*samples):
    return _Result((0.0, 0.01))


def rankdata(a, **k):
    raise NotImplementedError
