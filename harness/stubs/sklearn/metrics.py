import numpy as np

from .utils.validation import check_consistent_length, column_or_1d


def accuracy_score(y_true, y_pred, *, normalize=True, sample_weight=None):
    y_true, y_pred = column_or_1d(y_true), column_or_1d(y_pred)
    check_consistent_length(y_true, y_pred)
    if (y_true.dtype.kind in "US") != (y_pred.dtype.kind in "US") and "O" not in (y_true.dtype.kind, y_pred.dtype.kind):
        raise TypeError("Labels in y_true and y_pred should be of the same type.")
    s = (y_true == y_pred)
    if not normalize:
        return s.sum()
    return float(np.average(s, weights=sample_weight))


def f1_score(y_true, y_pred, *, average="binary", **k):
    y_true, y_pred = column_or_1d(y_true), column_or_1d(y_pred)
    f = []
    labels = np.unique(np.concatenate([y_true, y_pred]))
    if average == "binary":
        labels = [1]
    for c in labels:
        tp = ((y_true == c) & (y_pred == c)).sum()
        d = (y_true == c).sum() + (y_pred == c).sum()
        f.append(2 * tp / d if d else 0.0)
    return float(np.mean(f))


def balanced_accuracy_score(y_true, y_pred, **k):
    y_true, y_pred = column_or_1d(y_true), column_or_1d(y_pred)
    return float(np.mean([(y_pred[y_true == c] == c).mean() for c in np.unique(y_true)]))


def confusion_matrix(y_true, y_pred, **k):
    labels = np.unique(np.concatenate([y_true, y_pred]))
    return np.array([[((y_true == a) & (y_pred == b)).sum() for b in labels] for a in labels])


class _Scorer:
    def __init__(self, func, sign, kwargs):
        self._score_func, self._sign, self._kwargs = func, sign, kwargs

    def __call__(self, estimator, X, y_true, sample_weight=None):
        return self._sign * self._score_func(y_true, estimator.predict(X), **self._kwargs)


def make_scorer(score_func, *, greater_is_better=True, needs_proba=False, needs_threshold=False, **kwargs):
    return _Scorer(score_func, 1 if greater_is_better else -1, kwargs)


def get_scorer(s):
    return s if callable(s) else make_scorer(accuracy_score)
