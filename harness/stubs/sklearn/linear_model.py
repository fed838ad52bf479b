"""Ridge classification with leave-one-out selection of alpha (closed form)."""
import numpy as np

from .base import BaseEstimator, ClassifierMixin
from .preprocessing import LabelBinarizer
from .utils.validation import check_is_fitted


def _weights(class_weight, y, classes):
    w = np.ones(len(y))
    if class_weight is None:
        return w
    for c in classes:
        if class_weight == "balanced":
            v = len(y) / (len(classes) * (y == c).sum())
        else:
            v = class_weight.get(c, 1.0)
        w[y == c] = v
    return w


class RidgeClassifierCV(ClassifierMixin, BaseEstimator):
    LOG = None      # when a list, every fit appends what it was given
    ASKED = None    # when a list, every evaluation appends (self, X, decision values)
    TRAINED = None  # when a function, it may change what fit leaves: f(self, X, y)
    SCRIPT = None   # when a function, it says the decision values instead: f(self, X) -> array

    def __init__(self, alphas=(0.1, 1.0, 10.0), *, fit_intercept=True, scoring=None, cv=None, class_weight=None,
                 store_cv_values=False):
        self.alphas, self.fit_intercept, self.scoring, self.cv = alphas, fit_intercept, scoring, cv
        self.class_weight, self.store_cv_values = class_weight, store_cv_values

    def fit(self, X, y, sample_weight=None):
        X = np.asarray(X, dtype=float)
        if X.ndim != 2 or X.shape[1] == 0:
            raise ValueError("Found array with shape %r" % (X.shape,))
        y = np.asarray(y).ravel()
        if X.shape[0] != y.shape[0]:
            raise ValueError("inconsistent numbers of samples")
        self._label_binarizer = LabelBinarizer(pos_label=1, neg_label=-1).fit(y)
        Y = self._label_binarizer.transform(y).astype(float)
        w = _weights(self.class_weight, y, self.classes_)
        n = X.shape[0]
        sw = np.sqrt(w)
        if self.fit_intercept:
            xm, ym = np.average(X, axis=0, weights=w), np.average(Y, axis=0, weights=w)
        else:
            xm, ym = np.zeros(X.shape[1]), np.zeros(Y.shape[1])
        Xc, Yc = (X - xm) * sw[:, None], (Y - ym) * sw[:, None]
        K = Xc @ Xc.T
        best, vals = None, []
        for a in np.asarray(self.alphas, dtype=float):
            G = np.linalg.inv(K + a * np.eye(n))
            c = G @ Yc
            H = K @ G
            if self.fit_intercept:
                H = H + np.outer(sw, sw) / w.sum()
            resid = (Yc - K @ c)
            loo = resid / (1 - np.diag(H))[:, None]
            if self.scoring is None:
                vals.append((loo ** 2))
                score = -(loo ** 2).mean()
            else:
                pred = Y - loo / sw[:, None]
                vals.append(pred)
                if Y.shape[1] == 1:
                    yt, yp = (Y[:, 0] > 0), (pred[:, 0] > 0)
                else:
                    yt, yp = Y.argmax(axis=1), pred.argmax(axis=1)
                score = float((yt == yp).mean())
            if best is None or score > best[0]:
                best = (score, a, c)
        self.best_score_, self.alpha_ = best[0], best[1]
        self.coef_ = (Xc.T @ best[2]).T
        self.intercept_ = ym - self.coef_ @ xm
        self.n_features_in_ = X.shape[1]
        if self.store_cv_values:
            self.cv_values_ = np.stack(vals, axis=2)
        if RidgeClassifierCV.TRAINED is not None:
            RidgeClassifierCV.TRAINED(self, X, y)
        if RidgeClassifierCV.LOG is not None:
            RidgeClassifierCV.LOG.append((self, X.copy(), y.copy()))
        return self

    @property
    def classes_(self):
        return self._label_binarizer.classes_

    def decision_function(self, X):
        check_is_fitted(self, ["coef_"])
        X = np.asarray(X, dtype=float)
        if X.ndim != 2 or X.shape[1] != self.coef_.shape[1]:
            raise ValueError("X has %r features, expecting %d" % (X.shape, self.coef_.shape[1]))
        s = X @ self.coef_.T + self.intercept_
        s = s.ravel() if s.shape[1] == 1 else s
        if RidgeClassifierCV.SCRIPT is not None:
            s = np.asarray(RidgeClassifierCV.SCRIPT(self, X, s))
        if RidgeClassifierCV.ASKED is not None:
            RidgeClassifierCV.ASKED.append((self, X.copy(), s))
        return s

    def predict(self, X):
        s = self.decision_function(X)
        i = (s > 0).astype(int) if s.ndim == 1 else s.argmax(axis=1)
        return self.classes_[i]


class RidgeClassifier(RidgeClassifierCV):
    pass


class _RidgeCV:
    pass
