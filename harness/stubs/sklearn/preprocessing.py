import numpy as np

from .base import BaseEstimator, TransformerMixin
from .utils.validation import check_is_fitted, column_or_1d


class StandardScaler(TransformerMixin, BaseEstimator):
    def __init__(self, *, copy=True, with_mean=True, with_std=True):
        self.with_mean, self.with_std, self.copy = with_mean, with_std, copy

    def fit(self, X, y=None, sample_weight=None):
        X = np.asarray(X, dtype=float)
        if X.ndim != 2:
            raise ValueError("Expected 2D array, got %dD array instead" % X.ndim)
        if X.shape[1] == 0 or X.shape[0] == 0:
            raise ValueError("Found array with shape %r while a minimum of 1 is required." % (X.shape,))
        self.n_features_in_ = X.shape[1]
        self.mean_ = X.mean(axis=0)
        self.var_ = X.var(axis=0)
        s = np.sqrt(self.var_)
        self.scale_ = np.where(s < 10 * np.finfo(float).eps, 1.0, s)
        return self

    def _check(self, X):
        check_is_fitted(self)
        X = np.array(X, dtype=float)
        if X.ndim != 2 or X.shape[1] != self.n_features_in_:
            raise ValueError("X has %r features, but %s is expecting %d features as input"
                             % (X.shape, type(self).__name__, self.n_features_in_))
        return X

    def transform(self, X, copy=None):
        X = self._check(X)
        if self.with_mean:
            X -= self.mean_
        if self.with_std:
            X /= self.scale_
        return X


class MinMaxScaler(TransformerMixin, BaseEstimator):
    def __init__(self, feature_range=(0, 1), *, copy=True, clip=False):
        self.feature_range, self.copy, self.clip = feature_range, copy, clip

    def fit(self, X, y=None):
        X = np.asarray(X, dtype=float)
        if X.ndim != 2 or X.shape[1] == 0:
            raise ValueError("Expected 2D array with at least one feature")
        self.n_features_in_ = X.shape[1]
        self.data_min_, self.data_max_ = X.min(axis=0), X.max(axis=0)
        r = self.data_max_ - self.data_min_
        r = np.where(r < 10 * np.finfo(float).eps, 1.0, r)
        self.scale_ = (self.feature_range[1] - self.feature_range[0]) / r
        self.min_ = self.feature_range[0] - self.data_min_ * self.scale_
        return self

    def transform(self, X):
        check_is_fitted(self)
        X = np.array(X, dtype=float)
        if X.ndim != 2 or X.shape[1] != self.n_features_in_:
            raise ValueError("X has %r features, expecting %d" % (X.shape, self.n_features_in_))
        return X * self.scale_ + self.min_


class LabelEncoder(TransformerMixin, BaseEstimator):
    def fit(self, y):
        self.classes_ = np.unique(column_or_1d(y))
        return self

    def fit_transform(self, y):
        y = column_or_1d(y)
        self.classes_, y = np.unique(y, return_inverse=True)
        return y

    def transform(self, y):
        check_is_fitted(self)
        y = column_or_1d(y)
        if len(y) == 0:
            return np.array([])
        unknown = [v for v in np.unique(y) if v not in self.classes_]
        if unknown:
            raise ValueError("y contains previously unseen labels: %s" % str(unknown))
        return np.searchsorted(self.classes_, y)

    def inverse_transform(self, y):
        return self.classes_[np.asarray(y)]


class LabelBinarizer(TransformerMixin, BaseEstimator):
    def __init__(self, *, neg_label=0, pos_label=1, sparse_output=False):
        self.neg_label, self.pos_label, self.sparse_output = neg_label, pos_label, sparse_output

    def fit(self, y):
        self.classes_ = np.unique(column_or_1d(y))
        return self

    def transform(self, y):
        y = column_or_1d(y)
        Y = np.full((y.shape[0], len(self.classes_)), self.neg_label, dtype=int)
        for j, c in enumerate(self.classes_):
            Y[y == c, j] = self.pos_label
        return Y[:, 1:2] if len(self.classes_) == 2 else Y
