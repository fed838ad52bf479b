import copy
import inspect

import numpy as np


def clone(estimator, *, safe=True):
    t = type(estimator)
    if t in (list, tuple, set, frozenset):
        return t([clone(e, safe=safe) for e in estimator])
    if not hasattr(estimator, "get_params") or isinstance(estimator, type):
        if not safe:
            return copy.deepcopy(estimator)
        raise TypeError("Cannot clone object '%s' (type %s): it does not seem to be a scikit-learn estimator"
                        % (repr(estimator), type(estimator)))
    klass = estimator.__class__
    params = estimator.get_params(deep=False)
    for name, param in params.items():
        params[name] = clone(param, safe=False)
    new = klass(**params)
    got = new.get_params(deep=False)
    for name in params:
        if params[name] is not got[name]:
            raise RuntimeError("Cannot clone object '%s' (type %s): it does not seem to set parameter %s"
                               % (estimator, type(estimator), name))
    return new


class BaseEstimator:
    @classmethod
    def _get_param_names(cls):
        init = getattr(cls.__init__, "deprecated_original", cls.__init__)
        if init is object.__init__:
            return []
        ps = [p for p in inspect.signature(init).parameters.values()
              if p.name != "self" and p.kind != p.VAR_KEYWORD]
        for p in ps:
            if p.kind == p.VAR_POSITIONAL:
                raise RuntimeError("scikit-learn estimators should always specify their parameters")
        return sorted(p.name for p in ps)

    def get_params(self, deep=True):
        out = {}
        for key in self._get_param_names():
            value = getattr(self, key)
            if deep and hasattr(value, "get_params") and not isinstance(value, type):
                out.update((key + "__" + k, v) for k, v in value.get_params().items())
            out[key] = value
        return out

    def set_params(self, **params):
        if not params:
            return self
        valid = self.get_params(deep=True)
        nested = {}
        for key, value in params.items():
            key, delim, sub = key.partition("__")
            if key not in valid:
                raise ValueError("Invalid parameter %r for estimator %s." % (key, self))
            if delim:
                nested.setdefault(key, {})[sub] = value
            else:
                setattr(self, key, value)
                valid[key] = value
        for key, sub in nested.items():
            valid[key].set_params(**sub)
        return self

    def __repr__(self):
        return "%s()" % type(self).__name__

    def _more_tags(self):
        return {}

    def _get_tags(self):
        return self._more_tags()

    def _validate_data(self, X="no_validation", y="no_validation", **k):
        return X if isinstance(y, str) else (X, y)


class TransformerMixin:
    def fit_transform(self, X, y=None, **fit_params):
        if y is None:
            return self.fit(X, **fit_params).transform(X)
        return self.fit(X, y, **fit_params).transform(X)


class ClassifierMixin:
    _estimator_type = "classifier"

    def score(self, X, y, sample_weight=None):
        from .metrics import accuracy_score
        return accuracy_score(y, self.predict(X), sample_weight=sample_weight)


class RegressorMixin:
    _estimator_type = "regressor"


class MetaEstimatorMixin:
    pass


def is_classifier(e):
    return getattr(e, "_estimator_type", None) == "classifier"


def is_regressor(e):
    return getattr(e, "_estimator_type", None) == "regressor"
