import numbers

import numpy as np

from ..exceptions import NotFittedError


def check_random_state(seed):
    if seed is None or seed is np.random:
        return np.random.mtrand._rand
    if isinstance(seed, numbers.Integral):
        return np.random.RandomState(seed)
    if isinstance(seed, np.random.RandomState):
        return seed
    raise ValueError("%r cannot be used to seed a numpy.random.RandomState instance" % seed)


def check_is_fitted(estimator, attributes=None, *, msg=None, all_or_any=all):
    if isinstance(estimator, type):
        raise TypeError("{} is a class, not an instance.".format(estimator))
    if not hasattr(estimator, "fit"):
        raise TypeError("%s is not an estimator instance." % (estimator))
    if attributes is not None:
        if not isinstance(attributes, (list, tuple)):
            attributes = [attributes]
        fitted = all_or_any([hasattr(estimator, a) for a in attributes])
    else:
        fitted = [v for v in vars(estimator) if v.endswith("_") and not v.startswith("__")]
    if not fitted:
        raise NotFittedError("This %s instance is not fitted yet." % type(estimator).__name__)


def _num_samples(x):
    if hasattr(x, "shape") and x.shape is not None:
        if len(x.shape) == 0:
            raise TypeError("Singleton array %r cannot be considered a valid collection." % x)
        return x.shape[0]
    return len(x)


def check_consistent_length(*arrays):
    lengths = [_num_samples(x) for x in arrays if x is not None]
    if len(set(lengths)) > 1:
        raise ValueError("Found input variables with inconsistent numbers of samples: %r" % lengths)


def column_or_1d(y, *, dtype=None, warn=False):
    y = np.asarray(y, dtype=dtype)
    if y.ndim == 1:
        return y
    if y.ndim == 2 and y.shape[1] == 1:
        return y.ravel()
    raise ValueError("y should be a 1d array, got an array of shape {} instead.".format(y.shape))


def check_array(array, accept_sparse=False, dtype="numeric", ensure_2d=True, allow_nd=False, copy=False,
                force_all_finite=True, ensure_min_samples=1, **k):
    a = np.array(array) if copy else np.asarray(array)
    if dtype == "numeric" and a.dtype.kind in "OUSV":
        a = a.astype(np.float64)
    elif isinstance(dtype, (type, np.dtype)):
        a = a.astype(dtype)
    if ensure_2d and a.ndim != 2:
        raise ValueError("Expected 2D array, got %dD array instead" % a.ndim)
    if not allow_nd and a.ndim >= 3:
        raise ValueError("Found array with dim %d. expected <= 2." % a.ndim)
    if force_all_finite and a.dtype.kind == "f" and not np.isfinite(a).all():
        raise ValueError("Input contains NaN or infinity")
    return a


def check_X_y(X, y, **k):
    X = check_array(X, **{a: b for a, b in k.items() if a in ("dtype", "ensure_2d", "allow_nd")})
    y = column_or_1d(y)
    check_consistent_length(X, y)
    return X, y
