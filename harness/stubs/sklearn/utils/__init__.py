import numpy as np

from .validation import (check_random_state, check_consistent_length, check_array, check_X_y,  # noqa: F401
                         column_or_1d)


class Bunch(dict):
    __getattr__ = dict.__getitem__
    __setattr__ = dict.__setitem__


def _approximate_mode(class_counts, n_draws, rng):
    rng = check_random_state(rng)
    continuous = class_counts / class_counts.sum() * n_draws
    floored = np.floor(continuous)
    need_to_add = int(n_draws - floored.sum())
    if need_to_add > 0:
        remainder = continuous - floored
        for value in np.sort(np.unique(remainder))[::-1]:
            (inds,) = np.where(remainder == value)
            add_now = min(len(inds), need_to_add)
            inds = rng.choice(inds, size=add_now, replace=False)
            floored[inds] += 1
            need_to_add -= add_now
            if need_to_add == 0:
                break
    return floored.astype(int)


def _safe_indexing(X, indices):
    if hasattr(X, "iloc"):
        return X.iloc[indices]
    if hasattr(X, "shape"):
        return X[indices]
    return [X[i] for i in indices]


def resample(*arrays, replace=True, n_samples=None, random_state=None, stratify=None):
    max_n = n_samples
    random_state = check_random_state(random_state)
    if len(arrays) == 0:
        return None
    first = arrays[0]
    n = first.shape[0] if hasattr(first, "shape") else len(first)
    if max_n is None:
        max_n = n
    elif max_n > n and not replace:
        raise ValueError("Cannot sample %d out of arrays with dim %d when replace is False" % (max_n, n))
    check_consistent_length(*arrays)
    if stratify is None:
        if replace:
            indices = random_state.randint(0, n, size=(max_n,))
        else:
            indices = np.arange(n)
            random_state.shuffle(indices)
            indices = indices[:max_n]
    else:
        y = np.asarray(stratify)
        if y.shape[0] != n:
            raise ValueError("inconsistent stratify")
        classes, y_indices = np.unique(y, return_inverse=True)
        counts = np.bincount(y_indices)
        class_indices = np.split(np.argsort(y_indices, kind="mergesort"), np.cumsum(counts)[:-1])
        n_i = _approximate_mode(counts, max_n, random_state)
        indices = []
        for i in range(classes.shape[0]):
            indices.extend(random_state.choice(class_indices[i], n_i[i], replace=replace))
        indices = random_state.permutation(indices).astype(int)
    out = [_safe_indexing(a, indices) for a in arrays]
    return out[0] if len(out) == 1 else out


def shuffle(*arrays, random_state=None, n_samples=None):
    return resample(*arrays, replace=False, n_samples=n_samples, random_state=random_state)
