import numpy as np


def unique_labels(*ys):
    return np.unique(np.concatenate([np.asarray(y) for y in ys]))


def check_classification_targets(y):
    pass


def type_of_target(y):
    y = np.asarray(y)
    return "binary" if np.unique(y).shape[0] <= 2 else "multiclass"
