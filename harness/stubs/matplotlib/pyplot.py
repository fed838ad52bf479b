"""Recorder with the pyplot interface: every drawing call is appended to CALLS as (target, name, args, kwargs)."""
import numpy as np

CALLS = []


class Recorder:
    def __init__(self, label):
        object.__setattr__(self, "_label", label)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def f(*a, **k):
            CALLS.append((self._label, name, a, k))
            if name in ("add_axes", "add_subplot", "gca"):
                return Recorder(self._label + ".ax")
            return Recorder(self._label + "." + name)
        return f

    def __iter__(self):
        return iter(())


def figure(*a, **k):
    CALLS.append(("plt", "figure", a, k))
    return Recorder("fig")


def subplots(nrows=1, ncols=1, *, squeeze=True, **k):
    CALLS.append(("plt", "subplots", (nrows, ncols), k))
    ax = np.empty((nrows, ncols), dtype=object)
    for i in range(nrows):
        for j in range(ncols):
            ax[i, j] = Recorder("ax%d,%d" % (i, j))
    if squeeze:
        if nrows == 1 and ncols == 1:
            return Recorder("fig"), ax[0, 0]
        if nrows == 1 or ncols == 1:
            return Recorder("fig"), ax.ravel()
    return Recorder("fig"), ax


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)

    def f(*a, **k):
        CALLS.append(("plt", name, a, k))
        return Recorder("plt." + name)
    return f
