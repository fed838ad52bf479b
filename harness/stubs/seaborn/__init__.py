from matplotlib.pyplot import CALLS as _CALLS, Recorder as _R


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)

    def f(*a, **k):
        _CALLS.append(("sns", name, a, k))
        return _R("sns." + name)
    return f
