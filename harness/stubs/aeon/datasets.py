"""Stand-in for aeon.datasets: serves data sets registered by the harness."""
import copy

REGISTRY = {}
CALLS = []


def load_classification(name, split=None, extract_path=None, return_metadata=True, **k):
    CALLS.append((name, split))
    if name not in REGISTRY:
        raise ValueError("dataset %s is not available" % name)
    d = REGISTRY[name]
    if split is None:
        X, y = d["train"][0], d["train"][1]
    else:
        X, y = d[split.lower()]
    X, y = copy.deepcopy(X), copy.deepcopy(y)
    return (X, y, {}) if return_metadata else (X, y)
