from .base import BaseEstimator


class Pipeline(BaseEstimator):
    def __init__(self, steps, *, memory=None, verbose=False):
        self.steps, self.memory, self.verbose = steps, memory, verbose

    @property
    def named_steps(self):
        return dict(self.steps)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return Pipeline(self.steps[i])
        if isinstance(i, str):
            return dict(self.steps)[i]
        return self.steps[i][1]

    def __len__(self):
        return len(self.steps)

    def _fit(self, X, y):
        for name, t in self.steps[:-1]:
            if t is None or t == "passthrough":
                continue
            X = t.fit_transform(X, y) if hasattr(t, "fit_transform") else t.fit(X, y).transform(X)
        return X

    def fit(self, X, y=None, **fit_params):
        Xt = self._fit(X, y)
        self.steps[-1][1].fit(Xt, y)
        return self

    def _trans(self, X):
        for name, t in self.steps[:-1]:
            if t is None or t == "passthrough":
                continue
            X = t.transform(X)
        return X

    def predict(self, X, **k):
        return self.steps[-1][1].predict(self._trans(X), **k)

    def predict_proba(self, X, **k):
        return self.steps[-1][1].predict_proba(self._trans(X), **k)

    def decision_function(self, X):
        return self.steps[-1][1].decision_function(self._trans(X))

    def transform(self, X):
        return self.steps[-1][1].transform(self._trans(X))

    def score(self, X, y=None):
        return self.steps[-1][1].score(self._trans(X), y)

    @property
    def classes_(self):
        return self.steps[-1][1].classes_

    def get_params(self, deep=True):
        out = {"steps": self.steps, "memory": self.memory, "verbose": self.verbose}
        if deep:
            for n, t in self.steps:
                out[n] = t
                if hasattr(t, "get_params"):
                    out.update((n + "__" + k, v) for k, v in t.get_params().items())
        return out


def make_pipeline(*steps, memory=None, verbose=False):
    names = [type(s).__name__.lower() if not isinstance(s, str) else s for s in steps]
    count = {n: names.count(n) for n in names}
    seen, out = {}, []
    for n, s in zip(names, steps):
        if count[n] > 1:
            seen[n] = seen.get(n, 0) + 1
            n = "%s-%d" % (n, seen[n])
        out.append((n, s))
    return Pipeline(out, memory=memory, verbose=verbose)


class FeatureUnion(BaseEstimator):
    pass
