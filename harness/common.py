"""Shared by the drivers, which run the code of /repo under PyPy on the stand-ins of harness/stubs.

Trace conventions: series hold multiples of 1/4 and are logged as integers in units of 1/4, so that raw distances are
exact; z-normalised values are logged in fixed point with scale K.
"""
import math
import random
import signal
import sys
import warnings
from fractions import Fraction

K = 5000
Q = 4
BAD = -1000000007          # stands for a number that cannot be logged exactly
LIM = 2 ** 30

HERE = __file__.rsplit("/", 1)[0]


def setup():
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE + "/stubs")
    sys.path.insert(0, "/repo")
    warnings.simplefilter("ignore")


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def limited(f, seconds=20):
    """Run f(); -> ('ok', value) | ('raise', exception type name, text) | ('timeout',)"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return ("ok", f())
    except Timeout:
        return ("timeout", "timeout", "")
    except Exception as e:  # noqa: BLE001
        kinds = [c.__name__ for c in type(e).__mro__]
        name = "ValueError" if "ValueError" in kinds else ("TypeError" if "TypeError" in kinds else kinds[0])
        return ("raise", name, str(e)[:200])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def clip(n):
    return max(-LIM, min(LIM, int(n)))


def exact(x, unit=Q):
    """x as an integer number of 1/unit, or BAD."""
    x = float(x)
    if not math.isfinite(x):
        return BAD
    y = x * unit
    if y != int(y) or abs(y) > LIM:
        return BAD
    return int(y)


def fixed(x, k=K):
    x = float(x)
    if not math.isfinite(x) or abs(x) * k > LIM:
        return BAD
    return int(round(x * k))


def floor_to(x, unit):
    x = float(x)
    if math.isnan(x):
        return BAD
    if math.isinf(x):
        return LIM if x > 0 else -LIM
    return clip(math.floor(Fraction(x) * unit))


# ------------------------------------------------------------------ data
def rnd_series(rng, n, style=None):
    style = style or rng.choice(["small", "wide", "walk", "runs", "neg", "const", "distinct"])
    if style == "small":
        return [rng.randint(0, 3) * 4 for _ in range(n)]
    if style == "wide":
        return [rng.randint(-400, 400) for _ in range(n)]
    if style == "walk":
        v, out = rng.randint(-40, 40), []
        for _ in range(n):
            v += rng.randint(-9, 9)
            out.append(v)
        return out
    if style == "runs":
        out = []
        while len(out) < n:
            out += [rng.randint(-5, 5) * 4] * rng.randint(1, 6)
        return out[:n]
    if style == "neg":
        return [-rng.randint(1, 300) for _ in range(n)]
    if style == "const":
        return [rng.choice([0, 8, -12])] * n
    if style == "distinct":
        return rng.sample(range(-600, 600), n) if n <= 1200 else [rng.randint(-600, 600) for _ in range(n)]
    raise ValueError(style)


def rnd_data(rng, n, ch, lens, style=None):
    """n series of ch channels, lens: list of lengths or one length -> list of list of list of ints"""
    if isinstance(lens, int):
        lens = [lens] * n
    return [[rnd_series(rng, lens[i], style) for _ in range(ch)] for i in range(n)]


def to_real(data, variable, q=Q):
    """Logged integers -> what the estimator is given."""
    import numpy as np
    arrs = [np.array(s, dtype=float) / q for s in data]
    if variable:
        return arrs
    return np.array(arrs)


def kind_name(ch, variable):
    return ("multivariate" if ch > 1 else "univariate") + ("_variable" if variable else "")


def shapelets(est, n_ch, q=Q):
    """The fitted shapelets as trace records."""
    s = est.shapelets_
    out = []
    if len(s) == 5:
        values, lengths, dilations, th, norm = s
        for i in range(len(lengths)):
            v = [values[i, :lengths[i]]]
            out.append(record(v, lengths[i], dilations[i], th[i], norm[i], [0], q))
    else:
        values, lengths, dilations, th, norm, n_chs, ids = s
        a = b = 0
        for i in range(len(lengths)):
            l, c = int(lengths[i]), int(n_chs[i])
            v = [values[a + k * l: a + (k + 1) * l] for k in range(c)]
            out.append(record(v, l, dilations[i], th[i], norm[i], [int(z) for z in ids[b:b + c]], q))
            a += l * c
            b += c
        if a != len(values) or b != len(ids):
            raise RuntimeError("shapelets_ has values that belong to no shapelet")
    return out


def record(v, l, d, th, nm, ch, q=Q):
    nm = bool(nm)
    u = K if nm else q
    f = (lambda x: fixed(x)) if nm else (lambda x: exact(x, q))
    return {"l": int(l), "d": int(d), "nm": nm, "ch": [c + 1 for c in ch], "v": [[f(x) for x in row] for row in v],
            "th": floor_to(th, u)}


def features(M, shp, n_rows, q=Q):
    """The transform matrix as rows of <<min, argmin, count>> triples, one per shapelet."""
    if getattr(M, "shape", None) != (n_rows, 3 * len(shp)):
        return []
    return [[[fixed(M[i, 3 * s]) if shp[s]["nm"] else exact(M[i, 3 * s], q), exact(M[i, 3 * s + 1], 1), exact(M[i, 3 * s + 2], 1)]
             for s in range(len(shp))] for i in range(n_rows)]


def same(a, b):
    import numpy as np
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b))


def rng_for(seed, *what):
    return random.Random("%s/%s" % (seed, "/".join(map(str, what))))


SCALES = [(Q, 0)] * 6 + [(Q * 2 ** 6, 0), (Q * 2 ** 8, 0), (Q, 2 ** 26), (Q, -2 ** 26)]


def shifted(data, by):
    return [[[a + by for a in s] for s in x] for x in data] if by else data


# ------------------------------------------------------------------ outcomes as opaque values
def digest(*arrays):
    """A short name for the numbers in arrays (rounded to 7 decimals)."""
    import hashlib
    import numpy as np
    h = hashlib.sha1()
    for a in arrays:
        a = np.asarray(a)
        if a.dtype.kind in "fc":
            a = np.round(a.astype(np.float64), 7) + 0.0
        elif a.dtype.kind in "iub":
            a = a.astype(np.float64)
        else:
            a = np.array([str(v) for v in a.ravel()], dtype="U40")
        h.update(str(a.shape).encode())
        h.update(np.ascontiguousarray(a).tobytes())
    return h.hexdigest()[:12]


def data_digest(X):
    return digest(*[x for x in X]) if isinstance(X, list) or X.dtype == object else digest(X)


def params_digest(est, drop=("transform_type",)):
    def show(v):
        if hasattr(v, "get_params"):
            return type(v).__name__ + repr(sorted((k, show(w)) for k, w in v.get_params(deep=False).items()))
        if isinstance(v, (list, tuple)):
            return type(v).__name__ + repr([show(w) for w in v])
        if hasattr(v, "tolist"):
            return "array" + repr(v.tolist())
        return repr(v)
    import hashlib
    p = est.get_params(deep=False)
    return hashlib.sha1(repr(sorted((k, show(v)) for k, v in p.items() if k not in drop)).encode()).hexdigest()[:12]


def outcome(f, seconds=30):
    r = limited(f, seconds)
    return r[1] if r[0] == "ok" else r[1]


def ltypes(lens):
    return [int(x) for x in lens]
