"""Surrogate spectral estimate: an integer-valued function of the series, n//2+1 values (the length scipy returns).

P(x)[k] = offset(window) + sum_j x_j * ((j*k + 1) mod 5).  What is checked is to which series it is applied, with which
options, and where the result goes; the numeric content of scipy's periodogram is scipy's business."""
import numpy as np

WINDOWS = ["boxcar", "triang", "blackman", "hamming", "hann", "bartlett", "flattop", "parzen", "bohman",
           "blackmanharris", "nuttall", "barthann", "cosine", "exponential", "tukey", "taylor"]
CALLS = []


def periodogram(x, fs=1.0, window="boxcar", nfft=None, detrend="constant", return_onesided=True, scaling="density",
                axis=-1):
    x = np.asarray(x, dtype=float)
    if axis not in (-1, x.ndim - 1):
        raise NotImplementedError
    if x.ndim > 1:
        r = [periodogram(r_, fs, window, nfft, detrend, return_onesided, scaling)[1] for r_ in x]
        return np.arange(x.shape[-1] // 2 + 1) / x.shape[-1], np.asarray(r)
    n = x.shape[0]
    if n == 0:
        return np.empty(0), np.empty(0)
    w = WINDOWS.index(str(window)) if str(window) in WINDOWS else None
    if w is None:
        raise ValueError("Unknown window type.")
    if detrend == "constant":
        x = x - x.mean()
    CALLS.append(str(window))
    j = np.arange(n)
    out = np.asarray([w + float((x * ((j * k + 1) % 5)).sum()) for k in range(n // 2 + 1)])
    return np.arange(n // 2 + 1) / n, out
