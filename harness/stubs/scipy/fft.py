"""Surrogates for the fast Hankel transform (see scipy/signal.py): an injective function of the series and of every option."""
import numpy as np


def fhtoffset(dln, mu, initial=0.0, bias=0.0):
    return 16 * dln + 4 * mu + 64 * initial + bias / 4


def fht(a, dln, mu, offset=0.0, bias=0.0):
    a = np.asarray(a, dtype=float)
    return np.cumsum(a, axis=-1) * 8 + a[..., :1] + mu + 32 * offset + dln / 2 + 256 * bias


rfft = np.fft.rfft
fft = np.fft.fft
