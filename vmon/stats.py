"""Aggregated statistical monitors with wide margins (false alarm probability below 1e-7 per monitor)."""
import numpy as np
from scipy import stats

Z = 6.0


def binom_z(pairs):
    """pairs: iterable of (number of trials, probability, successes) -> (z, trials)."""
    n = e = v = s = 0.0
    for k, p, a in pairs:
        n, e, v, s = n + k, e + k * p, v + k * p * (1 - p), s + a
    return ((s - e) / np.sqrt(v) if v > 0 else (0.0 if abs(s - e) < 1e-9 else np.inf)), n


def ks(samples, cdf):
    """Kolmogorov-Smirnov p value."""
    return stats.kstest(np.asarray(samples, dtype=float), cdf).pvalue


def mean_z(samples, mu, var):
    x = np.asarray(samples, dtype=float)
    return (x.mean() - mu) / np.sqrt(var / len(x))
