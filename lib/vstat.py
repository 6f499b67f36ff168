"""Statistical acceptance at fixed, very small false-alarm levels."""
import math


def ks(u):
    """Kolmogorov-Smirnov statistic sqrt(n)*D of u against U(0,1)"""
    u = sorted(u)
    n = len(u)
    d = 0.0
    for i, x in enumerate(u):
        d = max(d, (i + 1) / n - x, x - i / n)
    return math.sqrt(n) * d


KS_LIMIT = 3.6           # P(exceed) <= 2 exp(-2 * 3.6^2) ~ 1.1e-11


def binom_bad(k, n, p, z=7.0):
    """k successes out of n improbable for Binomial(n, p)"""
    sd = math.sqrt(n * p * (1 - p))
    return abs(k - n * p) > z * sd + 3


def lag_bad(x, z=7.5):
    """some lag-1/2/3 auto-correlation improbable for independent values"""
    n = len(x)
    m = sum(x) / n
    v = sum((a - m) ** 2 for a in x) / n
    if v == 0:
        return None
    for lag in (1, 2, 3):
        c = sum((x[i] - m) * (x[i + lag] - m) for i in range(n - lag)) / (n - lag) / v
        if abs(c) > z / math.sqrt(n):
            return lag, c
    return None


def tri_cdf(x):
    """sum of two U(-1/2, 1/2)"""
    if x <= -1:
        return 0.0
    if x >= 1:
        return 1.0
    return 0.5 * (1 + x) ** 2 if x < 0 else 1 - 0.5 * (1 - x) ** 2


def usum_cdf(x, w):
    """distribution function of the sum of independent centred uniforms of widths w"""
    k = len(w)
    half = sum(w) / 2
    if x <= -half:
        return 0.0
    if x >= half:
        return 1.0
    if x > 0:
        return 1.0 - usum_cdf(-x, w)
    tot = 0.0
    for s in range(1 << k):
        y, sg = x, 1
        for i in range(k):
            if s >> i & 1:
                y -= w[i] / 2
                sg = -sg
            else:
                y += w[i] / 2
        if y > 0:
            tot += sg * y ** k
    d = math.factorial(k)
    for v in w:
        d *= v
    return min(max(tot / d, 0.0), 1.0)
