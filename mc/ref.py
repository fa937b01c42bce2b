"""Boring reference mathematics, written without the implementation's helpers."""

from __future__ import annotations

import math

INF = float('inf')
NAN = float('nan')


def isnan(x) -> bool:
    return x is None or (isinstance(x, float) and math.isnan(x))


def phi(z: float) -> float:
    """Standard normal CDF."""
    if z == INF:
        return 1.0
    if z == -INF:
        return 0.0
    return 0.5 * math.erfc(-z / math.sqrt(2.0))


def phi_inv(p: float) -> float:
    """Standard normal quantile by bisection on :func:`phi`."""
    if p <= 0:
        return -INF
    if p >= 1:
        return INF
    if p > 0.5:
        return -_phi_inv_low(1.0 - p)
    return _phi_inv_low(p)


def _phi_inv_low(p: float) -> float:
    lo, hi = -40.0, 0.5
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if phi(mid) < p:
            lo = mid
        else:
            hi = mid
    return 0.5 * (lo + hi)


def base_cdf(dist: str, theta, x: float) -> float:
    """CDF of the untruncated distribution (textbook definitions)."""
    if dist in {'normal', 'normal_cov'}:
        return phi((x - theta[0]) / (abs(theta[0]) * theta[1]))
    if dist == 'normal_std':
        return phi((x - theta[0]) / theta[1])
    if dist == 'lognormal':
        if x <= 0:
            return 0.0
        if x == INF:
            return 1.0
        return phi((math.log(x) - math.log(theta[0])) / theta[1])
    if dist == 'uniform':
        a, b = theta[:2]
        return min(1.0, max(0.0, (x - a) / (b - a)))
    if dist == 'weibull':
        lam, k = theta[:2]
        if x <= 0:
            return 0.0
        if x == INF:
            return 1.0
        return 1.0 - math.exp(-((x / lam) ** k))
    if dist == 'multilinear_CDF':
        pts = theta
        if x <= pts[0][0]:
            return 0.0
        if x >= pts[-1][0]:
            return 1.0
        for (x0, y0), (x1, y1) in zip(pts, pts[1:]):
            if x0 <= x <= x1:
                return y0 + (y1 - y0) * (x - x0) / (x1 - x0)
    raise KeyError(dist)


def limits(tr):
    """(a, b) with missing limits replaced by infinities."""
    if tr is None:
        return -INF, INF
    a, b = tr
    return (-INF if isnan(a) else a), (INF if isnan(b) else b)


def cdf(dist: str, theta, tr, x: float) -> float:
    """CDF of the truncated distribution."""
    a, b = limits(tr)
    fa = base_cdf(dist, theta, a) if a != -INF else 0.0
    fb = base_cdf(dist, theta, b) if b != INF else 1.0
    x = min(max(x, a), b)
    fx = base_cdf(dist, theta, x) if abs(x) != INF else (1.0 if x > 0 else 0.0)
    return (fx - fa) / (fb - fa)


def quantile(dist: str, theta, tr, u: float) -> float:
    """Quantile by bisection on the truncated CDF."""
    a, b = limits(tr)
    if dist == 'uniform':
        a, b = max(a, theta[0]), min(b, theta[1])
    if dist in {'lognormal', 'weibull'}:
        a = max(a, 0.0)
    if dist == 'multilinear_CDF':
        a, b = theta[0][0], theta[-1][0]
    lo = a if a != -INF else -1.0
    hi = b if b != INF else 1.0
    if a == -INF:
        hi0 = hi
        lo = hi0 - 1.0
        while cdf(dist, theta, tr, lo) > u:
            lo = hi0 - (hi0 - lo) * 2
    if b == INF:
        hi = lo + 1.0
        while cdf(dist, theta, tr, hi) < u:
            hi = lo + (hi - lo) * 2
    for _ in range(300):
        mid = 0.5 * (lo + hi)
        if mid in (lo, hi):
            break
        if cdf(dist, theta, tr, mid) < u:
            lo = mid
        else:
            hi = mid
    return 0.5 * (lo + hi)


def empirical(values, u: float):
    """Generalised inverse of an equally weighted data set (given order)."""
    n = len(values)
    k = math.floor(u * n)
    return values[min(k, n - 1)]
