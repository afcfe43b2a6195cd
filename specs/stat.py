# Reference definitions: resistant averages and probabilities
import math


def winsorised(x):
    n = len(x)
    s = sorted(x)
    k = 0
    if n >= 4:
        k = n // 4
    t = 0.0
    for i in range(0, n):
        if i < k:
            t = t + s[k]
        elif i >= n - k:
            t = t + s[n - 1 - k]
        else:
            t = t + s[i]
    return t / n


def trimmed(x, trim):
    n = len(x)
    k = 0
    if trim != 0:
        k = n // trim
    s = sorted(x)
    t = 0.0
    for i in range(k, n - k):
        t = t + s[i]
    return t / (n - 2 * k)


def cdf_part(v, mu, sigma):
    return math.erf((v - mu) / (sigma * math.sqrt(2)))


def good(x, q, hi, lo, mu, sigma):
    if not (q > 0 and sigma > 0 and hi > lo and x >= lo and x <= hi):
        raise ValueError('input')
    num = cdf_part(x + 0.5 * q, mu, sigma) - cdf_part(x - 0.5 * q, mu, sigma)
    den = cdf_part(hi + 0.5 * q, mu, sigma) - cdf_part(lo - 0.5 * q, mu, sigma)
    return num / den


def gross(q, hi, lo):
    if not (hi > lo and q > 0):
        raise ValueError('input')
    return q / (q + hi - lo)


def posterior(p0, q, hi, lo, x, mu, sigma):
    if not (p0 >= 0 and p0 <= 1 and q > 0 and hi > lo and x >= lo and x <= hi and sigma > 0):
        raise ValueError('input')
    a = p0 * gross(q, hi, lo)
    b = (1 - p0) * good(x, q, hi, lo, mu, sigma)
    p = a / (a + b)
    if p < 0 or p > 1:
        raise Unspecified()
    return p


def missing_mean(x):
    t = 0.0
    n = 0
    for v in x:
        if v is not None:
            t = t + v
            n = n + 1
    if n == 0:
        return None
    return t / n
