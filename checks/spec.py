"""reference definitions shared by the checks, written over terms (or numbers)"""
import math

import numpy as np

from symx import ops
from symx import term as tm


def rfft(x, n=None):
    """rfft of a row (numbers/terms/complex) straight from the definition"""
    N = len(x)
    out = []
    if N >= 24:
        ang = [[2 * math.pi * ((k * t) % N) / N for t in range(N)] for k in range(N // 2 + 1)]
        re = tm.linmap([[math.cos(w) for w in r] for r in ang], x)
        im = tm.linmap([[-math.sin(w) for w in r] for r in ang], x)
        return list(zip(re, im))
    for k in range(N // 2 + 1):
        re, im = [], []
        for t in range(N):
            w = 2 * math.pi * ((k * t) % N) / N
            re.append((math.cos(w), x[t]))
            im.append((-math.sin(w), x[t]))
        out.append((tm.lincomb(re), tm.lincomb(im)))
    return out


def irfft(X, N):
    """inverse of rfft for (re, im) pairs, 1/N scaling"""
    out = []
    for t in range(N):
        pr = [(1.0 / N, X[0][0])]
        for k in range(1, N // 2 + 1):
            w = 2 * math.pi * ((k * t) % N) / N
            f = 1.0 if 2 * k == N else 2.0
            if 2 * k == N:
                pr.append((math.cos(w) / N, X[k][0]))
            else:
                pr.append((f * math.cos(w) / N, X[k][0]))
                pr.append((-f * math.sin(w) / N, X[k][1]))
        out.append(tm.lincomb(pr))
    return out


def abs2(z):
    return tm.add(tm.mul(z[0], z[0]), tm.mul(z[1], z[1]))


def conjmul(a, b):
    """conj(a) * b"""
    re = tm.add(tm.mul(a[0], b[0]), tm.mul(a[1], b[1]))
    im = tm.sub(tm.mul(a[0], b[1]), tm.mul(a[1], b[0]))
    return re, im


def mean(x):
    return tm.lincomb([(1.0 / len(x), v) for v in x])


def demean(x):
    m = mean(x)
    return [tm.sub(v, m) for v in x]


def hann(n):
    return [0.5 - 0.5 * math.cos(2 * math.pi * i / n) for i in range(n)]


def interp_linear(row, m):
    """linear interpolation to m points (half-pixel centres)"""
    n = len(row)
    if n == m:
        return list(row)
    out = []
    for i in range(m):
        p = max((i + 0.5) * n / m - 0.5, 0.0)
        a = min(int(p), n - 1)
        b = min(a + 1, n - 1)
        f = p - a
        out.append(tm.add(tm.mul(1 - f, row[a]), tm.mul(f, row[b])))
    return out


def interp_nearest(row, m):
    n = len(row)
    return [row[min(int(i * n / m), n - 1)] for i in range(m)]


def median_bias(n):
    return 1 + sum(1 / (2 * i + 1) - 1 / (2 * i) for i in range(1, (n - 1) // 2 + 1))


def median(vals):
    s = ops.sort_vals(list(vals))
    n = len(s)
    return s[n // 2] if n % 2 else tm.mul(0.5, tm.add(s[n // 2 - 1], s[n // 2]))


def total(vals):
    return tm.lincomb([(1, v) for v in vals])


def rows(a):
    """iterate over the leading index of an object array: (index, last-axis row)"""
    for ix in np.ndindex(*a.shape[:-1]):
        yield ix, list(a[ix])
