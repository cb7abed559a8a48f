"""Welch / median spectral densities from their definition."""
import math

import numpy as np
import torch

from checks import spec
from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"


def window(kind, n):
    if kind == "hann":
        return spec.hann(n)
    if kind == "flat":
        return [1.0] * n
    # no symmetry at all
    return [0.3 + ((7 * i + 3) % 11) / 10 for i in range(n)]


def segments(row, nperseg, nstride):
    k = (len(row) - nperseg) // nstride + 1
    return [row[i * nstride : i * nstride + nperseg] for i in range(k)]


def onesided(k, n):
    return 1.0 if k == 0 or 2 * k == n else 2.0


def combine(vals, average):
    if average == "mean":
        return spec.mean(vals)
    return tm.mul(1.0 / spec.median_bias(len(vals)), spec.median(vals))


def welch(row, w, nperseg, nstride, scale, average, local):
    """power in every bin; local: detrend each segment, else the whole series"""
    if not local:
        row = spec.demean(row)
    P = []
    for s in segments(row, nperseg, nstride):
        if local:
            s = spec.demean(s)
        F = spec.rfft([tm.mul(a, b) for a, b in zip(w, s)])
        P.append([tm.mul(scale * onesided(k, nperseg), spec.abs2(z)) for k, z in enumerate(F)])
    return [combine([p[k] for p in P], average) for k in range(nperseg // 2 + 1)]


def cross(rx, ry, w, nperseg, nstride, scale, average):
    rx, ry = spec.demean(rx), spec.demean(ry)
    P = []
    for s, t in zip(segments(rx, nperseg, nstride), segments(ry, nperseg, nstride)):
        F = spec.rfft([tm.mul(a, b) for a, b in zip(w, s)])
        H = spec.rfft([tm.mul(a, b) for a, b in zip(w, t)])
        P.append([tuple(tm.mul(scale * onesided(k, nperseg), v) for v in spec.conjmul(a, b)) for k, (a, b) in enumerate(zip(F, H))])
    return [tuple(combine([p[k][j] for p in P], average) for j in (0, 1)) for k in range(nperseg // 2 + 1)]


PATTERN = {1: [0], 2: [1, -1], 4: [3, -1, -4, 2], 5: [2, -3, 1, 4, -4]}


def pattern(t, c, n):
    """a fixed irregular pattern: exact numbers summing to zero over each block"""
    b = t // n
    return PATTERN[n][(t * (1 if (b + c) % 2 else 3) + b + c) % n] * (0.25 + 0.125 * ((b * 3 + c) % 4))


def amplitudes(ctx, name, shape, nperseg, nstride, free):
    """a series: every sample symbolic (free) or, to keep the order statistics
    of a median decidable, one symbolic amplitude per segment-sized block times
    a fixed pattern (every relative order of the segments occurs)"""
    if free:
        return ctx.real(name, shape)
    T = shape[-1]
    nb = -(-T // nstride)
    a = ctx.vals(ctx.real(name, tuple(shape[:-1]) + (nb,), 0.1, 2))
    out = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        out[ix] = tm.mul(pattern(ix[-1], sum(ix[:-1]), nstride), a[ix[:-1] + (ix[-1] // nstride,)])
    return ctx.tensor_of(out)


def psd(ctx, shape, nperseg, nstride, win, average, fast=False, free=True):
    from ml4gw.spectral import fast_spectral_density, spectral_density

    x = amplitudes(ctx, "x", shape, nperseg, nstride, free)
    X = ctx.vals(x).copy()
    w = window(win, nperseg)
    scale = 0.37
    f = fast_spectral_density if fast else spectral_density
    o = f(x, nperseg=nperseg, nstride=nstride, window=torch.tensor(w), scale=scale, average=average)
    ctx.check("shape", tuple(o.shape) == tuple(shape[:-1]) + (nperseg // 2 + 1,))
    O = ctx.vals(o)
    ctx.close("input untouched", x, X, tol=0)
    for ix, row in spec.rows(X):
        ref = welch(row, w, nperseg, nstride, scale, average, not fast)
        for k, r in enumerate(ref):
            if fast and k < 2:
                continue  # not claimed
            ctx.close(f"bin {k} of {ix}", O[ix + (k,)], r)


def agree(ctx, T, nperseg, nstride, average, free=True):
    """fast and exact variants agree above bin one under the default window"""
    from ml4gw.spectral import fast_spectral_density, spectral_density

    x = amplitudes(ctx, "x", (T,), nperseg, nstride, free)
    w = torch.hann_window(nperseg)
    kw = dict(nperseg=nperseg, nstride=nstride, window=w, scale=0.5, average=average)
    a = ctx.vals(fast_spectral_density(x, **kw))
    b = ctx.vals(spectral_density(x, **kw))
    for k in range(2, nperseg // 2 + 1):
        ctx.close(f"bin {k}", a[k], b[k])


def scaling(ctx, T, nperseg, nstride, average, fast):
    from ml4gw.spectral import fast_spectral_density, spectral_density

    x = amplitudes(ctx, "x", (2, T), nperseg, nstride, average == "mean")
    f = fast_spectral_density if fast else spectral_density
    kw = dict(nperseg=nperseg, nstride=nstride, window=torch.hann_window(nperseg), scale=0.5, average=average)
    a, b, c = (ctx.vals(f(s * x, **kw)) for s in (1, 2, -1))
    for ix in np.ndindex(*a.shape):
        ctx.close(f"doubling {ix}", b[ix], tm.mul(4, a[ix]))
        ctx.close(f"sign {ix}", c[ix], a[ix])


def csd(ctx, xs, ys, nperseg, nstride, win, average, free=True):
    from ml4gw.spectral import fast_spectral_density

    x = amplitudes(ctx, "x", xs, nperseg, nstride, free)
    y = amplitudes(ctx, "y", ys, nperseg, nstride, free)
    X, Y = ctx.vals(x).copy(), ctx.vals(y).copy()
    w = window(win, nperseg)
    o = fast_spectral_density(x, nperseg=nperseg, nstride=nstride, window=torch.tensor(w), scale=0.37, average=average, y=y)
    ctx.check("shape", tuple(o.shape) == tuple(xs[:-1]) + (nperseg // 2 + 1,))
    O = ctx.vals(o)
    ctx.close("x untouched", x, X, tol=0)
    ctx.close("y untouched", y, Y, tol=0)
    for ix, row in spec.rows(X):
        if len(ys) == len(xs):
            other = Y[ix]
        elif len(xs) == 2:
            other = Y
        else:
            other = Y[ix[0]]
        ref = cross(row, list(other), w, nperseg, nstride, 0.37, average)
        for k in range(2, len(ref)):
            v = O[ix + (k,)]
            re, im = tm.re_im(v)
            ctx.close(f"bin {k} of {ix}.re", re, ref[k][0])
            ctx.close(f"bin {k} of {ix}.im", im, ref[k][1])


def module(ctx, shape, sr, fftlength, overlap, average, fast, win=None):
    from ml4gw.transforms import SpectralDensity

    n = int(fftlength * sr)
    st = n - int((fftlength / 2 if overlap is None else overlap) * sr)
    w = window(win, n) if win else spec.hann(n)
    t = SpectralDensity(sr, fftlength, overlap=overlap, average=average, window=torch.tensor(w) if win else None, fast=fast)
    x = amplitudes(ctx, "x", shape, n, st, average == "mean")
    X = ctx.vals(x).copy()
    o = ctx.vals(t(x))
    scale = 1 / (sr * sum(v * v for v in w))
    for ix, row in spec.rows(X):
        ref = welch(row, w, n, st, scale, average, not fast)
        for k in range(2 if fast else 0, len(ref)):
            ctx.close(f"bin {k} of {ix}", o[ix + (k,)], ref[k])


def median_fn(ctx, n):
    from ml4gw.spectral import median

    x = ctx.real("x", (2, n))
    X = ctx.vals(x).copy()
    o = ctx.vals(median(x, -1))
    b = spec.median_bias(n)
    for i in range(2):
        ctx.close(f"median {i}", o[i], tm.mul(1 / b, spec.median(X[i])))


def rejects(ctx, case):
    from ml4gw.spectral import fast_spectral_density as f
    from ml4gw.spectral import spectral_density as s
    from ml4gw.transforms import SpectralDensity

    g = lambda *sh: ctx.real("x" + str(len(sh)), sh)  # noqa
    w = torch.hann_window(4)
    kw = dict(nperseg=4, nstride=2, window=w, scale=1.0)
    exc = ValueError
    fn = {
        "short": lambda: s(g(3), **kw),
        "short fast": lambda: f(g(2, 3), **kw),
        "4d": lambda: s(g(1, 1, 1, 8), **kw),
        "time": lambda: f(g(8), y=ctx.real("y", (6,)), **kw),
        "1d-2d": lambda: f(g(8), y=ctx.real("y", (2, 8)), **kw),
        "channels": lambda: f(g(2, 8), y=ctx.real("y", (3, 8)), **kw),
        "batch": lambda: f(g(2, 3, 8), y=ctx.real("y", (3, 8)), **kw),
        "3d-1d": lambda: f(g(2, 3, 8), y=ctx.real("y", (8,)), **kw),
        "overlap": lambda: SpectralDensity(8, 0.5, overlap=0.5),
        "window": lambda: SpectralDensity(8, 0.5, window=torch.ones(5)),
        "average": lambda: SpectralDensity(8, 0.5, average="max"),
    }
    if case == "slow cross":
        exc = NotImplementedError
        fn[case] = lambda: SpectralDensity(8, 0.5)(g(8), ctx.real("y", (8,)))
    ctx.expect_raises(case, exc, fn[case])


_geo = [(4, 2), (4, 4), (4, 3), (5, 2), (6, 3), (5, 5), (4, 1)]
HARNESSES = [
    Harness("psd mean", psd, [dict(shape=s, nperseg=n, nstride=k, win=w, average="mean") for s in ((9,), (2, 8), (2, 2, 7)) for n, k in _geo for w in ("hann", "odd")]),
    Harness("fast mean", psd, [dict(shape=s, nperseg=n, nstride=k, win=w, average="mean", fast=True) for s in ((9,), (2, 8), (2, 2, 7)) for n, k in _geo for w in ("hann", "odd")]),
    Harness("psd median", psd, [dict(shape=s, nperseg=n, nstride=k, win=w, average="median", free=False, fast=f) for s, n, k in (((12,), 4, 4), ((16,), 4, 4), ((2, 8), 4, 4), ((2, 2, 8), 4, 4), ((10,), 5, 5), ((15,), 5, 5)) for w in ("hann", "odd") for f in (False, True)]),
    Harness("median overlapping", psd, [dict(shape=(8,), nperseg=4, nstride=2, win=w, average="median", fast=f, free=False) for w in ("hann", "odd") for f in (False, True)]),
    Harness("median", median_fn, [dict(n=n) for n in (1, 2, 3, 4, 5, 6)]),
    Harness("variants agree", agree, [dict(T=t, nperseg=n, nstride=k, average="mean") for t, n, k in ((12, 6, 3), (12, 8, 2), (10, 5, 2), (12, 7, 3))]
            + [dict(T=12, nperseg=4, nstride=4, average="median", free=False)]),
    Harness("scaling", scaling, [dict(T=12, nperseg=4, nstride=k, average=a, fast=f) for a, k in (("mean", 2), ("median", 4)) for f in (False, True)]),
    Harness("csd mean", csd, [dict(xs=a, ys=b, nperseg=n, nstride=k, win=w, average="mean") for a, b in (((8,), (8,)), ((2, 8), (2, 8)), ((2, 8), (8,)), ((2, 2, 7), (2, 2, 7)), ((2, 3, 7), (2, 7)), ((3, 2, 7), (3, 7)), ((2, 1, 7), (2, 7))) for n, k in ((4, 2), (5, 2), (4, 3)) for w in ("hann", "odd")]),
    Harness("csd median", csd, [dict(xs=a, ys=b, nperseg=4, nstride=4, win="odd", average="median", free=False) for a, b in (((12,), (12,)), ((2, 8), (8,)), ((2, 8), (2, 8)), ((2, 2, 8), (2, 8)), ((2, 2, 8), (2, 2, 8)))]),
    Harness("module", module, [dict(shape=s, sr=8, fftlength=l, overlap=o, average=a, fast=f, win=w) for s in ((12,), (2, 8)) for l, o, w in ((0.5, None, None), (0.5, 0.0, None), (0.5, 0.25, "odd"), (0.75, 0.125, None)) for a in ("mean",) for f in (False, True)]
            + [dict(shape=(12,), sr=8, fftlength=0.5, overlap=0.0, average="median", fast=f) for f in (False, True)]),
    Harness("rejects", rejects, [dict(case=c) for c in ("short", "short fast", "4d", "time", "1d-2d", "channels", "batch", "3d-1d", "overlap", "window", "average", "slow cross")]),
]
META = {
    "bounds": "1-3 dimensional series of up to 16 samples (2 batch elements, 2-3 channels), segments of 4-8 samples, listed strides, Hann and asymmetric windows, every sample symbolic for mean averages; medians over up to 4 segments with one symbolic amplitude per stride-sized block",
    "outside": "longer series and segments; single-precision rounding",
}
