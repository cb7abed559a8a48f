"""SNR integral and reweighting."""
import math

import numpy as np
import torch

from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"


def rdft2(x):
    """|rfft|^2 of a real row, straight from the definition"""
    n = len(x)
    out = []
    for k in range(n // 2 + 1):
        re = im = 0
        for t in range(n):
            w = 2 * math.pi * ((k * t) % n) / n
            re = tm.add(re, tm.mul(math.cos(w), x[t]))
            im = tm.add(im, tm.mul(math.sin(w), x[t]))
        out.append(tm.add(tm.mul(re, re), tm.mul(im, im)))
    return out


def interp(row, m):
    """linear interpolation to m points (half-pixel centres)"""
    n = len(row)
    if n == m:
        return list(row)
    out = []
    for i in range(m):
        p = max((i + 0.5) * n / m - 0.5, 0.0)
        a = min(int(p), n - 1)
        b = min(a + 1, n - 1)
        f = p - a
        out.append(tm.add(tm.mul(1 - f, row[a]), tm.mul(f, row[b])))
    return out


def snr2(x, psd, sr, lo=None, hi=None, mask=None):
    n = len(x)
    p = rdft2(x)
    S = interp(psd, len(p))
    r = 0
    for k in range(len(p)):
        f = k * sr / n
        if lo is not None and f < lo:
            continue
        if hi is not None and f >= hi:
            continue
        t = tm.mul(p[k], tm.power(S[k], -1))
        if mask is not None:
            t = tm.ite(mask[k], t, 0)
        r = tm.add(r, t)
    return tm.mul(4 * (sr / n) / sr**2, r)


def data(ctx, B, n, N, nf, dims):
    x = ctx.real("x", (B, n, N), -1, 1)
    shape = {1: (nf,), 2: (n, nf), 3: (B, n, nf)}[dims]
    p = ctx.real("psd", shape, 0.5, 2)
    P = np.broadcast_to(ctx.vals(p), (B, n, nf))
    return x, p, P


def ifo(ctx, B, n, N, nf, dims, sr, lo=None, hi=None, mask=False):
    from ml4gw.gw import compute_ifo_snr, compute_network_snr

    x, p, P = data(ctx, B, n, N, nf, dims)
    X = ctx.vals(x).copy()
    P0 = ctx.vals(p).copy()
    args = dict(highpass=lo, lowpass=hi)
    M = None
    if mask:
        a, b = ctx.bool("hp", (N // 2 + 1,)), ctx.bool("lp", (N // 2 + 1,))
        args = dict(highpass=a, lowpass=b)
        M = [tm.land(u, v) for u, v in zip(ctx.vals(a), ctx.vals(b))]
    out = ctx.vals(compute_ifo_snr(x, p, sr, **args))
    ctx.check("shape", out.shape == (B, n))
    S = np.empty((B, n), dtype=object)
    for b in range(B):
        for i in range(n):
            S[b, i] = snr2(X[b, i], P[b, i], sr, lo, hi, M)
            ctx.close(f"snr^2[{b},{i}]", tm.mul(out[b, i], out[b, i]), S[b, i], 1e-6, 0)
            ctx.check(f"snr>=0[{b},{i}]", tm.le(0, out[b, i]))
    net = ctx.vals(compute_network_snr(x, p, sr, **args))
    ctx.check("network shape", net.shape == (B,))
    for b in range(B):
        t = 0
        for i in range(n):
            t = tm.add(t, S[b, i])
        ctx.close(f"network^2[{b}]", tm.mul(net[b], net[b]), t)
    ctx.close("responses untouched", ctx.vals(x), X)
    ctx.close("psd untouched", ctx.vals(p), P0)


def linear(ctx, N, sr):
    """SNR scales with the absolute value of an amplitude factor"""
    from ml4gw.gw import compute_ifo_snr

    x, p, P = data(ctx, 1, 1, N, N // 2 + 1, 2)
    a = ctx.real("a", (), -2, 2)
    o = ctx.vals(compute_ifo_snr(x, p, sr))[0, 0]
    q = ctx.vals(compute_ifo_snr(x * a, p, sr))[0, 0]
    A = ctx.vals(a)[()]
    ctx.close("scaling", tm.mul(q, q), tm.mul(tm.mul(A, A), tm.mul(o, o)))


def reweight(ctx, B, n, N, nf, dims, sr, target, lo=None, hi=None):
    from ml4gw.gw import compute_network_snr, reweight_snrs

    x, p, P = data(ctx, B, n, N, nf, dims)
    X = ctx.vals(x).copy()
    t = ctx.real("target", (B,), 0.5, 20) if target == "tensor" else ctx.real("target", (), 0.5, 20)
    T = np.broadcast_to(ctx.vals(t), (B,))
    S = []
    for b in range(B):
        s = 0
        for i in range(n):
            s = tm.add(s, snr2(X[b, i], P[b, i], sr, lo, hi))
        ctx.assume(tm.le(1e-2, s))
        S.append(s)
    y = reweight_snrs(x, t, p, sr, lo, hi)
    Y = ctx.vals(y)
    ctx.check("shape", Y.shape == (B, n, N))
    # one positive factor per element, and the requested network SNR
    net = ctx.vals(compute_network_snr(y, p, sr, lo, hi))
    for b in range(B):
        s = 0
        for i in range(n):
            s = tm.add(s, snr2(Y[b, i], P[b, i], sr, lo, hi))
        ctx.close(f"network snr^2[{b}]", s, tm.mul(T[b], T[b]), 1e-5)
        ctx.close(f"self-consistent[{b}]", tm.mul(net[b], net[b]), tm.mul(T[b], T[b]), 1e-5)
        flat, fx = Y[b].reshape(-1), X[b].reshape(-1)
        for q in range(1, len(flat)):
            # proportional to the input, same factor everywhere
            ctx.close(f"proportional[{b},{q}]", tm.mul(flat[q], fx[0]), tm.mul(flat[0], fx[q]), 1e-6)
        for q in range(len(flat)):
            ctx.check(f"same sign[{b},{q}]", tm.lor(tm.le(0, tm.mul(flat[q], fx[q])), tm.le(-1e-9, tm.mul(flat[q], fx[q]))))


def badmask(ctx, which):
    from ml4gw.gw import compute_ifo_snr

    x, p, _ = data(ctx, 1, 1, 8, 5, 2)
    m = torch.ones(4, dtype=torch.bool)
    ctx.expect_raises("mask length", ValueError, lambda: compute_ifo_snr(x, p, 16, **{which: m}))


_i = [
    dict(B=2, n=2, N=8, nf=5, dims=2, sr=16),
    dict(B=2, n=2, N=8, nf=5, dims=3, sr=16),
    dict(B=2, n=1, N=7, nf=4, dims=1, sr=16),
    dict(B=1, n=2, N=8, nf=3, dims=2, sr=8),
    dict(B=2, n=1, N=6, nf=9, dims=3, sr=4),
    dict(B=2, n=2, N=8, nf=5, dims=2, sr=16, mask=True),
    dict(B=1, n=3, N=5, nf=3, dims=2, sr=10, mask=True),
]
# cutoffs on and between bins (bins every 2 Hz for N=8, sr=16)
for lo, hi in ((2, None), (2.5, None), (None, 6), (None, 5.0), (2, 6), (3, 7), (8, None), (None, 8), (0, 2)):
    _i.append(dict(B=1, n=2, N=8, nf=5, dims=2, sr=16, lo=lo, hi=hi))
_r = [
    dict(B=2, n=1, N=4, nf=3, dims=2, sr=4, target="tensor"),
    dict(B=1, n=2, N=4, nf=3, dims=2, sr=8, target="scalar"),
    dict(B=2, n=2, N=3, nf=2, dims=3, sr=6, target="tensor"),
    dict(B=1, n=2, N=4, nf=3, dims=2, sr=8, target="tensor", lo=2, hi=4),
    dict(B=1, n=1, N=6, nf=4, dims=2, sr=6, target="tensor", lo=1),
]
HARNESSES = [
    Harness("ifo", ifo, _i, thorough=[dict(B=2, n=2, N=16, nf=9, dims=2, sr=32), dict(B=2, n=3, N=12, nf=5, dims=3, sr=32, lo=3, hi=12)]),
    Harness("linear", linear, [dict(N=6, sr=8), dict(N=5, sr=16)]),
    Harness("reweight", reweight, _r, nl_ms=30000),
    Harness("badmask", badmask, [dict(which="highpass"), dict(which="lowpass")]),
]
META = {
    "bounds": "1-2 elements x 1-3 detectors x 3-8 samples (16 thorough), PSD of 1-3 dimensions with equal, coarser or finer resolution, entries in [0.5, 2]; cutoffs on and between bins and fully symbolic masks; targets in [0.5, 20]",
    "outside": "signals with vanishing in-band power (network SNR^2 below 0.01), where reweighting divides by zero",
}
