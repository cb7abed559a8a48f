"""Multi-resolution spectrograms."""
import math

import numpy as np
import torch

from checks import spec
from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"


def reflect(i, n):
    while not 0 <= i < n:
        i = -i if i < 0 else 2 * (n - 1) - i
    return i


def window(name, n):
    t = [2 * math.pi * i / n for i in range(n)]
    if name == "hann":
        return [0.5 - 0.5 * math.cos(a) for a in t]
    if name == "hamming":
        return [0.54 - 0.46 * math.cos(a) for a in t]
    return [1.0] * n


def picture(row, n_fft=400, win_length=None, hop_length=None, window_="hann", power=2.0, center=True, pad=0):
    """plain normalized spectrogram of a row: [frequency][frame]"""
    wl = win_length or n_fft
    hop = hop_length or wl // 2
    row = [0] * pad + list(row) + [0] * pad
    n = len(row)
    if center:
        row = [row[reflect(i, n)] for i in range(-(n_fft // 2), n + n_fft // 2)]
    w = window(window_, wl)
    energy = sum(v * v for v in w)
    left = (n_fft - wl) // 2
    w = [0.0] * left + w + [0.0] * (n_fft - wl - left)
    frames = [spec.rfft([tm.mul(a, b) for a, b in zip(row[s : s + n_fft], w)]) for s in range(0, len(row) - n_fft + 1, hop)]
    out = []
    for k in range(n_fft // 2 + 1):
        e = [tm.mul(1 / energy, spec.abs2(f[k])) for f in frames]
        out.append([v if power == 2.0 else tm.power(v, power / 2) for v in e])
    return out


WINDOWS = {"hann": torch.hann_window, "hamming": torch.hamming_window, "boxcar": torch.ones}


def settings(kw):
    n = max(len(v) for v in kw.values())
    out = []
    for i in range(n):
        d = {k: v[i % len(v)] for k, v in kw.items() if k != "normalized"}
        if "window_fn" in d:
            d["window_"] = d.pop("window_fn")
        out.append(d)
    return out


def build(n, kw, sr=None):
    from ml4gw.transforms import MultiResolutionSpectrogram

    k = dict(kw)
    if "window_fn" in k:
        k["window_fn"] = [WINDOWS[w] for w in k["window_fn"]]
    return MultiResolutionSpectrogram(1.0 if sr is None else n / sr, n if sr is None else sr, **k)


def combined(ctx, lead, n, kw, energy=False, sr=None):
    x = ctx.real("x", tuple(lead) + (n,), -1, 1)
    X = ctx.vals(x).copy()
    o = build(n, kw, sr)(x)
    ctx.close("input untouched", x, X, tol=0)
    O = ctx.vals(o)
    first = True
    for ix, row in spec.rows(X):
        pics = [picture(row, **s) for s in settings(kw)]
        F, T = max(len(p) for p in pics), max(len(p[0]) for p in pics)
        if first:
            ctx.check("shape", tuple(o.shape) == tuple(lead) + (F, T))
            if tuple(o.shape) != tuple(lead) + (F, T):
                return
        first = False
        for f in range(F):
            for t in range(T):
                cover = [p[f * len(p) // F][t * len(p[0]) // T] for p in pics]
                v = O[ix + (f, t)]
                for i, c in enumerate(cover):
                    ctx.check(f"at least {ix},{f},{t},{i}", tm.ge(tm.add(v, 1e-6), c))
                ctx.check(f"one of {ix},{f},{t}", tm.lor(*[tm.land(tm.le(tm.sub(v, c), 1e-6), tm.ge(tm.sub(v, c), -1e-6)) for c in cover]))


def reuse(ctx, n, kw):
    x, y = ctx.real("x", (1, 1, n), -1, 1), ctx.real("y", (1, 1, n), -1, 1)
    m = build(n, kw)
    a = ctx.vals(m(x)).copy()
    m(y)
    ctx.close("same input, same output", m(x), a, tol=0)


def rejects(ctx, case):
    exc = ValueError
    fn = {
        "unnormalized": lambda: build(16, dict(n_fft=[8], normalized=[False])),
        "one unnormalized": lambda: build(16, dict(n_fft=[8, 4], normalized=[True, False])),
        "lengths": lambda: build(16, dict(n_fft=[8, 4], hop_length=[2, 2, 1])),
        "three lengths": lambda: build(16, dict(n_fft=[8, 4, 4], hop_length=[2, 2], power=[2.0])),
        "short": lambda: build(16, dict(n_fft=[8]))(ctx.real("x", (1, 1, 15))),
        "long": lambda: build(16, dict(n_fft=[8]))(ctx.real("x", (1, 1, 17))),
    }[case]
    ctx.expect_raises(case, exc, fn)


SETS = [
    ((1, 1), 12, dict(n_fft=[8])),
    ((2, 2), 8, dict(n_fft=[8, 4])),
    ((1, 2), 12, dict(n_fft=[8, 4], hop_length=[4, 3])),
    ((2, 1), 10, dict(n_fft=[4, 6, 8], win_length=[4, 4, 8], hop_length=[2])),
    ((1, 1), 9, dict(n_fft=[8], win_length=[6, 4], hop_length=[3, 2])),
    ((1, 1), 12, dict(n_fft=[8, 6], hop_length=[6, 2], normalized=[True])),
    ((1, 1), 10, dict(n_fft=[6, 8], window_fn=["hamming", "boxcar"], hop_length=[3, 2])),
    ((1, 1), 10, dict(n_fft=[8, 4], hop_length=[2, 4], center=[False, True])),
]
HARNESSES = [
    Harness("combined", combined, [dict(lead=l, n=n, kw=kw) for l, n, kw in SETS] + [dict(lead=(1, 1), n=12, sr=24, kw=dict(n_fft=[4, 8]))]),
    Harness("repeated use", reuse, [dict(n=8, kw=dict(n_fft=[8, 4]))]),
    Harness("rejects", rejects, [dict(case=c) for c in ("unnormalized", "one unnormalized", "lengths", "three lengths", "short", "long")]),
]
META = {
    "bounds": "series of 8-12 symbolic samples, up to 2x2 leading; sets of one to three resolutions with FFT lengths 4-8, listed window lengths, hops, window functions and centring",
    "outside": "longer series; powers other than two; settings left at torchaudio's defaults beyond those listed; single precision",
}
