"""Heterodyning."""
import cmath
import math

import numpy as np
import torch

from checks import spec
from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"
MTSUN = 4.925490947641267e-06


def cm(z, a):
    """complex number z times the (re, im) pair a"""
    return (tm.sub(tm.mul(z.real, a[0]), tm.mul(z.imag, a[1])), tm.add(tm.mul(z.real, a[1]), tm.mul(z.imag, a[0])))


def reference(row, sr, masses):
    n = len(row)
    X = spec.rfft(row)
    out = []
    for m in masses:
        Y = [(0, 0)]
        for k in range(1, n // 2 + 1):
            ph = 3 / 128 * (math.pi * m * MTSUN * (k * sr / n)) ** (-5 / 3)
            Y.append(cm(cmath.exp(1j * ph) / sr, X[k]))
        out.append(Y)
    return out


def transform(ctx, B, C, T, sr, masses, ret):
    from ml4gw.transforms.heterodyne import Heterodyne

    h = Heterodyne(sr, T / sr, torch.tensor(masses, dtype=torch.float64), ret)
    x = ctx.real("x", (B, C, T))
    X = ctx.vals(x).copy()
    o = h(x)
    ctx.close("input untouched", x, X, tol=0)
    M, F = len(masses), T // 2 + 1
    t = o if ret == "time" else o[0] if ret == "both" else None
    f = o if ret == "freq" else o[1] if ret == "both" else None
    if t is not None:
        ctx.check("time shape", tuple(t.shape) == (B, C, M, T))
    if f is not None:
        ctx.check("freq shape", tuple(f.shape) == (B, C, M, F))
    tv = ctx.vals(t) if t is not None else None
    fv = ctx.vals(f) if f is not None else None
    for b in range(B):
        for c in range(C):
            ref = reference(list(X[b, c]), sr, masses)
            for m in range(M):
                if f is not None:
                    for k in range(F):
                        re, im = tm.re_im(fv[b, c, m, k])
                        ctx.close(f"bin {b},{c},{m},{k}.re", re, ref[m][k][0])
                        ctx.close(f"bin {b},{c},{m},{k}.im", im, ref[m][k][1])
                if t is not None:
                    Y = [tuple(tm.mul(sr, v) for v in z) for z in ref[m]]
                    for i, v in enumerate(spec.irfft(Y, T)):
                        ctx.close(f"sample {b},{c},{m},{i}", tv[b, c, m, i], v)


def modulus(ctx, T, sr):
    """every chirp mass: spectral amplitudes are kept"""
    from ml4gw.transforms.heterodyne import Heterodyne

    m = ctx.real("mass", (2,), 0.8, 80)
    x = ctx.real("x", (1, 1, T))
    f = ctx.vals(Heterodyne(sr, T / sr, m, "freq")(x))
    X = spec.rfft(list(ctx.vals(x)[0, 0]))
    for i in range(2):
        for k in range(T // 2 + 1):
            v = spec.abs2(tm.re_im(f[0, 0, i, k]))
            ctx.close(f"power {i},{k}", v, 0 if k == 0 else tm.mul(1 / sr**2, spec.abs2(X[k])))


def rejects(ctx, ret):
    from ml4gw.transforms.heterodyne import Heterodyne

    ctx.expect_raises("return type", ValueError, lambda: Heterodyne(8, 1.0, torch.tensor([1.0]), ret))


_m = [1.2, 9.0, 35.5]
HARNESSES = [
    Harness("transform", transform, [dict(B=b, C=c, T=n, sr=sr, masses=m, ret=r) for b, c, n, sr, m in ((2, 2, 8, 64, _m), (1, 2, 9, 48, _m[:2]), (2, 1, 12, 128, _m[1:]), (1, 1, 6, 1024, [1.4]), (1, 1, 7, 256, _m)) for r in ("time", "freq", "both")]),
    Harness("modulus", modulus, [dict(T=n, sr=sr) for n, sr in ((8, 64), (7, 32))]),
    Harness("rejects", rejects, [dict(ret=r) for r in ("frequency", "", "Time")]),
]
META = {
    "bounds": "series of 6-12 samples (even and odd), every sample symbolic, 1-2 batch elements and channels, listed rates and chirp masses; amplitude preservation for every chirp mass in [0.8, 80]",
    "outside": "longer series; single-precision phases",
}
