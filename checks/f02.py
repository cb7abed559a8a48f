"""Whitening: truncated inverse spectra, filtering, cropping."""
import math

import numpy as np
import torch

from checks import spec
from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"


def shape_of(kind, n):
    """a fixed positive spectrum without symmetry"""
    return [0.6 + ((5 * k + 3 * kind + (k * k) % 5) % 7) / 5 for k in range(n)]


def tapered(amp, sr, win, hp=None, lp=None):
    """complex response of the amplitude filter after band limiting and
    tapering its impulse response with the two halves of win"""
    F = len(amp)
    N = 2 * (F - 1)
    df = sr / N
    A = list(amp)
    for k in range(F):
        if hp is not None and k < int(hp / df):
            A[k] = 0
        if lp is not None and k >= int(lp / df):
            A[k] = 0
    if F % 2:
        A[-1] = 0
    q = [tm.mul(N, v) for v in spec.irfft([(a, 0) for a in A], N)]
    pad = len(win) // 2
    w = [0.0] * N
    for t in range(pad):
        w[t] = win[len(win) - pad + t]
        w[N - pad + t] = win[t]
    q = [tm.mul(a, b) for a, b in zip(w, q)]
    return [tuple(tm.mul(1 / N, v) for v in z) for z in spec.rfft(q)]


def hann_for(fdur, sr):
    return spec.hann(2 * int(fdur * sr / 2))


def window(kind, n):
    return spec.hann(n) if kind == "hann" else [0.2 + ((3 * i + 1) % 5) / 6 for i in range(n)]


def truncate(ctx, B, C, F, sr, fdur, hp=None, lp=None, win=None):
    from ml4gw.spectral import truncate_inverse_power_spectrum

    a = ctx.real("a", (B, C, F), 0.5, 2)
    A = ctx.vals(a)
    psd = a**-2
    before = ctx.vals(psd).copy()
    w = window(win, int(fdur * sr)) if win else hann_for(fdur, sr)
    out = truncate_inverse_power_spectrum(psd, torch.tensor(w) if win else fdur, sr, hp, lp)
    ctx.check("shape", tuple(out.shape) == (B, C, F))
    ctx.close("psd untouched", psd, before, tol=0)
    O = ctx.vals(out)
    for b in range(B):
        for c in range(C):
            ref = tapered(list(A[b, c]), sr, w, hp, lp)
            for k in range(F):
                ctx.close(f"inverse spectrum {b},{c},{k}", tm.power(O[b, c, k], -1), tm.mul(2, spec.abs2(ref[k])))


def support(ctx, F, sr, fdur, hp=None, lp=None):
    """the inverse power spectrum is the autocorrelation of a filter of the
    requested duration, so it vanishes at lags of that duration and beyond"""
    from ml4gw.spectral import truncate_inverse_power_spectrum

    a = ctx.real("a", (1, 1, F), 0.5, 2)
    O = ctx.vals(truncate_inverse_power_spectrum(a**-2, fdur, sr, hp, lp))[0, 0]
    N = 2 * (F - 1)
    n = 2 * int(fdur * sr / 2)
    r = spec.irfft([(tm.power(v, -1), 0) for v in O], N)
    for lag in range(n, N // 2 + 1):
        ctx.close(f"lag {lag}", r[lag], 0)


def filtered(x, resp, sr):
    """demean, multiply the spectrum by sqrt(2) |response|, rescale"""
    N = len(x)
    X = spec.rfft(spec.demean(x))
    g = [tm.power(tm.mul(2, spec.abs2(z)), 0.5) for z in resp]
    Y = [(tm.mul(a, r), tm.mul(a, i)) for a, (r, i) in zip(g, X)]
    return [tm.mul(1 / sr**0.5, v) for v in spec.irfft(Y, N)]


def normalize(ctx, B, C, N, dims, sr, pad, crop=True):
    from ml4gw.spectral import normalize_by_psd

    F = N // 2 + 1
    x = ctx.real("x", (B, C, N), -2, 2)
    a = ctx.real("a", {1: (F,), 2: (C, F), 3: (B, C, F)}[dims], 0.5, 2)
    X, A = ctx.vals(x).copy(), np.broadcast_to(ctx.vals(a), (B, C, F))
    psd = a**-2
    P = ctx.vals(psd).copy()
    o = normalize_by_psd(x, psd, sr, pad, crop)
    O = ctx.vals(o)
    sl = slice(pad, N - pad) if crop else slice(None)
    ctx.check("shape", tuple(o.shape) == (B, C, len(range(N)[sl])))
    ctx.close("data untouched", x, X, tol=0)
    ctx.close("psd untouched", psd, P, tol=0)
    for b in range(B):
        for c in range(C):
            g = [(tm.mul(math.sqrt(0.5), v), 0) for v in A[b, c]]
            ref = filtered(list(X[b, c]), g, sr)[sl]
            for i, r in enumerate(ref):
                ctx.close(f"sample {b},{c},{i}", O[b, c, i], r)


def infinite(ctx):
    """bins of infinite power are removed"""
    from ml4gw.spectral import normalize_by_psd

    x = ctx.real("x", (1, 1, 8), -2, 2)
    psd = torch.tensor([1.0, 2.0, math.inf, 0.5, math.inf])
    O = ctx.vals(normalize_by_psd(x, psd, 8, 0))
    g = [(math.sqrt(0.5 / v) if v < math.inf else 0.0, 0.0) for v in psd.tolist()]
    ref = filtered(list(ctx.vals(x)[0, 0]), g, 8)
    for i, r in enumerate(ref):
        ctx.close(f"sample {i}", O[0, 0, i], r)


def spectra(ctx, B, C, dims, F):
    """fixed spectra, one symbolic overall amplitude per row"""
    sh = {1: (), 2: (C,), 3: (B, C)}[dims]
    s = ctx.vals(ctx.real("s", sh + (1,), 0.5, 2))
    out = np.empty(sh + (F,), dtype=object)
    for n, ix in enumerate(np.ndindex(*sh)):
        for k, v in enumerate(shape_of(n, F)):
            out[ix + (k,)] = tm.mul(v, tm.power(s[ix + (0,)], -2))
    return ctx.tensor_of(out), out


def whiten(ctx, B, C, N, dims, F, sr, fdur, hp=None, lp=None, win=None, crop=True, module=False):
    from ml4gw.spectral import whiten
    from ml4gw.transforms import Whiten

    x = ctx.real("x", (B, C, N), -2, 2)
    X = ctx.vals(x).copy()
    psd, P = spectra(ctx, B, C, dims, F)
    P = P.copy()
    if module:
        w = spec.hann(int(fdur * sr))
        o = Whiten(fdur, sr, hp, lp)(x, psd, crop)
    else:
        w = window(win, int(fdur * sr)) if win else hann_for(fdur, sr)
        o = whiten(x, psd, torch.tensor(w) if win else fdur, sr, hp, lp, crop)
    ctx.close("data untouched", x, X, tol=0)
    ctx.close("psd untouched", psd, P, tol=0)
    pad = len(w) // 2
    sl = slice(pad, N - pad) if crop else slice(None)
    ctx.check("shape", tuple(o.shape) == (B, C, len(range(N)[sl])))
    O = ctx.vals(o)
    PB = np.broadcast_to(P, (B, C, F))
    for b in range(B):
        for c in range(C):
            amp = [tm.power(v, -0.5) for v in spec.interp_linear(list(PB[b, c]), N // 2 + 1)]
            ref = filtered(list(X[b, c]), tapered(amp, sr, w, hp, lp), sr)[sl]
            for i, r in enumerate(ref):
                ctx.close(f"sample {b},{c},{i}", O[b, c, i], r, tol=1e-6)


def fixed(ctx, C, klen, sr, fdur, F, B=2, hp=None, lp=None, crop=True, f32=False):
    from ml4gw.transforms import FixedWhiten

    N = int(klen * sr)
    if f32:
        torch.set_default_dtype(torch.float32)
    try:
        t = FixedWhiten(C, klen, sr)
    finally:
        torch.set_default_dtype(torch.float64)
    P = [shape_of(c, F) for c in range(C)]
    bg = [torch.tensor(p, dtype=torch.float64) for p in P]
    t.fit(fdur, *bg, highpass=hp, lowpass=lp)
    for u, p in zip(bg, P):
        ctx.check("background untouched", u.tolist() == p)
    x = ctx.real("x", (B, C, N), -2, 2)
    X = ctx.vals(x).copy()
    o = t(x, crop)
    ctx.close("data untouched", x, X, tol=0)
    pad = int(fdur * sr / 2)
    sl = slice(pad, N - pad) if crop else slice(None)
    ctx.check("shape", tuple(o.shape) == (B, C, len(range(N)[sl])))
    O = ctx.vals(o)
    w = hann_for(fdur, sr)
    for b in range(B):
        for c in range(C):
            amp = [v**-0.5 for v in spec.interp_nearest(P[c], N // 2 + 1)]
            ref = filtered(list(X[b, c]), tapered(amp, sr, w, hp, lp), sr)[sl]
            for i, r in enumerate(ref):
                ctx.close(f"sample {b},{c},{i}", O[b, c, i], r, tol=1e-6)


def fit_series(ctx, n, sr, fftlength, overlap=None, klen=1.0, fdur=0.5):
    """time-domain backgrounds go through the median spectral density"""
    from checks.f01 import welch
    from ml4gw.transforms import FixedWhiten

    C = 2
    N = int(klen * sr)
    amp = ctx.vals(ctx.real("amp", (C,), 0.5, 2))
    base = [[((7 * i * i + 3 * i + c) % 11) / 5 - 1 for i in range(n)] for c in range(C)]
    rows = [[tm.mul(v, amp[c]) for v in base[c]] for c in range(C)]
    mk = lambda r: ctx.tensor_of(np.array(r, dtype=object))  # noqa
    t = FixedWhiten(C, klen, sr)
    t.fit(fdur, *[mk(r) for r in rows], fftlength=fftlength, overlap=overlap)
    P = ctx.vals(t.psd)
    ctx.check("shape", P.shape == (C, N // 2 + 1))
    m = int(fftlength * sr)
    st = m - int((fftlength / 2 if overlap is None else overlap) * sr)
    w = spec.hann(m)
    sc = 1 / (sr * sum(v * v for v in w))
    for c in range(C):
        unit = welch(base[c], w, m, st, sc, "median", True)
        a = [v**-0.5 for v in spec.interp_nearest(unit, N // 2 + 1)]
        ref = tapered(a, sr, hann_for(fdur, sr))
        for k, z in enumerate(ref):
            # a response of an amplitude scaled by 1/amp
            p = 2 * spec.abs2(z)
            ctx.close(f"fit spectrum {c},{k}", tm.mul(tm.power(P[c, k], -1), tm.power(amp[c], 2)), p, rel=1e-7)


def refit(ctx):
    """fitting again replaces the previous filter entirely"""
    from ml4gw.transforms import FixedWhiten

    x = ctx.real("x", (1, 1, 16), -2, 2)
    p, q = (torch.tensor(shape_of(k, 9)) for k in (0, 3))
    t, u = FixedWhiten(1, 1.0, 16), FixedWhiten(1, 1.0, 16)
    t.fit(0.5, p, highpass=3)
    t.fit(0.25, q)
    u.fit(0.25, q)
    a, b = t(x), u(x)
    ctx.check("shape", tuple(a.shape) == (1, 1, 12))
    ctx.close("refit", a, ctx.vals(b))


def rejects(ctx, case):
    from ml4gw.spectral import whiten
    from ml4gw.transforms import FixedWhiten, Whiten

    x = lambda n: ctx.real("x", (1, 1, n))  # noqa
    p = torch.tensor(shape_of(0, 5))

    def fw(n, C=1, k=1):
        t = FixedWhiten(C, 1.0, 8)
        t.fit(0.5, *[p] * k)
        return t(x(n))

    fn = {
        "short": lambda: whiten(x(8), p, 1.0, 8),
        "short window": lambda: whiten(x(8), p, torch.ones(8), 8),
        "short module": lambda: Whiten(1.0, 8)(x(8), p),
        "short uncropped": lambda: whiten(x(8), p, 1.0, 8, crop=False),
        "length": lambda: fw(10),
        "length short": lambda: fw(7),
        "few channels": lambda: fw(8, 2, 1),
        "many channels": lambda: fw(8, 1, 2),
    }
    ctx.expect_raises(case, ValueError, fn[case])


HARNESSES = [
    Harness("truncate", truncate, [dict(B=b, C=c, F=f, sr=sr, fdur=fd, **kw)
        for b, c, f, sr, fd in ((1, 1, 5, 8, 0.5), (2, 2, 4, 6, 0.5), (1, 2, 7, 12, 0.5), (2, 1, 9, 16, 0.25), (1, 1, 9, 8, 1.5), (1, 1, 5, 8, 1.0))
        for kw in ({}, dict(hp=sr / 5), dict(lp=sr / 3), dict(hp=sr / 7, lp=sr / 2.6), dict(win="odd"), dict(win="hann", hp=sr / 4))]),
    Harness("support", support, [dict(F=f, sr=f * 2 - 2, fdur=fd, **kw) for f, fd in ((9, 0.25), (9, 0.4), (8, 0.3), (13, 0.2)) for kw in ({}, dict(hp=3.0), dict(lp=5.0))]),
    Harness("normalize", normalize, [dict(B=b, C=c, N=n, dims=d, sr=sr, pad=p) for b, c, n, sr, p in ((2, 2, 8, 8, 2), (1, 2, 10, 4, 1), (2, 1, 12, 6, 5), (2, 2, 6, 3, 0)) for d in (1, 2, 3)]
            + [dict(B=2, C=2, N=8, dims=3, sr=8, pad=2, crop=False)]),
    Harness("infinite power", infinite, [{}]),
    Harness("whiten", whiten, [dict(B=2, C=2, N=n, dims=d, F=f, sr=sr, fdur=fd, **kw)
        for n, f, sr, fd in ((16, 9, 16, 0.5), (14, 8, 7, 1.2), (16, 5, 8, 0.5), (12, 10, 6, 0.7))
        for d in (1, 2, 3)
        for kw in ({}, dict(hp=sr / 6, lp=sr / 2.4), dict(module=True, lp=sr / 2.7), dict(module=True, hp=sr / 5, crop=False), dict(win="odd"), dict(win="odd", hp=sr / 4.5, crop=False))
        if d == 3 or len(kw) != 2]),
    Harness("fixed", fixed, [dict(C=c, klen=k, sr=sr, fdur=fd, F=f, **kw)
        for c, k, sr, fd, f in ((2, 1.0, 16, 0.5, 9), (1, 1.5, 8, 0.6, 5), (3, 2.0, 6, 1.0, 12), (2, 1.25, 8, 0.7, 3))
        for kw in ({}, dict(hp=sr / 6), dict(lp=sr / 2.5, crop=False), dict(f32=True))]),
    Harness("fit to series", fit_series, [dict(n=n, sr=sr, fftlength=l, overlap=o) for n, sr, l, o in ((24, 8, 1.0, None), (24, 8, 1.0, 0.0), (24, 8, 0.5, 0.25), (30, 8, 1.25, 0.5), (24, 8, 1.0, 0.75))]),
    Harness("refit", refit, [{}]),
    Harness("rejects", rejects, [dict(case=c) for c in ("short", "short window", "short module", "short uncropped", "length", "length short", "few channels", "many channels")]),
]
META = {
    "bounds": "spectra of 4-13 bins (all values symbolic where the spectrum is truncated or divided by directly; fixed irregular shape with a symbolic amplitude per row where it passes through interpolation or a fit), series of 6-16 samples with every sample symbolic, 1-2 batch elements, 1-3 channels, listed rates, durations and cutoffs",
    "outside": "odd series lengths (bin frequencies are then offset by one part in the length); single-precision rounding; that the resulting spectrum of noise is flat (statistical)",
}
