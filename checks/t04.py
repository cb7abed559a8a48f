"""Q-transform: tiles, tiling, interpolation and the scan over Q."""
import math

import numpy as np
import torch

from checks import spec
from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"


def layout(q, f, dur, sr, mismatch):
    """(number of tiles, [(frequency bin, weight)]) of one row"""
    qp = q / 11**0.5
    step = 2 * (mismatch / 3) ** 0.5
    M = 2 ** math.ceil(math.log2(dur * 2 * math.pi * f / q / step))
    half = int(f / qp * dur)
    norm = M / (dur * sr) * (315 * qp / (128 * f)) ** 0.5
    top = int(dur * sr) // 2
    out = []
    for j in range(-half, half + 1):
        w = (1 - (j / dur * qp / f) ** 2) ** 2 * norm
        k = round(j + 1 + f * dur)
        out.append((j, min(max(k, 0), top), w))
    return M, out


def energies(F, lay):
    """squared magnitude of the inverse transform of the windowed spectrum"""
    M, win = lay
    xs = [F[k][0] for _, k, _ in win] + [F[k][1] for _, k, _ in win]
    c, s = [], []
    for t in range(M):
        c.append([w * math.cos(2 * math.pi * ((j * t) % M) / M) / M for j, _, w in win])
        s.append([w * math.sin(2 * math.pi * ((j * t) % M) / M) / M for j, _, w in win])
    c, s = np.array(c), np.array(s)
    re = tm.linmap(np.hstack([c, -s]), xs)
    im = tm.linmap(np.hstack([s, c]), xs)
    return [spec.abs2(z) for z in zip(re, im)]


def three(shape):
    return (1,) * (3 - len(shape)) + tuple(shape)


def rows3(A, shape):
    return A.reshape(three(shape[:-1] + (A.shape[-1],)))


def tile(ctx, lead, q, f, dur, sr, mismatch=0.2):
    from ml4gw.transforms.qtransform import QTile

    n = int(dur * sr) // 2 + 1
    x = ctx.cplx("x", tuple(lead) + (n,), -1, 1)
    X = ctx.vals(x).copy()
    t = QTile(q, f, dur, sr, mismatch)
    o = t(x, None)
    ctx.close("input untouched", x, X, tol=0)
    lay = layout(q, f, dur, sr, mismatch)
    sh = three(tuple(lead) + (lay[0],))
    ctx.check("shape", tuple(o.shape) == sh)
    O = ctx.vals(o)
    X3 = X.reshape(three(X.shape))
    for b in range(sh[0]):
        for c in range(sh[1]):
            E = energies([tm.re_im(v) for v in X3[b, c]], lay)
            for k, e in enumerate(E):
                ctx.close(f"tile {b},{c},{k}", O[b, c, k], e)


def tile_median(ctx, lead, q, f, dur, sr, norm):
    """normalized tiles of a fixed spectrum times any amplitude per series"""
    from ml4gw.transforms.qtransform import QTile

    n = int(dur * sr) // 2 + 1
    amp = ctx.vals(ctx.real("amp", tuple(lead) + (1,), 0.2, 3))
    X = np.empty(tuple(lead) + (n,), dtype=object)
    base = {}
    for i, ix in enumerate(np.ndindex(*lead)):
        base[ix] = [complex(((3 * k + i) % 7) - 3, ((5 * k * k + 2 * i) % 5) - 2) for k in range(n)]
        for k in range(n):
            z = base[ix][k]
            X[ix + (k,)] = tm.mkcx(tm.mul(z.real, amp[ix + (0,)]), tm.mul(z.imag, amp[ix + (0,)]))
    t = QTile(q, f, dur, sr, 0.2)
    O = ctx.vals(t(ctx.tensor_of(X, torch.complex128), norm))
    lay = layout(q, f, dur, sr, 0.2)
    O = O.reshape(tuple(lead) + (lay[0],))
    for ix in np.ndindex(*lead):
        E = energies([(z.real, z.imag) for z in base[ix]], lay)
        m = float(np.median(E)) if norm.lower() == "median" else sum(E) / len(E)
        for k, e in enumerate(E):
            ctx.close(f"tile {ix},{k}", O[ix + (k,)], e / m, rel=2e-6)


def freqs(q, lo, hi, dur, sr, mismatch):
    qp = q / 11**0.5
    if lo <= 0:
        lo = 50 * q / (2 * math.pi * dur)
    if math.isinf(hi):
        hi = sr / 2 / (1 + 1 / qp)
    cum = math.log(hi / lo) * (2 + q * q) ** 0.5 / 2
    step = 2 * (mismatch / 3) ** 0.5
    n = int(max(1, math.ceil(cum / step)))
    base = math.exp(2 / (2 + q * q) ** 0.5 * cum / n)
    return lo, hi, sorted({math.floor(lo * base ** (i + 0.5) * dur + 1e-9) / dur for i in range(n)})


def tiling(ctx, q, lo, hi, dur, sr, mismatch):
    from ml4gw.transforms.qtransform import SingleQTransform

    given = [lo, hi]
    t = SingleQTransform(dur, sr, (4, 4), q, given, mismatch)
    a, b, ref = freqs(q, lo, hi, dur, sr, mismatch)
    got = ctx.vals(t.freqs)
    ctx.check("range untouched", given == [lo, hi])
    ctx.check("number of rows", len(got) == len(ref))
    for i, (u, v) in enumerate(zip(got, ref)):
        ctx.close(f"frequency {i}", u, v)
        ctx.check(f"in range {i}", a - 1 / dur - 1e-6 <= u <= b + 1e-6)
    for r, f in zip(t.qtile_transforms, ref):
        ctx.check(f"tiles at {f}", r.ntiles() == layout(q, f, dur, sr, mismatch)[0])


def planes(lo, hi, mismatch):
    step = 2 * (mismatch / 3) ** 0.5
    c = math.log(hi / lo) / 2**0.5
    n = int(max(1, math.ceil(c / step)))
    return [lo * math.exp(2**0.5 * c / n * (i + 0.5)) for i in range(n)]


def qtiling(ctx, lo, hi, mismatch, dur=1.0, sr=1024):
    import warnings

    from ml4gw.transforms.qtransform import QScan

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = QScan(dur, sr, (4, 4), [lo, hi], [20, 22], mismatch=mismatch)
    ref = planes(lo, hi, mismatch)
    ctx.check("number of planes", len(s.qs) == len(ref))
    for i, (u, v) in enumerate(zip(s.qs, ref)):
        ctx.close(f"q {i}", u, v)
    top = math.pi * dur * sr / 50 - 11**0.5
    used = [float(t.q) for t in s.q_transforms]
    ctx.check("planes used", len(used) == len([v for v in ref if v < top]) and all(abs(u - v) < 1e-9 for u, v in zip(used, ref)))


def impulses(n, f):
    """matrix of a linear map given by its action on unit impulses"""
    return f(torch.eye(n)).reshape(n, -1).T.tolist()


def apply(m, v):
    return tm.linmap(m, v)


def resample(rows, shape, method, dur, fr, lo, hi):
    """rows: energies per frequency -> spectrogram (bins in f, bins in t)"""
    import torch.nn.functional as F

    from ml4gw.transforms.spline_interpolation import SplineInterpolate1D

    nf, nt = shape
    if method == "spline":
        t_out = torch.arange(nt) * (dur / nt)
        timed = []
        for r in rows:
            n = len(r)
            s = SplineInterpolate1D(kx=3, x_in=torch.arange(n) * (dur / n), x_out=t_out)
            timed.append(apply(impulses(n, s), r))
        s = SplineInterpolate1D(kx=3, x_in=torch.tensor(fr), x_out=torch.logspace(math.log10(lo), math.log10(hi), nf))
        m = impulses(len(rows), s)
    else:
        one = lambda n, k: impulses(n, lambda e: F.interpolate(e[:, None, None], (1, k), mode=method)[:, 0, 0])  # noqa
        timed = [apply(one(len(r), nt), r) for r in rows]
        m = impulses(len(rows), lambda e: F.interpolate(e[:, None, :, None], (nf, 1), mode=method)[:, 0, :, 0])
    cols = [apply(m, [t[j] for t in timed]) for j in range(nt)]
    return [[cols[j][i] for j in range(nt)] for i in range(nf)]


def signal(ctx, lead, N, extra=0):
    """fixed irregular series, one symbolic amplitude per series"""
    pw = ctx.vals(ctx.real("power", tuple(lead) + (1,), 0.1, 9))
    amp = np.empty(pw.shape, dtype=object)
    for ix in np.ndindex(*pw.shape):
        amp[ix] = tm.power(pw[ix], 0.5)
    out = np.empty(tuple(lead) + (N,), dtype=object)
    for i, ix in enumerate(np.ndindex(*lead)):
        for t in range(N):
            v = math.sin(2 * math.pi * (9 + 4 * i) * t / N + i) + (((7 * t * t + 3 * t * (i + 1)) % 11) - 5) / 10
            out[ix + (t,)] = tm.mul(v, amp[ix + (0,)])
    return out


def spectrum(row):
    N = len(row)
    return [tuple(tm.mul((1 if k == 0 else 2) / N, v) for v in z) for k, z in enumerate(spec.rfft(row))]


def plane(row, q, fr, dur, sr, mismatch):
    F = spectrum(row)
    return [energies(F, layout(q, f, dur, sr, mismatch)) for f in fr]


def normalize(E, norm):
    return E if norm is None else [[v / spec.mean(r) for v in r] for r in E]


def single(ctx, lead, dur, sr, shape, q, lo, hi, method, norm=None, mismatch=0.2):
    from ml4gw.transforms.qtransform import SingleQTransform

    N = int(dur * sr)
    X = signal(ctx, lead, N)
    x = ctx.tensor_of(X)
    t = SingleQTransform(dur, sr, shape, q, [lo, hi], mismatch, method)
    o = t(x, norm)
    ctx.close("input untouched", x, X, tol=0)
    a, b, fr = freqs(q, lo, hi, dur, sr, mismatch)
    O = ctx.vals(o)
    want = [s for s in three(tuple(lead) + (1,))[:2] if s > 1 or method == "spline"] + list(shape)
    ctx.check("shape", list(O.shape) == want)
    if list(O.shape) != want:
        return
    O = O.reshape(tuple(lead) + tuple(shape))
    for ix in np.ndindex(*lead):
        E = plane(list(X[ix]), q, fr, dur, sr, mismatch)
        if norm == "mean":
            E = [[tm.mul(v, tm.power(spec.mean(r), -1)) for v in r] for r in E]
        ref = resample(E, shape, method, dur, fr, a, b)
        for i in range(shape[0]):
            for j in range(shape[1]):
                ctx.close(f"pixel {ix},{i},{j}", O[ix + (i, j)], ref[i][j], rel=1e-5)


def repeat(ctx, method):
    """a transform object holds nothing of earlier calls"""
    from ml4gw.transforms.qtransform import SingleQTransform

    kw = dict(duration=1.0, sample_rate=96, spectrogram_shape=(3, 4), q=1.5, frange=[6, 14], interpolation_method=method)
    t = SingleQTransform(**kw)
    X = signal(ctx, (2,), 96)
    x = ctx.tensor_of(X)
    t(x[:1] * 2, None)
    b = ctx.vals(t(x[1:], None))
    ctx.close("second call", b, ctx.vals(SingleQTransform(**kw)(x[1:], None)))


def loudest(xs):
    r = 0
    for v in tm.front(xs):
        r = tm.tmax(r, v)
    return r


def energy(ctx, fsearch, dim):
    from ml4gw.transforms.qtransform import SingleQTransform

    dur, sr, q, mm = 1.0, 96, 2.0, 0.1
    t = SingleQTransform(dur, sr, (3, 3), q, [8, 20], mm)
    lead = (2, 1) if dim == "both" else (2, 2)
    X = signal(ctx, lead, 96)
    t.compute_qtiles(ctx.tensor_of(X), None)
    fr = freqs(q, 8, 20, dur, sr, mm)[2]
    keep = [i for i, f in enumerate(fr) if fsearch is None or fsearch[0] < f <= fsearch[1]]
    ctx.check("search range selects some rows", fsearch is None or 0 < len(keep) < len(fr) or fsearch[1] > 20)
    top = np.empty(lead, dtype=object)
    for ix in np.ndindex(*lead):
        E = plane(list(X[ix]), q, fr, dur, sr, mm)
        top[ix] = loudest([v for i in keep for v in E[i]])
    o = ctx.vals(t.get_max_energy(fsearch, dim) if fsearch else t.get_max_energy(dimension=dim))
    if dim == "neither":
        ref = top
    elif dim == "channel":
        ref = np.array([tm.tmax(top[0, c], top[1, c]) for c in range(2)], dtype=object)
    elif dim == "batch":
        ref = np.array([tm.tmax(top[b, 0], top[b, 1]) for b in range(2)], dtype=object)
    else:
        ref = np.array(tm.tmax(top[0, 0], top[1, 0]), dtype=object)
    ctx.check("shape", o.shape == ref.shape)
    for ix in np.ndindex(*ref.shape):
        ctx.close(f"loudest {ix}", o[ix], ref[ix], rel=1e-6)


def scan(ctx, method, fsearch=None):
    """the plane holding the loudest tile is the one returned"""
    from ml4gw.transforms.qtransform import QScan

    dur, sr, mm, shape = 1.0, 192, 0.02, (2, 3)
    lo, hi = 5.0, 7.5
    s = QScan(dur, sr, shape, [lo, hi], [36, 44], method, mm)
    qs = planes(lo, hi, mm)
    assert len(qs) == 2
    N = int(dur * sr)
    amp = [tm.power(v, 0.5) for v in ctx.vals(ctx.real("power", (2,), 0.1, 9))]
    X = np.empty((2, 1, N), dtype=object)
    for t in range(N):
        # a short burst prefers the low-Q plane, a long tone the high-Q one
        X[0, 0, t] = tm.mul(amp[0], 12 * math.exp(-(((t - 96) / 3) ** 2)) * math.cos(2 * math.pi * 41 * t / N))
        X[1, 0, t] = tm.mul(amp[1], math.cos(2 * math.pi * 41 * t / N))
    out = ctx.vals(s(ctx.tensor_of(X), fsearch, None))
    ctx.check("shape", out.shape == (2,) + ((1,) if method == "spline" else ()) + shape)
    out = out.reshape((2,) + shape)
    tops, pics = [], []
    for q in qs:
        a, b, fr = freqs(q, 36, 44, dur, sr, mm)
        tiles, pic = [], []
        for k in range(2):
            E = plane(list(X[k, 0]), q, fr, dur, sr, mm)
            for f, r in zip(fr, E):
                if fsearch is None or fsearch[0] < f <= fsearch[1]:
                    tiles += r
            pic.append(resample(E, shape, method, dur, fr, a, b))
        tops.append(loudest(tiles))
        pics.append(pic)
    pick = tm.ge(tops[0], tops[1])
    for k in range(2):
        for i in range(shape[0]):
            for j in range(shape[1]):
                d = [tm.sub(out[k, i, j], p[k][i][j]) for p in pics]
                small = [tm.land(tm.le(v, 1e-5), tm.ge(v, -1e-5)) for v in d]
                tie = tm.le(tm.absv(tm.sub(*tops)), 1e-6)
                ctx.check(f"pixel {k},{i},{j}", tm.lor(tie, tm.ite(pick, small[0], small[1])))
    ctx.cover("low Q", pick)
    ctx.cover("high Q", tm.lnot(pick))


def rejects(ctx, case):
    from ml4gw.transforms.qtransform import QTile, SingleQTransform

    exc = ValueError
    mk = lambda **k: SingleQTransform(1.0, 96, (3, 3), **k)  # noqa
    fn = {
        "large q": lambda: mk(q=2.8),
        "method": lambda: mk(q=1.5, interpolation_method="linear"),
        "norm": lambda: QTile(2, 4, 1.0, 16, 0.2)(ctx.cplx("x", (9,)), "max"),
        "4d": lambda: QTile(2, 4, 1.0, 16, 0.2)(ctx.cplx("x", (1, 1, 1, 9)), None),
        "dimension": lambda: mk(q=1.5).get_max_energy(dimension="all"),
        "early energy": lambda: mk(q=1.5).get_max_energy(),
        "early image": lambda: mk(q=1.5).interpolate(),
    }[case]
    if case.startswith("early"):
        exc = RuntimeError
    ctx.expect_raises(case, exc, fn)


_t = [((9,)[:0], 2, 4, 1.0, 16), ((2,), 3, 5, 1.0, 16), ((2, 2), 4, 3, 2.0, 8), ((1, 2), 4, 7, 1.0, 16), ((2,), 2, 1.7, 2.0, 10)]
HARNESSES = [
    Harness("tile", tile, [dict(lead=l, q=q, f=f, dur=d, sr=sr, **kw) for l, q, f, d, sr in _t for kw in ({}, dict(mismatch=0.35))]),
    Harness("normalized tile", tile_median, [dict(lead=l, q=q, f=f, dur=d, sr=sr, norm=n) for l, q, f, d, sr in _t for n in ("median", "mean", "Median")]),
    Harness("tiling", tiling, [dict(q=q, lo=a, hi=b, dur=d, sr=sr, mismatch=m) for q, a, b, d, sr, m in ((12, 0, math.inf, 1, 1024, 0.2), (4, 0, math.inf, 1, 1024, 0.2), (20, 30, 200, 2, 512, 0.2), (8, 0, 90, 1, 512, 0.35), (6.5, 25, math.inf, 0.5, 1024, 0.1), (12, 50, 50.5, 1, 1024, 0.2), (33.3, 60, 300, 4, 1024, 0.3))]),
    Harness("Q tiling", qtiling, [dict(lo=a, hi=b, mismatch=m) for a, b, m in ((4, 64, 0.2), (4, 60, 0.35), (8, 9, 0.2), (11, 61, 0.1), (4, 100, 0.2))]),
    Harness("spectrogram", single, [dict(lead=l, dur=1.0, sr=96, shape=s, q=q, lo=a, hi=b, method=m, norm=n)
        for l, s, q, a, b in (((2,), (3, 4), 1.5, 6, 14), ((2, 2), (4, 3), 2.0, 8, 20), ((), (5, 2), 1.2, 5, 30)) for m in ("bilinear", "bicubic") for n in (None, "mean")]
        + [dict(lead=(2,), dur=1.0, sr=96, shape=(5, 7), q=2.0, lo=8, hi=24, method="spline", mismatch=0.05), dict(lead=(2,), dur=1.0, sr=96, shape=(3, 49), q=2.0, lo=8, hi=24, method="spline", mismatch=0.05)]),
    Harness("repeated use", repeat, [dict(method="bilinear")]),
    Harness("loudest tile", energy, [dict(fsearch=f, dim=d) for f in (None, (8, 14), (12, 40)) for d in ("both", "neither", "channel", "batch")]),
    Harness("scan", scan, [dict(method="bilinear"), dict(method="bicubic", fsearch=(38, 42))]),
    Harness("rejects", rejects, [dict(case=c) for c in ("large q", "method", "norm", "4d", "dimension", "early energy", "early image")]),
]
META = {
    "bounds": "tiles of spectra of 9-11 complex bins, every bin symbolic (amplitude per series symbolic for median normalization); spectrograms, loudest tiles and scans of series of 96-256 samples with one symbolic amplitude per series; listed Qs, ranges, durations, rates, mismatches; bilinear, bicubic and spline interpolation",
    "outside": "the interpolation kernels themselves (torch's are applied to unit impulses; the spline is T10); longer series; single precision",
}
