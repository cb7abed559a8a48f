"""Prior samplers: every uniform draw maps into the declared interval by the
inverse of the declared cumulative law."""
import math
from unittest import mock

import numpy as np
import torch

from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"
PI = math.pi


def draws(ctx, tag="rand"):
    d = [a for t, a, *_ in ctx.E.draws if t == tag]
    return np.concatenate([a.reshape(-1) for a in d]) if d else np.empty(0, dtype=object)


def is_zero(ctx, t, tol=1e-9):
    if not ctx.symbolic:
        return abs(ctx.E.val(t)) <= tol
    if not isinstance(t, tm.T):
        return abs(t) <= tol
    try:
        p = tm.expand(t)
    except Exception:
        return False
    return all(abs(c) <= tol for c, _ in p.values())


def law(ctx, F, Flo, Fhi, u, tol=1e-6, rel=0.0, name="law"):
    """F(sample) = F(low) + u (F(high) - F(low)), or the same with 1 - u"""
    ctx.check(f"{name}: one draw per sample", len(F) == len(u))
    for i, (f, v) in enumerate(zip(F, u)):
        if not ctx.symbolic:
            v = ctx.E.val(v)
        a = tm.add(Flo, tm.mul(v, tm.sub(Fhi, Flo)))
        b = tm.sub(Fhi, tm.mul(v, tm.sub(Fhi, Flo)))
        flip = is_zero(ctx, tm.sub(f, b)) and not is_zero(ctx, tm.sub(f, a))
        ctx.close(f"{name}[{i}]", f, b if flip else a, tol, rel)


def inside(ctx, s, lo, hi, tol=1e-7):
    for i, x in enumerate(s):
        ctx.check(f"inside[{i}]", tm.land(tm.le(lo - tol, x), tm.le(x, hi + tol)))


def get(ctx, d, shape, method):
    s = getattr(d, method)(torch.Size(shape)) if shape is not None else getattr(d, method)()
    want = tuple(shape) if shape is not None else ()
    ctx.check("shape", tuple(s.shape) == want)
    return ctx.vals(s).reshape(-1)


def cosine(ctx, lo, hi, shape, method="rsample", args=None):
    from ml4gw.distributions import Cosine

    d = Cosine() if lo is None else Cosine(lo, hi)
    lo, hi = (-PI / 2, PI / 2) if lo is None else (lo, hi)
    s = get(ctx, d, shape, method)
    inside(ctx, s, lo, hi, 3e-7)
    law(ctx, [tm.sin(x) for x in s], math.sin(lo), math.sin(hi), draws(ctx))


def sine(ctx, lo, hi, shape, method="rsample"):
    from ml4gw.distributions import Sine

    d = Sine() if lo is None else Sine(lo, hi)
    lo, hi = (0.0, PI) if lo is None else (lo, hi)
    s = get(ctx, d, shape, method)
    inside(ctx, s, lo, hi, 3e-7)
    law(ctx, [tm.neg(tm.cos(x)) for x in s], -math.cos(lo), -math.cos(hi), draws(ctx))


def cosine_sym(ctx, kind):
    """bounds symbolic as well"""
    from ml4gw.distributions import Cosine, Sine

    off = PI / 2 if kind == "sine" else 0.0
    lo = ctx.real("lo", (), -1.5 + off, 1.5 + off)
    hi = ctx.real("hi", (), -1.5 + off, 1.5 + off)
    L, H = ctx.vals(lo)[()], ctx.vals(hi)[()]
    F = tm.sin if kind == "cosine" else (lambda x: tm.neg(tm.cos(x)))
    ctx.assume(tm.le(tm.add(F(L), 1e-2), F(H)))
    d = (Cosine if kind == "cosine" else Sine)(lo, hi)
    s = get(ctx, d, (2,), "rsample")
    law(ctx, [F(x) for x in s], F(L), F(H), draws(ctx))
    inside(ctx, s, -PI / 2 + off, PI / 2 + off)


def loguniform(ctx, lo, hi, shape, method="rsample"):
    from ml4gw.distributions import LogUniform

    s = get(ctx, LogUniform(lo, hi), shape, method)
    inside(ctx, s, lo, hi, 1e-5 * hi)
    law(ctx, [tm.log(x) for x in s], math.log(lo), math.log(hi), draws(ctx))


def powerlaw(ctx, lo, hi, index, shape, method="rsample"):
    from ml4gw.distributions import PowerLaw

    s = get(ctx, PowerLaw(lo, hi, index), shape, method)
    if hi != math.inf:
        inside(ctx, s, lo, hi, 1e-5 * hi)
    else:
        for i, x in enumerate(s):
            ctx.check(f"above minimum[{i}]", tm.le(lo * (1 - 1e-6), x))
    p = index + 1
    if p == 0:
        law(ctx, [tm.log(x) for x in s], math.log(lo), math.log(hi), draws(ctx))
    else:
        a = lo**p if lo or p > 0 else math.inf
        b = hi**p if hi != math.inf else 0.0
        # normalised so that the law lies in [0, 1]
        k = 1 / (b - a)
        law(ctx, [tm.mul(k, tm.power(x, p)) for x in s], a * k, b * k, draws(ctx))


def powerlaw_sym(ctx, index):
    """bounds symbolic"""
    from ml4gw.distributions import PowerLaw

    lo = ctx.real("lo", (), 1.0, 2.0)
    hi = ctx.real("hi", (), 3.0, 9.0)
    L, H = ctx.vals(lo)[()], ctx.vals(hi)[()]
    s = get(ctx, PowerLaw(lo, hi, index), (2,), "rsample")
    p = index + 1
    u = draws(ctx)
    ctx.check("one draw per sample", len(u) == 2)
    for i, (x, v) in enumerate(zip(s, u)):
        if not ctx.symbolic:
            v = ctx.E.val(v)
        if p == 0:
            y = tm.add(tm.log(L), tm.mul(v, tm.sub(tm.log(H), tm.log(L))))
            ctx.close(f"law[{i}]", tm.log(x), y)
        else:
            a, b = tm.power(L, p), tm.power(H, p)
            # the argument of the final root: convex combination of the end points
            y = tm.add(a, tm.mul(v, tm.sub(b, a)))
            ctx.close(f"law[{i}]", x, tm.power(y, 1 / p))
            ctx.check(f"between[{i}]", tm.land(tm.le(tm.tmin(a, b), tm.add(y, 1e-7)), tm.le(y, tm.add(tm.tmax(a, b), 1e-7))))


def lognormal(ctx, mean, std, shape):
    from ml4gw.distributions import LogNormal

    s = get(ctx, LogNormal(mean, std), shape, "rsample")
    z = draws(ctx, "randn")
    ctx.check("one draw per sample", len(z) == len(s))
    for i, (x, v) in enumerate(zip(s, z)):
        v = v if ctx.symbolic else ctx.E.val(v)
        ctx.close(f"law[{i}]", tm.log(x), tm.add(mean, tm.mul(std, v)))


def lognormal_low(ctx, low):
    from ml4gw.distributions import LogNormal

    d = LogNormal(0.0, 1.0, low=low)
    s = get(ctx, d, (1,), "rsample")
    for i, x in enumerate(s):
        ctx.check(f"inside support[{i}]", tm.lt(low, x))


def delta(ctx, shape, method):
    from ml4gw.distributions import DeltaFunction

    p = ctx.real("peak", (), -5, 5)
    s = get(ctx, DeltaFunction(p), shape, method)
    for i, x in enumerate(s):
        ctx.close(f"peak[{i}]", x, ctx.vals(p)[()], tol=1e-6)


# ---------------------------------------------------------------- cosmology
H0, OM, CKM = 67.66, 0.30966, 299792.458


class Cosmo:
    """flat LCDM by composite Simpson on a fine grid (independent of the code)"""

    def __init__(self, zmax, h0, om, n=4000):
        z = np.linspace(0, zmax, n + 1)
        f = lambda q: CKM / (h0 * np.sqrt(om * (1 + q) ** 3 + 1 - om))  # noqa
        h = z[1] - z[0]
        seg = h / 6 * (f(z[:-1]) + 4 * f(z[:-1] + h / 2) + f(z[1:]))
        self.z = z
        self.dc = np.concatenate([[0], np.cumsum(seg)])
        self.dl = self.dc * (1 + z)
        self.h = h0 * np.sqrt(om * (1 + z) ** 3 + 1 - om)

    def dist(self, kind):
        return {"redshift": self.z, "comoving_distance": self.dc, "luminosity_distance": self.dl}[kind]

    def law(self, kind, lo, hi, rate=None):
        """(distance, cdf, pdf) on the fine grid restricted to [lo, hi]"""
        d = self.dist(kind)
        w = self.dc**2 / self.h
        if rate is not None:
            w = w * rate(self.z)
        dz = self.z[1] - self.z[0]
        # cdf in z by trapezoid, dz measure
        c = np.concatenate([[0], np.cumsum((w[1:] + w[:-1]) / 2 * dz)])
        clo, chi = np.interp(lo, d, c), np.interp(hi, d, c)
        dd = np.gradient(d, dz)
        return d, (c - clo) / (chi - clo), w / dd / (chi - clo)


def piecewise(x, xs, ys):
    """linear interpolation of (xs, ys) at a symbolic x"""
    r = tm.add(float(ys[0]), tm.mul(float((ys[1] - ys[0]) / (xs[1] - xs[0])), tm.sub(x, float(xs[0]))))
    for i in range(1, len(xs) - 1):
        k = float((ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i]))
        seg = tm.add(float(ys[i]), tm.mul(k, tm.sub(x, float(xs[i]))))
        r = tm.ite(tm.le(float(xs[i]), x), seg, r)
    return r


def rate_source(z):
    return 1 / (1 + z)


def rate_power(z):
    return (1 + z) ** 2


RATES = {"source": rate_source, "power": rate_power}


def make_cosmo(kind, lo, hi, grid, zmax, rate=None, h0=None, om=None):
    from ml4gw.distributions import RateEvolution, UniformComovingVolume

    kw = dict(minimum=lo, maximum=hi, distance_type=kind, z_grid_max=zmax, grid_size=grid)
    if h0 is not None:
        kw.update(h0=h0, omega_m=om)
    if rate is None:
        return UniformComovingVolume(**kw)
    return RateEvolution(RATES[rate], **kw)


def comoving(ctx, kind, lo, hi, grid, zmax, rate=None, h0=None, om=None, shape=(1,), method="rsample"):
    d = make_cosmo(kind, lo, hi, grid, zmax, rate, h0, om)
    s = get(ctx, d, shape, method)
    C = Cosmo(zmax, h0 or H0, om or OM)
    xs, cdf, _ = C.law(kind, lo, hi, RATES[rate] if rate else None)
    span = hi - lo
    # never outside the declared interval (beyond the rounding of the grid)
    inside(ctx, s, lo, hi, 2e-3 * span)
    u = draws(ctx)
    ctx.check("one draw per sample", len(u) == len(s))
    # a law truncated to the grid points inside the interval is as good as the
    # grid: the end points may be off by one cell, and between them the
    # distribution function must be affine in the draw
    cell = zmax / (grid - 1)
    z = C.dist(kind)
    zl, zh = np.interp([lo, hi], z, C.z)
    Fz = lambda q: float(np.interp(np.interp(q, C.z, z), xs, cdf))  # noqa
    edge = 1.05 * max(Fz(zl + cell), 1 - Fz(zh - cell))
    knots = np.linspace(lo, hi, 37)
    F = np.interp(knots, xs, cdf)
    fine = 12.0 / grid**2
    ends = extremes(d)
    if ends is None:
        A, B, fine = 0.0, 1.0, edge
    else:
        A, B = (float(np.interp(e, knots, F)) for e in ends)
        ctx.check("ends within a cell of the interval", abs(A) <= edge + fine and abs(1 - B) <= edge + fine)
    for i, (x, v) in enumerate(zip(s, u)):
        v = v if ctx.symbolic else ctx.E.val(v)
        ctx.close(f"cdf(sample) = u [{i}]", piecewise(x, knots, F), tm.add(A, tm.mul(B - A, v)), tol=fine)


def extremes(d):
    """samples for the smallest and (almost) largest draw, if draws come from torch.rand"""
    out = []
    for v in (0.0, 1 - 1e-9):
        with mock.patch.object(torch, "rand", lambda *a, **k: torch.full(tuple(a[0]) if a and not isinstance(a[0], int) else a, v)):  # noqa: B023
            try:
                x = d.rsample((1,))
            except Exception:  # noqa: BLE001
                return None
            if not type(x) is torch.Tensor:
                return None
            out.append(float(x))
    return out


_sh = [None, (2,), (2, 2)]
HARNESSES = [
    Harness("cosine", cosine, [dict(lo=a, hi=b, shape=s) for a, b in ((None, None), (-1.2, 0.7), (0.1, 0.4), (-PI / 2, PI / 2), (-0.5, 0.0)) for s in _sh] + [dict(lo=-1.0, hi=1.0, shape=(3,), method="sample")]),
    Harness("sine", sine, [dict(lo=a, hi=b, shape=s) for a, b in ((None, None), (0.2, 1.1), (1.0, 3.0), (0.0, PI)) for s in _sh] + [dict(lo=1.0, hi=2.0, shape=(3,), method="sample")]),
    Harness("symbolic bounds", cosine_sym, [dict(kind="cosine"), dict(kind="sine")]),
    Harness("loguniform", loguniform, [dict(lo=a, hi=b, shape=s) for a, b in ((0.1, 3.0), (2.0, 500.0), (1e-4, 1e-2)) for s in _sh] + [dict(lo=1.0, hi=10.0, shape=(3,), method="sample")]),
    Harness("powerlaw", powerlaw, [dict(lo=a, hi=b, index=i, shape=(2,)) for i in (-4, -3, -2, -1, 1, 2, 3, -2.5, -1.5, -0.5, 0.5, 1.5, 2.35, -2.35) for a, b in ((1.0, 8.0), (10.0, 1000.0))]
            + [dict(lo=8.0, hi=math.inf, index=i, shape=(2,)) for i in (-4, -3, -2)] + [dict(lo=0.0, hi=5.0, index=2, shape=s) for s in _sh] + [dict(lo=1.0, hi=8.0, index=-1, shape=s) for s in _sh] + [dict(lo=1.0, hi=8.0, index=-4, shape=(2, 1, 2), method="sample")]),
    Harness("powerlaw symbolic bounds", powerlaw_sym, [dict(index=i) for i in (-4, -3, -2, -1, 1, 2, 3)]),
    Harness("lognormal", lognormal, [dict(mean=0.0, std=1.0, shape=s) for s in _sh] + [dict(mean=-1.5, std=0.3, shape=(3,))]),
    Harness("lognormal low", lognormal_low, [dict(low=0.0), dict(low=2.0)]),
    Harness("delta", delta, [dict(shape=s, method=m) for s in _sh for m in ("sample", "rsample")]),
    Harness("comoving volume", comoving, [dict(kind=k, lo=a, hi=b, grid=48, zmax=zm, rate=r) for k, a, b, zm in (("redshift", 0.0, 2.0, 2.0), ("redshift", 0.3, 1.5, 2.0), ("comoving_distance", 1000.0, 3000.0, 1.5), ("luminosity_distance", 2000.0, 9000.0, 1.6)) for r in (None, "source", "power")]
            + [dict(kind="redshift", lo=0.0, hi=1.0, grid=g, zmax=1.0, shape=s) for s, g in ((None, 10), ((2,), 48))] + [dict(kind=k, lo=a, hi=b, grid=48, zmax=z, h0=h, om=o) for k, a, b, z, h, o in (("comoving_distance", 500.0, 3000.0, 1.0, 50.0, 0.5), ("redshift", 0.0, 1.5, 1.5, 70.0, 1.0), ("redshift", 0.2, 2.0, 2.0, 67.66, 0.05), ("luminosity_distance", 300.0, 8000.0, 1.4, 80.0, 0.15))]
            + [dict(kind="redshift", lo=0.0, hi=2.0, grid=48, zmax=4.0)],
            thorough=[dict(kind="luminosity_distance", lo=500.0, hi=9000.0, grid=128, zmax=1.6, rate=r) for r in (None, "source")]),
]
META = {
    "bounds": "draws symbolic in [0,1); angle intervals, log-uniform and power-law bounds listed and (cosine, sine, power law) symbolic; power-law indices -4..3 including fractional ones; comoving-volume laws on grids of 48 (128) redshifts",
    "outside": "float rounding of the draw; grids as fine as the default 10000; LogNormal tails beyond 6 sigma",
}
