"""Log densities: inside the support the log of the declared density, outside
minus infinity; elementwise; argument untouched."""
import math

import numpy as np
import torch

from checks.p01 import Cosmo, H0, OM, PI, RATES, make_cosmo, piecewise
from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"


def evaluate(ctx, d, lo, hi, n=2, fin=True):
    """log densities at n symbolic values strictly inside (lo, hi)"""
    v = ctx.real("v", (n,), lo, hi)
    V = ctx.vals(v).copy()
    m = 1e-6 * (hi - lo)
    for x in V:
        ctx.assume(tm.lt(lo + m, x))
        ctx.assume(tm.lt(x, hi - m))
    o = d.log_prob(v)
    ctx.check("shape", tuple(o.shape) == (n,))
    ctx.close("argument untouched", v, V, tol=0)
    O = ctx.vals(o)
    if not fin:
        return V, O
    for i in range(n):
        ctx.check(f"finite[{i}]", is_finite(ctx, O[i]))
    return V, np.array([finite(x) for x in O], dtype=object)


def finite(x):
    """x with the infinite branches of its case distinctions left out (that they
    are not taken is a separate obligation)"""
    if not isinstance(x, tm.T):
        return x
    if x.op == "ite":
        a, b = x.args[1:]
        if not isinstance(a, tm.T) and not math.isfinite(a):
            return finite(b)
        if not isinstance(b, tm.T) and not math.isfinite(b):
            return finite(a)
        return tm.ite(x.args[0], finite(a), finite(b))
    if x.op == "lin":
        r = x.args[0]
        for a, k in x.args[1]:
            r = tm.add(r, tm.mul(k, finite(a)))
        return r
    return x


def outside(ctx, d, lo, hi, a, b, dens=None):
    """every value in (a, lo) or (hi, b) has density zero; neighbours in the
    batch are unaffected"""
    v = ctx.real("w", (3,), a, b)
    W = ctx.vals(v)
    m = 1e-6 * (hi - lo)
    if a < lo:
        ctx.assume(tm.lt(W[0], lo - m))
    else:
        ctx.assume(tm.lt(hi + m, W[0]))
    ctx.assume(tm.lt(hi + m, W[2]) if b > hi else tm.lt(W[2], lo - m))
    ctx.assume(tm.land(tm.lt(lo + m, W[1]), tm.lt(W[1], hi - m)))
    o = ctx.vals(d.log_prob(v))
    for i in (0, 2):
        ctx.check(f"-inf outside[{i}]", is_minf(ctx, o[i]))
    if dens is not None:
        ctx.close("density inside", tm.exp(o[1]), dens(W[1]), tol=1e-5)
    else:
        ctx.check("finite inside", is_finite(ctx, o[1]))


def is_minf(ctx, x):
    if not isinstance(x, tm.T):
        return x == -math.inf
    if x.op == "ite":
        return tm.ite(x.args[0], is_minf(ctx, x.args[1]), is_minf(ctx, x.args[2]))
    if x.op == "lin":
        r = False
        for a, k in x.args[1]:
            c = is_minf(ctx, a) if k > 0 else False
            r = tm.lor(r, c)
        return r
    if x.op == "uf" and x.args[0] == "log":
        return tm.eq(x.args[1], 0)
    return False


def is_finite(ctx, x):
    if not isinstance(x, tm.T):
        return math.isfinite(x)
    if x.op == "ite":
        return tm.ite(x.args[0], is_finite(ctx, x.args[1]), is_finite(ctx, x.args[2]))
    if x.op == "uf" and x.args[0] == "log":
        return tm.lt(0, x.args[1])
    if x.op == "lin":
        r = True
        for a, k in x.args[1]:
            r = tm.land(r, is_finite(ctx, a))
        return r
    return True


def angle(ctx, kind, lo, hi):
    from ml4gw.distributions import Cosine, Sine

    d = (Cosine if kind == "cosine" else Sine)(lo, hi)
    V, o = evaluate(ctx, d, lo, hi, fin=False)
    f = math.sin if kind == "cosine" else (lambda x: -math.cos(x))
    n = f(hi) - f(lo)
    for i, x in enumerate(V):
        p = tm.cos(x) if kind == "cosine" else tm.sin(x)
        # strictly positive density: compare the exponentials
        ctx.close(f"density[{i}]", tm.exp(o[i]), tm.scale(p, 1 / n) if isinstance(p, tm.T) else p / n, tol=1e-5)


def angle_out(ctx, kind, lo, hi):
    from ml4gw.distributions import Cosine, Sine

    d = (Cosine if kind == "cosine" else Sine)(lo, hi)
    f, g = (math.sin, tm.cos) if kind == "cosine" else (lambda x: -math.cos(x), tm.sin)
    n = f(hi) - f(lo)
    outside(ctx, d, lo, hi, lo - 3, hi + 3, lambda x: tm.div(g(x), n))


def loguniform(ctx, lo, hi):
    from ml4gw.distributions import LogUniform

    V, o = evaluate(ctx, LogUniform(lo, hi), lo, hi)
    for i, x in enumerate(V):
        ctx.close(f"density[{i}]", o[i], tm.sub(-math.log(math.log(hi / lo)), tm.log(x)), tol=1e-5)


def loguniform_out(ctx, lo, hi):
    from ml4gw.distributions import LogUniform

    outside(ctx, LogUniform(lo, hi, validate_args=False), lo, hi, lo / 10, hi * 2)


def powerlaw(ctx, lo, hi, index):
    from ml4gw.distributions import PowerLaw

    top = hi if hi != math.inf else 50.0
    V, o = evaluate(ctx, PowerLaw(lo, hi, index), lo, top)
    p = index + 1
    n = math.log(hi / lo) if p == 0 else ((hi**p if hi != math.inf else 0.0) - lo**p) / p
    for i, x in enumerate(V):
        ctx.close(f"density[{i}]", o[i], tm.sub(tm.mul(index, tm.log(x)), math.log(n)), tol=1e-5)


def powerlaw_out(ctx, lo, hi, index):
    from ml4gw.distributions import PowerLaw

    outside(ctx, PowerLaw(lo, hi, index), lo, hi, lo / 10, hi * 2)


def lognormal(ctx, mean, std):
    from ml4gw.distributions import LogNormal

    V, o = evaluate(ctx, LogNormal(mean, std), 0.1, 10.0)
    for i, x in enumerate(V):
        z = tm.div(tm.sub(tm.log(x), mean), std)
        ctx.close(f"density[{i}]", o[i], tm.sub(tm.scale(tm.mul(z, z), -0.5), tm.add(tm.log(x), math.log(std * math.sqrt(2 * PI)))), tol=1e-5)


def lognormal_novalidate(ctx, mean, std):
    from ml4gw.distributions import LogNormal

    V, o = evaluate(ctx, LogNormal(mean, std, validate_args=False), 0.1, 10.0)
    for i, x in enumerate(V):
        z = tm.div(tm.sub(tm.log(x), mean), std)
        ctx.close(f"density[{i}]", o[i], tm.sub(tm.scale(tm.mul(z, z), -0.5), tm.add(tm.log(x), math.log(std * math.sqrt(2 * PI)))), tol=1e-5)


def comoving(ctx, kind, lo, hi, grid, zmax, rate=None):
    d = make_cosmo(kind, lo, hi, grid, zmax, rate)
    V, o = evaluate(ctx, d, lo, hi, 1)
    C = Cosmo(zmax, H0, OM)
    xs, _, pdf = C.law(kind, lo, hi, RATES[rate] if rate else None)
    knots = np.linspace(lo, hi, 25)
    p = np.interp(knots, xs, pdf)
    top = float(np.max(p))
    for i, x in enumerate(V):
        # the density itself, relative to its maximum
        ctx.close(f"density[{i}]", tm.exp(o[i]), piecewise(x, knots, p), tol=(4.0 / grid + 0.01) * top)


def comoving_out(ctx, kind, lo, hi, grid, zmax, rate=None):
    d = make_cosmo(kind, lo, hi, grid, zmax, rate)
    outside(ctx, d, lo, hi, lo if lo == 0 else lo / 2, hi * 1.5)


_c = [("redshift", 0.0, 2.0, 2.0), ("redshift", 0.3, 1.5, 2.0), ("comoving_distance", 1000.0, 3000.0, 1.5), ("luminosity_distance", 2000.0, 9000.0, 1.6)]
_ang = [("cosine", -1.2, 0.7), ("cosine", 0.1, 0.4), ("cosine", -PI / 2, PI / 2), ("sine", 0.2, 1.1), ("sine", 0.0, PI), ("sine", 1.0, 3.0)]
_pl = [(1.0, 8.0, i) for i in (-4, -3, -2, -1, 1, 2, 3, -2.5, -0.5, 0.5, 2.35)] + [(10.0, 1000.0, i) for i in (2, -1, -4)]
HARNESSES = [
    Harness("angle", angle, [dict(kind=k, lo=a, hi=b) for k, a, b in _ang]),
    Harness("angle outside", angle_out, [dict(kind=k, lo=a, hi=b) for k, a, b in _ang]),
    Harness("loguniform", loguniform, [dict(lo=a, hi=b) for a, b in ((0.1, 3.0), (2.0, 500.0))]),
    Harness("loguniform outside", loguniform_out, [dict(lo=0.1, hi=3.0), dict(lo=2.0, hi=500.0)]),
    Harness("powerlaw", powerlaw, [dict(lo=a, hi=b, index=i) for a, b, i in _pl] + [dict(lo=8.0, hi=math.inf, index=-4)]),
    Harness("powerlaw outside", powerlaw_out, [dict(lo=a, hi=b, index=i) for a, b, i in _pl]),
    Harness("lognormal", lognormal, [dict(mean=0.0, std=1.0)]),
    Harness("lognormal unvalidated", lognormal_novalidate, [dict(mean=0.0, std=1.0), dict(mean=-1.5, std=0.3)]),
    Harness("comoving volume", comoving, [dict(kind=k, lo=a, hi=b, grid=64, zmax=z, rate=r) for k, a, b, z in _c for r in (None, "source", "power")]),
    Harness("comoving outside", comoving_out, [dict(kind=k, lo=a, hi=b, grid=24, zmax=z, rate=r) for k, a, b, z in _c for r in (None, "source")]),
]
META = {
    "bounds": "values symbolic over the whole support (up to 50 when it is unbounded) and over a margin around it; listed laws, indices and bounds; comoving-volume densities on grids of 64 redshifts compared to an independent quadrature",
    "outside": "values exactly on the boundary of the support; zeros of the cosine density closer than 1e-3",
}
