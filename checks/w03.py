"""TaylorF2: the stationary-phase post-Newtonian series and its symmetries."""
import math

import torch

from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"
PI, GAMMA = math.pi, 0.57721566490153286
MTSUN = 4.925490947641266978197229498498379006e-6  # seconds
MPC = 3.085677581491367278913937957796471611e22 / 299792458.0  # seconds
add, sub, mul, div = tm.add, tm.sub, tm.mul, tm.div


def total(*xs):
    r = 0
    for x in xs:
        r = add(r, x)
    return r


def prod(*xs):
    r = 1
    for x in xs:
        r = mul(r, x)
    return r


def series(m1, m2, c1, c2):
    """coefficients of v^k (and v^k log v) of the phase over 3 / (128 eta v^5),
    for aligned spins, from the literature (Blanchet 2014 for point particles;
    Arun et al 2009, Bohe et al 2013 and 2015, Mishra et al 2016 for spins)"""
    M = add(m1, m2)
    a, b = div(m1, M), div(m2, M)
    eta = mul(a, b)
    e2, e3 = mul(eta, eta), prod(eta, eta, eta)
    lin = lambda *cs: total(*[mul(c, p) for c, p in zip(cs, (1, eta, e2, e3))])  # noqa: E731
    bodies = ((a, c1), (b, c2))
    k = {0: 1, 2: lin(3715 / 756, 55 / 9)}
    k[3] = total(-16 * PI, *[prod(m, c, add(25, mul(38 / 3, m))) for m, c in bodies])
    k[4] = total(lin(15293365 / 508032, 27145 / 504, 3085 / 72), prod(-395 / 4, eta, c1, c2), *[prod(-405 / 8, m, m, c, c) for m, c in bodies])
    so = total(*[prod(m, c, total(13915 / 84, mul(m, sub(total(12760 / 81, mul(170 / 9, eta)), mul(10 / 3, sub(1, m)))))) for m, c in bodies])
    k[5] = sub(mul(PI, lin(38645 / 756, -65 / 9)), so)
    L5 = sub(mul(PI, lin(38645 / 252, -65 / 3)), mul(3, so))
    L6 = -6848 / 21
    ss = [prod(c, c, m, m, total(47035 / 84 - 41082.5 / 67.2, mul(2935 / 6 - 1085 / 12, m), mul(-120 + 1255 / 36, prod(m, m)))) for m, c in bodies]
    k[6] = total(
        lin(11583231236531 / 4694215680 - 640 / 3 * PI**2 - 6848 / 21 * (GAMMA + math.log(4)), -15737765635 / 3048192 + 2255 / 12 * PI**2, 76055 / 1728, -127825 / 1296),
        *[prod(PI, m, c, add(1490 / 3, mul(260, m))) for m, c in bodies], prod(eta, c1, c2, lin(32675 / 112, 5575 / 18)), *ss)
    so7 = [prod(m, c, add(lin(-170978035 / 48384, 2876425 / 672, 4735 / 144), mul(m, lin(-7189233785 / 1524096, 458555 / 3024, -5345 / 72)))) for m, c in bodies]
    k[7] = total(mul(PI, lin(77096675 / 254016, 378515 / 1512, -74045 / 756)), *so7)
    return eta, k, {5: L5, 6: L6}


def phase_spec(m1, m2, c1, c2, Mf):
    eta, k, L = series(m1, m2, c1, c2)
    v = tm.power(mul(PI, Mf), 1 / 3)
    lv = tm.log(v)
    s = 0
    for n, c in k.items():
        s = add(s, mul(c, tm.power(v, n - 5)))
    for n, c in L.items():
        s = add(s, prod(c, lv, tm.power(v, n - 5)))
    return mul(s, div(3 / 128, eta))


def bodies(ctx, B, fixed=False):
    if fixed:
        t = lambda a, d: torch.tensor([a + d * i for i in range(B)], dtype=torch.float64)  # noqa: E731
        return t(30.0, -3.5), t(20.0, 1.25), t(0.3, -0.8), t(-0.6, 0.7)
    return ctx.real("m1", (B,), 5, 60), ctx.real("m2", (B,), 2, 40), ctx.real("chi1", (B,), -1, 1), ctx.real("chi2", (B,), -1, 1)


def phase(ctx, B=1, nf=1, spin=True):
    from ml4gw.waveforms import TaylorF2

    m1, m2, c1, c2 = bodies(ctx, B)
    if not spin:
        c1, c2 = c1 * 0, c2 * 0
    Mf = ctx.real("Mf", (B, nf), 0.0005, 0.05)
    P, D = (ctx.vals(v) for v in TaylorF2().taylorf2_phase(Mf, m1, m2, c1, c2))
    ctx.check("shapes", P.shape == (B, nf) and D.shape == (B, nf))
    V = [ctx.vals(v) for v in (m1, m2, c1, c2)]
    F = ctx.vals(Mf)
    for b in range(B):
        for i in range(nf):
            want = phase_spec(*[v[b] for v in V], F[b, i])
            ctx.close(f"phase {b},{i}", P[b, i], want, tol=1e-4)
            if ctx.symbolic:
                ctx.close(f"derivative {b},{i}", D[b, i], tm.diff(P[b, i], F[b, i]), tol=1e-4)
            else:
                h = 1e-6 * F[b, i]
                slope = (phase_spec(*[v[b] for v in V], F[b, i] + h) - phase_spec(*[v[b] for v in V], F[b, i] - h)) / (2 * h)
                ctx.close(f"derivative {b},{i}", D[b, i], slope, tol=1e-4, rel=1e-4)


def swap(ctx, nf):
    """exchanging the bodies changes neither phase nor waveform"""
    from ml4gw.waveforms import TaylorF2

    m1, m2, c1, c2 = bodies(ctx, 1)
    d, p = ctx.real("distance", (1,), 10, 5000), ctx.real("phic", (1,), -7, 7)
    f = ctx.real("f", (nf,), 10, 1000)
    with ctx.whole_angles():
        h = TaylorF2().taylorf2_htilde(f, m1, m2, c1, c2, d, p, 20.0)
        g = TaylorF2().taylorf2_htilde(f, m2, m1, c2, c1, d, p, 20.0)
    ctx.close("exchanged", mul_all(ctx.vals(h)), mul_all(ctx.vals(g)), tol=1e-9)


SCALE = 1e22


def mul_all(a):
    r = a.copy()
    for i in range(r.size):
        re, im = tm.re_im(r.flat[i])
        r.flat[i] = tm.mkcx(mul(SCALE, re), mul(SCALE, im))
    return r


def referenced(T, f, m1, m2, c1, c2, f_ref):
    """phase of each frequency and at the reference frequency"""
    M = m1 + m2
    Psi, _ = T.taylorf2_phase(torch.outer(M * MTSUN, f), m1, m2, c1, c2)
    Ref, _ = T.taylorf2_phase((M * MTSUN * f_ref).unsqueeze(-1), m1, m2, c1, c2)
    return Psi, Ref


def waveform(ctx, B, nf, f_ref=20.0):
    """inclination factors, coalescence phase and reference frequency, per masses and spins"""
    from ml4gw.waveforms import TaylorF2
    from ml4gw.waveforms.conversion import chirp_mass_and_mass_ratio_to_components as components

    T = TaylorF2()
    mc, q, c1, c2 = (torch.tensor([a + d * i for i in range(B)], dtype=torch.float64) for a, d in ((25.0, 3.5), (0.5, 0.25), (0.3, -0.8), (-0.6, 0.7)))
    d, p, inc = ctx.real("distance", (B,), 10, 5000), ctx.real("phic", (B,), -7, 7), ctx.real("inclination", (B,), 0, 3.14159)
    f = ctx.real("f", (nf,), 10, 1000)
    before = [ctx.vals(v).copy() for v in (f, mc, q, c1, c2, d, p, inc)]
    with ctx.whole_angles():
        hc, hp = T(f=f, chirp_mass=mc, mass_ratio=q, chi1=c1, chi2=c2, distance=d, phic=p, inclination=inc, f_ref=f_ref, unused=1)
        Psi, Ref = referenced(T, f, *components(mc, q), c1, c2, f_ref)
        HC, HP, Psi, Ref = (ctx.vals(v).copy() for v in (hc, hp, Psi, Ref))
        F, MC, Q, _, _, D, P, I = before  # noqa: E741
        ctx.check("shapes", HC.shape == (B, nf) and HP.shape == (B, nf))
        for b in range(B):
            for i in range(nf):
                A = amplitude(MC[b], F[i], D[b])
                a = sub(sub(Psi[b, i], Ref[b, 0]), add(mul(2, P[b]), PI / 4))
                re, im = neg(tm.cos(a)), tm.sin(a)
                x = tm.cos(I[b])
                plus = div(add(1, mul(x, x)), 2)
                gp, gc = tm.re_im(HP[b, i]), tm.re_im(HC[b, i])
                for name, got, want in (("plus re", gp[0], mul(plus, re)), ("plus im", gp[1], mul(plus, im)), ("cross re", gc[0], mul(x, im)), ("cross im", gc[1], neg(mul(x, re)))):
                    ctx.close(f"{name} {b},{i}", div(got, A), want, tol=1e-6)
        for n, v, o in zip("f mc q chi1 chi2 d phic inc".split(), (f, mc, q, c1, c2, d, p, inc), before):
            ctx.close(f"{n} untouched", v, o, tol=0)


def amplitude(mc, f, d):
    return prod(math.sqrt(5 * PI / 24), tm.power(mul(mc, MTSUN), 5 / 6), tm.power(mul(PI, f), -7 / 6), div(1, mul(d, MPC)))


def components(ctx, B, nf, f_ref=20.0):
    """the same from free component masses, before inclination"""
    from ml4gw.waveforms import TaylorF2

    T = TaylorF2()
    m1, m2, c1, c2 = bodies(ctx, B)
    d, p = ctx.real("distance", (B,), 10, 5000), ctx.real("phic", (B,), -7, 7)
    f = ctx.real("f", (nf,), 10, 1000)
    with ctx.whole_angles():
        h = ctx.vals(T.taylorf2_htilde(f, m1, m2, c1, c2, d, p, f_ref))
        Psi, Ref = (ctx.vals(v) for v in referenced(T, f, m1, m2, c1, c2, f_ref))
        M1, M2, F, D, P = (ctx.vals(v) for v in (m1, m2, f, d, p))
        for b in range(B):
            mc = tm.mul(tm.power(mul(M1[b], M2[b]), 3 / 5), tm.power(add(M1[b], M2[b]), -1 / 5))
            for i in range(nf):
                A = amplitude(mc, F[i], D[b])
                a = sub(sub(Psi[b, i], Ref[b, 0]), add(mul(2, P[b]), PI / 4))
                re, im = tm.re_im(h[b, i])
                ctx.close(f"re {b},{i}", div(re, A), neg(tm.cos(a)), tol=1e-6)
                ctx.close(f"im {b},{i}", div(im, A), tm.sin(a), tol=1e-6)


def power(ctx, B, nf):
    """modulus of both polarisations for free chirp mass and mass ratio"""
    from ml4gw.waveforms import TaylorF2

    mc, q = ctx.real("chirp_mass", (B,), 2, 60), ctx.real("mass_ratio", (B,), 0.1, 1)
    c1, c2 = ctx.real("chi1", (B,), -1, 1), ctx.real("chi2", (B,), -1, 1)
    d, p, inc = ctx.real("distance", (B,), 10, 5000), ctx.real("phic", (B,), -7, 7), ctx.real("inclination", (B,), 0, 3.14159)
    f = ctx.real("f", (nf,), 10, 1000)
    with ctx.whole_angles():
        hc, hp = (ctx.vals(v) for v in TaylorF2()(f, mc, q, c1, c2, d, p, inc, 20.0))
        F, MC, D, I = (ctx.vals(v) for v in (f, mc, d, inc))  # noqa: E741
        for b in range(B):
            x = tm.cos(I[b])
            plus = div(add(1, mul(x, x)), 2)
            for i in range(nf):
                A = amplitude(MC[b], F[i], D[b])
                for name, got, want in (("plus", hp, plus), ("cross", hc, x)):
                    re, im = (div(v, A) for v in tm.re_im(got[b, i]))
                    ctx.close(f"{name} {b},{i}", add(mul(re, re), mul(im, im)), mul(want, want), tol=1e-6)


def neg(x):
    return mul(-1, x)


def rejects(ctx, which):
    from ml4gw.waveforms import TaylorF2

    one = lambda x: torch.tensor([x], dtype=torch.float64)  # noqa: E731
    p = dict(chirp_mass=one(20.0), mass_ratio=one(0.7), chi1=one(0.1), chi2=one(0.2), distance=one(100.0), phic=one(0.0), inclination=one(0.3))
    p[which] = torch.cat([p[which], p[which]])
    ctx.expect_raises("batch sizes differ", ValueError, lambda: TaylorF2()(f=torch.linspace(20, 30, 3), f_ref=20.0, **p))


HARNESSES = [
    Harness("phase series", phase, [dict(), dict(spin=False), dict(B=2, nf=2)]),
    Harness("exchange", swap, [dict(nf=1), dict(nf=2)]),
    Harness("waveform", waveform, [dict(B=1, nf=1), dict(B=1, nf=2), dict(B=2, nf=2), dict(B=1, nf=1, f_ref=40.0)]),
    Harness("component masses", components, [dict(B=1, nf=1), dict(B=2, nf=2), dict(B=1, nf=1, f_ref=55.0)]),
    Harness("modulus", power, [dict(B=1, nf=1)], thorough=[dict(B=2, nf=2)]),
    Harness("batch sizes", rejects, [dict(which=w) for w in ("chirp_mass", "mass_ratio", "chi1", "chi2", "distance", "phic", "inclination")]),
]
META = dict(
    functions=["ml4gw.waveforms.TaylorF2.{forward,taylorf2_htilde,taylorf2_amplitude,taylorf2_phase}", "ml4gw.waveforms.conversion.chirp_mass_and_mass_ratio_to_components"],
    bounds="component masses 5 to 60 and 2 to 40, all aligned spins, total mass times frequency 0.0005 to 0.05, frequencies 10 to 1000, distances 10 to 5000, coalescence phases up to 7, inclinations 0 to pi, all symbolic; "
    "polarization phases from chirp mass and mass ratio at listed masses, from component masses and their modulus for all masses; batches and frequencies up to 2 x 2; reference frequencies 20, 40, 55",
    outside=["floating-point rounding, single precision in particular", "the phase polynomial is compared with the literature coefficients, not with general relativity"],
    assumptions=["sums inside sine and cosine are one opaque angle, split only at the coalescence phase", "constants that differ by rounding are taken as equal"],
)
