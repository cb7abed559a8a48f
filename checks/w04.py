"""IMRPhenomD: junctions, analytic derivatives, scalings, batches."""
import math

import numpy as np
import torch

from checks.phenom_fits import FITS
from checks.w03 import MPC, MTSUN, PI, add, amplitude, div, mul, neg, prod, sub, total
from symx import term as tm
from symx.driver import Harness

power = tm.power

LEVEL = "model_checking"
F_INS, A_INS = 0.018, 0.014  # ends of the inspiral for phase and amplitude


def model():
    from checks.n04 import concretely
    from ml4gw.waveforms import IMRPhenomD

    with concretely():
        return IMRPhenomD()


def real(z):
    return tm.re_im(z)[0]


def imag(z):
    return tm.re_im(z)[1]


def close_limit(ctx, name, at, beyond, x, point, tol, rel=0):
    """value at a junction against the limit of the next region's formula"""
    if ctx.symbolic:
        beyond = tm.subst(beyond, x, point)
    ctx.close(name, at, beyond, tol=tol, rel=rel)


# ---- phase


class Phase:
    """free coefficients: masses, mass ratio, spins and ringdown are unrelated
    symbols, which contains every physical combination"""

    def __init__(self, ctx, B=1):
        self.T = model()
        self.m1, self.m2 = ctx.real("m1", (B,), 5, 60), ctx.real("m2", (B,), 2, 40)
        self.eta, self.xi = ctx.real("eta", (B,), 0.05, 0.25), ctx.real("xi", (B,), -2, 0)
        self.c1, self.c2 = ctx.real("chi1", (B,), -1, 1), ctx.real("chi2", (B,), -1, 1)
        self.rd, self.dm = ctx.real("ringdown", (B,), 0.06, 0.15), ctx.real("damping", (B,), 0.008, 0.03)

    def __call__(self, Mf):
        return self.T.phenom_d_phase(Mf, self.m1, self.m2, self.eta, self.eta * self.eta, self.c1, self.c2, self.xi, self.rd, self.dm)


REGIONS = {"inspiral": (0.002, F_INS), "intermediate": (0.0181, 0.0299), "ringdown": (0.0751, 0.3)}


def phase_derivative(ctx, region):
    """the derivative returned is that of the phase returned"""
    P = Phase(ctx)
    if region == "ringdown":
        # any values of the fits, not only those the fitting polynomials reach
        for i, r in enumerate(((0, 400), (-1, 1), (-200, 200), (-100, 100), (0.9, 1.1)), 1):
            setattr(P.T, f"alpha{i}Fit", lambda *_, v=ctx.real(f"alpha{i}", (1,), *r): v)
    Mf = ctx.real("Mf", (1, 1), *REGIONS[region])
    p, d = P(Mf)
    x, p, d = (ctx.vals(v)[0, 0] for v in (Mf, p, d))
    if ctx.symbolic:
        want = tm.diff(p, x)
    else:
        h = 1e-5 * x
        a, b = (float(ctx.vals(P(Mf + s * h)[0])[0, 0]) for s in (1, -1))
        want = (a - b) / (2 * h)
    ctx.close("derivative", d, want, tol=1e-3, rel=1e-6 if ctx.symbolic else 1e-4)


def phase_junction(ctx, which):
    """phase and derivative meet at the ends of the intermediate region"""
    P = Phase(ctx)
    if which == "inspiral":
        at = torch.full((1, 1), F_INS, dtype=torch.float64)
        region = REGIONS["intermediate"]
        point = F_INS
    else:
        at = 0.5 * P.rd.unsqueeze(-1)
        region = REGIONS["ringdown"]
        point = ctx.vals(at)[0, 0]
    x = ctx.real("Mf", (1, 1), *region) if ctx.symbolic else at * (1 + 1e-9)
    (p0, d0), (p1, d1) = P(at), P(x)
    p0, d0, p1, d1, x = (ctx.vals(v)[0, 0] for v in (p0, d0, p1, d1, x))
    close_limit(ctx, "phase", p0, p1, x, point, 1e-3, 0 if ctx.symbolic else 1e-4)
    close_limit(ctx, "derivative", d0, d1, x, point, 1e-2, 0 if ctx.symbolic else 1e-4)
    if ctx.symbolic:
        close_limit(ctx, "slope", d0, tm.diff(p1, x), x, point, 1e-2)


# ---- amplitude


def collocation(ctx):
    """the intermediate amplitude's quartic takes its five collocation values"""
    f1, f2, f3 = ctx.real("f1", (), 0.01, 0.02), ctx.real("f2", (), 0.03, 0.06), ctx.real("f3", (), 0.08, 0.2)
    v = [ctx.real(f"v{i}", (), 0, 2) for i in range(3)]
    d1, d2 = ctx.real("d1", (), -50, 50), ctx.real("d2", (), -50, 50)
    delta = model().delta_values(f1=f1, f2=f2, f3=f3, v1=v[0], v2=v[1], v3=v[2], d1=d1, d2=d2)
    f1, f2, f3, d1, d2, *w = (ctx.vals(t)[()] for t in (f1, f2, f3, d1, d2, *v))
    delta = [ctx.vals(t)[()] for t in delta]
    # compared after multiplying by the common denominator
    unit = prod(*[sub(f1, f2)] * 2, *[sub(f1, f3)] * 3, *[sub(f3, f2)] * 2)
    delta = [mul(unit, t) for t in delta]

    def poly(x):
        return total(*[mul(t, tm.power(x, i)) if i else t for i, t in enumerate(delta)])

    def slope(x):
        return total(*[mul(mul(i, t), tm.power(x, i - 1)) if i > 1 else t for i, t in enumerate(delta) if i])

    for name, got, want in (
        ("left value", poly(f1), w[0]), ("middle value", poly(f2), w[1]), ("right value", poly(f3), w[2]),
        ("left slope", slope(f1), d1), ("right slope", slope(f3), d2),
    ):
        ctx.close(name, mul(1e9, got), mul(1e9, mul(unit, want)), tol=1e-3)


class Amplitude:
    def __init__(self, ctx, peak=None):
        self.T = model()
        self.eta, self.xi = ctx.real("eta", (1,), 0.05, 0.25), ctx.real("xi", (1,), -2, 0)
        self.s = ctx.real("mass difference", (1,), 0, 0.9)
        self.c1, self.c2 = ctx.real("chi1", (1,), -1, 1), ctx.real("chi2", (1,), -1, 1)
        self.rd, self.dm = ctx.real("ringdown", (1,), 0.06, 0.15), ctx.real("damping", (1,), 0.012, 0.03)
        self.g = [ctx.real(f"gamma{i}", (1,), *r) for i, r in ((1, (0.005, 0.05)), (2, (0.7, 1.3)), (3, (1, 1.5)))]
        self.peak = torch.tensor([peak], dtype=torch.float64) if peak else ctx.real("peak", (1,), 0.05, 0.15)

    def __call__(self, Mf):
        e, c1, c2 = self.eta, self.c1, self.c2
        return self.T.phenom_d_amp(Mf, e, e * e, self.s, c1, c2, c1 * c1, c2 * c2, self.xi, self.rd, self.dm, *self.g, self.peak)


def amplitude_derivative(ctx, lo, hi, peak):
    A = Amplitude(ctx, peak)
    Mf = ctx.real("Mf", (1, 1), lo, hi)
    a, d = A(Mf)
    x, a, d = (ctx.vals(v)[0, 0] for v in (Mf, a, d))
    if ctx.symbolic:
        want = tm.diff(a, x)
    else:
        h = 1e-5 * x
        p, q = (float(ctx.vals(A(Mf + s * h)[0])[0, 0]) for s in (1, -1))
        want = (p - q) / (2 * h)
    ctx.close("derivative", d, want, tol=1e-4, rel=0 if ctx.symbolic else 1e-3)


def amplitude_junction(ctx, which, peak):
    A = Amplitude(ctx, peak)
    point = A_INS if which == "inspiral" else peak
    at = torch.full((1, 1), point, dtype=torch.float64)
    region = (A_INS * 1.01, peak * 0.99) if which == "inspiral" else (peak * 1.01, 0.3)
    x = ctx.real("Mf", (1, 1), *region) if ctx.symbolic else at * (1 + 1e-9)
    (a0, d0), (a1, d1) = A(at), A(x)
    a0, d0, a1, d1, x = (ctx.vals(v)[0, 0] for v in (a0, d0, a1, d1, x))
    rel = 0 if ctx.symbolic else 1e-4
    close_limit(ctx, "amplitude", a0, a1, x, point, 1e-4, rel)
    close_limit(ctx, "derivative", d0, d1, x, point, 1e-3, rel)
    if ctx.symbolic:
        close_limit(ctx, "slope", d0, tm.diff(a1, x), x, point, 1e-3)


def middle(ctx, peak):
    """half way to the peak the amplitude is the fitted collocation value"""
    A = Amplitude(ctx, peak)
    a, _ = A(torch.full((1, 1), 0.5 * (A_INS + peak), dtype=torch.float64))
    ctx.close("middle", a, A.T.AmpIntColFitCoeff(A.eta, A.eta * A.eta, A.xi).unsqueeze(-1), tol=1e-4)


def peak(ctx, gamma2):
    """the junction with the ringdown is the maximum of the ringdown amplitude"""
    T = model()
    lo, hi = gamma2
    rd, dm = ctx.real("ringdown", (1,), 0.06, 0.15), ctx.real("damping", (1,), 0.008, 0.03)
    g1, g2, g3 = ctx.real("gamma1", (1,), 0.001, 0.1), ctx.real("gamma2", (1,), lo, hi), ctx.real("gamma3", (1,), 0.5, 1.4)
    f = T.fmaxCalc(rd, dm, g2, g3)
    r, d, a, b, c, p = (ctx.vals(v)[0] for v in (rd, dm, g1, g2, g3, f))
    w = mul(d, c)
    if hi < 1:
        _, slope = T.phenom_d_mrd_amp(f.unsqueeze(-1), rd, dm, g1, g2, g3)
        # slope * exp(gamma2 (f - fRD) / w) * Lorentzian^2, in units of gamma1 w^2 with (f - fRD) = w y
        y = div(sub(p, r), w)
        e = tm.exp(mul(b, y))
        L = add(1, mul(y, y))
        s = prod(ctx.vals(slope)[0, 0], e, L, L, div(mul(w, w), a))
        ctx.close("no slope at the peak", s, 0, tol=1e-6)
        ctx.close("stationary", add(mul(b, L), mul(2, y)), 0, tol=1e-6)
    else:
        ctx.close("no maximum", p, tm.absv(sub(r, div(w, b))), tol=1e-9)


# ---- fits


def fits(ctx, names):
    """phenomenological coefficients are the published functions of the mass
    ratio and effective spin"""
    T = model()
    eta, xi = ctx.real("eta", (1,), 0.02, 0.25), ctx.real("xi", (1,), -2, 0)
    e, x = ctx.vals(eta)[0], ctx.vals(xi)[0]
    for name in names:
        c = FITS[name]
        want = [c[0], mul(c[1], e)]
        for k in range(3):
            want += [mul(tm.power(x, k + 1), add(c[2 + 3 * k], add(mul(c[3 + 3 * k], e), mul(c[4 + 3 * k], mul(e, e)))))]
        got = ctx.vals(getattr(T, name)(eta, eta * eta, xi))[0]
        ctx.close(name, mul(1 / abs(c[0]), got), mul(1 / abs(c[0]), total(*want)), tol=1e-7)


# ---- final state


def remnant(ctx):
    """spin and radiated energy of the remnant of a binary of mass difference
    delta = (m1 - m2) / M"""
    T = model()
    delta = ctx.real("delta", (1,), 0.0, 0.95)
    c1, c2 = ctx.real("chi1", (1,), -1, 1), ctx.real("chi2", (1,), -1, 1)
    d, a, b = (ctx.vals(v)[0] for v in (delta, c1, c2))
    eta = (1 - delta * delta) / 4
    e = ctx.vals(eta)[0]
    u, v = power(mul(0.5, add(1, d)), 2), power(mul(0.5, sub(1, d)), 2)
    S = add(mul(u, a), mul(v, b))

    def poly(x, *c):
        return total(*[mul(k, power(x, i)) if i else k for i, k in enumerate(c)])

    want = total(
        mul(e, poly(e, 3.4641016151377544, -4.399247300629289, 9.397292189321194, -13.180949901606242)),
        S,
        prod(e, S, poly(e, -0.0850917821418767, -5.837029316602263)),
        prod(e, S, S, poly(e, 0.1014665242971878, -2.0967746996832157)),
        prod(e, S, S, S, poly(e, -1.3546806617824356, 4.108962025369336)),
        prod(e, S, S, S, S, poly(e, -0.8676969352555539, 2.064046835273906)),
    )
    ctx.close("spin", T.FinalSpin0815(eta, eta * eta, c1, c2), [want], tol=1e-7)
    s = div(S, add(u, v))
    n = add(1, mul(s, poly(e, -0.0030302335878845507, -2.0066110851351073, 7.7050567802399215)))
    den = add(1, mul(s, poly(e, -0.6714403054720589, -1.4756929437702908, 7.304676214885011)))
    f = mul(e, poly(e, 0.055974469826360077, 0.5809510763115132, -0.9606726679372312, 3.352411249771192))
    got = ctx.vals(T.PhenomInternal_EradRational0815(eta, eta * eta, c1, c2))[0]
    ctx.close("radiated energy", got, prod(f, n, div(1, den)), tol=1e-7)


def ringdown_frequency(ctx):
    """tabulated frequencies at the remnant's spin, in units of the mass that
    remains after radiation"""
    T = model()
    eta = ctx.real("eta", (1,), 0.05, 0.25)
    c1, c2 = ctx.real("chi1", (1,), -0.9, 0.9), ctx.real("chi2", (1,), -0.9, 0.9)
    table = ctx.real("table", (2,), 0.01, 0.2)
    seen = []
    setattr(T, "_linear_interp_finspin", lambda s: (seen.append(s), (table[:1].clone(), table[1:].clone()))[1])
    try:
        rd, dm = T.fring_fdamp(eta, eta * eta, c1, c2)
    except Exception:
        if seen:
            raise
    if not seen:  # the table is read in another way: nothing to say here
        return
    E = ctx.vals(T.PhenomInternal_EradRational0815(eta, eta * eta, c1, c2))[0]
    for i, (name, v) in enumerate((("ringdown", rd), ("damping", dm))):
        ctx.close(name, mul(ctx.vals(v)[0], sub(1, E)), ctx.vals(table)[i], tol=1e-8)
    ctx.close("spin", seen[0], T.FinalSpin0815(eta, eta * eta, c1, c2), tol=1e-8)


def ringdown_table(ctx, i):
    """linear in each cell of the table of quasi-normal frequencies"""
    T = model()
    A, R, D = (getattr(T, f"qnmdata_{k}").double() for k in ("a", "fring", "fdamp"))
    if i is None:
        for name, v in (("low", float(A[0]) - 1e-3), ("high", float(A[-1]) + 1e-3)):
            ctx.expect_raises(name, RuntimeError, lambda: T._linear_interp_finspin(torch.tensor([v, 0.1], dtype=A.dtype)))
        return
    lo, hi = float(A[i]), float(A[i + 1])
    a = ctx.real("spin", (2,), lo, hi)
    r, d = T._linear_interp_finspin(a)
    for k in range(2):
        t = div(sub(ctx.vals(a)[k], lo), hi - lo)
        for name, got, tab in (("ringdown", r, R), ("damping", d, D)):
            ctx.close(f"{name} {k}", ctx.vals(got)[k], add(mul(sub(1, t), float(tab[i])), mul(t, float(tab[i + 1]))), tol=2e-10)


# ---- waveform

BINARIES = {
    "heavy": dict(chirp_mass=30.0, mass_ratio=0.8, chi1=0.4, chi2=-0.3),
    "light": dict(chirp_mass=8.0, mass_ratio=0.35, chi1=-0.6, chi2=0.1),
    "equal": dict(chirp_mass=20.0, mass_ratio=1.0, chi1=0.0, chi2=0.0),
}
# ranges of M f between the junctions
F = {"inspiral": (0.006, 0.0139), "early": (0.0141, 0.0179), "intermediate": (0.0181, 0.036), "merger": (0.046, 0.062), "late": (0.13, 0.25)}


def waveform(ctx, binaries, freqs, f_ref):
    """distance, phase and inclination of every sample, element by element"""
    T = model()
    n = len(binaries)
    par = {k: torch.tensor([BINARIES[b][k] for b in binaries], dtype=torch.float64) for k in BINARIES["heavy"]}
    d, ph, inc = ctx.real("distance", (n,), 10, 5000), ctx.real("phic", (n,), -7, 7), ctx.real("inclination", (n,), 0, 3.14159)
    f = torch.tensor(freqs, dtype=torch.float64)
    sent = dict(par, distance=d, phic=ph, inclination=inc)
    before = {k: ctx.vals(v).copy() for k, v in sent.items()}
    hc, hp = T(f, f_ref=f_ref, **sent)
    for k in sent:
        ctx.close(f"{k} untouched", sent[k], before[k], tol=0)
    ctx.check("shape", hc.shape == (n, len(freqs)) and hp.shape == (n, len(freqs)))
    # optimally oriented at 1 Mpc with no phase, one binary at a time
    for b, name in enumerate(binaries):
        one = {k: torch.tensor([v], dtype=torch.float64) for k, v in BINARIES[name].items()}
        ones, zero = torch.ones(1, dtype=torch.float64), torch.zeros(1, dtype=torch.float64)
        _, base = T(f, distance=ones, phic=zero, inclination=zero, f_ref=f_ref, **one)
        _, ref = T(torch.tensor([f_ref], dtype=torch.float64), distance=ones, phic=zero, inclination=zero, f_ref=f_ref, **one)
        r = complex(ref[0, 0])
        ctx.check(f"phase zero at the reference {b}", abs(r.imag) <= 1e-9 * abs(r) and r.real > 0)
        D, P, x = before["distance"][b], before["phic"][b], tm.cos(before["inclination"][b])
        c, s = tm.cos(mul(2, P)), tm.sin(mul(2, P))
        for i in range(len(freqs)):
            h = complex(base[0, i])
            ctx.check(f"signal {b},{i}", abs(h) > 0 and math.isfinite(abs(h)))
            u = h / abs(h)
            re, im = sub(mul(u.real, c), mul(u.imag, s)), add(mul(u.real, s), mul(u.imag, c))
            plus, cross = ctx.vals(hp)[b, i], ctx.vals(hc)[b, i]
            k = mul(D, 1 / abs(h))
            half = mul(0.5, add(1, mul(x, x)))
            ctx.close(f"plus real {b},{i}", mul(k, real(plus)), mul(half, re), tol=1e-6)
            ctx.close(f"plus imaginary {b},{i}", mul(k, imag(plus)), mul(half, im), tol=1e-6)
            ctx.close(f"cross real {b},{i}", mul(k, real(cross)), mul(x, im), tol=1e-6)
            ctx.close(f"cross imaginary {b},{i}", mul(k, imag(cross)), mul(-1, mul(x, re)), tol=1e-6)


def composition(ctx, binary, region, f_ref):
    """modulus and phase of a sample at any frequency of a region from the
    amplitude and phase functions"""
    T = model()
    p = {k: torch.tensor([v], dtype=torch.float64) for k, v in BINARIES[binary].items()}
    one = torch.ones(1, dtype=torch.float64)
    q = p["mass_ratio"]
    M = p["chirp_mass"] * (1 + q) ** 1.2 / q**0.6
    Ms = M * MTSUN
    lo, hi = (x / float(Ms) for x in F[region])
    f = ctx.real("f", (1,), lo, hi)
    _, hp = T(f, distance=one * 100, phic=one * 0, inclination=one * 0, f_ref=f_ref, **p)
    h = ctx.vals(hp)[0, 0]
    m1 = M / (1 + q)
    m2 = m1 * q
    eta = (p["chirp_mass"] / M) ** (5 / 3)
    c1, c2 = p["chi1"], p["chi2"]
    S = torch.sqrt(torch.clamp(1 - 4 * eta, min=0))
    xi = -1 + 0.5 * ((c1 + c2) * (1 - eta * 76 / 113) + S * (c1 - c2))
    g = [getattr(T, f"gamma{i}_fun")(eta, eta * eta, xi) for i in (1, 2, 3)]
    rd, dm = T.fring_fdamp(eta, eta * eta, c1, c2)
    peak = T.fmaxCalc(rd, dm, g[1], g[2])
    t0 = float(T.phenom_d_mrd_phase(peak, eta, eta * eta, c1, c2, xi, rd, dm)[1][0])
    Mf = torch.outer(Ms, f)

    def phi(x):
        return T.phenom_d_phase(x, m1, m2, eta, eta * eta, c1, c2, xi, rd, dm)[0]

    a = ctx.vals(T.phenom_d_amp(Mf, eta, eta * eta, S, c1, c2, c1 * c1, c2 * c2, xi, rd, dm, *g, peak)[0])[0, 0]
    F0 = ctx.vals(f)[0]
    x = mul(float(Ms), F0)
    psi = sub(sub(ctx.vals(phi(Mf))[0, 0], float(phi(Ms.reshape(1, 1) * f_ref))), mul(t0, sub(x, float(Ms) * f_ref)))
    # Newtonian amplitude sqrt(5 pi eta / 24) M^2 (pi M f)^(-7/6) / d
    A0 = math.sqrt(5 * PI * float(eta) / 24) * float(Ms) ** 2 * PI ** (-7 / 6) / (100 * MPC)
    unit = 1 / (A0 * F[region][0] ** (-7 / 6))
    A = prod(A0 * unit, tm.power(x, -7 / 6), a)
    ctx.close("real", mul(unit, real(h)), mul(A, tm.cos(psi)), tol=1e-5)
    ctx.close("imaginary", mul(unit, imag(h)), neg(mul(A, tm.sin(psi))), tol=1e-5)


def batches(ctx):
    T = model()
    p = {k: torch.tensor([v, v], dtype=torch.float64) for k, v in BINARIES["heavy"].items()}
    p.update({k: torch.ones(2, dtype=torch.float64) for k in ("distance", "phic", "inclination")})
    f = torch.tensor([20.0, 40.0], dtype=torch.float64)
    i = ctx.choice("field", list(range(7)))
    k = list(p)[i]
    ctx.expect_raises("batch sizes", ValueError, lambda: T(f, f_ref=20.0, **{**p, k: torch.ones(3, dtype=torch.float64)}))


HARNESSES = [
    Harness("phase derivative", phase_derivative, [dict(region=r) for r in REGIONS]),
    Harness("phase junction", phase_junction, [dict(which=w) for w in ("inspiral", "ringdown")]),
    Harness("collocation", collocation, [dict()]),
    Harness("amplitude derivative", amplitude_derivative, [
        dict(lo=0.002, hi=A_INS, peak=0.08), dict(lo=0.0141, hi=0.0799, peak=0.08), dict(lo=0.0801, hi=0.3, peak=0.08), dict(lo=0.07, hi=0.1, peak=0.0625),
    ]),
    Harness("amplitude junction", amplitude_junction, [dict(which=w, peak=p) for w in ("inspiral", "ringdown") for p in (0.0625, 0.09)]),
    Harness("middle", middle, [dict(peak=p) for p in (0.0625, 0.09)]),
    Harness("peak", peak, [dict(gamma2=(0.2, 0.99)), dict(gamma2=(1.001, 2))]),
    Harness("fits", fits, [dict(names=list(FITS)[i::4]) for i in range(4)]),
    Harness("remnant", remnant, [dict()]),
    Harness("ringdown frequency", ringdown_frequency, [dict()]),
    Harness("ringdown table", ringdown_table, [dict(i=i) for i in (0, 1, 250, 499, None)]),
    Harness("waveform", waveform, [
        dict(binaries=["heavy"], freqs=[20.0, 60.0, 150.0], f_ref=20.0),
        dict(binaries=["light", "equal"], freqs=[30.0, 100.0], f_ref=40.0),
    ]),
    Harness("composition", composition, [dict(binary=b, region=r, f_ref=f) for b, f in (("heavy", 20.0), ("equal", 50.0)) for r in F]),
    Harness("batches", batches, [dict()]),
]
META = dict(
    functions=["IMRPhenomD.forward", "phenom_d_htilde", "phenom_d_phase (and its regions, subtract3PNSS, taylorf2_phase)", "phenom_d_amp (and its regions)", "delta_values", "fmaxCalc", "_linear_interp_finspin", "fring_fdamp", "FinalSpin0815", "PhenomInternal_EradRational0815", "every *Fit and *_fun coefficient"],
    bounds="phase and amplitude functions for every symmetric mass ratio in [0.05, 0.25], reduced spin in [-2, 0], spins in [-1, 1], ringdown 0.06..0.15, damping 0.008..0.03 and (amplitude) mass difference, gamma1..3 taken as unrelated symbols, which contains every physical combination; frequency symbolic inside each region, junctions as limits by substitution; amplitude peak listed (two values); quartic through any collocation points, values and slopes; fits as polynomials for every mass ratio and spin; remnant for every mass difference in [0, 0.95] and spins; quasi-normal table in listed cells with every spin inside; complete waveforms for three listed binaries (two at a time) with symbolic distance, phase and inclination, and with symbolic frequency inside each region",
    outside=["float rounding", "cells of the quasi-normal table other than the listed ones", "samples where the frequency equals a junction exactly other than the junctions listed", "the published coefficients of the inspiral amplitude (their derivative and junction are checked)", "time alignment beyond the slope of the ringdown phase at the peak, which is LAL's convention"],
    assumptions=["differentiation of the encoded terms is symbolic (symx.term.diff)"],
)
