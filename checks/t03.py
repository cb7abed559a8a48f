"""Sampling from waveform banks, projection onto detectors."""
import numpy as np
import torch

from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"


def bank(ctx, n, T, pols, par):
    from ml4gw.transforms import WaveformSampler

    p = {k: ctx.real(k, (n, T)) for k in pols}
    V = {k: ctx.vals(v).copy() for k, v in p.items()}
    q = ctx.real("par", (n, par)) if par else None
    Q = ctx.vals(q).copy() if par else None
    return WaveformSampler(q, **p), p, q, V, Q


def split(out, par):
    return out if par else (out, None)


def whole(ctx, n, T, pols, par):
    """asking for everything returns the bank in order"""
    s, p, q, V, Q = bank(ctx, n, T, pols, par)
    w, r = split(s(-1), par)
    ctx.check("polarizations", list(w) == list(pols))
    for k in pols:
        ctx.check(f"shape {k}", tuple(w[k].shape) == (n, T))
        ctx.close(f"bank {k}", w[k], V[k])
    if par:
        ctx.close("parameters", r, Q)


def draw(ctx, n, T, pols, par, N):
    """each drawn entry: all polarizations and parameters of one bank entry"""
    s, p, q, V, Q = bank(ctx, n, T, pols, par)
    w, r = split(s(N), par)
    W = {k: ctx.vals(v) for k, v in w.items()}
    R = ctx.vals(r) if par else None
    ctx.check("polarizations", list(w) == list(pols))
    for k in pols:
        ctx.check(f"shape {k}", W[k].shape == (N, T))
    if par:
        ctx.check("shape parameters", R.shape == (N, par))
    for i in range(N):
        alts = []
        for j in range(n):
            e = [tm.eq(W[k][i, t], V[k][j, t]) for k in pols for t in range(T)]
            if par:
                e += [tm.eq(R[i, c], Q[j, c]) for c in range(par)]
            alts.append(tm.land(*e))
        ctx.check(f"row {i} is a bank entry", tm.lor(*alts))
        sep = [tm.ge(V[pols[0]][j + 1, 0], tm.add(V[pols[0]][j, 0], 0.1)) for j in range(n - 1)]
        for j in range(n):
            ctx.cover(f"row {i} can be entry {j}", tm.land(*sep, alts[j]))
    for k in pols:
        ctx.close(f"bank untouched {k}", p[k], V[k], tol=0)
    if N > 1:
        for c in ([], [0]):
            sep = [tm.ge(V[pols[0]][j + 1, 0], tm.add(V[pols[0]][j, 0], 0.1)) for j in range(n - 1)]
            e = tm.eq(W[pols[0]][0, 0], W[pols[0]][1, 0])
            ctx.cover("repeats possible" if c else "differing rows", tm.land(*sep, e if c else tm.lnot(e)))


def projector(ctx, ifos, B, T, sr):
    """the observed strain of the given polarizations for the named detectors"""
    from ml4gw.gw import compute_observed_strain, get_ifo_geometry
    from ml4gw.transforms import WaveformProjector

    dec, psi, phi = (torch.tensor(v[:B], dtype=torch.float64) for v in ([0.3, -1.1], [0.7, 2.1], [1.9, -2.4]))
    hp, hc = ctx.real("hp", (B, T)), ctx.real("hc", (B, T))
    P, C = ctx.vals(hp).copy(), ctx.vals(hc).copy()
    t, v = get_ifo_geometry(*ifos)
    a = WaveformProjector(list(ifos), sr)(dec, psi, phi, plus=hp, cross=hc)
    ctx.check("shape", tuple(a.shape) == (B, len(ifos), T))
    ctx.close("plus untouched", hp, P, tol=0)
    ctx.close("cross untouched", hc, C, tol=0)
    A = ctx.vals(a)
    for b in range(B):
        one = slice(b, b + 1)
        for i, name in enumerate(ifos):
            t, v = get_ifo_geometry(name)
            o = compute_observed_strain(dec[one], psi[one], phi[one], t, v, sr, plus=hp[one], cross=hc[one])
            ctx.close(f"{name} element {b}", A[b, i], ctx.vals(o)[0, 0])


def rejects(ctx, case):
    from ml4gw.transforms import WaveformSampler

    d = lambda k, *s: ctx.real(k, s)  # noqa
    fn = {
        "too many": lambda: WaveformSampler(plus=d("p", 3, 2))(4),
        "too many with parameters": lambda: WaveformSampler(d("q", 3, 1), plus=d("p", 3, 2))(5),
        "polarizations": lambda: WaveformSampler(plus=d("p", 3, 2), cross=d("c", 2, 2)),
        "third polarization": lambda: WaveformSampler(plus=d("p", 3, 2), cross=d("c", 3, 2), b=d("b", 4, 2)),
        "parameters": lambda: WaveformSampler(d("q", 2, 1), plus=d("p", 3, 2)),
    }
    ctx.expect_raises(case, ValueError, fn[case])


_b = [dict(n=3, T=2, pols=("plus", "cross"), par=2), dict(n=3, T=2, pols=("plus",), par=0), dict(n=1, T=3, pols=("cross", "plus"), par=1), dict(n=4, T=1, pols=("a", "b", "c"), par=1)]
HARNESSES = [
    Harness("whole bank", whole, _b),
    Harness("draw", draw, [dict(N=k, **b) for b in _b for k in (1, 2, 3) if k <= b["n"]] + [dict(n=2, T=1, pols=("plus",), par=1, N=0)]),
    Harness("projector", projector, [dict(ifos=f, B=b, T=t, sr=sr) for f, b, t, sr in ((("H1", "L1"), 2, 6, 128), (("L1", "V1", "H1"), 2, 5, 64), (("K1",), 1, 8, 256))]),
    Harness("rejects", rejects, [dict(case=c) for c in ("too many", "too many with parameters", "polarizations", "third polarization", "parameters")]),
]
META = {
    "bounds": "banks of 1-4 entries with 1-3 polarizations of 1-3 samples and 0-2 parameters, all contents symbolic; up to 3 draws, every index vector; projection of symbolic polarizations for fixed sky positions and 1-3 detectors (the strain itself is checked by G02)",
    "outside": "larger banks; uniformity of the draw beyond reachability of every entry",
}
