"""IIR filtering forwards and backwards."""
import numpy as np
import torch

from checks import spec
from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"

DESIGNS = {
    "butter band": dict(N=2, Wn=[0.2, 0.5]),
    "butter low fs": dict(N=3, Wn=30.0, btype="low", fs=256),
    "butter high tensor": dict(N=2, Wn=torch.tensor(0.3, dtype=torch.float64), btype="highpass"),
    "butter stop": dict(N=1, Wn=[0.3, 0.6], btype="bandstop"),
    "cheby1": dict(N=3, Wn=0.4, rp=0.5, btype="low", ftype="cheby1"),
    "cheby1 tensor": dict(N=2, Wn=torch.tensor([40.0, 90.0]), rp=torch.tensor(1.0), ftype="cheby1", fs=512),
    "cheby2": dict(N=3, Wn=0.4, rs=20, btype="high", ftype="cheby2"),
    "ellip": dict(N=2, Wn=0.35, rs=30, rp=1, btype="lowpass", ftype="ellip"),
    "ellip tensor": dict(N=2, Wn=torch.tensor([0.2, 0.6]), rs=torch.tensor(35.0), rp=torch.tensor(2.0), ftype="ellip"),
    "bessel": dict(N=2, Wn=0.25, btype="low", ftype="bessel"),
}


def design(k):
    """coefficients from scipy's pole-zero design of the same filter"""
    from scipy.signal import iirfilter

    d = {a: (v.tolist() if isinstance(v, torch.Tensor) else v) for a, v in DESIGNS[k].items()}
    n, w = d.pop("N"), d.pop("Wn")
    z, p, g = iirfilter(n, w, output="zpk", **{"btype": "band", **d})
    return np.real(g * np.poly(z)), np.real(np.poly(p))


def recur(b, a, x):
    y = []
    for t in range(len(x)):
        y.append(tm.lincomb([(b[k] / a[0], x[t - k]) for k in range(len(b)) if k <= t] + [(-a[k] / a[0], y[t - k]) for k in range(1, len(a)) if k <= t]))
    return y


def both(b, a, x):
    return recur(b, a, recur(b, a, x)[::-1])[::-1]


def filtering(ctx, design_, lead, n, scale=1.0):
    from ml4gw.transforms import IIRFilter

    x = ctx.real("x", tuple(lead) + (n,), -scale, scale)
    X = ctx.vals(x).copy()
    f = IIRFilter(**DESIGNS[design_])
    o = f(x)
    ctx.check("shape", tuple(o.shape) == X.shape)
    ctx.close("input untouched", x, X, tol=0)
    b, a = design(design_)
    O = ctx.vals(o)
    for ix, row in spec.rows(X):
        for t, v in enumerate(both(b, a, row)):
            ctx.close(f"{ix},{t}", O[ix + (t,)], v, tol=1e-6 * scale)


def reuse(ctx, design_, n):
    """the filter holds nothing of earlier series"""
    from ml4gw.transforms import IIRFilter

    x, y = ctx.real("x", (n,), -1, 1), ctx.real("y", (2, n), -1, 1)
    f = IIRFilter(**DESIGNS[design_])
    f(x)
    ctx.close("second series", f(y), IIRFilter(**DESIGNS[design_])(y))


HARNESSES = [
    Harness("filter", filtering, [dict(design_=k, lead=l, n=n) for k in DESIGNS for l, n in (((), 12), ((2,), 7), ((2, 2), 9))]
        + [dict(design_="butter low fs", lead=(1,), n=1), dict(design_="ellip", lead=(3,), n=2), dict(design_="butter band", lead=(2, 1, 2), n=6), dict(design_="cheby1", lead=(), n=24, scale=50.0), dict(design_="butter band", lead=(2,), n=16, scale=1000.0)],
        thorough=[dict(design_=k, lead=(2,), n=32, scale=50.0) for k in DESIGNS]),
    Harness("repeated use", reuse, [dict(design_="butter band", n=8)]),
]
META = {
    "bounds": "series of 1-24 samples (32 in the thorough tier), every sample symbolic, up to three leading dimensions; ten listed designs (Butterworth, Chebyshev I/II, elliptic, Bessel; low, high, band, stop)",
    "outside": "scipy's pole-zero design itself; orders above three; round-off amplification of the recursion for narrow-band designs; single precision",
}
