"""Spline interpolation in one and two dimensions."""
import numpy as np
import torch

from checks import spec
from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"

GRIDS = {
    "even": [0, 1, 2, 3, 4, 5, 6],
    "uneven": [0, 0.5, 1.25, 2, 3.5, 4, 6, 6.5],
    "shifted": [-3, -2.5, -1, 0.25, 1, 1.5],
    "short": [2, 3, 5, 6, 8],
    "log": [1, 2, 4, 8, 16, 32],
}


def knots(x, k):
    inner = [sum(x[i : i + k]) / k for i in range(1, len(x) - k)]
    return [x[0]] * (k + 1) + inner + [x[-1]] * (k + 1)


def basis(t, k, m, x):
    """values of the m B-splines of degree k at x (Cox-de Boor)"""
    x = min(max(x, t[k]), t[-k - 1])
    last = max(i for i in range(len(t) - 1) if t[i] < t[i + 1])
    b = [1.0 if t[i] <= x < t[i + 1] or (i == last and x == t[-1]) else 0.0 for i in range(len(t) - 1)]
    for d in range(1, k + 1):
        b = [
            ((x - t[i]) / (t[i + d] - t[i]) * b[i] if t[i + d] > t[i] else 0.0) + ((t[i + d + 1] - x) / (t[i + d + 1] - t[i + 1]) * b[i + 1] if t[i + d + 1] > t[i + 1] else 0.0)
            for i in range(len(b) - 1)
        ]
    return b[:m]


def matrix(x, k, s, out):
    """data at x -> spline values at out"""
    t = knots(x, k)
    B = np.array([basis(t, k, len(x), v) for v in x])
    O = np.array([basis(t, k, len(x), v) for v in out])
    return O @ np.linalg.solve(B.T @ B + s * np.eye(len(x)), B.T)


def f32(v):
    return np.asarray(v, dtype=np.float32).astype(float).tolist()


def tens(v):
    return torch.tensor(v, dtype=torch.float64)


OUT = [-4.0, 0.0, 0.3, 1.0, 1.7, 2.9, 4.0, 5.99, 6.0, 40.0]


def linear(ctx, grid, k, lead, s=0.0, late=False, nout=4):
    from ml4gw.transforms import SplineInterpolate1D

    x = GRIDS[grid]
    out = f32(np.linspace(x[0] - 0.5, x[-1] + 0.25, nout)) if nout else x
    z = ctx.real("z", tuple(lead) + (len(x),), -3, 3)
    Z = ctx.vals(z).copy()
    i = SplineInterpolate1D(tens(x), k, s, None if late else tens(out))
    o = i(z, tens(out)) if late else i(z)
    want = (1,) * (3 - len(lead)) + tuple(lead) + (len(out),)
    ctx.check("shape", tuple(o.shape) == want)
    ctx.close("data untouched", z, Z, tol=0)
    M = matrix(x, k, s, out)
    O = ctx.vals(o).reshape(tuple(lead) + (len(out),))
    for ix, row in spec.rows(Z):
        v = tm.linmap(M, row)
        for j in range(len(out)):
            ctx.close(f"{ix},{j}", O[ix + (j,)], v[j], tol=2e-4)
            if not s and not nout:
                ctx.close(f"data {ix},{j}", O[ix + (j,)], row[j], tol=2e-4)


def plane(ctx, gx, gy, kx, ky, lead, sx=0.0, sy=0.0, late="", nout=(3, 4)):
    from ml4gw.transforms import SplineInterpolate2D

    x, y = GRIDS[gx], GRIDS[gy]
    xo = f32(np.linspace(x[0], x[-1] + 0.5, nout[1])) if nout else x
    yo = f32(np.linspace(y[0] - 1, y[-1], nout[0])) if nout else y
    z = ctx.real("z", tuple(lead) + (len(y), len(x)), -3, 3)
    Z = ctx.vals(z).copy()
    i = SplineInterpolate2D(tens(x), tens(y), kx, ky, sx, sy, None if "x" in late else tens(xo), None if "y" in late else tens(yo))
    o = i(z, **{n: tens(v) for n, v in (("x_out", xo), ("y_out", yo)) if n[0] in late})
    want = (1,) * (2 - len(lead)) + tuple(lead) + (len(yo), len(xo))
    ctx.check("shape", tuple(o.shape) == want)
    ctx.close("data untouched", z, Z, tol=0)
    A, B = matrix(y, ky, sy, yo), matrix(x, kx, sx, xo)
    O = ctx.vals(o).reshape(tuple(lead) + (len(yo), len(xo)))
    for ix in np.ndindex(*lead):
        v = tm.linmap(np.kron(A, B), list(Z[ix].reshape(-1)))
        for n, jx in enumerate(np.ndindex(len(yo), len(xo))):
            ctx.close(f"{ix},{jx}", O[ix + jx], v[n], tol=5e-4)
            if not nout:
                ctx.close(f"data {ix},{jx}", O[ix + jx], Z[ix + jx], tol=5e-4)


def polynomial(ctx, grid, k, deg):
    """every polynomial of the listed degree at every coordinate"""
    from ml4gw.transforms import SplineInterpolate1D

    x = GRIDS[grid]
    c = [2.0, -1.0, 0.75, 0.5][: deg + 1]
    h = x[-1] - x[0]
    p = lambda v: spec.total([tm.mul(a / h**n, tm.power(v, n)) if n else a for n, a in enumerate(c)])  # noqa
    z = torch.tensor([p(v) for v in x], dtype=torch.float64)
    i = SplineInterpolate1D(tens(x), k, 0.0)
    cuts = sorted({x[0] - 1, *f32(knots(x, k)), x[-1] + 1})
    for n, (lo, hi) in enumerate(zip(cuts, cuts[1:])):
        u = ctx.real(f"u{n}", (1,), lo, hi)
        o = ctx.vals(i(z, u))[0, 0, 0, 0]
        v = ctx.vals(u)[0]
        ref = p(x[0]) if n == 0 else p(x[-1]) if hi == cuts[-1] else p(v)
        ctx.close(f"between {lo} and {hi}", o, ref, tol=1e-3)


def overrides(ctx, dim):
    """coordinates given in one call are not used by the next"""
    from ml4gw.transforms import SplineInterpolate1D, SplineInterpolate2D

    x, y = GRIDS["even"], GRIDS["short"]
    a, b = [0.5, 2.5], [1.0, 3.25, 6.0]
    if dim == 1:
        z = ctx.real("z", (len(x),), -3, 3)
        i = SplineInterpolate1D(tens(x), 3, 0.0, tens(a))
        late = ctx.vals(i(z, tens(b))).copy()
        again = ctx.vals(i(z))
        refs = [(late, SplineInterpolate1D(tens(x), 3, 0.0, tens(b))(z)), (again, SplineInterpolate1D(tens(x), 3, 0.0, tens(a))(z))]
    else:
        z = ctx.real("z", (len(y), len(x)), -3, 3)
        mk = lambda u, v: SplineInterpolate2D(tens(x), tens(y), x_out=tens(u), y_out=tens(v))  # noqa
        i = mk(a, [3.0, 4.0])
        late = ctx.vals(i(z, tens(b), tens([2.5, 7.0, 8.0]))).copy()
        halfx = ctx.vals(i(z, x_out=tens(b))).copy()
        halfy = ctx.vals(i(z, y_out=tens([2.5]))).copy()
        again = ctx.vals(i(z))
        refs = [(late, mk(b, [2.5, 7.0, 8.0])(z)), (halfx, mk(b, [3.0, 4.0])(z)), (halfy, mk(a, [2.5])(z)), (again, mk(a, [3.0, 4.0])(z))]
    for n, (u, v) in enumerate(refs):
        ctx.check(f"shape {n}", tuple(u.shape) == tuple(v.shape))
        if tuple(u.shape) == tuple(v.shape):
            ctx.close(f"values {n}", u, v, tol=1e-5)


def rejects(ctx, case):
    from ml4gw.transforms import SplineInterpolate1D, SplineInterpolate2D

    x, y = tens(GRIDS["even"]), tens(GRIDS["short"])
    z = lambda *s: ctx.real("z", s)  # noqa
    fn = {
        "few points": lambda: SplineInterpolate1D(x[:4], 3),
        "few points x": lambda: SplineInterpolate2D(x[:4], y),
        "few points y": lambda: SplineInterpolate2D(x, y[:4]),
        "no coordinates": lambda: SplineInterpolate1D(x)(z(7)),
        "no x": lambda: SplineInterpolate2D(x, y, y_out=y)(z(5, 7)),
        "no y": lambda: SplineInterpolate2D(x, y, x_out=x)(z(5, 7)),
        "length": lambda: SplineInterpolate1D(x, x_out=x)(z(6)),
        "swapped": lambda: SplineInterpolate2D(x, y, x_out=x, y_out=y)(z(7, 5)),
        "5d": lambda: SplineInterpolate1D(x, x_out=x)(z(1, 1, 1, 1, 7)),
        "5d plane": lambda: SplineInterpolate2D(x, y, x_out=x, y_out=y)(z(1, 1, 1, 5, 7)),
        "1d plane": lambda: SplineInterpolate2D(x, y, x_out=x, y_out=y)(z(7)),
    }[case]
    ctx.expect_raises(case, ValueError, fn)


HARNESSES = [
    Harness("line", linear, [dict(grid=g, k=k, lead=l, nout=n, **kw) for g, k in (("even", 3), ("uneven", 3), ("shifted", 2), ("short", 1), ("short", 3), ("log", 3), ("uneven", 1), ("even", 4)) for l, n, kw in (((), 5, {}), ((2, 2), 4, dict(late=True)), ((2,), 0, {}), ((1, 2), 6, dict(s=0.5)))] + [dict(grid="even", k=3, lead=(2, 1, 3), nout=1)]),
    Harness("plane", plane, [dict(gx=a, gy=b, kx=p, ky=q, lead=l, **kw) for a, b, p, q in (("short", "shifted", 3, 3), ("uneven", "short", 3, 2), ("short", "log", 1, 3)) for l, kw in (((), {}), ((2,), dict(late="xy")), ((2, 2), dict(late="x")), ((1,), dict(late="y", sx=0.4, sy=0.1)), ((), dict(nout=None)))]),
    Harness("polynomial", polynomial, [dict(grid=g, k=k, deg=d) for g, k in (("even", 3), ("uneven", 3), ("shifted", 2), ("short", 1), ("short", 3), ("shifted", 3)) for d in range(k + 1)]),
    Harness("overrides", overrides, [dict(dim=1), dict(dim=2)]),
    Harness("rejects", rejects, [dict(case=c) for c in ("few points", "few points x", "few points y", "no coordinates", "no x", "no y", "length", "swapped", "5d", "5d plane", "1d plane")]),
]
META = {
    "bounds": "five listed grids of 5-8 points (even, uneven, logarithmic), degrees 1-4, every data value symbolic with up to three leading dimensions, listed output coordinates inside, on and outside the domain; polynomial reproduction at one symbolic coordinate anywhere in and around the domain",
    "outside": "other grids; conditioning of the normal equations on long grids; single precision",
}
