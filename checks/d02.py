"""Chunked loading: every kernel lies inside one element of the current chunk."""
from checks.d01 import eqwin
from checks.s02 import generic
from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"


def chunks(ctx, shapes, k, B, per, coincident, sized=False):
    from ml4gw.dataloading import ChunkedTimeSeriesDataset

    data = [ctx.real(f"c{i}", s) for i, s in enumerate(shapes)]
    vals = [ctx.vals(d).copy() for d in data]
    it = list(data) if sized else iter(list(data))
    ds = ChunkedTimeSeriesDataset(it, k, batch_size=B, batches_per_chunk=per, coincident=coincident)
    if sized:
        ctx.check("advertised length", len(ds) == len(shapes) * per)
    n = 0
    for epoch in range(2 if sized else 1):
        n = 0
        for out in ds:
            ci = n // per
            n += 1
            if ci >= len(shapes):
                break
            N, C, T = shapes[ci]
            O = ctx.vals(out)
            ctx.check(f"batch {n} shape", O.shape == (B, C, k))
            if O.shape != (B, C, k):
                return
            V = vals[ci]
            for b in range(B):
                if coincident:
                    c = False
                    for e in range(N):
                        for s in range(T - k + 1):
                            c = tm.lor(c, eqwin(list(V[e]), list(O[b]), s))
                    ctx.check(f"batch {n} row {b} one element, one time", c)
                else:
                    for ch in range(C):
                        c = False
                        for e in range(N):
                            for s in range(T - k + 1):
                                c = tm.lor(c, eqwin([V[e, ch]], [O[b, ch]], s))
                        ctx.check(f"batch {n} row {b} channel {ch}", c)
            # nothing is pinned: rows (and channels) may take any element and time
            if n == 1 and epoch == 0:
                G = generic(V)
                for e in range(N):
                    for s in range(T - k + 1):
                        ctx.cover(f"element {e} start {s} in row {B-1}", tm.land(G, eqwin([V[e, 0]], [O[B - 1, 0]], s)))
                if not coincident and C > 1:
                    if N > 1:
                        ctx.cover("channels from different elements", tm.land(G, tm.land(eqwin([V[0, 0]], [O[0, 0]], 0), eqwin([V[1, 1]], [O[0, 1]], 0))))
                    if T - k > 1:
                        ctx.cover("channels at different times", tm.land(G, tm.land(eqwin([V[0, 0]], [O[0, 0]], 0), eqwin([V[0, 1]], [O[0, 1]], 1))))
                if B > 1 and N > 1:
                    ctx.cover("rows from different elements", tm.land(G, tm.land(eqwin([V[0, 0]], [O[0, 0]], 0), eqwin([V[1, 0]], [O[1, 0]], 0))))
        ctx.check("number of batches", n == len(shapes) * per)
    for d, v in zip(data, vals):
        ctx.close("chunk untouched", ctx.vals(d), v)


def too_small(ctx, shapes, k):
    from ml4gw.dataloading import ChunkedTimeSeriesDataset

    data = [ctx.real(f"c{i}", s) for i, s in enumerate(shapes)]
    ctx.expect_raises(
        "rejected", ValueError, lambda: list(ChunkedTimeSeriesDataset(iter(data), k, 2, 1, True))
    )


_c = []
for co in (True, False):
    _c += [
        dict(shapes=((2, 2, 6),), k=3, B=2, per=2, coincident=co),
        dict(shapes=((1, 2, 5), (1, 2, 5)), k=2, B=2, per=1, coincident=co, sized=True),
        dict(shapes=((3, 1, 5), (3, 1, 5)), k=2, B=3, per=2, coincident=co),
        dict(shapes=((2, 3, 4),), k=2, B=2, per=1, coincident=co),
        # successive chunks of differing shape
        dict(shapes=((2, 2, 6), (2, 2, 5)), k=3, B=2, per=1, coincident=co),
        dict(shapes=((2, 2, 5), (2, 2, 7)), k=3, B=2, per=1, coincident=co),
        dict(shapes=((2, 2, 5), (3, 2, 5), (1, 2, 5)), k=3, B=2, per=1, coincident=co),
        # chunks exactly as long as the kernel
        dict(shapes=((2, 2, 3), (2, 2, 3)), k=3, B=2, per=1, coincident=co),
    ]
HARNESSES = [
    Harness("chunks", chunks, _c),
    Harness("too_small", too_small, [dict(shapes=((2, 2, 3),), k=4), dict(shapes=((2, 2, 5), (2, 2, 3)), k=4)]),
]
META = {
    "bounds": "1-3 chunks of 1-3 elements x 1-3 channels x 3-7 samples, kernels 2-3, batches 2-3; all random element and start indices symbolic",
    "outside": "larger chunks; statistical uniformity; device transfer",
}
