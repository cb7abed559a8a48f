"""In-memory iteration visits every window exactly once, aligned with targets."""
import itertools

import numpy as np

from checks.s02 import generic, some_window
from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"


def eqwin(rows, outs, s):
    c = True
    for row, o in zip(rows, outs):
        for j, v in enumerate(o):
            c = tm.land(c, tm.eq(v, row[s + j]))
    return c


def coincident(ctx, C, T, k, B, stride, nb, shuffle, target, epochs=1):
    from ml4gw.dataloading import InMemoryDataset

    x = ctx.real("x", (C, T))
    X = ctx.vals(x).copy()
    y = ctx.real("y", (T,)) if target else None
    Y = ctx.vals(y).copy() if target else None
    ds = InMemoryDataset(x, k, y, batch_size=B, stride=stride, batches_per_epoch=nb, coincident=True, shuffle=shuffle)
    starts = [s for s in range(0, T - k + 1, stride)]
    n = len(starts)
    want = -(-n // B) if nb is None else nb
    for ep in range(epochs):
        batches = list(ds)
        ctx.check(f"{ep} number of batches", len(batches) == want)
        ctx.check(f"{ep} advertised length", len(ds) == len(batches))
        Xs, Ys = [], []
        for i, b in enumerate(batches):
            if target:
                b, t = b
                Tv = ctx.vals(t)
            Bv = ctx.vals(b)
            size = B if nb is not None else min(B, n - i * B)
            ctx.check(f"{ep} batch {i} shape", Bv.shape == (size, C, k))
            if Bv.shape != (size, C, k):
                return
            Xs += list(Bv)
            if target:
                ctx.check(f"{ep} target {i} shape", Tv.shape == (size, k))
                if Tv.shape != (size, k):
                    return
                Ys += list(Tv)
        rowsX = list(X)
        if not shuffle:
            for r, row in enumerate(Xs):
                ctx.close(f"{ep} row {r}", row, X[:, starts[r] : starts[r] + k])
                if target:
                    ctx.close(f"{ep} target row {r}", Ys[r], Y[starts[r] : starts[r] + k])
            continue
        full = [list(row) + ([Ys[r]] if target else []) for r, row in enumerate(Xs)]
        src = rowsX + ([Y] if target else [])
        for r, row in enumerate(full):
            ctx.check(f"{ep} row {r} is a window (with its target)", some_window(src, row, starts))
        if nb is None:
            for s in starts:
                c = False
                for row in full:
                    c = tm.lor(c, eqwin(src, row, s))
                ctx.check(f"{ep} window {s} visited", c)
        else:
            # no window is drawn twice: distinct rows hold distinct windows
            for a, b in itertools.combinations(range(len(full)), 2):
                for s in starts:
                    others = False
                    for s2 in starts:
                        if s2 != s:
                            others = tm.lor(others, eqwin(src, full[b], s2))
                    ctx.check(f"{ep} rows {a},{b} differ at {s}", tm.lor(tm.lnot(eqwin(src, full[a], s)), others))
        if n > 2:
            for s in starts:
                ctx.cover(f"window {s} can come first", tm.land(generic(*src), eqwin(src, full[0], s)))
    ctx.close("data untouched", ctx.vals(x), X)


def independent(ctx, C, T, k, B, stride, nb, shuffle):
    from ml4gw.dataloading import InMemoryDataset

    x = ctx.real("x", (C, T))
    X = ctx.vals(x).copy()
    ds = InMemoryDataset(x, k, None, batch_size=B, stride=stride, batches_per_epoch=nb, coincident=False, shuffle=shuffle)
    starts = [s for s in range(0, T - k + 1, stride)]
    batches = list(ds)
    ctx.check("number of batches", len(batches) == nb and len(ds) == nb)
    rows = []
    for i, b in enumerate(batches):
        Bv = ctx.vals(b)
        ctx.check(f"batch {i} shape", Bv.shape == (B, C, k))
        if Bv.shape != (B, C, k):
            return
        rows += list(Bv)
    if shuffle:
        for r, row in enumerate(rows):
            for c in range(C):
                ctx.check(f"row {r} channel {c}", some_window([X[c]], [row[c]], starts))
                for s in starts:
                    ctx.cover(f"row {r} channel {c} start {s}", tm.land(generic(X), eqwin([X[c]], [row[c]], s)))
            if C > 1 and len(starts) > 1:
                ctx.cover(
                    f"row {r} channels differ",
                    tm.land(generic(X), tm.land(eqwin([X[0]], [row[0]], starts[0]), eqwin([X[1]], [row[1]], starts[1]))),
                )
    else:
        combos = list(itertools.islice(itertools.product(starts, repeat=C), B * nb))
        for r, row in enumerate(rows):
            for c in range(C):
                s = combos[r][c]
                ctx.close(f"row {r} channel {c}", row[c], X[c, s : s + k])


def rejects(ctx, kw):
    from ml4gw.dataloading import InMemoryDataset

    x = ctx.real("x", (2, 9))
    kw = dict(kw)
    if "y" in kw:
        kw["y"] = ctx.real("y", (kw["y"],))
    ctx.expect_raises("rejected", ValueError, lambda: InMemoryDataset(x, **kw))


def sizes(ctx):
    """batch counts for every small size"""
    from ml4gw.dataloading import InMemoryDataset

    T = ctx.pyint("T", 5, 8)
    k = ctx.pyint("k", 2, 4)
    B = ctx.pyint("B", 1, 4)
    stride = ctx.pyint("stride", 1, 3)
    x = ctx.real("x", (1, 8))[:, :T]
    X = ctx.vals(x)
    ds = InMemoryDataset(x, k, batch_size=B, stride=stride, shuffle=False)
    starts = list(range(0, T - k + 1, stride))
    out = [ctx.vals(b) for b in ds]
    ctx.check("count", len(out) == -(-len(starts) // B) == len(ds))
    rows = [r for b in out for r in b]
    ctx.check("rows", len(rows) == len(starts))
    for s, r in zip(starts, rows):
        ctx.close("row", r, X[:, s : s + k])


HARNESSES = [
    Harness(
        "coincident",
        coincident,
        [
            dict(C=2, T=9, k=3, B=3, stride=2, nb=None, shuffle=False, target=True, epochs=2),
            dict(C=2, T=10, k=4, B=3, stride=1, nb=None, shuffle=False, target=False),
            dict(C=1, T=10, k=3, B=2, stride=3, nb=1, shuffle=False, target=True),
            dict(C=2, T=7, k=3, B=2, stride=1, nb=None, shuffle=True, target=True),
            dict(C=2, T=8, k=3, B=2, stride=2, nb=None, shuffle=True, target=False, epochs=2),
            dict(C=1, T=8, k=2, B=3, stride=2, nb=1, shuffle=True, target=True),
            dict(C=2, T=6, k=2, B=2, stride=1, nb=2, shuffle=True, target=False),
            dict(C=1, T=4, k=4, B=2, stride=1, nb=None, shuffle=True, target=True),
            dict(C=1, T=7, k=2, B=8, stride=2, nb=None, shuffle=True, target=True),
        ],
    ),
    Harness(
        "independent",
        independent,
        [
            dict(C=2, T=7, k=3, B=2, stride=2, nb=1, shuffle=False),
            dict(C=2, T=6, k=3, B=2, stride=1, nb=2, shuffle=False),
            dict(C=3, T=6, k=2, B=2, stride=2, nb=1, shuffle=False),
            dict(C=2, T=6, k=3, B=2, stride=1, nb=2, shuffle=True),
            dict(C=3, T=8, k=3, B=3, stride=2, nb=1, shuffle=True),
        ],
    ),
    Harness("sizes", sizes, max_paths=600),
    Harness(
        "rejections",
        rejects,
        [
            dict(kw=dict(kernel_size=3, y=8)),
            dict(kw=dict(kernel_size=3, y=9, coincident=False, batches_per_epoch=1, batch_size=2)),
            dict(kw=dict(kernel_size=3, coincident=False)),
            dict(kw=dict(kernel_size=3, batch_size=4, batches_per_epoch=2)),
            dict(kw=dict(kernel_size=3, batch_size=4, stride=2, batches_per_epoch=2)),
        ],
    ),
]
META = {
    "bounds": "1-3 channels, <= 10 samples, kernels 2-4, strides 1-3, batch sizes 1-8, one or two epochs; every permutation / random index the shuffler may return is symbolic; contents symbolic reals",
    "outside": "statistical uniformity of shuffling; device transfer; multi-process loading",
}
