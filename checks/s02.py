"""Random kernel sampling only draws admissible windows, for every draw."""
import numpy as np

from checks.s01 import sel
from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"


def some_window(rows, outs, starts):
    """exists s in starts: every row r has outs[r][j] == rows[r][s+j]"""
    alts = []
    for s in starts:
        c = True
        for row, o in zip(rows, outs):
            for j, v in enumerate(o):
                c = tm.land(c, tm.eq(v, row[s + j]))
        alts.append(c)
    r = False
    for a in alts:
        r = tm.lor(r, a)
    return r


def generic(*arrays):
    """all contents distinct (so that equal content means equal position)"""
    flat = [v for a in arrays for v in np.asarray(a, dtype=object).reshape(-1)]
    c = True
    for a, b in zip(flat, flat[1:]):
        c = tm.land(c, tm.lt(a, b))
    return c


def admissible(T, k, off, i):
    """is start i admissible (i may be symbolic)"""
    ok = tm.land(tm.le(0, i), tm.le(i, T - k))
    if off is None:
        return ok
    c = T // 2
    if off >= 0:
        # centre within or after the left edge; right edge at most off before it
        ok = tm.land(ok, tm.le(i, c))
        return tm.land(ok, tm.le(c - off, tm.add(i, k)))
    # centre at least |off| from both edges
    ok = tm.land(ok, tm.le(tm.add(i, -off), c))
    return tm.land(ok, tm.le(c - off, tm.add(i, k)))


def sample(ctx, shape, k, N, off, coincident):
    from ml4gw.utils.slicing import sample_kernels

    x = ctx.real("x", shape)
    X = ctx.vals(x).copy()
    nd = len(shape)
    T = shape[-1]
    B = N if N is not None else shape[0]
    out, idx = sample_kernels(x, k, N, off, coincident, return_idx=True)
    O, I = ctx.vals(out), ctx.vals(idx)
    want = (B, k) if nd == 1 else (B, shape[-2], k)
    ctx.check("shape", O.shape == want)
    if O.shape != want:
        return
    per_channel = nd == 2 and not coincident
    ctx.check("index shape", I.shape == ((B, shape[0]) if per_channel else (B,)))
    o = None if nd == 1 else off
    for b in range(B):
        if nd == 1:
            ctx.check(f"admissible[{b}]", admissible(T, k, o, I[b]))
            for j in range(k):
                ctx.close(f"k[{b},{j}]", O[b, j], sel(list(X), tm.add(I[b], j)))
            continue
        for c in range(shape[-2]):
            i = I[b, c] if per_channel else I[b]
            ctx.check(f"admissible[{b},{c}]", admissible(T, k, o, i))
            row = X[c] if nd == 2 else X[b, c]
            for j in range(k):
                ctx.close(f"k[{b},{c},{j}]", O[b, c, j], sel(list(row), tm.add(i, j)))
    if off is None and T > k:
        # every start but possibly the last one can be drawn, in every row
        for b in range(B):
            for q in range(T - k):
                ctx.cover(f"start {q} reachable in row {b}", tm.eq(I[b] if not per_channel else I[b, 0], q))
    many = T - k > 1 and (nd == 1 or off is None or sum(1 for s in range(T - k + 1) if admissible(T, k, off, s)) > 2)
    if per_channel and shape[0] > 1 and many:
        ctx.cover("channels can differ", tm.lnot(tm.eq(I[0, 0], I[0, 1])))
    if B > 1 and many:
        a, b_ = (I[0, 0], I[1, 0]) if per_channel else (I[0], I[1])
        ctx.cover("rows can differ", tm.lnot(tm.eq(a, b_)))
    ctx.close("input untouched", ctx.vals(x), X)


def plain(ctx, shape, k, N, off, coincident):
    """without return_idx: each row is some admissible window"""
    from ml4gw.utils.slicing import sample_kernels

    x = ctx.real("x", shape)
    X = ctx.vals(x).copy()
    T = shape[-1]
    nd = len(shape)
    O = ctx.vals(sample_kernels(x, k, N, off, coincident))
    st = [s for s in range(T - k + 1) if admissible(T, k, None if nd == 1 else off, s)]
    B = N if N is not None else shape[0]
    for b in range(B):
        if nd == 1:
            ctx.check(f"window[{b}]", some_window([X], [O[b]], st))
        elif nd == 3 or coincident:
            rows = X[b] if nd == 3 else X
            ctx.check(f"window[{b}]", some_window(list(rows), list(O[b]), st))
        else:
            for c in range(shape[0]):
                ctx.check(f"window[{b},{c}]", some_window([X[c]], [O[b, c]], st))


def rejects(ctx, shape, k, N, off, coincident):
    from ml4gw.utils.slicing import sample_kernels

    x = ctx.real("x", shape)
    ctx.expect_raises("rejected", ValueError, lambda: sample_kernels(x, k, N, off, coincident))


def offsets(ctx):
    """which offsets are rejected, over every offset of a small series"""
    from ml4gw.utils.slicing import sample_kernels

    T = ctx.pyint("T", 6, 9)
    k = ctx.pyint("k", 2, 4)
    off = ctx.pyint("off", -4, 4)
    x = ctx.real("x", (2, 9))[:, :T]
    # starts meeting the documented condition, ignoring series edges
    c = T // 2
    if off >= 0:
        lo, hi = c - off - k, c - 1
    else:
        lo, hi = c - off - k, c + off - 1
    if lo < 0 or hi < lo:
        ctx.expect_raises("impossible request rejected", ValueError, lambda: sample_kernels(x, k, 2, off))
        return
    out, idx = sample_kernels(x, k, 2, off, return_idx=True)
    for i in ctx.vals(idx):
        ctx.check("admissible", admissible(T, k, off, i))
    ctx.cover("earliest start", tm.eq(ctx.vals(idx)[0], lo))


_cfg = [
    dict(shape=(9,), k=4, N=2, off=None, coincident=True),
    dict(shape=(9,), k=4, N=2, off=2, coincident=False),
    dict(shape=(2, 9), k=3, N=3, off=None, coincident=True),
    dict(shape=(2, 9), k=3, N=2, off=None, coincident=False),
    dict(shape=(2, 10), k=3, N=2, off=0, coincident=True),
    dict(shape=(2, 10), k=3, N=2, off=1, coincident=False),
    dict(shape=(2, 9), k=4, N=2, off=-1, coincident=True),
    dict(shape=(2, 9), k=5, N=2, off=-2, coincident=False),
    dict(shape=(3, 2, 8), k=3, N=None, off=None, coincident=True),
    dict(shape=(2, 2, 8), k=3, N=2, off=0, coincident=False),
    dict(shape=(2, 3, 9), k=4, N=None, off=-1, coincident=True),
    dict(shape=(2, 2, 9), k=2, N=None, off=2, coincident=True),
    # as long as the kernel: the only admissible window is the series itself
    dict(shape=(4,), k=4, N=2, off=None, coincident=True),
    dict(shape=(2, 4), k=4, N=2, off=None, coincident=True),
    dict(shape=(2, 2, 4), k=4, N=None, off=None, coincident=True),
]
HARNESSES = [
    Harness("sample_kernels", sample, _cfg),
    Harness("sample_kernels_noidx", plain, [c for c in _cfg if c["k"] < c["shape"][-1]]),
    Harness("offset_ranges", offsets, max_paths=200),
    Harness(
        "rejections",
        rejects,
        [
            dict(shape=(3,), k=4, N=2, off=None, coincident=True),
            dict(shape=(8,), k=4, N=None, off=None, coincident=True),
            dict(shape=(2, 8), k=4, N=None, off=None, coincident=True),
            dict(shape=(3, 2, 8), k=4, N=2, off=None, coincident=True),
            dict(shape=(2, 8), k=5, N=2, off=0, coincident=True),
            dict(shape=(2, 8), k=3, N=2, off=2, coincident=True),
            dict(shape=(2, 9), k=4, N=2, off=-2, coincident=True),
            dict(shape=(2, 9), k=4, N=2, off=-4, coincident=False),
        ],
    ),
]
META = {
    "bounds": "series of 1-3 dimensions, length <= 10, kernels 2-5, 2-3 rows; every draw of the random generator symbolic within its documented half-open range; offsets -4..4 explored exhaustively",
    "outside": "statistical uniformity of the draws; longer series",
}
