"""HDF5 loading: right file, channel and time for every random draw.

Symbolic runs replace h5py.File by a stand-in whose datasets hold symbolic
contents; numpy's random integers stay symbolic (window starts) or are pinned
and explored by the solver (file choices).  Counterexamples are replayed on real
HDF5 files written to a scratch directory, with the real h5py."""
import os
import shutil
import tempfile

import numpy as np
import torch

from checks.s01 import sel
from checks.d01 import eqwin
from checks.s02 import generic
from symx import term as tm
from symx.driver import Harness

LEVEL = "model_checking"


class Dset:
    chunks = (2,)

    def __init__(self, ctx, vals):
        self.ctx, self.vals = ctx, vals
        self.shape = (len(vals),)

    def __len__(self):
        return len(self.vals)

    def __getitem__(self, s):
        n = len(self.vals)
        if not isinstance(s, slice) or s.step not in (None, 1):
            raise NotImplementedError("h5 access pattern")
        lo = 0 if s.start is None else s.start
        hi = n if s.stop is None else s.stop
        m = tm.sub(hi, lo)
        if isinstance(m, tm.T):
            m = self.ctx.E.concretize(m)
        self.ctx.check("read starts inside the dataset", tm.le(0, lo))
        self.ctx.check("read ends inside the dataset", tm.le(hi, n))
        out = np.empty(int(m), dtype=object)
        for j in range(int(m)):
            out[j] = sel(list(self.vals), tm.add(lo, j))
        return out


class File:
    table = None

    def __init__(self, name, mode="r", **kw):
        if mode != "r":
            raise NotImplementedError("write access")
        self.d = File.table[str(name)]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def keys(self):
        return self.d.keys()

    def __getitem__(self, k):
        return self.d[str(k)]


class Proxy:
    def __init__(self, base, **over):
        self.__dict__.update(over)
        self._b = base

    def __getattr__(self, k):
        return getattr(self._b, k)


class Patched:
    """symbolic run: object arrays through the loader; concrete run: real files"""

    def __init__(self, ctx, data):
        self.ctx, self.data = ctx, data

    def __enter__(self):
        import ml4gw.dataloading.hdf5_dataset as mod

        ctx = self.ctx
        self.mod = mod
        self.saved = {k: mod.__dict__[k] for k in ("np", "h5py", "torch") if k in mod.__dict__}
        self.dir = None
        if ctx.symbolic:
            ctx.E.np_symbolic = True
            File.table = {f: {c: Dset(ctx, v) for c, v in d.items()} for f, d in self.data.items()}
            zeros = lambda shape, *a, **k: np.full(shape, 0.0, dtype=object)  # noqa: E731

            def conv(x, *a, **k):
                if isinstance(x, np.ndarray) and x.dtype == object:
                    return ctx.tensor_of(x)
                return torch.as_tensor(x)

            class Tp(Proxy):
                pass

            over = dict(zeros=zeros, empty=zeros)
            if "np" in mod.__dict__:
                mod.np = Proxy(np, **over)
            if "h5py" in mod.__dict__:
                mod.h5py = Proxy(mod.h5py, File=File)
            if "torch" in mod.__dict__:
                mod.torch = Proxy(torch, Tensor=conv, tensor=conv, as_tensor=conv, from_numpy=conv, FloatTensor=conv)
            names = list(self.data)
        else:
            import h5py

            self.dir = tempfile.mkdtemp(prefix="d03_")
            names = []
            for f, d in self.data.items():
                p = os.path.join(self.dir, f)
                names.append(p)
                with h5py.File(p, "w") as h:
                    for c, v in d.items():
                        h.create_dataset(c, data=np.array([float(q) for q in v]), chunks=(2,))
        return names

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(self.mod, k, v)
        if self.ctx.symbolic:
            self.ctx.E.np_symbolic = False
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)


def batch(ctx, sizes, C, k, B, coincident, nf=None):
    from ml4gw.dataloading import Hdf5TimeSeriesDataset

    chans = [f"ch{c}" for c in range(C)]
    data = {}
    for i, n in enumerate(sizes):
        V = ctx.vals(ctx.real(f"f{i}", (C, n)))
        data[f"f{i}.h5"] = {c: list(V[j]) for j, c in enumerate(chans)}
        data[f"f{i}.h5"]["other"] = list(ctx.vals(ctx.real(f"o{i}", (n,))))
    with Patched(ctx, data) as names:
        ds = Hdf5TimeSeriesDataset(names, chans, k, B, 1, coincident, nf)
        ctx.check("advertised length", len(ds) == 1)
        outs = [ctx.vals(o) for o in ds]
    ctx.check("one batch", len(outs) == 1)
    O = outs[0]
    ctx.check("shape", O.shape == (B, C, k))
    if O.shape != (B, C, k):
        return
    files = list(data.values())
    hit = {}
    for b in range(B):
        anyfile = False
        for fi, f in enumerate(files):
            rows = [f[c] for c in chans]
            n = sizes[fi]
            st = range(n - k + 1)
            if coincident is True:
                c = False
                for s in st:
                    c = tm.lor(c, eqwin(rows, list(O[b]), s))
                hit[b, fi] = c
            else:
                c = True
                for ch in range(C):
                    cc = False
                    for s in st:
                        cc = tm.lor(cc, eqwin([rows[ch]], [O[b, ch]], s))
                    hit[b, fi, ch] = cc
                    c = tm.land(c, cc)
                hit[b, fi] = c
            anyfile = tm.lor(anyfile, c)
        if coincident is False:
            for ch in range(C):
                c = False
                for fi in range(len(files)):
                    c = tm.lor(c, hit[b, fi, ch])
                ctx.check(f"row {b} channel {ch} is a window of that channel in one file", c)
        else:
            ctx.check(f"row {b} comes from one file" + (" and time" if coincident is True else ""), anyfile)
    # no more files than requested are used
    if nf is not None and nf < len(sizes) and nf == 1:
        c = False
        for fi in range(len(files)):
            a = True
            for b in range(B):
                a = tm.land(a, hit[b, fi])
            c = tm.lor(c, a)
        ctx.check("one file per batch", c)
    G = generic(*[f[c] for f in files for c in chans])
    # reachability: every file and window can appear in the last row
    for fi, f in enumerate(files):
        for s in range(sizes[fi] - k + 1):
            ctx.cover(f"file {fi} start {s}", tm.land(G, eqwin([f[chans[0]]], [O[B - 1, 0]], s)))
    if coincident is False and C > 1 and len(files) > 1 and nf is None:
        ctx.cover("channels from different files", tm.land(G, tm.land(eqwin([files[0][chans[0]]], [O[0, 0]], 0), eqwin([files[1][chans[1]]], [O[0, 1]], 0))))
    if coincident is not True and C > 1 and sizes[0] > k:
        ctx.cover("channels at different times", tm.land(G, tm.land(eqwin([files[0][chans[0]]], [O[0, 0]], 0), eqwin([files[0][chans[1]]], [O[0, 1]], 1))))


def workers(ctx):
    """batches of all workers together == batches_per_epoch"""
    import ml4gw.dataloading.hdf5_dataset as mod

    W = ctx.pyint("workers", 1, 4)
    n = ctx.pyint("batches", 0, 9)
    data = {"f0.h5": {"a": [0.5, 1.5, 2.5]}}
    with Patched(ctx, data) as names:
        ds = mod.Hdf5TimeSeriesDataset(names, ["a"], 2, 1, n, True)
    ds.sample_batch = lambda: torch.zeros(1, 1, 2)
    saved = torch.utils.data.get_worker_info
    counts = []
    try:
        torch.utils.data.get_worker_info = lambda: None
        ctx.check("single process", len(list(ds)) == n == len(ds))
        for i in range(W):
            info = type("I", (), dict(id=i, num_workers=W, seed=0, dataset=ds))()
            torch.utils.data.get_worker_info = lambda: info  # noqa: B023
            counts.append(len(list(ds)))
    finally:
        torch.utils.data.get_worker_info = saved
    ctx.check("workers share the epoch", sum(counts) == n)
    ctx.check("balanced", max(counts) - min(counts) <= 1)


def rejects(ctx, kw):
    from ml4gw.dataloading import Hdf5TimeSeriesDataset

    with Patched(ctx, {"f0.h5": {"a": [0.5] * 5}, "f1.h5": {"a": [0.5] * 5}}) as names:
        ctx.expect_raises("rejected", ValueError, lambda: Hdf5TimeSeriesDataset(names, ["a"], 2, 2, 2, **kw))


_c = []
for co in (True, "files", False):
    _c += [
        dict(sizes=(5, 4), C=2, k=3, B=2, coincident=co),
        dict(sizes=(4, 5), C=2, k=3, B=2, coincident=co, nf=1),
        dict(sizes=(3, 4), C=1, k=3, B=2, coincident=co),
    ]
_c += [
    dict(sizes=(4, 3, 5), C=2, k=2, B=3, coincident=True),
    dict(sizes=(4, 3, 5), C=2, k=2, B=2, coincident="files"),
    dict(sizes=(5,), C=3, k=2, B=2, coincident=False),
    dict(sizes=(4, 5), C=3, k=2, B=1, coincident=False),
    dict(sizes=(4, 3), C=1, k=2, B=4, coincident=True),
]
_t = [
    dict(sizes=(4, 3, 5), C=2, k=2, B=2, coincident=False),
    dict(sizes=(4, 5), C=2, k=2, B=3, coincident=False),
    dict(sizes=(4, 5, 4), C=2, k=3, B=3, coincident="files"),
    dict(sizes=(4, 5, 4), C=2, k=3, B=2, coincident=True, nf=2),
]
HARNESSES = [
    Harness("batch", batch, _c, thorough=_t, max_paths=1500),
    Harness("workers", workers, max_paths=200),
    Harness("rejections", rejects, [dict(kw=dict(coincident="yes")), dict(kw=dict(coincident=True, num_files_per_batch=3))]),
]
META = {
    "bounds": "1-3 files of 3-5 samples, 1-3 channels, windows of 2-3 samples, batches of 1-4; every file choice explored, every window start and all file contents symbolic; 1-4 workers x 0-9 batches",
    "outside": "file choice probabilities, I/O errors, files lacking a channel or shorter than the window",
    "stubs": "h5py.File replaced by an in-memory stand-in with symbolic datasets (real files on replay); numpy.random.choice/randint nondeterministic within their contract; torch.utils.data.get_worker_info",
}
