"""Concolic executor for torch code.

The real code runs on real torch tensors.  A TorchDispatchMode sees every aten
operation the code performs (after torch's own decomposition of composite
functions) and maintains, next to the concrete data, a *shadow* of every storage
that depends on a symbolic input: an object array of terms (see term.py).
Views share storages, so aliasing and in-place updates are followed exactly.
"""
import hashlib
import itertools
import math
import os
import random
import sys

import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode

from . import solve, term as tm
from .term import CX, INF, T, is_sym

CUR = None  # current Engine


class Unsupported(Exception):
    """the executor cannot follow the code here (not a property violation)"""


class DeadPath(BaseException):
    """assumption cannot be satisfied on this path"""


class Shadow:
    __slots__ = ("arr", "keep", "isz")

    def __init__(self, arr, keep, isz):
        self.arr = arr
        self.keep = keep
        self.isz = isz


def fork_bool(t):
    if CUR is None:
        raise Unsupported("truth value of a symbolic term outside an engine")
    return CUR.branch(t)


def _default(name, t, seed):
    lo, hi = tm.bounds(t)
    h = int(hashlib.md5(f"{seed}:{name}".encode()).hexdigest()[:12], 16) / 16**12
    if t.sort == "B":
        return h < 0.5
    if lo == -INF:
        lo = -2.0 if hi == INF else hi - 4.0
    if hi == INF:
        hi = lo + 4.0
    if t.sort == "I":
        return int(lo + math.floor(h * (hi - lo + 1)))
    return lo + (hi - lo) * (0.02 + 0.96 * h)


class Engine:
    def __init__(self, env=None, prefix=(), symbolic=True, seed=1):
        self.env = dict(env or {})
        self.prefix = list(prefix)
        self.symbolic = symbolic
        self.seed = seed
        self.shadows = {}
        self.memo = {}
        self.assumptions = []
        self.decisions = []  # (term, taken value, kind)
        self.nrand = 0
        self.draws = []
        self.vars = {}
        self.ops = {}
        self.mode = _Mode(self)
        self.notes = []
        tm.DEFINED.clear()

    # -- symbolic variables ------------------------------------------------
    def newvar(self, name, sort="R", lo=None, hi=None):
        t = tm.var(name, sort, lo, hi)
        self.vars[name] = t
        if name not in self.env or self.env[name] is None:
            self.env[name] = _default(name, t, self.seed)
        elif sort == "R":
            self.env[name] = float(self.env[name])
        return t

    def val(self, t):
        return tm._ev(t, self.env, self.memo) if isinstance(t, (T, CX)) else t

    def assume(self, t):
        if not isinstance(t, T):
            if not t:
                raise DeadPath()
            return
        self.assumptions.append(t)
        if not self.symbolic:
            return
        v = self.val(t)
        if not v:
            # current inputs violate the assumption: the driver restarts with a model
            raise Restart()

    def branch(self, t, kind="bool"):
        if not isinstance(t, T):
            return bool(t)
        v = bool(self.val(t))
        self.decisions.append((t if v else tm.lnot(t), kind))
        return v

    def concretize(self, t):
        """pin an integer-valued term to its current value (other values are
        explored as further paths)"""
        if not isinstance(t, T):
            return t
        if t.sort == "B":
            return self.branch(t)
        v = self.val(t)
        if t.sort == "I":
            lo, hi = tm.bounds(t)
            v = int(v)
            if lo == hi:
                return v
            self.decisions.append((tm.eq(t, v), "conc"))
            return v
        raise Unsupported("concretization of a real-valued symbolic scalar")

    def pc(self):
        return self.assumptions + [d for d, _ in self.decisions]

    # -- storage ------------------------------------------------------------
    def key(self, t):
        return t.untyped_storage()._cdata

    def shadow(self, t):
        try:
            return self.shadows.get(t.untyped_storage()._cdata)
        except (RuntimeError, NotImplementedError):
            return None

    def payload(self, t):
        sh = self.shadow(t)
        if sh is None:
            if t.is_conj() or t.is_neg():
                t = t.resolve_conj().resolve_neg()
            out = np.empty(tuple(t.shape), dtype=object)
            if t.numel():
                flat = t.detach().contiguous().reshape(-1).tolist()
                out.reshape(-1)[:] = flat
            return out
        a = self.viewof(sh, t)
        if t.is_conj():
            a = _vec1(lambda x: x.conjugate(), a)
        if t.is_neg():
            a = _vec1(tm.neg, a)
        return a

    def viewof(self, sh, t):
        if t.element_size() != sh.isz:
            raise Unsupported("dtype-punning view of a symbolic storage")
        return np.lib.stride_tricks.as_strided(
            sh.arr[t.storage_offset() :] if t.numel() else sh.arr[:0],
            shape=tuple(t.shape),
            strides=tuple(8 * s for s in t.stride()),
        )

    def make_shadow(self, t):
        sh = self.shadow(t)
        if sh is not None:
            return sh
        st = t.untyped_storage()
        isz = t.element_size()
        n = st.nbytes() // isz
        arr = np.empty(n, dtype=object)
        flat = torch.empty(0, dtype=t.dtype).set_(st, 0, (n,), (1,))
        if n:
            arr[:] = flat.tolist()
        sh = Shadow(arr, st, isz)
        self.shadows[st._cdata] = sh
        return sh

    def put(self, t, arr):
        """associate payload arr with (fresh or existing) tensor t"""
        sh = self.shadow(t)
        arr = np.asarray(arr, dtype=object)
        if sh is None:
            if not _any_sym(arr):
                return t
            sh = self.make_shadow(t)
        if t.numel():
            v = self.viewof(sh, t)
            if arr.shape != v.shape:
                arr = np.broadcast_to(arr, v.shape)
            if t.is_conj():
                arr = _vec1(lambda x: x.conjugate(), arr)
            if np.shares_memory(v, arr):
                arr = arr.copy()
            v[...] = arr
        return t

    def symbolic_tensor(self, t):
        sh = self.shadow(t)
        if sh is None or not t.numel():
            return False
        return _any_sym(self.viewof(sh, t)) if t.element_size() == sh.isz else True

    def new_tensor(self, arr, dtype):
        """concrete tensor + shadow from an object array"""
        arr = np.asarray(arr, dtype=object)
        vals = [self.val(x) for x in arr.reshape(-1)]
        t = torch.tensor(vals, dtype=dtype).reshape(arr.shape)
        self.put(t, arr)
        return t

    # -- random draws -----------------------------------------------------------
    def draw(self, shape, sort, lo, hi, tag):
        k = self.nrand
        self.nrand += 1
        shape = tuple(shape)
        arr = np.empty(shape, dtype=object)
        for i, ix in enumerate(np.ndindex(*shape)):
            arr[ix] = self.newvar(f"{tag}{k}[{i}]" + (f"<{lo}:{hi}>" if sort != "B" else ""), sort, lo, hi)
        return arr


class Restart(BaseException):
    pass


def _any_sym(arr):
    for x in arr.reshape(-1) if arr.ndim else [arr.item()]:
        if isinstance(x, T) or (isinstance(x, CX) and is_sym(x)):
            return True
    return False


def _vec1(f, a):
    out = np.empty(a.shape, dtype=object)
    if a.ndim == 0:
        out[()] = f(a[()])
        return out
    fo = out.reshape(-1)
    fo[:] = [f(x) for x in a.reshape(-1)] if a.size else []
    return out


def _arr(x):
    if isinstance(x, np.ndarray):
        return x
    out = np.empty((), dtype=object)
    out[()] = x
    return out


def _vec(f, *xs):
    xs = np.broadcast_arrays(*[_arr(x) for x in xs], subok=False)
    out = np.empty(xs[0].shape, dtype=object)
    if out.ndim == 0:
        out[()] = f(*[x[()] for x in xs])
        return out
    fo = out.reshape(-1)
    fo[:] = [f(*v) for v in zip(*[x.reshape(-1) for x in xs])] if fo.size else []
    return out


# ====================================================================== mode
class _Mode(TorchDispatchMode):
    def __init__(self, eng):
        super().__init__()
        self.eng = eng

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        return dispatch(self.eng, func, args, kwargs)


HANDLERS = {}
MOVE = set()


def reg(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f

    return deco


def _flat_tensors(x, out):
    if isinstance(x, torch.Tensor):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for y in x:
            _flat_tensors(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            _flat_tensors(y, out)
    return out


RANDOM = {}


def _schema_mutates(func):
    r = getattr(func, "_vp_mut", None)
    if r is None:
        r = [
            i
            for i, a in enumerate(func._schema.arguments)
            if a.alias_info is not None and a.alias_info.is_write
        ]
        try:
            func._vp_mut = r
        except Exception:
            pass
    return r


_VIEWLIKE = {
    "view", "_unsafe_view", "reshape", "expand", "permute", "transpose", "t", "slice",
    "select", "unsqueeze", "squeeze", "as_strided", "alias", "detach", "unfold",
    "split", "split_with_sizes", "unbind", "chunk", "diagonal", "narrow",
    "_reshape_alias", "movedim", "_conj", "_neg_view", "swapaxes", "unsafe_split",
    "unsafe_chunk", "tensor_split", "lift_fresh", "lift", "real_view", "unsafe_split_with_sizes",
    "flatten", "ravel", "view_as", "expand_as", "hsplit", "numpy_T", "mT", "mH", "adjoint",
}


def dispatch(E, func, args, kwargs):
    name = func._schema.name
    ns, base = name.split("::")
    if base in RANDOM and E is not None:
        r = RANDOM[base](E, func, args, kwargs)
        if r is not NotImplemented:
            return r
    if not E.symbolic:
        return func(*args, **kwargs)
    tens = _flat_tensors(args, [])
    _flat_tensors(kwargs, tens)
    if not E.shadows or not any(E.shadow(t) is not None for t in tens):
        return func(*args, **kwargs)
    syms = [t for t in tens if E.symbolic_tensor(t)]
    mut = _schema_mutates(func)
    if not syms:
        if not mut:
            if base in _VIEWLIKE:
                return func(*args, **kwargs)
            return func(*args, **kwargs)
        # concrete write into a shadowed storage
    E.ops[base] = E.ops.get(base, 0) + 1

    # -- shape metadata / in-place views (squeeze_, unsqueeze_, t_, transpose_)
    if base in ("squeeze_", "unsqueeze_", "t_", "transpose_", "swapaxes_", "swapdims_", "as_strided_", "detach_"):
        return func(*args, **kwargs)
    if base in _VIEWLIKE:
        out = func(*args, **kwargs)
        outs = out if isinstance(out, (list, tuple)) else [out]
        ok = True
        for o in outs:
            if o.numel() and E.shadow(o) is None:
                ok = False
        if ok:
            return out
        # a copy was produced (e.g. _unsafe_view / reshape): treat as movement
        return _move(E, func, base, args, kwargs, out)

    if base.endswith("_") and not base.endswith("__"):
        fbase = base[:-1]
    else:
        fbase = base
    inplace = bool(mut) and fbase != base
    outvar = bool(mut) and fbase == base

    h = HANDLERS.get(fbase)
    if h is None and fbase in MOVE:
        h = None
    elif h is None:
        r = _decomp(E, func, args, kwargs)
        if r is not NotImplemented:
            return r
        raise Unsupported(f"operator {name}.{func._overloadname}")

    if inplace:
        tgt = args[0]
        if E.shadow(tgt) is None:
            E.make_shadow(tgt)
        if h is not None:
            pay = h(E, func, args, kwargs, tgt)
        else:
            pay = _move_payload(E, func, args, kwargs, inplace=True)
        func(*args, **kwargs)
        pay = np.asarray(pay, dtype=object)
        pay = cast(E, pay, tgt.dtype, None)
        E.put(tgt, pay)
        return tgt
    if outvar:
        names = [a.name for a in func._schema.arguments]
        tgts = []
        for i in mut:
            nm = names[i]
            tgts.append(kwargs[nm] if nm in kwargs else args[i])
        kw = {k: v for k, v in kwargs.items() if k not in [names[i] for i in mut]}
        for tg in tgts:
            if E.shadow(tg) is None:
                E.make_shadow(tg)
        if h is not None:
            probe = tgts[0] if len(tgts) == 1 else tgts
            pay = h(E, func, args, kw, probe)
        else:
            raise Unsupported("out= movement")
        out = func(*args, **kwargs)
        pays = pay if isinstance(pay, tuple) else (pay,)
        for tg, p in zip(tgts, pays):
            E.put(tg, cast(E, np.asarray(p, dtype=object), tg.dtype, None))
        return out

    if h is None:
        out = func(*args, **kwargs)
        return _move(E, func, base, args, kwargs, out)
    if getattr(h, "_pre", False):
        # handler decides the result itself (forks, dynamic shapes)
        return h(E, func, args, kwargs, None)
    out = func(*args, **kwargs)
    pay = h(E, func, args, kwargs, out)
    if pay is NotImplemented:
        raise Unsupported(f"operator {name}.{func._overloadname} (argument form)")
    if isinstance(out, (list, tuple)):
        for o, p in zip(out, pay):
            if p is not None:
                E.put(o, p)
        return out
    E.put(out, pay)
    return out


_DECOMPS = None


def _decomp(E, func, args, kwargs):
    global _DECOMPS
    if _DECOMPS is None:
        from torch._decomp import decomposition_table

        _DECOMPS = decomposition_table
    d = _DECOMPS.get(func)
    if d is not None:
        with E.mode:
            return d(*args, **kwargs)
    if func.has_kernel_for_dispatch_key(torch._C.DispatchKey.CompositeImplicitAutograd):
        with E.mode:
            return func.decompose(*args, **kwargs)
    return NotImplemented


# ------------------------------------------------------------ data movement
def _move_payload(E, func, args, kwargs, inplace=False):
    pool = [0]

    def conv(x):
        if isinstance(x, torch.Tensor):
            if x.dtype in (torch.int64, torch.bool, torch.int32, torch.uint8) and not E.symbolic_tensor(x) and x is not args[0] and not isinstance(args[0], (list, tuple)) and x not in ids_force:
                return x
            p = E.payload(x)
            n = len(pool)
            pool.extend(p.reshape(-1).tolist() if p.ndim else [p[()]])
            return torch.arange(n, n + p.size, dtype=torch.float64).reshape(x.shape)
        if isinstance(x, (list, tuple)):
            return type(x)(conv(y) for y in x)
        return x

    ids_force = _IdSet()
    base = func._schema.name.split("::")[1].rstrip("_")
    if base in ("where", "masked_scatter", "scatter", "index_put", "_index_put_impl", "index_copy", "slice_scatter", "select_scatter", "diagonal_scatter", "as_strided_scatter", "copy"):
        vals = {
            "where": [1, 2],
            "masked_scatter": [0, 2],
            "scatter": [0, 3],
            "index_put": [0, 2],
            "_index_put_impl": [0, 2],
            "index_copy": [0, 3],
        }.get(base, [0, 1])
        for i in vals:
            if i < len(args) and isinstance(args[i], torch.Tensor):
                ids_force.add(args[i])
    if isinstance(args[0], (list, tuple)):
        for x in args[0]:
            ids_force.add(x)
    a2 = [conv(a) for a in args]
    if base == "where" and isinstance(args[0], torch.Tensor):
        a2[0] = args[0]
        for i in (1, 2):
            if not isinstance(args[i], torch.Tensor):
                pool.append(args[i])
                a2[i] = float(len(pool) - 1)
    kw = {k: v for k, v in kwargs.items() if k not in ("dtype", "layout", "device", "pin_memory")}
    if base == "_to_copy":
        kw.pop("non_blocking", None)
    if inplace:
        out = func(*a2, **kw)
        out = a2[0]
    else:
        out = func(*a2, **kw)
    parr = np.empty(len(pool), dtype=object)
    parr[:] = pool

    def back(o):
        idx = o.detach().contiguous().numpy()
        r = np.empty(idx.shape, dtype=object)
        if idx.size:
            r.reshape(-1)[:] = [parr[int(i)] for i in idx.reshape(-1)]
        return r

    if isinstance(out, (list, tuple)):
        return [back(o) for o in out]
    return back(out)


class _IdSet:
    def __init__(self):
        self.s = set()

    def add(self, x):
        self.s.add(id(x))

    def __contains__(self, x):
        return id(x) in self.s


def _move(E, func, base, args, kwargs, out):
    pay = _move_payload(E, func, args, kwargs)
    if isinstance(out, (list, tuple)):
        for o, p in zip(out, pay):
            E.put(o, p)
    else:
        E.put(out, pay)
    return out


# ---------------------------------------------------------------- dtype casts
def cast(E, arr, dtype, src):
    if dtype == torch.bool:
        return _vec1(lambda x: tm._tobool(x), arr)
    if dtype.is_complex:
        return arr
    if dtype.is_floating_point:
        def f(x):
            if isinstance(x, CX):
                return x.re
            if isinstance(x, complex):
                return x.real
            if isinstance(x, T) and x.sort == "B":
                return tm.ite(x, 1, 0)
            if isinstance(x, bool):
                return float(x)
            return x

        return _vec1(f, arr)

    def g(x):
        if isinstance(x, T):
            return tm.trunc(x)
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, float):
            return int(x) if x == x and abs(x) != INF else 0
        return x

    return _vec1(g, arr)


# ---------------------------------------------------------------- simulations
from . import ops  # noqa: E402,F401
