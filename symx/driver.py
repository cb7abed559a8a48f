"""Path exploration, obligations, replay, evidence."""
import contextlib
import hashlib
import json
import math
import multiprocessing as mp
import os
import sys
import time
import traceback

import numpy as np
import torch

from . import engine as en
from . import solve
from . import term as tm
from .engine import Engine, Restart, Unsupported, DeadPath
from .term import CX, INF, T, is_sym

VERIF = os.environ.get("VERIF_ROOT") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class CheckFailure(Exception):
    pass


class Ctx:
    """what a harness sees; the same harness runs symbolically and concretely"""

    def __init__(self, E, cfg):
        self.E = E
        self.cfg = cfg
        self.goals = []  # symbolic: (name, term, robust term or None)
        self.fails = []  # concrete: names of failed checks
        self.covers = []
        self.mismatch = []
        self.nobs = 0
        self.partial = []

    @property
    def symbolic(self):
        return self.E.symbolic

    # ---- inputs
    def _input(self, name, shape, sort, lo, hi, dtype):
        if isinstance(shape, int):
            shape = (shape,)
        arr = np.empty(tuple(shape), dtype=object)
        for i, ix in enumerate(np.ndindex(*shape)):
            arr[ix] = self.E.newvar(f"{name}[{i}]", sort, lo, hi)
        vals = [self.E.env[x.args[0]] for x in arr.reshape(-1)]
        t = torch.tensor(vals, dtype=dtype).reshape(tuple(shape))
        if self.symbolic:
            self.E.put(t, arr)
        return t

    def real(self, name, shape=(), lo=-2.0, hi=2.0, dtype=torch.float64):
        return self._input(name, shape, "R", lo, hi, dtype)

    def int(self, name, shape=(), lo=0, hi=10, dtype=torch.int64):
        return self._input(name, shape, "I", lo, hi, dtype)

    def bool(self, name, shape=()):
        return self._input(name, shape, "B", None, None, torch.bool)

    def cplx(self, name, shape=(), lo=-2.0, hi=2.0):
        r = self.real(name + ".re", shape, lo, hi)
        i = self.real(name + ".im", shape, lo, hi)
        z = torch.complex(r, i)
        return z

    def pyint(self, name, lo, hi):
        """symbolic integer used as a python int: value is pinned per path and
        the driver explores every value in [lo, hi]"""
        t = self.E.newvar(name, "I", lo, hi)
        if self.symbolic:
            return self.E.concretize(t)
        return int(self.E.env[name])

    def choice(self, name, options):
        return options[self.pyint(name, 0, len(options) - 1)]

    def pybool(self, name):
        return bool(self.pyint(name, 0, 1))

    def scalar(self, name, lo=-2.0, hi=2.0):
        """symbolic real as a T (spec level) / float"""
        t = self.E.newvar(name, "R", lo, hi)
        return t if self.symbolic else float(self.E.env[name])

    def tensor_of(self, arr, dtype=torch.float64):
        arr = np.asarray(arr, dtype=object)
        if self.symbolic:
            return self.E.new_tensor(arr, dtype)
        return torch.tensor([x for x in arr.reshape(-1)], dtype=dtype).reshape(arr.shape)

    def assume(self, c):
        if isinstance(c, (torch.Tensor, np.ndarray)):
            for x in self.vals(c).reshape(-1) if isinstance(c, torch.Tensor) else c.reshape(-1):
                self.assume(x)
            return
        if not self.symbolic:
            if isinstance(c, T):
                c = self.E.val(c)
            if not c:
                raise DeadPath()
            return
        self.E.assume(c)

    @contextlib.contextmanager
    def free_angles(self):
        """inverse trigonometric results become unconstrained angles"""
        if self.symbolic:
            tm.CUT, tm.CUT_ENV = {}, self.E.env
        try:
            yield
        finally:
            tm.CUT = tm.CUT_ENV = None

    @contextlib.contextmanager
    def whole_angles(self, variables=False):
        """sums of products (with variables: all sums) as angles are not taken apart"""
        tm.WHOLE = "all" if variables else True
        try:
            yield
        finally:
            tm.WHOLE = False

    def single_precision(self):
        """constants that differ by float32 rounding count as equal"""
        if self.symbolic:
            solve.ROUND = 1e-7

    # ---- observing the implementation
    def vals(self, t):
        """object array of terms (symbolic) or numbers (concrete)"""
        if isinstance(t, np.ndarray):
            return t
        if not isinstance(t, torch.Tensor):
            r = np.empty((), dtype=object)
            r[()] = t
            return r
        p = self.E.payload(t)
        if self.symbolic and self.E.shadow(t) is not None and t.numel():
            conc = t.detach().resolve_conj().resolve_neg().reshape(-1).tolist()
            memo = self.E.memo
            for x, c in zip(p.reshape(-1), conc):
                if not is_sym(x):
                    continue
                self.nobs += 1
                v = tm._ev(x, self.E.env, memo)
                if not _agree(v, c):
                    self.mismatch.append((tm.show(x, 3) if isinstance(x, T) else "cx", v, c))
                    break
        return p

    # ---- obligations
    def check(self, name, cond, robust=None):
        if isinstance(cond, torch.Tensor):
            cond = self.vals(cond)
        if isinstance(cond, np.ndarray):
            for i, c in enumerate(cond.reshape(-1)):
                self.check(f"{name}[{i}]", c)
            return
        if self.symbolic:
            if isinstance(cond, (np.bool_,)):
                cond = bool(cond)
            self.goals.append((name, cond if isinstance(cond, T) else bool(cond), robust))
        else:
            if isinstance(cond, T):
                cond = self.E.val(cond)
            if not cond:
                self.fails.append(name)

    def close(self, name, a, b, tol=1e-6, rel=0.0):
        """|a-b| <= tol (+ rel*|b|) for scalars or arrays of equal shape"""
        a = self.vals(a) if isinstance(a, torch.Tensor) else np.asarray(a, dtype=object)
        b = self.vals(b) if isinstance(b, torch.Tensor) else np.asarray(b, dtype=object)
        if a.shape != b.shape:
            if b.ndim == 0 or b.size == 1:
                b = np.broadcast_to(b.reshape(()) if b.size == 1 else b, a.shape)
            else:
                self.check(f"{name}:shape {a.shape}!={b.shape}", False)
                return
        for i, (x, y) in enumerate(zip(a.reshape(-1), b.reshape(-1))):
            nm = f"{name}[{i}]" if a.size > 1 else name
            self._close1(nm, x, y, tol, rel)

    def _close1(self, nm, x, y, tol, rel):
        if tm.is_cx(x) or tm.is_cx(y):
            xr, xi = tm.re_im(x)
            yr, yi = tm.re_im(y)
            self._close1(nm + ".re", xr, yr, tol, rel)
            self._close1(nm + ".im", xi, yi, tol, rel)
            return
        if not self.symbolic:
            x = self.E.val(x)
            y = self.E.val(y)
            if isinstance(x, float) and math.isnan(x) or isinstance(y, float) and math.isnan(y):
                self.fails.append(nm)
                return
            if x == y:
                return
            if not abs(x - y) <= tol + rel * abs(y):
                self.fails.append(nm)
            return
        if not isinstance(x, T) and not isinstance(y, T):
            x, y = float(x), float(y)
            ok = x == y or abs(x - y) <= tol + rel * abs(y)
            self.goals.append((nm, bool(ok), None))
            return
        bad = lambda v: isinstance(v, float) and (v != v or v in (INF, -INF))  # noqa
        if bad(x) or bad(y):
            self.goals.append((nm, False, None))
            return
        d = tm.sub(x, y)
        if rel:
            lim = tm.add(tol, tm.mul(rel, tm.absv(y)))
            big = tm.add(tol * 100, tm.mul(min(rel * 100, 0.5), tm.absv(y)))
        else:
            lim, big = tol, tol * 100
        g = tm.land(tm.le(d, lim), tm.le(tm.neg(lim), d))
        rb = tm.lor(tm.lt(big, d), tm.lt(d, tm.neg(big)))
        self.goals.append((nm, g, rb))

    def same(self, name, a, b):
        self.close(name, a, b, tol=0 if False else 1e-9)

    def cover(self, name, cond):
        """an existential obligation: some value of the inputs must satisfy cond"""
        self.covers.append((name, cond))

    def expect_raises(self, name, exc, fn):
        try:
            fn()
        except exc:
            self.check(name, True)
            return
        except Restart:
            raise
        self.check(name, False)


def _agree(v, c, rtol=2e-5):
    if isinstance(c, bool) or isinstance(v, bool):
        return bool(v) == bool(c)
    try:
        if isinstance(c, complex) or isinstance(v, complex):
            return abs(complex(v) - complex(c)) <= rtol * max(1e-6, abs(c)) + 1e-9
        if c != c:
            return True
        if v == c:
            return True
        return abs(v - c) <= rtol * max(abs(c), 1e-6) + 1e-9 or (abs(c) > 1e14)
    except (OverflowError, TypeError):
        return True


# ------------------------------------------------------------------ numpy stubs
class NumpyStubs:
    """np.random.* and python's random as nondeterministic stubs: every draw is an
    engine variable constrained only by the documented contract.  Values are
    pinned per path (explored exhaustively) because numpy arrays carry no shadow."""

    def __init__(self, E):
        self.E = E
        self.saved = {}

    def __enter__(self):
        E = self.E
        r = np.random

        def conc(arr, keep=True):
            if keep and E.symbolic and getattr(E, "np_symbolic", False):
                return arr
            f = [E.concretize(x) if E.symbolic else E.env[x.args[0]] for x in arr.reshape(-1)]
            return np.array(f, dtype=np.int64).reshape(arr.shape)

        def shp(size):
            return () if size is None else (size,) if isinstance(size, (int, np.integer)) else tuple(size)

        def randint(low, high=None, size=None, dtype=int):
            lo, hi = (0, low) if high is None else (low, high)
            if np.ndim(lo) or np.ndim(hi):
                lo, hi = np.broadcast_arrays(lo, hi)
                k = E.nrand
                E.nrand += 1
                out = np.empty(lo.shape if size is None else shp(size), dtype=np.int64)
                lo, hi = np.broadcast_to(lo, out.shape), np.broadcast_to(hi, out.shape)
                for i, ix in enumerate(np.ndindex(*out.shape)):
                    if hi[ix] <= lo[ix]:
                        raise ValueError("low >= high")
                    t = E.newvar(f"nprandint{k}[{i}]<{int(lo[ix])}:{int(hi[ix]) - 1}>", "I", int(lo[ix]), int(hi[ix]) - 1)
                    out[ix] = E.concretize(t) if E.symbolic else E.env[t.args[0]]
                return out
            lo, hi = int(lo), int(hi)
            if hi <= lo:
                raise ValueError("low >= high")
            a = conc(E.draw(shp(size), "I", lo, hi - 1, "nprandint"))
            return a if size is not None else a[()] if a.dtype == object else int(a)

        def choice(a, size=None, replace=True, p=None):
            pool = np.arange(a) if isinstance(a, (int, np.integer)) else np.asarray(a)
            n = len(pool)
            arr = E.draw(shp(size), "I", 0, n - 1, "npchoice")
            flat = list(arr.reshape(-1))
            for i, x in enumerate(flat):
                if p is not None:
                    for j in range(n):
                        if p[j] == 0:
                            E.assume(tm.lnot(tm.eq(x, j)))
                if not replace:
                    for y in flat[:i]:
                        E.assume(tm.lnot(tm.eq(x, y)))
            idx = conc(arr, False)
            return pool[idx] if size is not None else pool[int(idx)]

        def permutation(a):
            pool = np.arange(a) if isinstance(a, (int, np.integer)) else np.asarray(a)
            return pool[choice(len(pool), len(pool), False)]

        def shuffle(a):
            a[:] = a[choice(len(a), len(a), False)]

        for k, f in dict(randint=randint, choice=choice, permutation=permutation, shuffle=shuffle).items():
            self.saved[k] = getattr(r, k)
            setattr(r, k, f)
        def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
            if high is None:
                low, high = 0, low
            return randint(low, high + (1 if endpoint else 0), size)

        real_rng = self.saved_rng = r.default_rng
        RNG = type(
            "RNG",
            (),
            dict(
                integers=integers,
                choice=staticmethod(choice),
                permutation=staticmethod(permutation),
                shuffle=staticmethod(shuffle),
                __getattr__=lambda self, k: getattr(real_rng(0), k),
            ),
        )
        r.default_rng = lambda *a, **k: RNG()
        return self

    def __exit__(self, *a):
        for k, f in self.saved.items():
            setattr(np.random, k, f)
        np.random.default_rng = self.saved_rng


class TorchStubs:
    """torch.Tensor([...]) / torch.tensor([...]) of 0-d tensors would leave the
    tensor world through python floats: build them by stacking instead"""

    def __init__(self, E):
        self.E = E

    def __enter__(self):
        E, base, tensor = self.E, torch._C.TensorBase.__new__, torch.tensor

        def has(x):
            return isinstance(x, torch.Tensor) or isinstance(x, (list, tuple)) and any(has(y) for y in x)

        def symbolic(x):
            if isinstance(x, torch.Tensor):
                return x.is_floating_point() and E.symbolic_tensor(x)
            return isinstance(x, (list, tuple)) and any(symbolic(y) for y in x)

        def build(x):
            if isinstance(x, torch.Tensor):
                return x
            if isinstance(x, (list, tuple)):
                ys = [build(y) for y in x]
                dt = next((y.dtype for y in ys if y.is_floating_point()), ys[0].dtype)
                return torch.stack([y.to(dt) for y in ys])
            return tensor(x)

        def new(cls, *a, **k):
            if cls is torch.Tensor and len(a) == 1 and not k and E.symbolic and isinstance(a[0], (list, tuple)) and has(a[0]) and symbolic(a[0]):
                return build(a[0]).to(torch.get_default_dtype())
            return base(cls, *a, **k)

        def mk(data, *a, **k):
            if E.symbolic and isinstance(data, (list, tuple)) and has(data) and symbolic(data):
                r = build(data)
                return r.to(k["dtype"]) if k.get("dtype") is not None else r
            return tensor(data, *a, **k)

        self.tensor = tensor
        torch.Tensor.__new__ = staticmethod(new)
        torch.tensor = mk
        return self

    def __exit__(self, *a):
        del torch.Tensor.__new__
        torch.tensor = self.tensor


# ------------------------------------------------------------------ exploration
class HarnessResult:
    def __init__(self, name, cfg):
        self.name = name
        self.cfg = cfg
        self.paths = 0
        self.goals = 0
        self.proved = 0
        self.violations = []
        self.inconclusive = []
        self.mismatch = []
        self.complete = True
        self.nobs = 0
        self.ops = {}
        self.covers = {}
        self.wall = 0.0
        self.stages = {}
        self.sample_goals = []
        self.raised = {}
        self.funcs = set()
        self.stats = {}


class _Trace:
    """which functions of the code under test were executed (evidence)"""

    def __init__(self):
        self.seen = set()

    def __enter__(self):
        root = repo_root()

        def prof(frame, event, arg):
            if event == "call":
                fn = frame.f_code.co_filename
                if fn.startswith(root):
                    self.seen.add(fn[len(root) + 1 :] + ":" + frame.f_code.co_qualname)

        sys.setprofile(prof)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)


def repo_root():
    import ml4gw

    return os.path.dirname(os.path.dirname(os.path.abspath(ml4gw.__file__)))


def run_once(fn, cfg, env, symbolic, seed, trace=None, patch=True):
    E = Engine(env=env, symbolic=symbolic, seed=seed)
    ctx = Ctx(E, cfg)
    en.CUR = E
    old = torch.get_default_dtype()
    torch.set_default_dtype(torch.float64)
    exc = None
    try:
        with torch.no_grad(), NumpyStubs(E), TorchStubs(E), E.mode:
            try:
                if trace is not None:
                    with trace:
                        fn(ctx, **cfg)
                else:
                    fn(ctx, **cfg)
            except Exception as e:  # noqa: BLE001
                exc = e
    finally:
        torch.set_default_dtype(old)
        en.CUR = None
    return E, ctx, exc


def _key_of(e):
    return f"{type(e).__name__}: {str(e)[:160]}"


def explore(name, fn, cfg, tier="quick", max_paths=400, deadline=None, seed=1, nl_ms=20000, lin_ms=30000):
    res = HarnessResult(name, cfg)
    solve.ROUND = 1e-12
    t0 = time.time()
    work = [({}, 0, ())]
    done_any = False
    first = True
    while work:
        if res.paths >= max_paths or (deadline and time.time() > deadline):
            res.complete = False
            res.inconclusive.append((name, f"exploration bound reached after {res.paths} paths"))
            break
        env, depth, excl = work.pop()
        # run (restarting when assumptions are not met by the starting values)
        tries = 0
        while True:
            trace = _Trace() if first else None
            try:
                E, ctx, exc = run_once(fn, cfg, env, True, seed, trace)
                break
            except Restart:
                E = None
                tries += 1
                eng = _last_engine()
                pc = eng.assumptions + [d for d, _ in eng.decisions]
                r, m, _ = solve.check(pc, 20000)
                if r == "sat" and tries < 60:
                    env = _merge(eng.env, m)
                    # accept only if the model really satisfies the conditions
                    if not _sat(pc, env, eng):
                        env2 = _search(pc, eng, tries_n=400, seed=seed)
                        if env2 is None:
                            ctx = None
                            break
                        env = env2
                    continue
                if r == "unknown":
                    env2 = _search(pc, eng, tries_n=2000, seed=seed)
                    if env2 is not None and tries < 60:
                        env = env2
                        continue
                    res.inconclusive.append((name, "assumptions not solved"))
                ctx = None
                break
            except DeadPath:
                ctx = None
                break
        if ctx is None:
            continue
        if first and trace is not None:
            res.funcs |= trace.seen
        first = False
        res.paths += 1
        res.nobs += ctx.nobs
        for k, v in E.ops.items():
            res.ops[k] = res.ops.get(k, 0) + v
        pc = E.pc()
        # schedule unexplored branches
        na = len(E.assumptions)
        decs = E.decisions
        newwork = []
        for i in range(depth - 1 if excl and depth <= len(decs) else depth, len(decs)):
            d, kind = decs[i]
            ex = list(excl) if i == depth - 1 else []
            conj = E.assumptions + [x for x, _ in decs[:i]] + ex + [tm.lnot(d)]
            nex = tuple(ex + [tm.lnot(d)]) if kind == "conc" else ()
            r, m, _ = solve.check(_slice(conj, [d]), 10000)
            if r == "sat":
                e2 = _merge(E.env, m)
                if not _sat(conj, e2, E):
                    e3 = _search(conj, E, tries_n=800, seed=seed)
                    if e3 is None:
                        res.inconclusive.append((name, "branch model not reproducible numerically"))
                        continue
                    e2 = e3
                newwork.append((_keep(e2), i + 1, nex))
            elif r == "unknown":
                e3 = _search(conj, E, tries_n=2000, seed=seed)
                if e3 is not None:
                    newwork.append((_keep(e3), i + 1, nex))
                else:
                    res.inconclusive.append((name, "branch feasibility unknown"))
        work.extend(newwork)
        if ctx.mismatch:
            res.mismatch.append(str(ctx.mismatch[0]))
            res.inconclusive.append((name, f"executor mismatch {ctx.mismatch[0]}"))
        if exc is not None:
            if isinstance(exc, (Unsupported, NotImplementedError, tm.TooBig)):
                res.inconclusive.append((name, _key_of(exc)))
            else:
                # the code under test raised on an admissible input
                _, c2, exc2 = _replay(fn, cfg, E.env, seed)
                if exc2 is not None and type(exc2) is type(exc):
                    tb = traceback.extract_tb(exc2.__traceback__)
                    where = tb[-1].name if tb else ""
                    res.violations.append(
                        dict(check=f"raises:{type(exc2).__name__}", env=_keep(E.env), detail=_key_of(exc2), where=where)
                    )
                elif c2 is not None and c2.fails:
                    res.violations.append(dict(check=c2.fails[0], env=_keep(E.env), detail="fails concretely", where=""))
                else:
                    res.inconclusive.append(
                        (name, "symbolic run raised " + _key_of(exc) + " | " + "".join(traceback.format_tb(exc.__traceback__)[-2:]))
                    )
        # obligations
        goals = ctx.goals
        res.goals += len(goals)
        rob = {id(g): rb for _, g, rb in goals}
        if not res.sample_goals:
            res.sample_goals = [n for n, _, _ in goals[:6]]
        if not (exc is not None and isinstance(exc, Unsupported) and not goals):
            rs = _prove(pc, [(n, g) for n, g, _ in goals], lin_ms, nl_ms)
            robust = {}
            for n, g, rb in goals:
                robust[n] = rb
            for r in rs:
                res.stages[r.stage] = res.stages.get(r.stage, 0) + (1 if r.status == "proved" else 0)
                if r.status == "proved":
                    res.proved += 1
                    continue
                v = _confirm(fn, cfg, E, pc, r, robust.get(r.name), seed, nl_ms)
                if v is not None:
                    res.violations.append(v)
                else:
                    res.inconclusive.append((f"{name}:{r.name}", f"{r.status} not reproduced (stage {r.stage})"))
                if len(res.violations) >= 3:
                    break
        for n, c in ctx.covers:
            st = res.covers.setdefault(n, False)
            if not st:
                if not isinstance(c, T):
                    if c:
                        res.covers[n] = True
                    continue
                r, m, _ = solve.check(_slice(pc + [c], [c]), 10000)
                if r == "sat":
                    res.covers[n] = True
                elif r == "unknown":
                    res.covers[n] = None
        done_any = True
        if len(res.violations) >= 3:
            break
    if res.complete and not res.violations:
        for n, st in res.covers.items():
            res.goals += 1
            if st:
                res.proved += 1
            elif st is False and not res.inconclusive:
                # no input at all satisfies the reachability condition
                v = dict(check=f"unreachable:{n}", env=_keep(E.env) if done_any else {}, detail="no input reaches this", where="", unreachable=n)
                res.violations.append(v)
            else:
                res.inconclusive.append((name, f"cover {n} undecided"))
    res.wall = time.time() - t0
    res.stats = dict(solve.STATS)
    if not done_any and not res.inconclusive:
        res.inconclusive.append((name, "no path executed"))
    return res


_LAST = [None]
_orig_init = Engine.__init__


def _init(self, *a, **k):
    _orig_init(self, *a, **k)
    _LAST[0] = self


Engine.__init__ = _init


def _last_engine():
    return _LAST[0]


def _merge(base, m):
    e = dict(base)
    for k, v in (m or {}).items():
        if v is not None:
            e[k] = v
    return e


def _keep(env):
    return {k: v for k, v in env.items() if v is not None}


def _sat(conj, env, E):
    memo = {}
    try:
        for c in conj:
            if isinstance(c, T) and not tm._ev(c, env, memo):
                return False
        return True
    except KeyError:
        return False


def _search(conj, E, tries_n, seed):
    """numeric search for an input satisfying conj (only to obtain a concrete
    starting point / witness, never to justify a proof)"""
    import random

    rng = random.Random(seed * 7919 + len(conj))
    names = [t.args[0] for t in tm.walk(conj) if t.op == "var"]
    for k in range(tries_n):
        env = dict(E.env)
        for n in names:
            t = E.vars.get(n)
            if t is None:
                continue
            if k % 3 == 0 or rng.random() < 0.5:
                lo, hi = tm.bounds(t)
                if t.sort == "B":
                    env[n] = rng.random() < 0.5
                    continue
                lo = -2 if lo == -INF else lo
                hi = lo + 4 if hi == INF else hi
                env[n] = rng.randint(int(lo), int(hi)) if t.sort == "I" else rng.uniform(lo, hi)
        if _sat(conj, env, E):
            return env
    return None


def _vars_of(t, memo={}):  # noqa: B006
    r = memo.get(t.id)
    if r is None or r[0] is not t:
        r = (t, frozenset(x.args[0] for x in tm.walk([t]) if x.op == "var"))
        memo[t.id] = r
    return r[1]


def _slice(conj, roots):
    """cone of influence"""
    need = set()
    for r in roots:
        if isinstance(r, T):
            need |= _vars_of(r)
    cs = [(c, _vars_of(c)) for c in conj if isinstance(c, T)]
    keep = [False] * len(cs)
    changed = True
    while changed:
        changed = False
        for i, (c, vs) in enumerate(cs):
            if not keep[i] and (vs & need):
                keep[i] = True
                if not vs <= need:
                    need |= vs
                    changed = True
    out = [c for (c, _), k in zip(cs, keep) if k]
    if any((not isinstance(c, T)) and not c for c in conj):
        out.append(False)
    return out


def _prove(pc, goals, lin_ms, nl_ms):
    if not goals:
        return []
    # group goals by cone so that batches stay small
    sl = _slice(pc, [g for _, g in goals])
    return solve.prove(sl, goals, lin_ms, nl_ms)


def _replay(fn, cfg, env, seed):
    try:
        return run_once(fn, cfg, env, False, seed)
    except (DeadPath, Restart):
        return None, None, None


def _confirm(fn, cfg, E, pc, r, robust, seed, nl_ms):
    cands = []
    g = r.goal
    if isinstance(robust, T):
        rr, m, _ = solve.check(_slice(pc + [robust], [robust]), nl_ms)
        if rr == "sat":
            cands.append(_merge(E.env, m))
    if r.env is not None:
        cands.append(_merge(E.env, r.env))
    cands.append(dict(E.env))
    bad = robust if isinstance(robust, T) else (tm.lnot(g) if isinstance(g, T) else True)
    if isinstance(bad, T):
        e = _search(pc + [bad], E, 1500, seed)
        if e is not None:
            cands.insert(1, e)
        e = _search(pc + [tm.lnot(g)], E, 300, seed) if isinstance(g, T) else None
        if e is not None:
            cands.append(e)
    for env in cands:
        _, c2, exc2 = _replay(fn, cfg, env, seed)
        if exc2 is not None:
            tb = traceback.extract_tb(exc2.__traceback__)
            return dict(check=f"raises:{type(exc2).__name__}", env=_keep(env), detail=_key_of(exc2), where=tb[-1].name if tb else "")
        if c2 is not None and c2.fails:
            nm = r.name if r.name in c2.fails else c2.fails[0]
            return dict(check=nm, env=_keep(env), detail=f"solver: {r.status}@{r.stage}", where="", nfails=len(c2.fails))
    return None


# ------------------------------------------------------------------ check runner
class Harness:
    def __init__(self, name, fn, cfgs=({},), thorough=(), max_paths=400, nl_ms=20000, lin_ms=30000):
        self.name = name
        self.fn = fn
        self.cfgs = list(cfgs)
        self.thorough = list(thorough)
        self.max_paths = max_paths
        self.nl_ms = nl_ms
        self.lin_ms = lin_ms


def _worker(args):
    mod, hname, ci, cfg, tier, seed, deadline = args
    torch.set_num_threads(1)
    import importlib
    import warnings

    warnings.filterwarnings("ignore")
    m = importlib.import_module(mod)
    h = {x.name: x for x in m.HARNESSES}[hname]
    tm.reset()
    tm._TRIG_BASE.clear()
    for k in solve.STATS:
        solve.STATS[k] = 0
    t0 = time.time()
    try:
        r = explore(hname, h.fn, cfg, tier, h.max_paths, deadline, seed, h.nl_ms, h.lin_ms)
    except Exception as e:  # noqa: BLE001
        r = HarnessResult(hname, cfg)
        r.inconclusive.append((hname, "driver error " + _key_of(e) + " " + "".join(f"{f.name}:{f.lineno} " for f in traceback.extract_tb(e.__traceback__)[-6:])))
        r.wall = time.time() - t0
    r.stats = dict(solve.STATS)
    r.complete = bool(r.complete)
    return r


def _probe(args):
    """plain runs of a configuration that the solver left undecided: a failed
    assertion is a genuine counterexample, a pass counts as nothing"""
    mod, hname, ci, cfg, tier, seed, deadline = args
    torch.set_num_threads(1)
    import importlib
    import warnings

    warnings.filterwarnings("ignore")
    m = importlib.import_module(mod)
    h = {x.name: x for x in m.HARNESSES}[hname]
    for s in range(seed, seed + 6):
        try:
            E, c, exc = run_once(h.fn, cfg, {}, False, s)
        except (DeadPath, Restart):
            continue
        except Exception:  # noqa: BLE001
            return None
        if exc is not None and not isinstance(exc, (Unsupported, NotImplementedError, tm.TooBig)):
            tb = traceback.extract_tb(exc.__traceback__)
            return dict(check=f"raises:{type(exc).__name__}", env=_keep(E.env), detail=_key_of(exc), where=tb[-1].name if tb else "")
        if c is not None and c.fails:
            return dict(check=c.fails[0], env=_keep(E.env), detail="undecided by the solver, fails concretely", where="")
    return None


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)


def _match_known(known, pid, hname, cfg, v):
    import fnmatch

    for k in known:
        if k.get("status") != "open" or k["property"] != pid:
            continue
        if not fnmatch.fnmatchcase(hname, k.get("harness", "*")):
            continue
        if not any(v["check"] == c or fnmatch.fnmatchcase(v["check"], c) for c in (k["check"] if isinstance(k["check"], list) else [k["check"]])):
            continue
        if "detail" in k and not fnmatch.fnmatchcase(v.get("detail", ""), k["detail"]):
            continue
        if "cfg" in k and any(_jsonable(cfg.get(a)) != b for a, b in k["cfg"].items()):
            continue
        if "env" in k and any(v["env"].get(a) != b for a, b in k["env"].items()):
            continue
        return k
    return None


def _jsonable(x):
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def run_property(pid, modname, tier=None, seed=None, only=None, verbose=False):
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import importlib

    for m in (
        "utils.slicing utils.interferometer gw spectral distributions augmentations dataloading "
        "transforms transforms.iirfilter nn.autoencoder nn.resnet nn.ssm nn.streaming nn.norm waveforms "
        "waveforms.cbc waveforms.adhoc waveforms.conversion waveforms.generator"
    ).split():
        try:
            importlib.import_module("ml4gw." + m)
        except ImportError:
            pass
    mod = importlib.import_module(modname)
    budget = getattr(mod, "BUDGET", {"quick": 240, "thorough": 3000})[tier]
    deadline = t0 + budget
    jobs = []
    for h in mod.HARNESSES:
        if only and not any(o in h.name for o in only):
            continue
        cfgs = h.cfgs + (h.thorough if tier == "thorough" else [])
        for ci, cfg in enumerate(cfgs):
            jobs.append((modname, h.name, ci, cfg, tier, seed, deadline))
    nproc = min(8, os.cpu_count() or 1, max(1, len(jobs)))
    results = []
    if nproc == 1 or os.environ.get("SYMX_SERIAL"):
        results = [_worker(j) for j in jobs]
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(nproc, maxtasksperchild=1) as pool:
            asy = [pool.apply_async(_worker, (j,)) for j in jobs]
            hard = deadline + 60
            for j, a in zip(jobs, asy):
                try:
                    results.append(a.get(timeout=max(1, hard - time.time())))
                except mp.TimeoutError:
                    r = HarnessResult(j[1], j[3])
                    r.complete = False
                    r.inconclusive.append((j[1], "time limit"))
                    results.append(r)
                except Exception as e:  # noqa: BLE001
                    r = HarnessResult(j[1], j[3])
                    r.inconclusive.append((j[1], "worker: " + _key_of(e)))
                    results.append(r)
            pool.terminate()
    todo = [(j, r) for j, r in zip(jobs, results) if r.inconclusive and not r.violations][:48]
    if todo:
        with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
            asy = [(r, pool.apply_async(_probe, (j,))) for j, r in todo]
            end = time.time() + 60
            for r, a in asy:
                try:
                    v = a.get(timeout=max(0.1, end - time.time()))
                except Exception:  # noqa: BLE001
                    v = None
                if v is not None:
                    r.violations.append(v)
            pool.terminate()
    known = load_known()
    viol, kf = [], []
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for r in results:
        for v in r.violations:
            k = _match_known(known, pid, r.name, r.cfg, v)
            if k is not None:
                kf.append((r, v, k))
                continue
            rec = dict(property=pid, module=modname, harness=r.name, cfg=_jsonable(r.cfg), seed=seed, **_jsonable(v))
            hh = hashlib.md5(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(rdir, f"{pid}-{r.name}-{hh}.json")
            with open(path, "w") as f:
                json.dump(rec, f, indent=1, sort_keys=True)
            viol.append((r, v, path))
    tot = dict(goals=0, proved=0, paths=0, nobs=0)
    stats = {}
    ops = {}
    funcs = set()
    inc = []
    stages = {}
    for r in results:
        tot["goals"] += r.goals
        tot["proved"] += r.proved
        tot["paths"] += r.paths
        tot["nobs"] += r.nobs
        for k, v in r.stats.items():
            stats[k] = stats.get(k, 0) + v
        for k, v in r.ops.items():
            ops[k] = ops.get(k, 0) + v
        for k, v in r.stages.items():
            stages[k] = stages.get(k, 0) + v
        funcs |= r.funcs
        inc += [f"{r.name}{_jsonable(r.cfg)}: {a}: {b}"[:400] for a, b in r.inconclusive]
    wall = time.time() - t0
    meta = getattr(mod, "META", {})
    ev = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level=getattr(mod, "LEVEL", "model_checking"),
        coverage=dict(
            states=max(1, tot["goals"]),
            transitions=max(1, stats.get("queries", 0)),
            traces_validated_against_impl=max(1, tot["paths"]),
            samples=[
                f"{r.name} {_jsonable(r.cfg)}: paths={r.paths} obligations={r.goals} proved={r.proved} e.g. {r.sample_goals[:3]}"
                for r in results[:40]
            ]
            or ["none"],
            explanation=(
                "bounded symbolic execution of the real functions; 'states' counts proof obligations "
                "(assertions on symbolic paths), 'transitions' solver queries, 'traces_validated_against_impl' "
                "symbolic paths whose terms were evaluated and compared with the concrete result of the same run"
            ),
            obligations=tot["goals"],
            discharged=tot["proved"],
            inconclusive=inc[:60],
            n_inconclusive=len(inc),
            solver_queries=stats.get("queries", 0),
            solver_unsat=stats.get("unsat", 0),
            solver_sat=stats.get("sat", 0),
            solver_unknown=stats.get("unknown", 0),
            solver_seconds=round(stats.get("solver_s", 0.0), 3),
            proof_stages=stages,
            observations_cross_checked=tot["nobs"],
            functions_encoded=sorted(funcs),
            operators_encoded=ops,
            bounds=meta.get("bounds", ""),
            outside=meta.get("outside", ""),
            stubs=meta.get("stubs", "torch/numpy random draws: arbitrary values within their documented range"),
        ),
        wall_s=round(wall, 2),
        assumptions=[
            "floating point is modelled as exact real arithmetic; agreement is judged to the tolerance stated in each obligation",
            "tensor shapes and option values are those enumerated in bounds; contents, indices and random draws are symbolic",
        ]
        + list(meta.get("assumptions", [])),
        violations=[
            dict(check=v["check"], harness=r.name, replay=p, detail=v.get("detail", "")) for r, v, p in viol
        ],
    )
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    if verbose:
        shown = set()
        agg = {}
        for r in results:
            a = agg.setdefault(r.name, [0] * 6 + [0.0])
            for i, x in enumerate((1, r.paths, r.goals, r.proved, len(r.violations), len(r.inconclusive))):
                a[i] += x
            a[6] = max(a[6], r.wall)
        for k, a in agg.items():
            print(f"  {k}: cfgs={a[0]} paths={a[1]} goals={a[2]} proved={a[3]} viol={a[4]} inc={a[5]} maxwall={a[6]:.1f}s")
        for r in results:
            if r.violations or r.inconclusive or r.wall > 30:
                print(f"  {r.name} {r.cfg}: paths={r.paths} goals={r.goals} proved={r.proved} inc={len(r.inconclusive)} stages={r.stages} {r.wall:.1f}s"[:300])
            for v in r.violations:
                print("    VIOL", v["check"], v.get("detail"), v.get("where"), {k: v["env"][k] for k in list(v["env"])[:8]})
            for i in r.inconclusive[:4]:
                if str(i)[-80:] not in shown and len(shown) < 12:
                    shown.add(str(i)[-80:])
                    print("    INC", str(i)[:700])
    seen = set()
    for r, v, k in kf:
        key = (k.get("id"), k.get("what"))
        if key in seen:
            continue
        seen.add(key)
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for i in inc[:5]:
        print("INCONCLUSIVE", " ".join(i.split())[:200])
    print(
        f"{pid} [{tier}] harnesses={len(results)} paths={tot['paths']} obligations={tot['goals']} "
        f"discharged={tot['proved']} queries={stats.get('queries', 0)} solver={stats.get('solver_s', 0):.1f}s wall={wall:.1f}s"
    )
    if viol:
        for r, v, p in viol[:20]:
            print(f"# {r.name} {_jsonable(r.cfg)} {v['check']} {v.get('detail','')}")
        print(f"VIOLATION property={pid} replay={viol[0][2]}")
        return 1
    if tot["proved"] == 0:
        print("no obligation was discharged")
        return 2
    return 0


def replay_file(path):
    with open(path) as f:
        rec = json.load(f)
    import importlib

    mod = importlib.import_module(rec["module"])
    h = {x.name: x for x in mod.HARNESSES}[rec["harness"]]
    cfg = None
    for c in h.cfgs + h.thorough:
        if _jsonable(c) == rec["cfg"]:
            cfg = c
    _, ctx, exc = _replay(h.fn, cfg, rec["env"], rec["seed"])
    if exc is not None:
        traceback.print_exception(exc)
        return 1
    print("failed checks:", ctx.fails if ctx else None)
    return 1 if ctx and ctx.fails else 0
