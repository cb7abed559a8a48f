"""Translation of terms to SMT and the proving cascade.

prove(pc, goals) decides  pc => goal  for every goal with z3:
  stage L  linear abstraction: every non-linear atom (power product, sin, exp, ...)
           becomes a fresh variable restricted only by its interval; sound for
           "holds" (an over-approximation), never used for "fails"
  stage P  the same after polynomial expansion (+ cos^2 = 1 - sin^2 rewriting)
  stage N  the full non-linear query with the defining axioms of roots / ufs
A 'sat' of the full query is a candidate counterexample that callers replay on
the real code.
"""
import math
import os
import sys
import time
from fractions import Fraction

try:
    import z3
except ImportError:  # pragma: no cover
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import z3

from . import term as tm
from .term import CX, INF, T, bounds

STATS = {
    "queries": 0,
    "unsat": 0,
    "sat": 0,
    "unknown": 0,
    "solver_s": 0.0,
    "goals": 0,
    "stageL": 0,
    "stageP": 0,
    "stageN": 0,
}
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def num(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(f"{x.numerator}/{x.denominator}")
    x = float(x)
    if x.is_integer() and abs(x) < 1e18:
        return z3.RealVal(int(x))
    fr = Fraction(x).limit_denominator(1000000)
    if fr != 0 and abs(float(fr) - x) <= 3e-16 * abs(x):
        return z3.RealVal(f"{fr.numerator}/{fr.denominator}")
    fr = Fraction(x)
    return z3.RealVal(f"{fr.numerator}/{fr.denominator}")


class Enc:
    """one encoding context (abstract=True: opaque non-linear atoms)"""

    def __init__(self, abstract):
        self.abstract = abstract
        self.memo = {}
        self.side = []
        self.vars = {}
        self.nl = False
        self.roots = {}
        self.trig = {}

    def _bnd(self, z, t):
        lo, hi = bounds(t)
        if lo != -INF and lo == lo:
            self.side.append(z >= (num(lo) if t.sort != "I" else int(math.floor(lo))))
        if hi != INF and hi == hi:
            self.side.append(z <= (num(hi) if t.sort != "I" else int(math.ceil(hi))))

    def fresh(self, t, nm):
        z = z3.Int(nm) if t.sort == "I" else z3.Real(nm)
        self._bnd(z, t)
        return z

    def real(self, t):
        """z3 Real-sorted expression"""
        if not isinstance(t, T):
            if isinstance(t, float) and (t != t or abs(t) == INF):
                return z3.Real(f"nan!{len(self.memo)}")
            return num(t)
        if t.sort == "B":
            return z3.If(self.enc(t), num(1), num(0))
        z = self.enc(t)
        if z.sort() == z3.IntSort():
            return z3.ToReal(z)
        return z

    def integer(self, t):
        if not isinstance(t, T):
            return z3.IntVal(int(t))
        z = self.enc(t)
        if z.sort() == z3.RealSort():
            return z3.ToInt(z)
        return z

    def enc(self, t):
        if isinstance(t, bool):
            return z3.BoolVal(t)
        if not isinstance(t, T):
            return num(t)
        z = self.memo.get(t.id)
        if z is None:
            z = self._enc(t)
            self.memo[t.id] = z
        return z

    def _enc(self, t):
        op = t.op
        if op == "var":
            nm = t.args[0]
            if t.sort == "B":
                z = z3.Bool(nm)
            else:
                z = self.fresh(t, nm)
            self.vars[nm] = (z, t)
            return z
        if op == "lin":
            c, it = t.args
            if t.sort == "I":
                xs = [self.integer(a) * int(k) if k != 1 else self.integer(a) for a, k in it]
                if c != 0:
                    xs.append(z3.IntVal(int(c)))
                return z3.Sum(xs) if len(xs) > 1 else xs[0]
            xs = [num(k) * self.real(a) if k != 1 else self.real(a) for a, k in it]
            if c != 0:
                xs.append(num(c))
            return z3.Sum(xs) if len(xs) > 1 else xs[0]
        if op == "ite":
            c = self.enc(t.args[0])
            if t.sort == "I":
                return z3.If(c, self.integer(t.args[1]), self.integer(t.args[2]))
            return z3.If(c, self.real(t.args[1]), self.real(t.args[2]))
        if op == "floor":
            return z3.ToInt(self.real(t.args[0]))
        if op == "mod":
            return self.integer(t.args[0]) % z3.IntVal(int(t.args[1]))
        if op == "idiv":
            return self.integer(t.args[0]) / z3.IntVal(int(t.args[1]))
        if op in ("le", "lt", "eq"):
            d = t.args[0]
            if isinstance(d, T) and d.sort == "I":
                x, zero = self.integer(d), z3.IntVal(0)
            else:
                x, zero = self.real(d), num(0)
            return x <= zero if op == "le" else x < zero if op == "lt" else x == zero
        if op == "not":
            return z3.Not(self.enc(t.args[0]))
        if op == "and":
            return z3.And([self.enc(a) for a in t.args])
        if op == "or":
            return z3.Or([self.enc(a) for a in t.args])
        if op == "mono":
            if self.abstract:
                self.nl = True
                return self.fresh(t, f"mono!{t.id}")
            self.nl = True
            out = None
            for a, e in t.args:
                f = self.factor(a, e)
                out = f if out is None else out * f
            return out
        if op == "uf":
            self.nl = True
            if self.abstract:
                return self.fresh(t, f"uf!{t.id}")
            return self.uf(t)
        raise ValueError(op)

    def factor(self, a, e):
        e = Fraction(e)
        q = e.denominator
        p = e.numerator
        if q == 1:
            base = self.real(a)
        else:
            # use the finest root seen for this base
            key = (a.id, q)
            base = self.roots.get(key)
            if base is None:
                base = z3.Real(f"root!{a.id}!{q}")
                self.roots[key] = base
                self.side.append(base >= 0)
                ra = self.real(a)
                pw = base
                for _ in range(q - 1):
                    pw = pw * base
                self.side.append(pw == ra)
                lo, hi = tm._ipow(bounds(a), Fraction(1, q))
                if lo > 0:
                    self.side.append(base >= num(lo * (1 - 1e-12)))
                if hi < INF:
                    self.side.append(base <= num(hi * (1 + 1e-12)))
        n = abs(p)
        out = base
        for _ in range(n - 1):
            out = out * base
        if p < 0:
            r = self.roots.get(("inv", a.id, q, n))
            if r is None:
                r = z3.Real(f"inv!{a.id}!{q}!{n}")
                self.roots[("inv", a.id, q, n)] = r
                self.side.append(r * out == 1)
            return r
        return out

    def uf(self, t):
        f = t.args[0]
        if f == "id":
            return self.real(t.args[1])
        z = z3.Real(f"{f}!" + "!".join(str(a.id) if isinstance(a, T) else repr(a) for a in t.args[1:]))
        self._bnd(z, t)
        if f in ("sin", "cos"):
            u = t.args[1]
            if u.id not in self.trig:
                self.trig[u.id] = True
                s = z3.Real(f"sin!{u.id}")
                c = z3.Real(f"cos!{u.id}")
                self.side.append(s * s + c * c == 1)
                lo, hi = bounds(u)
                if lo >= 0 and hi <= math.pi + 1e-9:
                    self.side.append(s >= num(-1e-9))
                if lo >= -math.pi / 2 - 1e-9 and hi <= math.pi / 2 + 1e-9:
                    self.side.append(c >= num(-1e-9))
                if hi - lo < math.pi:
                    for g, zz in ((math.sin, s), (math.cos, c)):
                        cand = [g(lo), g(hi)]
                        k = math.ceil(lo / (math.pi / 2))
                        while k * math.pi / 2 <= hi:
                            cand.append(g(k * math.pi / 2))
                            k += 1
                        self.side.append(zz >= num(min(cand) - 1e-12))
                        self.side.append(zz <= num(max(cand) + 1e-12))
        else:
            for a in t.args[1:]:
                self.real(a) if isinstance(a, T) else None
        return z


def _model_env(m, enc, allvars):
    env = {}
    for nm, (z, t) in enc.vars.items():
        v = m.eval(z, model_completion=True)
        env[nm] = _val(v, t.sort)
    for nm, t in allvars.items():
        if nm not in env:
            env[nm] = None
    return env


def _val(v, sort):
    if sort == "B":
        return z3.is_true(v)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        f = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        return f
    if z3.is_algebraic_value(v):
        w = v.approx(40)
        return float(Fraction(w.numerator_as_long(), w.denominator_as_long()))
    return 0.0


def check(formulas, timeout_ms=20000, abstract=False, want_env=True, seed=None, logic=None):
    """formulas: list of bool terms, conjunction.  returns (res, env, enc)"""
    enc = Enc(abstract)
    zs = [enc.enc(f) if isinstance(f, T) else z3.BoolVal(bool(f)) for f in formulas]
    s = z3.Solver() if logic is None else z3.SolverFor(logic)
    s.set("timeout", int(timeout_ms))
    try:
        s.set("random_seed", SEED if seed is None else seed)
    except Exception:
        pass
    s.add(enc.side)
    s.add(zs)
    t0 = time.time()
    r = s.check()
    STATS["solver_s"] += time.time() - t0
    STATS["queries"] += 1
    if r == z3.unsat:
        STATS["unsat"] += 1
        return "unsat", None, enc
    if r == z3.sat:
        STATS["sat"] += 1
        env = _model_env(s.model(), enc, {}) if want_env else None
        return "sat", env, enc
    STATS["unknown"] += 1
    return "unknown", None, enc


def nonlinear(fs):
    return any(t.op in ("mono", "uf") for t in tm.walk(fs))


def _expanded(f, limit=4000, ites=False):
    """rewrite atoms of a boolean term with expanded polynomials"""
    memo = {}
    pm = {"ites": True} if ites else {}

    def go(t):
        if not isinstance(t, T):
            return t
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.op in ("le", "lt", "eq"):
            p = tm.trig_reduce(tm.expand(t.args[0], limit, pm))
            d = tm.from_poly(p)
            # noise removal is not done: coefficients stay as computed
            r = tm._cmp(t.op, d)
        elif t.op == "not":
            r = tm.lnot(go(t.args[0]))
        elif t.op == "and":
            r = tm.land(*[go(a) for a in t.args])
        elif t.op == "or":
            r = tm.lor(*[go(a) for a in t.args])
        else:
            r = t
        memo[t.id] = r
        return r

    return go(f)


ROUND = 1e-12  # relative difference of constants that counts as rounding (see Ctx.single_precision)


def _near(p, q):
    """polynomials whose coefficients differ by rounding only"""
    if p.keys() == q.keys() and all(p[k][0] == q[k][0] for k in p):
        return True
    big = max(abs(v[0]) for v in (*p.values(), *q.values()))
    for k in p.keys() | q.keys():
        a, b = p[k][0] if k in p else 0, q[k][0] if k in q else 0
        if a != b and not abs(a - b) <= max(ROUND / 10 * big, ROUND * max(abs(a), abs(b))):
            return False
    return True


def _content(p):
    """positive atoms with the power of them that every term has"""
    ms = [{a.id: (a, e) for a, e in m} for _, m in p.values()]
    for i in {i for m in ms for i in m}:
        a = next(m[i][0] for m in ms if i in m)
        n = min(m[i][1] if i in m else 0 for m in ms)
        if n and bounds(a)[0] > 0:
            yield a, n


def _cancel(r, limit, pm):
    """s * k * s**e as k * s**(e+1) for sums s and monomials k"""
    if not isinstance(r, T) or r.op not in ("lin", "mono"):
        return r
    p = tm.expand(r, limit, pm)
    groups = {}
    for c, m in p.values():
        for a, e in m:
            if a.op == "lin" and (not isinstance(e, int) or e < 0):
                groups.setdefault((a.id, e), (a, e, []))[2].append((c, m))
    for a, e, terms in groups.values():
        s = tm.expand(a, limit, pm)
        if len(terms) < len(s) or len(terms) > 200:
            continue
        q = {}
        for c, m in terms:
            m = tuple(x for x in m if x[0] is not a)
            q[tuple((x.id, n) for x, n in m)] = (c, m)
        k0, (c0, m0) = max(s.items(), key=lambda z: abs(z[1][0]))
        for c, m in q.values():
            d = {x.id: (x, n) for x, n in m}
            for x, n in m0:
                o = d.pop(x.id, None)
                n = tm._norm_e((o[1] if o else 0) - n)
                if n:
                    d[x.id] = (x, n)
            k = tm.mul(c / c0, tm._mk_mono(1, d) if d else 1)
            w = tm.trig_reduce(tm.expand(tm.mul(k, a), limit, pm))
            if len(w) == len(q) and _near(w, q):
                rest = tm.from_poly({key: v for key, v in p.items() if not any(x is a and n == e for x, n in v[1])})
                return _cancel(tm.add(rest, tm.mul(k, tm.power(a, tm._norm_e(e + 1)))), limit, pm)
    return r


def _canon(f, limit=4000, table=None):
    """expanded polynomials everywhere, also inside case distinctions; with a
    table, applications of one function to arguments that differ by rounding
    only are taken as the same value"""
    memo, pm = {}, {}

    def arg(x):
        return real(x) if isinstance(x, T) and x.sort != "B" else x

    def known(head, xs, make):
        ps = [tm.expand(x, limit, pm) if isinstance(x, T) else {(): (x, ())} for x in xs]
        for qs, r in table.setdefault(head, []):
            if len(qs) == len(ps) and all(_near(p, q) for p, q in zip(ps, qs)):
                return r
        r = make()
        table[head].append((ps, r))
        return r

    def real(t):
        if not isinstance(t, T):
            return t
        r = memo.get(t.id)
        if r is not None:
            return r
        p = tm.trig_reduce(tm.expand(t, limit, pm))
        pairs = []
        for c, m in p.values():
            x = None
            if table is not None and any(a.op == "uf" and a.args[0] == "exp" for a, _ in m):
                tot = tm.lincomb([(float(e), real(a.args[1])) for a, e in m if a.op == "uf" and a.args[0] == "exp"])
                m = [(a, e) for a, e in m if not (a.op == "uf" and a.args[0] == "exp")]
                k, _ = tm._lin_parts(tot)
                tot = tm.sub(tot, k)
                c = c * math.exp(k) if k else c
                if isinstance(tot, T):
                    tot = real(tot)
                    x = known("exp", [tot], lambda: tm._mk("uf", ("exp", tot), "R"))  # noqa: B023
            for a, e in m:
                if table is not None and (not isinstance(e, int) or e < 0) and a.op in ("lin", "mono"):
                    b = real(a)
                    if isinstance(b, T):
                        # up to positive factors common to its terms
                        for u, n in _content(tm.expand(b, limit, pm)):
                            b = tm.from_poly(tm.expand(tm.mul(b, tm.power(u, -n)), limit, pm))
                            x = tm.power(tm.power(u, n), e) if x is None else tm.mul(x, tm.power(tm.power(u, n), e))
                        # and up to a scale: the largest coefficient becomes one
                        k = max((abs(v[0]) for v in tm.expand(b, limit, pm).values()), default=1)
                        b = tm.mul(b, 1.0 / k)
                        y = tm.mul(float(k) ** float(e), tm.power(known("base", [b], lambda: b), e))  # noqa: B023
                    else:
                        y = tm.power(b, e)
                else:
                    y = tm.power(atom(a), e)
                x = y if x is None else tm.mul(x, y)
            pairs.append((c, 1 if x is None else x))
        r = tm.lincomb(pairs)
        if table is not None:
            r = _cancel(r, limit, pm)
        memo[t.id] = r
        return r

    def atom(a):
        if table is not None and a.op == "uf" and a.args[0] != "id":
            r = memo.get(a.id)
            if r is None:
                xs = [arg(x) for x in a.args[1:]]
                r = None
                if a.args[0] in ("atan", "tanh", "erf", "asin", "asinh", "sin", "cos") and isinstance(xs[0], T):
                    q = tm.expand(tm.neg(xs[0]), limit, pm)
                    r = next(((y if a.args[0] == "cos" else tm.neg(y)) for p, y in table.get(a.args[0], []) if _near(p[0], q)), None)
                if r is None and xs and not any(isinstance(x, (T, complex, tm.CX)) for x in xs) and hasattr(math, a.args[0]):
                    try:
                        r = tm._snapt(getattr(math, a.args[0])(*map(float, xs))) if a.args[0] in ("sin", "cos") else getattr(math, a.args[0])(*map(float, xs))
                    except ValueError:
                        r = None
                if r is None:
                    r = known(a.args[0], xs, lambda: tm.uf(a.args[0], *xs))
                memo[a.id] = r
            return r
        if a.op != "ite" or a.sort == "I":
            return a
        r = memo.get(a.id)
        if r is None:
            r = tm.ite(go(a.args[0]), real(a.args[1]), real(a.args[2]))
            memo[a.id] = r
        return r

    def go(t):
        if not isinstance(t, T):
            return t
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.op in ("le", "lt", "eq"):
            r = tm._cmp(t.op, real(t.args[0])) if not (isinstance(t.args[0], T) and t.args[0].sort == "I") else t
        elif t.op == "not":
            r = tm.lnot(go(t.args[0]))
        elif t.op == "and":
            r = tm.land(*[go(a) for a in t.args])
        elif t.op == "or":
            r = tm.lor(*[go(a) for a in t.args])
        else:
            r = t
        memo[t.id] = r
        return r

    return go(f)


def clear_denominators(d, limit=4000):
    """for a real term d: multiply by its (positive, even) denominators.

    returns an expanded polynomial equal to d * prod(b**n) for bases b with
    negative exponents that are provably positive, or None."""
    p = tm.expand(d, limit)
    need = {}
    for c, m in p.values():
        for a, e in m:
            if e < 0:
                if bounds(a)[0] < 0 and not (bounds(a)[1] <= 0):
                    pass
                o = need.get(a.id)
                if o is None or -e > o[1]:
                    need[a.id] = (a, -e)
    if not need:
        return p
    memo = {}
    out = {}
    for c, m in p.values():
        have = {a.id: e for a, e in m}
        term_ = {(): (c, ())}
        for a, e in m:
            if a.id not in need:
                term_ = tm._pmul(term_, {((a.id, e),): (1, ((a, e),))}, limit)
        for aid, (a, n) in need.items():
            e = tm._norm_e(have.get(aid, 0) + n)
            if e == 0:
                continue
            if isinstance(e, int) and a.op in ("lin", "mono"):
                pa = tm._expand(a, limit, memo)
                for _ in range(e):
                    term_ = tm._pmul(term_, pa, limit)
            else:
                term_ = tm._pmul(term_, {((a.id, e),): (1, ((a, e),))}, limit)
        for k, (cc, mm) in term_.items():
            o = out.get(k)
            out[k] = (cc, mm) if o is None else (tm._cadd(o[0], cc), mm)
    return {k: v for k, v in out.items() if v[0] != 0}


def _lower_from_pc(a, pc):
    """a constant lower bound of term a implied by one path condition"""
    lo, hi = bounds(a)
    best = lo
    for c in pc:
        if not isinstance(c, T) or c.op not in ("le", "lt"):
            continue
        if not (_ids(a) & _ids(c.args[0])):
            continue
        try:
            rest = tm.trig_reduce(tm.expand(tm.add(c.args[0], a), 2000))
        except tm.TooBig:
            continue
        r = tm.from_poly(rest)
        l = bounds(r)[0]
        if l > best:
            best = l
    return best


_idmemo = {}


def _ids(t):
    r = _idmemo.get(t.id)
    if r is None or r[0] is not t:
        r = (t, frozenset(x.id for x in tm.walk([t]) if x.op == "var"))
        _idmemo[t.id] = r
    return r[1]


def _rational_bound(t, pc, limit=6000):
    """for t <= 0 where t = N/D + c: a term whose non-positivity implies t <= 0
    (N - (-c)*Dmin), or None"""
    p = tm.trig_reduce(tm.expand(t, limit))
    c0 = 0
    d = {}
    for k, (c, m) in p.items():
        if not m:
            c0 = c
        else:
            d[k] = (c, m)
    if c0 > 0:
        c0, d = 0, p
    need = {}
    for c, m in d.values():
        for a, e in m:
            if e < 0:
                o = need.get(a.id)
                if o is None or -e > o[1]:
                    need[a.id] = (a, -e)
    if not need:
        return None
    dmin = 1.0
    for a, n in need.values():
        lo = _lower_from_pc(a, pc)
        if lo <= 0:
            even = isinstance(n, int) and n % 2 == 0
            frac = not isinstance(n, int) and n.denominator == 2
            if not (even or frac) and not bounds(a)[0] >= 0:
                return None
            dmin = 0.0
        else:
            dmin *= float(lo) ** float(n)
    num_ = clear_denominators(tm.from_poly(d), limit)
    num_ = tm.trig_reduce(num_)
    return tm.sub(tm.from_poly(num_), -c0 * dmin * (1 - 1e-9))


def _rationalised(f, pc):
    memo = {}

    def go(t, pos):
        if not isinstance(t, T):
            return t
        if t.op in ("le", "lt") and pos:
            r = _rational_bound(t.args[0], pc)
            return t if r is None else tm._cmp("le" if t.op == "le" else "lt", r)
        if t.op == "and":
            return tm.land(*[go(a, pos) for a in t.args])
        if t.op == "or":
            return tm.lor(*[go(a, pos) for a in t.args])
        return t

    return go(f, True)


class Result:
    __slots__ = ("name", "status", "env", "stage", "goal")

    def __init__(self, name, status, env=None, stage="", goal=None):
        self.name, self.status, self.env, self.stage, self.goal = name, status, env, stage, goal

    def __repr__(self):
        return f"Result({self.name},{self.status},{self.stage})"


def prove(pc, goals, timeout_ms=20000, nl_timeout_ms=20000):
    """pc: list of bool terms; goals: list of (name, term).  -> list[Result]"""
    out = []
    STATS["goals"] += len(goals)
    lin_pc = pc
    # ---- stage L on batches
    pend = []
    for i in range(0, len(goals), 400):
        out_, pend_ = _batch(lin_pc, goals[i : i + 400], timeout_ms)
        out += out_
        pend += pend_
    for name, g in pend:
        out.append(_single(pc, name, g, timeout_ms, nl_timeout_ms))
    return out


def _batch(pc, goals, timeout_ms):
    fs = [g for _, g in goals]
    bad = tm.lor(*[tm.lnot(g) if isinstance(g, T) else (not g) for g in fs])
    r, env, enc = check(list(pc) + [bad], timeout_ms, abstract=True)
    if r == "unsat":
        STATS["stageL"] += len(goals)
        return [Result(n, "proved", stage="L", goal=g) for n, g in goals], []
    if len(goals) == 1:
        return [], goals
    if not enc.nl and r == "sat":
        # genuine linear counterexample; find which goal
        memo = {}
        fullenv = dict(env)
        res, rest = [], []
        for n, g in goals:
            try:
                v = tm.evaluate(g, fullenv, memo) if isinstance(g, T) else bool(g)
            except KeyError:
                v = None
            if v is False:
                rest.append((n, g))
        if rest:
            # report only the violated ones; re-check remaining as a batch
            bad_ids = {id(g) for _, g in rest}
            keep = [(n, g) for n, g in goals if id(g) not in bad_ids]
            o, p = _batch(pc, keep, timeout_ms) if keep else ([], [])
            return o, p + rest[:3]
    h = len(goals) // 2
    a, b = _batch(pc, goals[:h], timeout_ms)
    c, d = _batch(pc, goals[h:], timeout_ms)
    return a + c, b + d


def _single(pc, name, g, timeout_ms, nl_timeout_ms):
    if not isinstance(g, T):
        if g:
            return Result(name, "proved", stage="const", goal=g)
        r, env, _ = check(list(pc), timeout_ms)
        if r == "sat":
            return Result(name, "failed", env, "const", g)
        if r == "unsat":
            return Result(name, "proved", stage="deadpath", goal=g)
        return Result(name, "unknown", None, "const", g)
    neg_ = tm.lnot(g)
    nl = nonlinear(list(pc) + [g])
    if not nl:
        r, env, _ = check(list(pc) + [neg_], timeout_ms)
        if r == "unsat":
            return Result(name, "proved", stage="L", goal=g)
        if r == "sat":
            return Result(name, "failed", env, "L", g)
        return Result(name, "unknown", None, "L", g)
    # stage P
    try:
        ng = _expanded(neg_)
        if not isinstance(ng, T):
            if ng is False or ng == 0:
                r, _, _ = check([z for z in pc] + [False], timeout_ms)
                STATS["stageP"] += 1
                return Result(name, "proved", stage="P", goal=g)
        r, env, _ = check(list(pc) + [ng], timeout_ms, abstract=True)
        if r == "unsat":
            STATS["stageP"] += 1
            return Result(name, "proved", stage="P", goal=g)
    except tm.TooBig:
        ng = neg_
    # stage C: polynomials expanded inside case distinctions too
    if any(t.op == "ite" for t in tm.walk([g])):
        try:
            cg = _canon(neg_)
            if not isinstance(cg, T):
                r = "sat" if cg else "unsat"
            else:
                r, env, _ = check([_canon(c) for c in pc] + [cg], timeout_ms, abstract=True)
            if r == "unsat":
                STATS["stageC"] = STATS.get("stageC", 0) + 1
                return Result(name, "proved", stage="C", goal=g)
        except tm.TooBig:
            pass
    # stage U: function applications unified when their arguments agree
    if any(t.op == "uf" and t.args[0] != "id" or t.op == "mono" for t in tm.walk([g])):
        try:
            tab = {}
            ug = _canon(neg_, table=tab)
            if not isinstance(ug, T):
                r = "sat" if ug else "unsat"
            else:
                r, env, _ = check([_canon(c, table=tab) for c in pc] + [ug], timeout_ms, abstract=True)
            if r == "unsat":
                STATS["stageU"] = STATS.get("stageU", 0) + 1
                return Result(name, "proved", stage="U", goal=g)
        except tm.TooBig:
            pass
    # stage I: the same with case distinctions expanded over 0/1 indicators
    if any(t.op == "ite" for t in tm.walk([g])):
        try:
            ig = _expanded(neg_, ites=True)
            if not isinstance(ig, T):
                r = "sat" if ig else "unsat"
            else:
                r, env, _ = check(list(pc) + [ig], timeout_ms, abstract=True)
            if r == "unsat":
                STATS["stageI"] = STATS.get("stageI", 0) + 1
                return Result(name, "proved", stage="I", goal=g)
        except tm.TooBig:
            pass
    # stage R: rational identities (common denominator, strengthened goal)
    try:
        rg = _rationalised(g, pc)
        if rg is not g:
            if isinstance(rg, T):
                r, env, _ = check(list(pc) + [tm.lnot(rg)], timeout_ms, abstract=True)
            else:
                r = "unsat" if rg else "sat"
            if r == "unsat":
                STATS["stageR"] = STATS.get("stageR", 0) + 1
                return Result(name, "proved", stage="R", goal=g)
    except tm.TooBig:
        pass
    # stage N
    if STATS.get("nl_unknown", 0) >= 3:
        nl_timeout_ms = min(nl_timeout_ms, 3000)
    r, env, _ = check(list(pc) + [neg_], nl_timeout_ms)
    STATS["stageN"] += 1
    if r == "unsat":
        return Result(name, "proved", stage="N", goal=g)
    if r == "sat":
        return Result(name, "failed", env, "N", g)
    if isinstance(ng, T) and ng is not neg_:
        r, env, _ = check(list(pc) + [ng], nl_timeout_ms)
        if r == "unsat":
            return Result(name, "proved", stage="N", goal=g)
        if r == "sat":
            return Result(name, "failed", env, "N", g)
    STATS["nl_unknown"] = STATS.get("nl_unknown", 0) + 1
    return Result(name, "unknown", None, "N", g)
