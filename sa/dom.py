"""Abstract domains of the analyser: affine forms over ranged variables, opaque
(value-numbered) terms, three-valued conditions and the partitioning context.

No concrete input is ever chosen and no solver is called: a condition that the
range/affine domain cannot decide splits the abstract state into the part where
it holds and the part where it does not (trace partitioning)."""
from math import gcd


class Infeasible(Exception):
    """The current abstract partition is empty."""


class Unsupported(Exception):
    """The analysed source uses something the analyser has no transfer function for."""


class Budget(Exception):
    """Partition/step budget exhausted."""


# ---------------------------------------------------------------- ranges
def r_interval(lo, hi):
    if lo is not None and hi is not None:
        if lo > hi:
            raise Infeasible()
        if hi - lo <= 300:
            return frozenset(range(int(lo), int(hi) + 1))
    return (lo, hi)


def r_lo(r):
    return min(r) if isinstance(r, frozenset) else r[0]


def r_hi(r):
    return max(r) if isinstance(r, frozenset) else r[1]


# ---------------------------------------------------------------- terms
class Term:
    __slots__ = ("op", "args", "_h")
    _table = {}

    def __new__(cls, op, *args):
        key = (op,) + tuple((type(a).__name__, a) if isinstance(a, (bool, int, float)) else a
                            for a in args)
        t = cls._table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            t._h = hash(key)
            cls._table[key] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        if not self.args:
            return str(self.op)
        return "%s(%s)" % (self.op, ",".join(_short(a) for a in self.args))


def _short(a):
    s = repr(a)
    return s if len(s) < 80 else s[:77] + "..."


class Var:
    """An integer-valued abstract unknown with a default range."""
    __slots__ = ("name", "rng", "vid")
    _table = {}
    _n = 0

    def __new__(cls, name, rng=(None, None)):
        v = cls._table.get(name)
        if v is None:
            v = object.__new__(cls)
            v.name = name
            v.rng = rng
            Var._n += 1
            v.vid = Var._n
            cls._table[name] = v
        elif v.rng != rng:
            # same unknown, tighter knowledge: keep what both creations guarantee
            raise Unsupported("variable %r created with two ranges" % (name,))
        return v

    def __repr__(self):
        return str(self.name)


class Lin:
    """c + sum coef*var with integer coefficients."""
    __slots__ = ("c", "ts", "_h")

    def __init__(self, c, ts):
        self.c = c
        self.ts = ts  # tuple of (Var, coef) sorted by vid
        self._h = hash((c, ts))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.ts == o.ts

    def __repr__(self):
        s = " + ".join(("%s*%s" % (k, v)) if k != 1 else str(v) for v, k in self.ts)
        return "(%s%s)" % (s, (" + %s" % self.c) if self.c else "")


def mk(c, d):
    ts = tuple(sorted(((v, k) for v, k in d.items() if k), key=lambda p: p[0].vid))
    if isinstance(c, float) and c.is_integer():
        c = int(c)
    if not ts:
        return c
    return Lin(c, ts)


def isnum(x):
    return isinstance(x, (int, float, Lin)) and not isinstance(x, bool) or isinstance(x, bool)


def var(name, lo=None, hi=None, vals=None):
    if vals is not None:
        r = frozenset(vals)
    else:
        r = r_interval(lo, hi)
    return Lin(0, ((Var(name, r), 1),))


def parts(x):
    if isinstance(x, Lin):
        return x.c, dict(x.ts)
    if isinstance(x, bool):
        return int(x), {}
    if isinstance(x, float) and x.is_integer():
        return int(x), {}
    return x, {}


def add(a, b, kb=1):
    ca, da = parts(a)
    cb, db = parts(b)
    d = dict(da)
    for v, k in db.items():
        d[v] = d.get(v, 0) + k * kb
    return mk(ca + cb * kb, d)


def scale(a, k):
    c, d = parts(a)
    if k == 0:
        return 0
    return mk(c * k, {v: kk * k for v, kk in d.items()})


# ---------------------------------------------------------------- conditions
class Cond:
    """Undecided truth value.  kind: 'eq' lin==0 | 'ge' lin>=0 | 'truth' term |
    'not' c | 'and' cs | 'or' cs"""
    __slots__ = ("kind", "a", "_h")

    def __init__(self, kind, a):
        self.kind = kind
        self.a = a
        self._h = hash((kind, a))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Cond) and self.kind == o.kind and self.a == o.a

    def __repr__(self):
        if self.kind == "eq":
            return "%r==0" % (self.a,)
        if self.kind == "ge":
            return "%r>=0" % (self.a,)
        return "%s%r" % (self.kind, self.a)


def c_not(c):
    if isinstance(c, bool):
        return not c
    if c.kind == "not":
        return c.a
    return Cond("not", c)


def c_and(cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is True:
            continue
        out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return Cond("and", tuple(out))


def c_or(cs):
    out = []
    for c in cs:
        if c is True:
            return True
        if c is False:
            continue
        out.append(c)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return Cond("or", tuple(out))


# ---------------------------------------------------------------- context
class _Found(Exception):
    pass


class Explorer:
    def __init__(self):
        self.stack = []
        self.pos = 0
        self.forker = None


class Ctx:
    """Partitioning context with an undo trail."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.trail = []
        self.rng = {}
        self.facts = {}
        self.byvar = {}          # variable -> comparisons between several variables it occurs in
        self.counters = {}
        self.expl = [Explorer()]
        self.stats = {"paths": 0, "splits": 0, "calls": 0, "stmts": 0}
        self.part_max = 4096     # largest product domain enumerated to decide a comparison
        self.split_max = 40      # largest variable domain split to make an operation exact
        self.max_paths = 200000
        self.log = None          # effect log (list, trailed) when enabled
        self.deadline = None

    # --- trail -------------------------------------------------------
    def setattr(self, obj, attr, val):
        self.trail.append((0, obj, attr, getattr(obj, attr)))
        setattr(obj, attr, val)

    _MISSING = object()

    def dset(self, d, k, v):
        self.trail.append((1, d, k, d.get(k, self._MISSING)))
        d[k] = v

    def ddel(self, d, k):
        self.trail.append((2, d, dict(d), None))
        del d[k]

    def undo(self, mark):
        t = self.trail
        M = self._MISSING
        while len(t) > mark:
            kind, o, k, old = t.pop()
            if kind == 0:
                setattr(o, k, old)
            elif kind == 1:
                if old is M:
                    o.pop(k, None)
                else:
                    o[k] = old
            else:
                o.clear()
                o.update(k)

    def fresh(self, label):
        n = self.counters.get(label, 0)
        self.dset(self.counters, label, n + 1)
        return (label, n)

    def freshvar(self, label, lo=None, hi=None, vals=None):
        return var(self.fresh(label) + (lo, hi, None if vals is None else tuple(sorted(vals))), lo, hi, vals)

    # --- exploration -------------------------------------------------
    def choose(self, n, why=None):
        if n <= 0:
            raise Infeasible()
        if n == 1:
            return 0
        e = self.expl[-1]
        if e.pos < len(e.stack):
            c = e.stack[e.pos][0]
        elif e.forker is not None:
            self.stats["splits"] += 1
            return e.forker(n, why)
        else:
            e.stack.append([0, n])
            c = 0
            self.stats["splits"] += 1
        e.pos += 1
        return c

    def explore(self, fn, limit=None):
        """Run fn on every partition; returns the number of feasible ones."""
        e = Explorer()
        self.expl.append(e)
        n = 0
        tot = 0
        try:
            while True:
                e.pos = 0
                mark = len(self.trail)
                try:
                    fn()
                    n += 1
                except Infeasible:
                    pass
                finally:
                    self.undo(mark)
                tot += 1
                self.stats["paths"] += 1
                if limit and tot > limit:
                    raise Budget("partition limit %d" % limit)
                if self.stats["paths"] > self.max_paths:
                    raise Budget("path budget")
                if self.deadline is not None:
                    import time
                    if time.time() > self.deadline:
                        raise Budget("time budget")
                while e.stack and e.stack[-1][0] + 1 >= e.stack[-1][1]:
                    e.stack.pop()
                if not e.stack:
                    break
                e.stack[-1][0] += 1
        finally:
            self.expl.pop()
        return n

    def feasible(self, fn):
        """Does some partition of fn complete?  (local: nothing it decides is kept)"""
        def once():
            fn()
            raise _Found()
        try:
            self.explore(once)
        except _Found:
            return True
        return False

    # --- ranges ------------------------------------------------------
    def range_of(self, v):
        r = self.rng.get(v)
        return v.rng if r is None else r

    def set_range(self, v, r):
        if isinstance(r, frozenset):
            if not r:
                raise Infeasible()
        else:
            r = r_interval(*r)
            if isinstance(r, frozenset) and not r:
                raise Infeasible()
        self.dset(self.rng, v, r)
        if isinstance(r, frozenset) and len(r) == 1:
            for c, val in self.byvar.get(v, ()):
                x = self.norm(c.a)
                if isinstance(x, Lin):
                    if c.kind == "ge":
                        self._tighten(x if val else add(scale(x, -1), -1))
                    elif val:
                        self._tighten(x)
                        self._tighten(scale(x, -1))
                elif (x == 0 if c.kind == "eq" else x >= 0) != val:
                    raise Infeasible()

    def norm(self, x):
        """Substitute variables whose range is a singleton."""
        if not isinstance(x, Lin):
            return x
        hit = False
        for v, k in x.ts:
            r = self.rng.get(v)
            if r is None:
                r = v.rng
            if isinstance(r, frozenset) and len(r) == 1:
                hit = True
                break
        if not hit:
            return x
        c = x.c
        d = {}
        for v, k in x.ts:
            r = self.range_of(v)
            if isinstance(r, frozenset) and len(r) == 1:
                c += k * next(iter(r))
            else:
                d[v] = k
        return mk(c, d)

    def bounds(self, x):
        c, d = parts(x)
        lo = hi = c
        for v, k in d.items():
            r = self.range_of(v)
            a, b = r_lo(r), r_hi(r)
            if k < 0:
                a, b = b, a
            lo = None if (lo is None or a is None) else lo + k * a
            hi = None if (hi is None or b is None) else hi + k * b
        return lo, hi

    def domain_size(self, x, cap=5000):
        n = 1
        for v, _ in parts(x)[1].items():
            r = self.range_of(v)
            if not isinstance(r, frozenset):
                return None
            n *= len(r)
            if n > cap:
                return None
        return n

    # --- deciding ----------------------------------------------------
    def mk_eq(self, x):
        x = self.norm(x)
        if not isinstance(x, Lin):
            return x == 0
        g = 0
        for _, k in x.ts:
            g = gcd(g, k)
        if isinstance(x.c, int) and x.c % g:
            return False
        if not isinstance(x.c, int):
            return False
        if g > 1 or x.ts[0][1] < 0:
            s = g if x.ts[0][1] > 0 else -g
            x = Lin(x.c // s, tuple((v, k // s) for v, k in x.ts))
        return Cond("eq", x)

    def eq0(self, x):
        """Condition x == 0 (products are zero iff a factor is)."""
        c = self.mk_eq(x)
        if isinstance(c, Cond) and len(c.a.ts) == 1 and c.a.c == 0:
            n = c.a.ts[0][0].name
            if isinstance(n, Term) and n.op == "mul":
                return c_or([self.eq0(n.args[0]), self.eq0(n.args[1])])
        return c

    def ge0(self, x):
        c = self.mk_ge(x)
        if isinstance(c, Cond) and len(c.a.ts) == 1:
            v, k = c.a.ts[0]
            n = v.name
            if isinstance(n, Term) and n.op == "mul":
                lo = r_lo(self.range_of(v))
                if lo is not None and lo >= 0:
                    if k == 1 and c.a.c == -1:
                        return c_not(self.eq0(Lin(0, ((v, 1),))))
                    if k == -1 and c.a.c == 0:
                        return self.eq0(Lin(0, ((v, 1),)))
        return c

    def mk_ge(self, x):
        x = self.norm(x)
        if not isinstance(x, Lin):
            return x >= 0
        g = 0
        for _, k in x.ts:
            g = gcd(g, k)
        c = x.c
        if not isinstance(c, int):
            import math
            c = math.floor(c)
        if g > 1 or c != x.c:
            x = Lin(c // g, tuple((v, k // g) for v, k in x.ts))
        return Cond("ge", x)

    def decide(self, c):
        """True / False / None"""
        if isinstance(c, bool):
            return c
        k = c.kind
        if k == "not":
            r = self.decide(c.a)
            return None if r is None else not r
        if k == "and":
            un = False
            for s in c.a:
                r = self.decide(s)
                if r is False:
                    return False
                if r is None:
                    un = True
            return None if un else True
        if k == "or":
            un = False
            for s in c.a:
                r = self.decide(s)
                if r is True:
                    return True
                if r is None:
                    un = True
            return None if un else False
        f = self.facts.get(c)
        if f is not None:
            return f
        if k == "truth":
            return None
        x = self.norm(c.a)
        if not isinstance(x, Lin):
            return (x == 0) if k == "eq" else (x >= 0)
        if k == "eq":
            c2 = self.mk_eq(x)
            if isinstance(c2, bool):
                return c2
            f = self.facts.get(c2)
            if f is not None:
                return f
            x = c2.a
            lo, hi = self.bounds(x)
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                return False
            if len(x.ts) == 1:
                v, kk = x.ts[0]
                r = self.range_of(v)
                if x.c % kk:
                    return False
                if isinstance(r, frozenset) and (-x.c // kk) not in r:
                    return False
                return None
            # implied by ge facts?
            n = self.domain_size(x, 600)
            if n is not None and not self._can_zero(x):
                return False
            return None
        # ge
        c2 = self.mk_ge(x)
        if isinstance(c2, bool):
            return c2
        f = self.facts.get(c2)
        if f is not None:
            return f
        lo, hi = self.bounds(c2.a)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        # stronger facts on the same linear part
        ts = c2.a.ts
        neg = tuple((v, -k) for v, k in ts)
        for fc, fv in self.facts.items():
            if fc.kind == "ge" and isinstance(fc.a, Lin):
                if fc.a.ts == ts:
                    if fv and c2.a.c >= fc.a.c:
                        return True
                    if not fv and c2.a.c <= fc.a.c:
                        return False
                elif fc.a.ts == neg:
                    # -L + c0 >= 0  =>  L <= c0 ; query L + c >= 0
                    if fv and c2.a.c + fc.a.c < 0:
                        return False
                    if not fv and c2.a.c + fc.a.c + 1 > 0 - 0 and c2.a.c - (-fc.a.c) >= -1:
                        # not(-L + c0 >= 0) => L >= c0+1 ; L + c >= c0+1+c >= 0
                        if fc.a.c + 1 + c2.a.c >= 0:
                            return True
            elif fc.kind == "eq" and fv and isinstance(fc.a, Lin):
                if fc.a.ts == ts:
                    return c2.a.c - fc.a.c >= 0
                if fc.a.ts == neg:
                    return c2.a.c + fc.a.c >= 0
        return None

    def _can_zero(self, x):
        vals = {x.c}
        for v, k in x.ts:
            r = self.range_of(v)
            vals = {a + k * b for a in vals for b in r}
        return 0 in vals

    def truth(self, c):
        """Decide c, partitioning the state when needed."""
        r = self.decide(c)
        if r is not None:
            return r
        k = c.kind
        if k == "not":
            return not self.truth(c.a)
        if k == "and":
            for s in c.a:
                if not self.truth(s):
                    return False
            return True
        if k == "or":
            for s in c.a:
                if self.truth(s):
                    return True
            return False
        if k == "truth":
            val = bool(self.choose(2, c) == 0)
            self.dset(self.facts, c, val)
            return val
        x = self.norm(c.a)
        c = self.mk_eq(x) if k == "eq" else self.mk_ge(x)
        if isinstance(c, bool):
            return c
        x = c.a
        if self.domain_size(x, 4096 if len(x.ts) == 1 else self.part_max) is not None:
            return self._partition(c)
        val = bool(self.choose(2, c) == 0)
        self.assume(c, val)
        return val

    def _partition(self, c):
        while True:
            r = self.decide(c)
            if r is not None:
                return r
            x = self.norm(c.a)
            if not isinstance(x, Lin):
                return self.decide(c)
            best = None
            for v, kk in x.ts:
                n = len(self.range_of(v))
                if n > 1 and (best is None or n < best[0]):
                    best = (n, v, kk)
            _, v, kk = best
            T, F, U = [], [], []
            dv = dict(x.ts)
            del dv[v]
            for val in sorted(self.range_of(v)):
                y = mk(x.c + kk * val, dv)
                cc = self.mk_eq(y) if c.kind == "eq" else self.mk_ge(y)
                rr = self.decide(cc)
                (T if rr is True else F if rr is False else U).append(val)
            groups = [g for g in (T, F) if g] + [[u] for u in U]
            i = self.choose(len(groups))
            self.set_range(v, frozenset(groups[i]))

    def assume(self, c, val):
        """Record that c has truth value val (no decision made)."""
        if isinstance(c, bool):
            if c != val:
                raise Infeasible()
            return
        if c.kind == "not":
            return self.assume(c.a, not val)
        if c.kind == "and" and val or c.kind == "or" and not val:
            for s in c.a:
                self.assume(s, val)
            return
        if c.kind == "or" or c.kind == "and":
            # or true / and false: unit propagation
            rest = [s for s in c.a if self.decide(s) is not (False if c.kind == "or" else True)]
            if len(rest) == 0:
                raise Infeasible()
            if len(rest) == 1:
                return self.assume(rest[0], val)
        if c.kind in ("and", "or", "truth"):
            d = self.decide(c)
            if d is not None and d != val:
                raise Infeasible()
            self.dset(self.facts, c, val)
            return
        x = self.norm(c.a)
        c = self.mk_eq(x) if c.kind == "eq" else self.mk_ge(x)
        if isinstance(c, bool):
            if c != val:
                raise Infeasible()
            return
        d = self.decide(c)
        if d is not None:
            if d != val:
                raise Infeasible()
            return
        x = c.a
        self.dset(self.facts, c, val)
        if len(x.ts) > 1:
            for v, _ in x.ts:
                self.dset(self.byvar, v, self.byvar.get(v, ()) + ((c, val),))
        if c.kind == "eq":
            if val:
                if len(x.ts) == 1:
                    v, k = x.ts[0]
                    self.set_range(v, frozenset([-x.c // k]))
                else:
                    self._tighten(x)
                    self._tighten(scale(x, -1))
            elif len(x.ts) == 1:
                v, k = x.ts[0]
                bad = -x.c // k
                r = self.range_of(v)
                if isinstance(r, frozenset):
                    self.set_range(v, r - {bad})
                else:
                    lo, hi = r
                    if lo == bad:
                        self.set_range(v, (lo + 1, hi))
                    elif hi == bad:
                        self.set_range(v, (lo, hi - 1))
        else:
            y = x if val else add(scale(x, -1), -1)
            self._tighten(y)

    def _tighten(self, x):
        """x >= 0: bound every variable by the others' extremes."""
        for v, k in x.ts:
            rest = mk(x.c, {u: kk for u, kk in x.ts if u is not v})
            hi = self.bounds(rest)[1]
            if hi is None:
                continue
            r = self.range_of(v)
            # k*v >= -hi
            if k > 0:
                b = -((hi) // k)       # ceil(-hi/k)
                if isinstance(r, frozenset):
                    nr = frozenset(a for a in r if a >= b)
                    if nr != r:
                        self.set_range(v, nr)
                elif r[0] is None or r[0] < b:
                    self.set_range(v, (b, r[1]))
            else:
                b = hi // (-k)
                if isinstance(r, frozenset):
                    nr = frozenset(a for a in r if a <= b)
                    if nr != r:
                        self.set_range(v, nr)
                elif r[1] is None or r[1] > b:
                    self.set_range(v, (r[0], b))

    # --- splitting ---------------------------------------------------
    def split_some(self, x):
        """Partition on the smallest variable of x; returns False if none is small enough."""
        x = self.norm(x)
        if not isinstance(x, Lin):
            return False
        best = None
        for v, k in x.ts:
            r = self.range_of(v)
            if isinstance(r, frozenset) and 1 < len(r) <= self.split_max:
                if best is None or len(r) < best[0]:
                    best = (len(r), v)
        if best is None:
            return False
        v = best[1]
        vals = sorted(self.range_of(v))
        self.set_range(v, frozenset([vals[self.choose(len(vals))]]))
        return True

    def concretize(self, x, cap=None):
        """Split until x is a number; None when it is not finite/small."""
        x = self.norm(x)
        while isinstance(x, Lin):
            if cap is not None:
                n = self.domain_size(x)
                if n is None or n > cap:
                    return None
            if not self.split_some(x):
                return None
            x = self.norm(x)
        return x

    # --- arithmetic --------------------------------------------------
    def derived(self, op, args, lo, hi):
        x = var(Term(op, *args))
        if lo is not None or hi is not None:
            v = x.ts[0][0]
            r = self.range_of(v)
            l0, h0 = r_lo(r), r_hi(r)
            if (lo is not None and (l0 is None or lo > l0)) or (hi is not None and (h0 is None or hi < h0)):
                n = (lo if l0 is None or (lo is not None and lo > l0) else l0,
                     hi if h0 is None or (hi is not None and hi < h0) else h0)
                if isinstance(r, frozenset):
                    self.set_range(v, frozenset(a for a in r if (n[0] is None or a >= n[0])
                                                and (n[1] is None or a <= n[1])))
                else:
                    self.set_range(v, n)
        return self.norm(x)

    def floordiv(self, x, m):
        x = self.norm(x)
        m = self.norm(m)
        if not isinstance(m, Lin):
            if m == 0:
                raise ZeroDivisionError
            if not isinstance(x, Lin):
                return x // m if not isinstance(x, bool) else int(x) // m
            if not isinstance(m, int):
                if float(m).is_integer():
                    m = int(m)
                else:
                    return self.derived("div", (x, m), None, None)
            if m < 0:
                return self.floordiv(scale(x, -1), -m)
            while True:
                x = self.norm(x)
                if not isinstance(x, Lin):
                    return x // m
                q = {v: k // m for v, k in x.ts if k % m == 0}
                rest = mk(x.c, {v: k for v, k in x.ts if k % m})
                lo, hi = self.bounds(rest)
                if lo is not None and hi is not None and lo // m == hi // m:
                    return mk(lo // m, q)
                # try reduced coefficients: k = a*m + b
                d2 = {}
                q2 = dict(q)
                for v, k in parts(rest)[1].items():
                    a, b = divmod(k, m)
                    if a:
                        q2[v] = q2.get(v, 0) + a
                    if b:
                        d2[v] = b
                a, b = divmod(parts(rest)[0], m)
                r2 = mk(b, d2)
                lo, hi = self.bounds(r2)
                if lo is not None and hi is not None and lo // m == hi // m:
                    return mk(a + lo // m, q2)
                if not self.split_some(rest):
                    t = self.derived("div", (r2, m),
                                     None if lo is None else lo // m,
                                     None if hi is None else hi // m)
                    return add(mk(a, q2), t)
        k = self.concretize(m)
        if k is None:
            return self.derived("div", (x, m), None, None)
        return self.floordiv(x, k)

    def mod(self, x, m):
        x = self.norm(x)
        m = self.norm(m)
        if isinstance(m, Lin):
            k = self.concretize(m)
            if k is None:
                return self.derived("mod", (x, m), None, None)
            m = k
        if m == 0:
            raise ZeroDivisionError
        if not isinstance(x, Lin):
            return x % m
        if not isinstance(m, int):
            if float(m).is_integer():
                m = int(m)
            else:
                return self.derived("mod", (x, m), None, None)
        q = self.floordiv(x, m)
        x = self.norm(x)
        if isinstance(q, Lin) and any(isinstance(v.name, Term) and v.name.op == "div"
                                      for v, _ in q.ts):
            red = mk(parts(x)[0] % m, {v: k % m for v, k in parts(x)[1].items()})
            return self.derived("mod", (red, m), 0, m - 1)
        return add(x, q, -m)

    def bitand(self, x, y):
        x = self.norm(x)
        y = self.norm(y)
        if not isinstance(x, Lin) and not isinstance(y, Lin):
            return int(x) & int(y)
        if not isinstance(x, Lin):
            x, y = y, x
        if isinstance(y, Lin):
            # disjoint?
            if self._disjoint(x, y):
                return 0
            nx, ny = self.domain_size(x), self.domain_size(y)
            if nx is not None and (ny is None or nx < ny):
                x, y = y, x
            k = self.concretize(y)
            if k is None:
                return self.derived("and", (x, y), None, None)
            return self.bitand(x, k)
        m = int(y)
        if m == 0:
            return 0
        if m < 0:
            return add(x, self.bitand(x, ~m), -1)
        out = 0
        pos = 0
        while m >> pos:
            if not (m >> pos) & 1:
                pos += 1
                continue
            w = 0
            while (m >> (pos + w)) & 1:
                w += 1
            part = self.mod(self.floordiv(x, 1 << pos), 1 << w)
            out = add(out, scale(part, 1 << pos) if part != 0 else 0)
            x = self.norm(x)
            pos += w
        return out

    def _disjoint(self, x, y):
        def low_zero(z):
            z = self.norm(z)
            c, d = parts(z)
            g = 0
            for k in d.values():
                g = gcd(g, k)
            g = gcd(g, c) if c else g
            return g & -g if g else 1 << 60
        for a, b in ((x, y), (y, x)):
            lo, hi = self.bounds(b)
            if lo is not None and hi is not None and lo >= 0 and hi < low_zero(a):
                return True
        return False

    def bitor(self, x, y):
        x = self.norm(x)
        y = self.norm(y)
        if not isinstance(x, Lin) and not isinstance(y, Lin):
            return int(x) | int(y)
        a = self.bitand(x, y)
        return add(add(self.norm(x), self.norm(y)), a, -1)

    def bitxor(self, x, y):
        x = self.norm(x)
        y = self.norm(y)
        if not isinstance(x, Lin) and not isinstance(y, Lin):
            return int(x) ^ int(y)
        a = self.bitand(x, y)
        return add(add(self.norm(x), self.norm(y)), scale(a, 2) if a != 0 else 0, -1)

    def shl(self, x, n):
        n = self.norm(n)
        if isinstance(n, Lin):
            k = self.concretize(n)
            if k is None:
                return self.derived("shl", (x, n), None, None)
            n = k
        if n < 0:
            raise ValueError("negative shift count")
        return scale(self.norm(x), 1 << n)

    def shr(self, x, n):
        n = self.norm(n)
        if isinstance(n, Lin):
            k = self.concretize(n)
            if k is None:
                return self.derived("shr", (x, n), None, None)
            n = k
        if n < 0:
            raise ValueError("negative shift count")
        return self.floordiv(self.norm(x), 1 << n)

    def mul(self, x, y):
        x = self.norm(x)
        y = self.norm(y)
        if not isinstance(y, Lin):
            if isinstance(y, float) and not y.is_integer():
                if not isinstance(x, Lin):
                    return x * y
                return self.derived("mul", (x, y), None, None)
            if isinstance(x, float) and not x.is_integer():
                return x * y
            return scale(x, int(y))
        if not isinstance(x, Lin):
            return self.mul(y, x)
        lo1, hi1 = self.bounds(x)
        lo2, hi2 = self.bounds(y)
        lo = hi = None
        if None not in (lo1, hi1, lo2, hi2):
            c = [lo1 * lo2, lo1 * hi2, hi1 * lo2, hi1 * hi2]
            lo, hi = min(c), max(c)
        elif lo1 is not None and lo2 is not None and lo1 >= 0 and lo2 >= 0:
            lo = 0
        a, b = (x, y) if repr(x) <= repr(y) else (y, x)
        return self.derived("mul", (a, b), lo, hi)

    def must_equal(self, a, b):
        """a == b on the whole current partition."""
        if isinstance(a, (bool, int, float, Lin)) and isinstance(b, (bool, int, float, Lin)):
            d = self.mk_eq(add(a, b, -1))
            return self.decide(d) is True
        return a == b


C = Ctx()
