"""Abstract numpy arrays / torch tensors.

An array is a view (index map) on a store.  A store is a base function plus the
cells written since; a read at a symbolic index decides aliasing with the written
cells (partitioning when undecided), so element-level reasoning is exact and nothing
is ever allocated with concrete contents."""
import ast
from .dom import (C, Lin, Term, Cond, Var, Infeasible, Unsupported, add, scale, mk, var, c_and, c_or,
                  c_not, parts)
from .objs import *


class Store(Obj):
    __slots__ = ("base", "cells", "shape", "name", "dtype")

    def __init__(self, base, shape, dtype=None):
        super().__init__()
        self.base = base
        self.cells = TD(self)
        self.shape = shape
        self.dtype = dtype
        self.name = None


class OArr(Obj):
    """dims: per store axis ('fix', k) or ('ax', axis, offset, step)"""
    __slots__ = ("store", "shape", "dims", "lib", "dtype", "bmix", "src")

    def __init__(self, store, shape, dims=None, lib="np", dtype="float32", bmix=None):
        super().__init__()
        self.store = store
        self.shape = tuple(shape)
        self.dims = dims if dims is not None else [("ax", i, 0, 1) for i in range(len(shape))]
        self.lib = lib
        self.dtype = dtype
        self.bmix = bmix
        self.src = None

    def __repr__(self):
        return "<%s%s#%d>" % (self.lib, list(self.shape), self.oid)


def new(base, shape, lib="np", dtype="float32", bmix=None):
    return OArr(Store(base, tuple(shape), dtype), shape, None, lib, dtype, bmix)


def fill(v, shape, lib="np", dtype="float32"):
    return new(("fill", v), shape, lib, dtype)


def fn(f, shape, lib="np", dtype="float32", bmix=None):
    return new(("fn", f), shape, lib, dtype, bmix)


def sym(name, shape, lo=None, hi=None, lib="np", dtype="float32"):
    a = new(("sym", name, (lo, hi)), shape, lib, dtype)
    a.store.name = name
    return a


def opaque(op, shape, lib="torch", dtype="float32", bmix=None, args=()):
    t = Term(op, *args) if args else Term(op, C.fresh(op))
    return new(("sym", t, (None, None)), shape, lib, dtype, bmix)


def bmix_of(*xs):
    for x in xs:
        if isinstance(x, OArr) and x.bmix:
            return x.bmix
    return None


# ---------------------------------------------------------------- element access
def norm_key(key):
    return tuple(C.norm(k) for k in key)


def base_read(st, key):
    b = st.base
    if b[0] == "fill":
        return b[1]
    if b[0] == "fn":
        return b[1](key)
    nm, rng = b[1], b[2]
    v = Var(Term("el", nm, *[Term("i", k) if isinstance(k, Lin) else k for k in key]),
            frozenset(range(int(rng[0]), int(rng[1]) + 1)) if rng[0] is not None and rng[1] is not None else rng)
    return C.norm(Lin(0, ((v, 1),)))


def keys_equal(a, b):
    return c_and([C.mk_eq(add(x, y, -1)) if (isinstance(x, Lin) or isinstance(y, Lin)) else x == y
                  for x, y in zip(a, b)])


KEYLOG = [None]


def store_read(st, key):
    key = norm_key(key)
    cells = st.cells
    if KEYLOG[0] is not None:
        KEYLOG[0].extend(k for k in cells if k not in KEYLOG[0])
    if key in cells and next(reversed(cells)) == key:
        return cells[key]
    for k in reversed(list(cells)):
        c = keys_equal(key, norm_key(k))
        if c is False:
            continue
        if c is True or C.truth(c):
            v = cells[k]
            return C.norm(v) if isinstance(v, Lin) else v
    return base_read(st, norm_key(key))


def store_write(st, key, v):
    key = norm_key(key)
    cells = st.cells
    if key in cells:
        later = False
        for k in reversed(list(cells)):
            if k == key:
                break
            if keys_equal(key, norm_key(k)) is not False:
                later = True
        if later:
            C.ddel(cells, key)
    C.dset(cells, key, v)
    note_mut(st)


def freeze(a):
    """Read function over the current contents (later writes are not seen)."""
    st = a.store
    f = Store(st.base, st.shape, st.dtype)
    f.cells.update(st.cells)
    dims = a.dims

    def rd(idx):
        return store_read(f, store_key(dims, idx))
    rd.base = f.base
    return rd


def store_key(dims, idx):
    key = []
    for d in dims:
        if d[0] == "fix":
            key.append(d[1])
        else:
            i = idx[d[1]]
            if d[3] != 1:
                i = scale(i, d[3]) if isinstance(i, Lin) else i * d[3]
            key.append(add(i, d[2]) if not (isinstance(d[2], int) and d[2] == 0) else i)
    return tuple(key)


def rd(a, idx):
    return store_read(a.store, store_key(a.dims, idx))


def wr(I, a, idx, v):
    if isinstance(v, Cond):
        v = I.cond_num(v)
    store_write(a.store, store_key(a.dims, idx), v)


def set_base(st, base):
    C.setattr(st, "base", base)
    C.setattr(st, "cells", TD(st))
    note_mut(st)


# ---------------------------------------------------------------- shapes
def dim_eq(I, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    c = C.mk_eq(add(a, b, -1))
    if isinstance(c, bool):
        return c
    d = C.decide(c)
    if d is not None:
        return d
    return C.truth(c)


def is_one(d):
    return isinstance(d, int) and d == 1


def shape_error(I, lib, msg):
    I.effect("shape_error", msg, I.loc())
    I.raise_("ValueError" if lib == "np" else "RuntimeError", "shape mismatch: " + msg)


def broadcast(I, shapes, lib):
    n = max([len(s) for s in shapes] or [0])
    out = []
    for i in range(n):
        d = 1
        for s in shapes:
            j = i - (n - len(s))
            if j < 0:
                continue
            x = s[j]
            if is_one(x):
                continue
            if is_one(d):
                d = x
            elif not dim_eq(I, d, x):
                shape_error(I, lib, "cannot broadcast %s" % (", ".join(map(str, shapes))))
        out.append(d)
    return tuple(out)


def bidx(shape, idx):
    """Index of an operand under broadcasting."""
    k = len(idx) - len(shape)
    return tuple(0 if is_one(d) else idx[k + i] for i, d in enumerate(shape))


def dprod(ds):
    """(int coefficient, sorted tuple of symbolic dims)"""
    c = 1
    s = []
    for d in ds:
        d = C.norm(d)
        if isinstance(d, Lin):
            if len(d.ts) == 1 and d.c == 0:
                c *= d.ts[0][1]
                s.append(Lin(0, ((d.ts[0][0], 1),)))
            else:
                s.append(d)
        else:
            c *= int(d)
    return c, tuple(sorted(s, key=repr))


def numel(shape):
    c, s = dprod(shape)
    r = c
    for x in s:
        r = C.mul(r, x)
    return r


def symdims(shape):
    return [i for i, d in enumerate(shape) if isinstance(C.norm(d), Lin)]


def norm_axis(I, a, ax):
    n = len(a.shape)
    if isinstance(ax, Lin):
        ax = C.concretize(ax)
    if ax is None or not isinstance(ax, int):
        raise Unsupported("axis")
    if not -n <= ax < n:
        I.effect("shape_error", "dimension out of range", I.loc())
        I.raise_("IndexError", "Dimension out of range")
    return ax % n


# ---------------------------------------------------------------- construction
def res_dtype(*xs):
    order = {"bool": 0, "int64": 1, "float32": 2, "object": 3}
    best = "bool"
    for x in xs:
        if isinstance(x, OArr):
            d = x.dtype
        elif isinstance(x, (bool, Cond)):
            d = "bool"
        elif isinstance(x, float):
            d = "float32"
        elif isinstance(x, (int, Lin)):
            d = "int64"
        else:
            d = "float32"
        if order.get(d, 2) > order.get(best, 0):
            best = d
    return best


def dtype_name(d, default="float32"):
    if d is None:
        return default
    n = getattr(d, "name", None)
    if n is None:
        return default
    n = n.split(".")[-1]
    if n in ("long", "int64", "int32", "int", "int16", "int8", "uint8"):
        return "int64"
    if n in ("bool", "bool_"):
        return "bool"
    if n == "object":
        return "object"
    return "float32"


def from_nested(I, v, lib, dtype=None):
    """array from (nested) sequences."""
    dt = dtype_name(dtype, None)
    if isinstance(v, OArr):
        return fn(freeze(v), v.shape, lib, dt or v.dtype, v.bmix)
    if isinstance(v, OIter):
        v = OList(list(I.iter_items(v)))
    if isinstance(v, OList) and isinstance(v.tag, tuple) and v.tag and v.tag[0] == "arr":
        return from_nested(I, v.tag[1], lib, dtype)
    if not isinstance(v, (OList, tuple)):
        if isinstance(v, (int, float, Lin, Cond)):
            return fill(v, (), lib, dt or res_dtype(v))
        return fill(v, (), lib, dt or "float32")
    items = list(I.iter_items(v))
    if dt == "object":
        if any(isinstance(x, Seg) for x in items):
            raise Unsupported("object array of unknown length")
        its = tuple(items)
        return fn(lambda k: index_table(I, its, k[0]), (len(its),), lib, "object")
    if any(isinstance(x, Seg) for x in items):
        n = I.length(OList(items))
        if not any(not isinstance(x, Seg) for x in items) and len(items) == 1:
            # homogeneous: element from the alternatives
            probe = []
            rg = []

            def pr():
                e = items[0].pick()
                probe.append(e.shape if isinstance(e, OArr) else () if not isinstance(e, (OList, tuple)) else None)
                if isinstance(e, (int, float, Lin)) and not isinstance(e, bool):
                    rg.append(C.bounds(e) + (res_dtype(e),))
            C.explore(pr)
            shp = probe[0] if probe and probe[0] is not None else ()
            if rg and len(rg) == len(probe):
                lo = None if any(r[0] is None for r in rg) else min(r[0] for r in rg)
                hi = None if any(r[1] is None for r in rg) else max(r[1] for r in rg)
                return sym(Term("nested", C.fresh("nested") + (lo, hi)), (n,), lo, hi, lib, dt or rg[0][2])
            return opaque("nested", (n,) + tuple(shp), lib, dt or "float32")
        return opaque("nested", (n,), lib, dt or "float32")
    if not items:
        return fill(0, (0,), lib, dt or "float32")
    subs = []
    for x in items:
        if isinstance(x, (OList, tuple, OArr)):
            subs.append(from_nested(I, x, lib, dtype))
        else:
            subs.append(None)
    if all(s is None for s in subs):
        its = tuple(items)
        d = dt or res_dtype(*its)
        return fn(lambda k: index_table(I, its, k[0]), (len(its),), lib, d)
    if any(s is None for s in subs):
        I.raise_("ValueError", "inhomogeneous shape")
    shp = subs[0].shape
    for s in subs[1:]:
        if len(s.shape) != len(shp) or not all(dim_eq(I, p, q) for p, q in zip(s.shape, shp)):
            I.raise_("ValueError", "inhomogeneous shape")
    rds = [freeze(s) for s in subs]

    def f(k):
        i = C.norm(k[0])
        if isinstance(i, Lin):
            i = concrete_index(I, i, len(rds))
        return rds[i](k[1:])
    return fn(f, (len(subs),) + shp, lib, dt or res_dtype(*subs), bmix_of(*subs))


def concrete_index(I, i, n):
    i = C.norm(i)
    if not isinstance(i, Lin):
        return int(i)
    c = C.concretize(i)
    if c is not None:
        return int(c)
    for j in range(n):
        if C.truth(C.mk_eq(add(i, -j))):
            return j
    raise Infeasible()


def index_table(I, items, k):
    k = C.norm(k)
    if isinstance(k, (int, float)):
        return items[int(k)]
    r = table_lookup(I, lambda i: items[i], k)
    if r is not NotImplemented:
        return r
    return items[concrete_index(I, k, len(items))]


def _sig(v):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return ("c", v)
    if isinstance(v, (int, float)):
        return "n"
    if isinstance(v, OList) and not v.has_seg():
        return (v.kind, tuple(_sig(x) for x in v.items))
    if isinstance(v, tuple):
        return ("tuple", tuple(_sig(x) for x in v))
    if isinstance(v, Lin):
        return ("o", v)
    if isinstance(v, OArr):
        return ("arr", v.oid)
    if isinstance(v, Obj):
        return ("obj", v.oid)
    return ("x", repr(v))


def _flat(v):
    if isinstance(v, OList):
        return [y for x in v.items for y in _flat(x)]
    if isinstance(v, tuple):
        return [y for x in v for y in _flat(x)]
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return []
    if isinstance(v, (int, float)):
        return [v]
    return []


def _rebuild(v, it):
    if isinstance(v, OList):
        return OList([_rebuild(x, it) for x in v.items], v.kind)
    if isinstance(v, tuple):
        return tuple(_rebuild(x, it) for x in v)
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, (int, float)):
        return next(it)
    return v


def table_lookup(I, f, k):
    """Value of a constant table at symbolic index k: the index domain is partitioned into
    boxes on which the entries have one structure and are affine in the index variables."""
    while True:
        k = C.norm(k)
        if not isinstance(k, Lin):
            return f(int(k))
        n = C.domain_size(k, 4000)
        if n is None:
            return NotImplemented
        vs = [v for v, _ in k.ts]
        doms = [sorted(C.range_of(v)) for v in vs]
        import itertools
        pts = list(itertools.product(*doms))
        cf = [c for _, c in k.ts]
        try:
            vals = [f(int(k.c + sum(c * x for c, x in zip(cf, p)))) for p in pts]
        except IndexError:
            return NotImplemented
        sigs = [_sig(v) for v in vals]
        if all(s == sigs[0] for s in sigs):
            fl = [_flat(v) for v in vals]
            m = len(fl[0])
            fits = []
            ok = True
            for j in range(m):
                a = affine_fit(vs, pts, [x[j] for x in fl])
                if a is None and len(vs) == 1 and len(pts) > C.split_max:
                    a = div_fit(vs[0], pts, [x[j] for x in fl])
                if a is None:
                    ok = False
                    break
                fits.append(a)
            if ok:
                return _rebuild(vals[0], iter(fits))
        # partition: variable with the smallest domain, values grouped by uniform behaviour
        order = sorted(range(len(vs)), key=lambda i: len(doms[i]))
        done = False
        for vi in order:
            if len(doms[vi]) < 2:
                continue
            groups = {}
            for p, s, v in zip(pts, sigs, vals):
                groups.setdefault(p[vi], []).append((p[:vi] + p[vi + 1:], s))
            cls = {}
            for val, rows in groups.items():
                cls.setdefault(tuple(rows), []).append(val)
            if len(cls) > 1 or len(vs) > 1 or all(s == sigs[0] for s in sigs):
                gs = list(cls.values())
                if len(gs) == 1:
                    if len(doms[vi]) > C.split_max:
                        continue
                    gs = [[x] for x in doms[vi]]
                i = C.choose(len(gs), ("tbl",))
                C.set_range(vs[vi], frozenset(gs[i]))
                done = True
                break
        if not done:
            if all(s == "n" for s in sigs):
                return C.derived("tbl", (Term("tblid", tuple(vals)), k), min(vals), max(vals))
            if len(vs) == 1:
                cls = {}
                for p, s in zip(pts, sigs):
                    cls.setdefault(s, []).append(p[0])
                if len(cls) > 1:
                    gs = list(cls.values())
                    C.set_range(vs[0], frozenset(gs[C.choose(len(gs))]))
                    continue
            return NotImplemented


def div_fit(v, pts, vals):
    """vals[i] == a * (pts[i] // m) + b for some m."""
    ps = [p[0] for p in pts]
    for m in (2, 3, 4, 7, 8, 9, 16, 34, 36):
        seen = {}
        if all(seen.setdefault(x // m, y) == y for x, y in zip(ps, vals)):
            qs = sorted(seen)
            if len(qs) < 2:
                continue
            a, r = divmod(seen[qs[1]] - seen[qs[0]], qs[1] - qs[0])
            b = seen[qs[0]] - a * qs[0]
            if r == 0 and all(a * q + b == seen[q] for q in qs):
                return add(scale(C.floordiv(mk(0, {v: 1}), m), int(a)), b)
    return None


def affine_fit(vs, pts, vals):
    p0, v0 = pts[0], vals[0]
    co = [0] * len(vs)
    idx = {p: v for p, v in zip(pts, vals)}
    for i in range(len(vs)):
        for p, v in zip(pts, vals):
            if p[i] != p0[i] and all(p[j] == p0[j] for j in range(len(vs)) if j != i):
                q, r = divmod(v - v0, p[i] - p0[i])
                if r:
                    return None
                co[i] = int(q)
                break
    c = v0 - sum(k * x for k, x in zip(co, p0))
    for p, v in zip(pts, vals):
        if c + sum(k * x for k, x in zip(co, p)) != v:
            return None
    return mk(c, {v: k for v, k in zip(vs, co)})


# ---------------------------------------------------------------- indexing
def check_index(I, k, n, lib):
    """Normalise an integer index against dimension n (raises IndexError when outside)."""
    if isinstance(k, Cond):
        k = I.cond_num(k)
    if isinstance(k, Term):
        k = I.as_lin(k)
    if isinstance(k, float):
        if k.is_integer():
            k = int(k)
        else:
            I.raise_("IndexError", "float index")
    k = C.norm(k)
    n = C.norm(n)
    if not isinstance(k, Lin) and not isinstance(n, Lin):
        k = int(k)
        if not -n <= k < n:
            I.raise_("IndexError", "index %d is out of bounds for axis with size %d" % (k, n))
        return k % n if n else k
    lo, hi = C.bounds(k)
    if lo is None or lo < 0:
        c = C.mk_ge(k)
        neg = (not C.truth(c)) if isinstance(c, Cond) else (not c)
        if neg:
            k = add(k, n)
            c = C.mk_ge(k)
            if not (C.truth(c) if isinstance(c, Cond) else c):
                I.raise_("IndexError", "index out of bounds")
            return k
    c = C.mk_ge(add(add(n, k, -1), -1))
    if c is True:
        return k
    if c is False or not C.truth(c):
        I.raise_("IndexError", "index out of bounds for axis")
    return C.norm(k)


def resolve_slice(I, s, n):
    """(offset, length, step) of slice s over dimension n."""
    st = 1 if s.step is None else C.norm(s.step)
    if isinstance(st, Lin):
        st = C.concretize(st)
    n = C.norm(n)
    lo = s.start
    hi = s.stop

    def bnd(x, dflt):
        if x is None:
            return dflt
        if isinstance(x, Cond):
            x = I.cond_num(x)
        if isinstance(x, Term):
            x = I.as_lin(x)
        x = C.norm(x)
        b0 = C.bounds(x)[0] if isinstance(x, Lin) else x
        if isinstance(x, float):
            x = int(x)
        if b0 is None or b0 < 0:
            c = C.mk_ge(x)
            if not (C.truth(c) if isinstance(c, Cond) else c):
                x = add(x, n)
                c = C.mk_ge(x)
                if not (C.truth(c) if isinstance(c, Cond) else c):
                    x = 0
        c = C.mk_ge(add(n, x, -1))
        if not (C.truth(c) if isinstance(c, Cond) else c):
            x = n
        return x
    if st < 0:
        if isinstance(n, Lin) or lo is not None or hi is not None:
            lo2 = C.concretize(lo) if lo is not None else None
            hi2 = C.concretize(hi) if hi is not None else None
            if isinstance(n, Lin):
                raise Unsupported("negative step over symbolic dim")
            r = range(n)[slice(lo2, hi2, st)]
            return r.start, len(r), st
        return n - 1, n, -1
    lo = bnd(lo, 0)
    hi = bnd(hi, n)
    ln = add(hi, lo, -1)
    c = C.mk_ge(ln)
    if not (C.truth(c) if isinstance(c, Cond) else c):
        return lo, 0, st
    if st == 1:
        return lo, C.norm(ln), 1
    if isinstance(C.norm(ln), Lin):
        return lo, C.floordiv(add(ln, st - 1), st), st
    return lo, (C.norm(ln) + st - 1) // st, st


def is_fancy(k):
    return isinstance(k, (OArr, OList)) and not (isinstance(k, OArr) and k.shape == () and k.dtype != "bool")


def split_key(I, a, k):
    ks = list(k) if isinstance(k, tuple) else [k]
    out = []
    for x in ks:
        if isinstance(x, OArr) and x.shape == () and x.dtype != "bool":
            x = rd(x, ())
        out.append(x)
    n_real = sum(1 for x in out if x is not None and not (isinstance(x, Ext) and x.name.endswith("Ellipsis"))
                 and x is not Ellipsis)
    res = []
    for x in out:
        if x is Ellipsis or (isinstance(x, Ext) and x.name.endswith("Ellipsis")):
            res.extend([slice(None)] * (len(a.shape) - n_real))
        else:
            res.append(x)
    while sum(1 for x in res if x is not None) < len(a.shape):
        res.append(slice(None))
    if sum(1 for x in res if x is not None) > len(a.shape):
        I.raise_("IndexError", "too many indices for array")
    return res


def basic_view(I, a, ks):
    """View for a key of integers, slices and None."""
    axmap = {}       # old axis -> spec
    shape = []
    ax = 0
    for x in ks:
        if x is None:
            shape.append(1)
            continue
        if isinstance(x, slice):
            off, ln, st = resolve_slice(I, x, a.shape[ax])
            axmap[ax] = ("ax", len(shape), off, st)
            shape.append(ln)
        else:
            axmap[ax] = ("fix", check_index(I, x, a.shape[ax], a.lib))
        ax += 1
    return OArr(a.store, shape, compose(a.dims, axmap), a.lib, a.dtype, a.bmix)


def compose(dims, axmap):
    out = []
    for d in dims:
        if d[0] == "fix":
            out.append(d)
            continue
        s = axmap[d[1]]
        if s[0] == "fix":
            out.append(("fix", add(scale(s[1], d[3]) if d[3] != 1 else s[1], d[2])))
        else:
            off = add(scale(s[2], d[3]) if d[3] != 1 else s[2], d[2])
            out.append(("ax", s[1], off, d[3] * s[3]))
    return out


def to_index_array(I, x, lib):
    if isinstance(x, OArr):
        return x
    return from_nested(I, x, lib)


def arr_get(I, a, k):
    if isinstance(k, SStr) or isinstance(k, str):
        I.raise_("IndexError", "only integers, slices are valid indices")
    ks = split_key(I, a, k)
    if not any(is_fancy(x) for x in ks):
        v = basic_view(I, a, ks)
        if not v.shape and a.lib == "np":
            return rd(v, ())
        return v
    # boolean masks
    if len([x for x in ks if is_fancy(x)]) == 1 and any(isinstance(x, OArr) and x.dtype == "bool" for x in ks):
        return mask_select(I, a, ks)
    idxs = [(i, to_index_array(I, x, a.lib)) for i, x in enumerate(ks) if is_fancy(x)]
    for _, ix in idxs:
        if ix.dtype not in ("int64", "bool", "object") and ix.lib == "torch":
            I.effect("shape_error", "tensors used as indices must be long", I.loc())
            I.raise_("IndexError", "tensors used as indices must be long, byte or bool tensors")
    ishape = broadcast(I, [ix.shape for _, ix in idxs], a.lib)
    # ints mixed with arrays broadcast too
    pos = [i for i, _ in idxs]
    first = pos[0]
    contiguous = pos == list(range(first, first + len(pos)))
    shape = []
    plan = []      # per source axis: ('f', ix) | ('s', res axis, off, st) | ('k', value)
    ax = 0
    placed = False
    lead = not contiguous
    if lead:
        shape.extend(ishape)
        placed = True
    base_pos = 0
    for i, x in enumerate(ks):
        if x is None:
            shape.append(1)
            continue
        if is_fancy(x):
            if not placed:
                base_pos = len(shape)
                shape.extend(ishape)
                placed = True
            ix = dict(idxs)[i]
            plan.append(("f", freeze(ix), ix.shape, a.shape[ax]))
        elif isinstance(x, slice):
            off, ln, st = resolve_slice(I, x, a.shape[ax])
            plan.append(("s", len(shape), off, st))
            shape.append(ln)
        else:
            plan.append(("k", check_index(I, x, a.shape[ax], a.lib)))
        ax += 1
    r = freeze(a)
    n = len(ishape)

    def f(idx):
        ii = idx[base_pos:base_pos + n]
        key = []
        for p in plan:
            if p[0] == "f":
                v = p[1](bidx(p[2], ii))
                if isinstance(v, OList):
                    raise Unsupported("object index")
                key.append(check_index(I, v, p[3], a.lib))
            elif p[0] == "s":
                j = idx[p[1]]
                key.append(add(scale(j, p[3]) if p[3] != 1 else j, p[2]))
            else:
                key.append(p[1])
        return r(tuple(key))
    out = fn(f, shape, a.lib, a.dtype, bmix_of(a, *[x for _, x in idxs]))
    out.src = ("gather", a, tuple(x for _, x in idxs))
    # lists of a concrete length are evaluated (errors surface where they happen)
    return out


def mask_select(I, a, ks):
    n = C.freshvar("nsel", 0, None)
    i = [j for j, x in enumerate(ks) if is_fancy(x)][0]
    m = ks[i]
    if len(m.shape) == 1 and len(a.shape) == 1 and isinstance(a.shape[0], int):
        n = C.freshvar("nsel", 0, a.shape[0])
    rest = list(a.shape[len(m.shape):]) if i == 0 else []
    return opaque("masked", [n] + rest, a.lib, a.dtype, a.bmix)


def arr_set(I, a, k, v):
    ks = split_key(I, a, k)
    if a.lib == "np" and a.dtype == "int64" and isinstance(v, float):
        v = int(v)
    if any(is_fancy(x) for x in ks):
        return fancy_set(I, a, ks, v)
    view = basic_view(I, a, ks)
    region_set(I, view, v)


def region_set(I, view, v):
    if not view.shape:
        if isinstance(v, OArr):
            v = arr_item(I, v)
        if isinstance(v, (OList, tuple)):
            I.raise_("ValueError", "setting an array element with a sequence")
        wr(I, view, (), v)
        return
    if isinstance(v, (OList, tuple)):
        v = from_nested(I, v, view.lib)
    if isinstance(v, OArr):
        broadcast(I, [v.shape, view.shape], view.lib)
        vs, vf = v.shape, freeze(v)
    else:
        vs, vf = (), (lambda idx, v=v: v)
    sizes = [C.norm(d) for d in view.shape]
    tot = 1
    for d in sizes:
        tot = None if tot is None or isinstance(d, Lin) else tot * d
    if tot is not None and tot <= 8:
        import itertools
        vals = []
        for idx in itertools.product(*[range(int(d)) for d in sizes]):
            vals.append((idx, vf(bidx(vs, idx))))
        for idx, x in vals:
            wr(I, view, idx, x)
        return
    # overlay
    st = view.store
    old = Store(st.base, st.shape)
    old.cells.update(st.cells)
    dims = view.dims
    full = all(d[0] == "ax" and d[3] == 1 and C.must_equal(d[2], 0) and C.must_equal(view.shape[d[1]], n)
               for d, n in zip(dims, st.shape))

    def f(key):
        idx = [None] * len(view.shape)
        if not full:
            for d, kk in zip(dims, key):
                if d[0] == "fix":
                    c = C.mk_eq(add(kk, d[1], -1))
                    if not (C.truth(c) if isinstance(c, Cond) else c):
                        return store_read(old, key)
                else:
                    off = add(kk, d[2], -1)
                    c = C.mk_ge(off if d[3] > 0 else scale(off, -1))
                    if not (C.truth(c) if isinstance(c, Cond) else c):
                        return store_read(old, key)
                    q = off
                    if abs(d[3]) != 1:
                        m = C.mod(off, abs(d[3]))
                        c = C.mk_eq(m)
                        if not (C.truth(c) if isinstance(c, Cond) else c):
                            return store_read(old, key)
                        q = C.floordiv(off, d[3])
                    elif d[3] == -1:
                        q = scale(off, -1)
                    c = C.mk_ge(add(add(view.shape[d[1]], q, -1), -1))
                    if not (C.truth(c) if isinstance(c, Cond) else c):
                        return store_read(old, key)
                    idx[d[1]] = q
        else:
            for d, kk in zip(dims, key):
                idx[d[1]] = kk
        idx = [0 if x is None else x for x in idx]
        return vf(bidx(vs, tuple(idx)))
    set_base(st, ("fn", f))


def fancy_set(I, a, ks, v):
    import itertools
    if any(isinstance(x, OArr) and x.dtype == "bool" for x in ks):
        m = [x for x in ks if isinstance(x, OArr) and x.dtype == "bool"][0]
        if len(m.shape) == len(a.shape):
            mf, rdo = freeze(m), freeze(a)
            vv = v if not isinstance(v, OArr) else None
            if vv is not None:
                set_base_view(I, a, lambda idx: vv if C.truth(I.cond(mf(idx))) else rdo(idx))
                return
        havoc_store(a.store)
        return
    try:
        idxs = {i: to_index_array(I, x, a.lib) for i, x in enumerate(ks) if is_fancy(x)}
    except Unsupported:
        havoc_store(a.store)
        return
    shp = broadcast(I, [x.shape for x in idxs.values()], a.lib)
    if any(isinstance(C.norm(d), Lin) for d in shp) or numel(shp) > 64 or any(
            not is_fancy(x) and isinstance(x, slice) for x in ks):
        if any(isinstance(x, slice) for x in ks) and not any(isinstance(C.norm(d), Lin) for d in shp) \
                and numel(shp) <= 8:
            for pt in itertools.product(*[range(int(d)) for d in shp]):
                k2 = [rd(idxs[i], bidx(idxs[i].shape, pt)) if i in idxs else x for i, x in enumerate(ks)]
                vv = v
                if isinstance(v, OArr) and len(v.shape) > len(shp):
                    vv = arr_get(I, v, tuple(pt))
                region_set(I, basic_view(I, a, k2), vv)
            return
        havoc_store(a.store, joined_range(a, v))
        return
    if isinstance(v, (OList, tuple)):
        v = from_nested(I, v, a.lib)
    if numel(shp) > 8 and any(isinstance(C.norm(rd(x, tuple(0 for _ in x.shape))), Lin) for x in idxs.values()):
        havoc_store(a.store, joined_range(a, v))
        return
    plan = []
    for pt in itertools.product(*[range(int(d)) for d in shp]):
        k2 = [rd(idxs[i], bidx(idxs[i].shape, pt)) if i in idxs else x for i, x in enumerate(ks)]
        vv = rd(v, bidx(v.shape, pt)) if isinstance(v, OArr) else v
        plan.append((k2, vv))
    for k2, vv in plan:
        view = basic_view(I, a, k2)
        wr(I, view, (), vv)


def joined_range(a, v):
    from .loops import arr_range
    lo, hi = arr_range(a.store)
    if isinstance(v, OArr):
        l2, h2 = arr_range(v.store)
    elif isinstance(v, (int, float)):
        l2 = h2 = v
    elif isinstance(v, Lin):
        l2, h2 = C.bounds(v)
    else:
        l2 = h2 = None
    return (None if lo is None or l2 is None else min(lo, l2), None if hi is None or h2 is None else max(hi, h2))


def set_base_view(I, a, f):
    """Overwrite the contents of a (whole-store) view by f."""
    full = len(a.dims) == len(a.shape) and all(
        d[0] == "ax" and d[1] == i and d[3] == 1 and C.must_equal(d[2], 0) for i, d in enumerate(a.dims))
    if full:
        set_base(a.store, ("fn", f))
        return
    tmp = fn(f, a.shape, a.lib, a.dtype)
    region_set(I, a, tmp)


def havoc_store(st, rng=None):
    if rng is None:
        rng = st.base[2] if st.base[0] == "sym" else (None, None)
    set_base(st, ("sym", Term("hv", C.fresh("hv")), rng))


# ---------------------------------------------------------------- operators
def scalar(v):
    return not isinstance(v, OArr)


def ew(I, f, ops, dtype=None):
    """Elementwise operation."""
    lib = next(o.lib for o in ops if isinstance(o, OArr))
    if any(isinstance(o, OArr) and o.lib == "torch" for o in ops):
        lib = "torch"
    ops = [from_nested(I, o, lib) if isinstance(o, (OList, tuple)) else o for o in ops]
    shape = broadcast(I, [o.shape if isinstance(o, OArr) else () for o in ops], lib)
    rds = [(o.shape, freeze(o)) if isinstance(o, OArr) else ((), (lambda i, o=o: o)) for o in ops]

    def g(idx):
        return f(*[r(bidx(s, idx)) for s, r in rds])
    mix = bmix_of(*ops)
    out = fn(g, shape, lib, dtype or res_dtype(*ops), mix)
    sd = [i for i in symdims(shape)]
    for o in ops:
        if isinstance(o, OArr):
            k = len(shape) - len(o.shape)
            for j in symdims(o.shape):
                if k + j not in sd:
                    out.bmix = out.bmix or "broadcast"
    out.src = ("ew",) + tuple(o for o in ops if isinstance(o, OArr))
    return out


def arr_binop(I, k, a, b):
    op = getattr(ast, k)()
    if k == "MatMult":
        return matmul(I, a, b)
    for o in (a, b):
        if isinstance(o, OArr) and o.dtype == "object":
            raise Unsupported("arithmetic on object array")
    if k in ("LShift", "RShift", "BitAnd", "BitOr", "BitXor"):
        for o in (a, b):
            if isinstance(o, OArr) and o.dtype == "float32" or isinstance(o, float):
                I.effect("shape_error", "bit operation on float tensor", I.loc())
                I.raise_("TypeError" if a.lib == "np" else "RuntimeError", "bit operation not implemented for float")
    dt = res_dtype(a, b)
    if k in ("Div", "Pow") and dt != "float32":
        dt = "float32" if k == "Div" else dt
    if dt == "bool" and k not in ("BitAnd", "BitOr", "BitXor"):
        dt = "int64"
    if isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
        I.raise_("TypeError", "unsupported operand")
    if a is None or b is None:
        I.raise_("TypeError", "unsupported operand type NoneType")

    def f(x, y):
        if dt == "bool":
            return {"BitAnd": c_and, "BitOr": c_or}[k]([I.cond(x), I.cond(y)]) if k != "BitXor" else I.binop(op, x, y)
        if isinstance(x, bool):
            x = int(x)
        if isinstance(y, bool):
            y = int(y)
        # multiplication by zero does not need the other factor
        return I.binop(op, x, y)
    return ew(I, f, [a, b], dt)


def inplace(I, op, a, v):
    r = arr_binop(I, type(op).__name__, a, v)
    if len(r.shape) != len(a.shape) or not all(dim_eq(I, p, q) for p, q in zip(r.shape, a.shape)):
        shape_error(I, a.lib, "in-place result does not fit")
    region_set(I, a, r)
    return a


def unary(I, op, a):
    k = type(op).__name__
    if k == "USub":
        return ew(I, lambda x: I.arith("Mult", x, -1) if not isinstance(x, Term) else I.opq("neg", x), [a])
    if k == "Invert":
        if a.dtype == "bool":
            return ew(I, lambda x: c_not(I.cond(x)), [a], "bool")
        return ew(I, lambda x: I.arith("Sub", -1, x), [a])
    return a


def arr_compare(I, k, a, b):
    op = getattr(ast, k)()
    if a is None or b is None:
        return k == "NotEq"

    def f(x, y):
        return I.cond(I.compare(op, x, y))
    return ew(I, f, [a, b], "bool")


def arr_truth(I, a):
    n = numel(a.shape)
    if isinstance(n, int) and n == 1:
        return I.cond(rd(a, tuple(0 for _ in a.shape)))
    if isinstance(n, int) and n == 0:
        return False
    I.raise_("ValueError" if a.lib == "np" else "RuntimeError", "truth value of an array is ambiguous")


def arr_item(I, a):
    n = numel(a.shape)
    if isinstance(n, int) and n != 1:
        I.raise_("TypeError" if a.lib == "np" else "RuntimeError", "only length-1 arrays can be converted")
    return rd(a, tuple(0 for _ in a.shape))


def arr_items(I, a):
    if not a.shape:
        I.raise_("TypeError", "iteration over a 0-d array")
    n = C.norm(a.shape[0])

    def sub(i):
        if len(a.shape) == 1 and a.lib == "np":
            return rd(a, (i,))
        return basic_view(I, a, [i] + [slice(None)] * (len(a.shape) - 1))
    if isinstance(n, int) and (n <= 8 or (n <= 140 and a.store.base[0] in ("fill",) and not a.store.cells)
                               or (n <= 40 and a.store.base[0] == "fn" and len(a.shape) == 1
                                   and not any(isinstance(x, (Lin, Term)) for k in a.store.cells for x in k))):
        return [sub(i) for i in range(n)]
    nm = C.fresh("arriter")

    def pick():
        i = C.freshvar("ai", 0, n - 1 if isinstance(n, int) else None)
        if isinstance(n, Lin):
            C.assume(C.mk_ge(add(add(n, i, -1), -1)), True)
        return sub(i)
    s = Seg([pick], nm, n)
    s.src = ("arr", a)
    return [s]


def arr_copy(I, a, deep=True):
    return copy_of(a)


def copy_of(a):
    return fn(freeze(a), a.shape, a.lib, a.dtype, a.bmix) if not _whole(a) else _copy_whole(a)


def _whole(a):
    return len(a.dims) == len(a.shape) and all(
        d[0] == "ax" and d[1] == i and d[3] == 1 and isinstance(d[2], int) and d[2] == 0
        for i, d in enumerate(a.dims)) and tuple(a.shape) == tuple(a.store.shape)


def _copy_whole(a):
    st = Store(a.store.base, a.store.shape, a.store.dtype)
    st.cells.update(a.store.cells)
    st.name = a.store.name
    return OArr(st, a.shape, None, a.lib, a.dtype, a.bmix)


# ---------------------------------------------------------------- reductions
def small(a, cap=64):
    n = numel(a.shape)
    return isinstance(n, int) and n <= cap


def all_idx(shape):
    import itertools
    return itertools.product(*[range(int(C.norm(d))) for d in shape])


def known_elems(a):
    """True when reading all elements one by one is exact and does not partition."""
    return small(a) and (a.store.base[0] == "fill" or a.store.base[0] == "fn" and numel(a.shape) <= 16)


def sum1(I, a):
    """Sum of a 1-d array whose store base is symbolic."""
    n = C.norm(a.shape[0])
    if isinstance(n, int) and n == 0:
        return 0
    st = a.store
    base = st.base
    if isinstance(n, int) and (n <= 4 or (base[0] == "fill" and not st.cells and n <= 200) or
                               (base[0] == "fn" and n <= 16)):
        acc = 0
        for i in range(n):
            acc = I.binop(ast.Add(), acc, I.cond_num(x) if isinstance(x := rd(a, (i,)), Cond) else x)
        return acc
    if base[0] == "sym":
        rng = base[2]
        ax = [j for j, d in enumerate(a.dims) if d[0] == "ax"]
        if len(ax) == 1:
            d = a.dims[ax[0]]
            fixed = tuple(C.norm(x[1]) if x[0] == "fix" else None for x in a.dims)
            lo = 0 if (rng[0] is not None and rng[0] >= 0) else None
            s = var(Term("sum", base[1], Term("fx", *fixed), C.norm(d[2]), n, d[3]), lo, None)
            acc = C.norm(s)
            # corrections for written cells lying in the slice (most recent first, distinct)
            seen = []
            for k in reversed(list(st.cells)):
                kk = norm_key(k)
                inside = True
                for j, x in enumerate(a.dims):
                    if x[0] == "fix":
                        c = C.mk_eq(add(kk[j], x[1], -1))
                    else:
                        if d[3] != 1:
                            raise Unsupported("strided sum")
                        c = c_and([C.mk_ge(add(kk[j], d[2], -1)),
                                   C.mk_ge(add(add(add(n, d[2]), kk[j], -1), -1))])
                    if not (C.truth(c) if isinstance(c, Cond) else c):
                        inside = False
                        break
                if not inside:
                    continue
                dup = False
                for s2 in seen:
                    c = keys_equal(kk, s2)
                    if c is True or (isinstance(c, Cond) and C.truth(c)):
                        dup = True
                        break
                seen.append(kk)
                if dup:
                    continue
                cur = st.cells[k]
                b0 = base_read(st, kk)
                if isinstance(cur, (int, float, Lin)) and isinstance(b0, (int, float, Lin)):
                    acc = add(acc, add(cur, b0, -1))
                else:
                    return var(Term("sum", C.fresh("sum")))
            return acc
    lo = 0
    return C.freshvar("sumx", None, None) if base[0] != "fn" else var(Term("sumfn", st.oid, Term("d", *[str(d) for d in a.dims]), n))


def arr_reduce(I, name, a, axis=None, keepdims=False):
    mix = a.bmix
    if axis is not None:
        axes = [norm_axis(I, a, x) for x in (I.iter_items(axis) if isinstance(axis, (tuple, OList)) else [axis])]
    else:
        axes = list(range(len(a.shape)))
    rest = [d for i, d in enumerate(a.shape) if i not in axes]
    if any(isinstance(C.norm(a.shape[i]), Lin) for i in axes) and (rest or name not in ("all", "any")):
        if symdims([a.shape[i] for i in axes]):
            mix = mix or ("%s over the batch axis at %s" % (name, I.loc()))
    shape = [(1 if i in axes else d) for i, d in enumerate(a.shape)] if keepdims else rest
    dt = a.dtype
    if name in ("any", "all"):
        dt = "bool"
    if name == "mean":
        dt = "float32"
    if axis is not None and a.lib == "torch" and name in ("max", "min"):
        return (opaque(name, shape, "torch", dt, mix), opaque("arg" + name, shape, "torch", "int64", mix))
    if name in ("argmax", "argmin"):
        return opaque(name, shape, a.lib, "int64", mix) if shape else wrap(I, a, C.freshvar(name, 0, None), mix)
    if shape and not keepdims or (keepdims and axis is not None):
        # lazily: element = reduction of the sub-array
        r = freeze(a)

        def f(idx, r=r):
            src = OArr(Store(("fn", lambda k: r(k)), a.shape), a.shape, None, a.lib, a.dtype)
            ks = []
            j = 0
            for i in range(len(a.shape)):
                if i in axes:
                    ks.append(slice(None))
                    if keepdims:
                        j += 1
                else:
                    ks.append(idx[j])
                    j += 1
            v = basic_view(I, src, ks)
            x = arr_reduce(I, name, v, None)
            return arr_item(I, x) if isinstance(x, OArr) else x
        return fn(f, shape, a.lib, dt, mix)
    # full reduction
    if getattr(I, "opaque_reduce", False) and name in ("any", "all", "max", "min", "sum") and len(a.shape) > 0 \
            and a.store.base[0] == "fn":
        if name in ("any", "all"):
            return wrap(I, a, Cond("truth", Term(name, C.fresh(name))), mix, "bool")
        return wrap(I, a, C.freshvar(name, None, None), mix)
    if name == "sum":
        if len(a.shape) == 1:
            v = sum1(I, a)
        elif known_elems(a):
            v = 0
            for i in all_idx(a.shape):
                x = rd(a, i)
                v = I.binop(ast.Add(), v, I.cond_num(x) if isinstance(x, Cond) else x)
        else:
            v = C.freshvar("sum", None, None)
        return wrap(I, a, v, mix)
    if name in ("any", "all"):
        if known_elems(a):
            cs = [I.cond(rd(a, i)) for i in all_idx(a.shape)]
            return wrap(I, a, c_or(cs) if name == "any" else c_and(cs), mix, "bool")
        if name == "all" and a.dtype == "bool" and len(a.shape) >= 1:
            # decided by a generic element
            idx = tuple(C.freshvar("gi", 0, (d - 1) if isinstance(d, int) else None) for d in map(C.norm, a.shape))
            for i, d in zip(idx, a.shape):
                if isinstance(C.norm(d), Lin):
                    C.assume(C.mk_ge(add(add(d, i, -1), -1)), True)
            res = []

            def probe():
                try:
                    c = I.cond(rd(a, idx))
                    res.append(C.decide(c))
                except (Unsupported, PyRaise):
                    res.append(None)
            try:
                C.explore(probe, 400)
            except Exception as e:
                if type(e).__name__ != "Budget":
                    raise
                res.append(None)
            if res and all(x is True for x in res):
                return wrap(I, a, True, mix, "bool")
        return wrap(I, a, Cond("truth", Term(name, C.fresh(name))), mix, "bool")
    if name in ("max", "min"):
        if known_elems(a):
            vals = [rd(a, i) for i in all_idx(a.shape)]
            return wrap(I, a, I.natives["builtins." + name](I, [OList(vals)], {}), mix)
        rng = a.store.base[2] if a.store.base[0] == "sym" and not a.store.cells else (None, None)
        return wrap(I, a, C.freshvar(name, rng[0], rng[1]), mix)
    return wrap(I, a, var(Term(name, C.fresh(name))), mix)


def wrap(I, a, v, mix=None, dtype=None):
    if a.lib == "np":
        return v
    r = fill(v, (), "torch", dtype or a.dtype)
    r.bmix = mix
    return r


# ---------------------------------------------------------------- shape operations
def reshape(I, a, shape):
    shape = [C.norm(int(s) if isinstance(s, float) else s) for s in shape]
    tc, ts = dprod(a.shape)
    if any(isinstance(s, int) and s == -1 for s in shape):
        kc, ks = dprod([s for s in shape if not (isinstance(s, int) and s == -1)])
        ts2 = list(ts)
        for s in ks:
            if s in ts2:
                ts2.remove(s)
            else:
                shape_error(I, a.lib, "view %s of %s" % (shape, a.shape))
        if kc == 0 or tc % kc:
            shape_error(I, a.lib, "view %s of %s" % (shape, a.shape))
        m = tc // kc
        for s in ts2:
            m = C.mul(m, s)
        shape = [m if isinstance(s, int) and s == -1 else s for s in shape]
    if dprod(shape) != dprod(a.shape):
        shape_error(I, a.lib, "view %s of %s" % (shape, list(a.shape)))
    # batch axis must keep its radix position
    mix = a.bmix
    def radix(sh):
        out = []
        for i, d in enumerate(sh):
            if isinstance(C.norm(d), Lin):
                out.append((repr(C.norm(d)), repr(dprod(sh[:i]))))
        return out
    ra, rb = radix(a.shape), radix(shape)
    if not mix and ra and ra != rb:
        # merging the batch axis with following axes keeps rows together
        lead_a = [d for d in a.shape]
        if not (ra[0][1] == "(1, ())" and rb and rb[0][1] == "(1, ())"):
            mix = "reshape %s -> %s mixes samples at %s" % (list(a.shape), shape, I.loc())
    r = freeze(a)
    src = a.shape

    def f(idx):
        # flatten then unflatten (equal leading dims are matched directly)
        i = 0
        key = []
        while i < len(src) and i < len(shape) and C.must_equal(src[i], shape[i]):
            key.append(idx[i])
            i += 1
        s2, n2, x2 = list(src[i:]), list(shape[i:]), list(idx[i:])
        if not s2 and not n2:
            return r(tuple(key))
        lin = 0
        for d, x in zip(n2, x2):
            lin = add(C.mul(lin, d), x)
        rev = []
        for d in reversed(s2):
            rev.append(C.mod(lin, d) if not is_one(d) else 0)
            lin = C.floordiv(lin, d)
        return r(tuple(key) + tuple(reversed(rev)))
    out = fn(f, shape, a.lib, a.dtype, mix)
    out.src = ("ew", a)
    return out


def transpose(I, a, perm):
    inv = {old: newi for newi, old in enumerate(perm)}
    dims = [d if d[0] == "fix" else ("ax", inv[d[1]], d[2], d[3]) for d in a.dims]
    return OArr(a.store, [a.shape[p] for p in perm], dims, a.lib, a.dtype, a.bmix)


def unsqueeze(I, a, ax):
    n = len(a.shape) + 1
    if not -n <= ax < n:
        I.effect("shape_error", "unsqueeze axis", I.loc())
        I.raise_("IndexError", "Dimension out of range")
    ax %= n
    dims = [d if d[0] == "fix" else ("ax", d[1] + (1 if d[1] >= ax else 0), d[2], d[3]) for d in a.dims]
    sh = list(a.shape)
    sh.insert(ax, 1)
    return OArr(a.store, sh, dims, a.lib, a.dtype, a.bmix)


def squeeze(I, a, ax=None):
    if ax is None:
        out = a
        for i in reversed(range(len(a.shape))):
            if is_one(C.norm(out.shape[i])):
                out = squeeze(I, out, i)
            elif isinstance(C.norm(out.shape[i]), Lin) and C.decide(C.mk_eq(add(out.shape[i], -1))) is None:
                I.effect("maybe_squeezed", i, I.loc())
        return out
    ax = norm_axis(I, a, ax)
    if not is_one(C.norm(a.shape[ax])):
        return a
    axmap = {}
    sh = []
    for i, d in enumerate(a.shape):
        if i == ax:
            axmap[i] = ("fix", 0)
        else:
            axmap[i] = ("ax", len(sh), 0, 1)
            sh.append(d)
    return OArr(a.store, sh, compose(a.dims, axmap), a.lib, a.dtype, a.bmix)


def concat(I, xs, axis, lib):
    xs = [from_nested(I, x, lib) if not isinstance(x, OArr) else x for x in xs]
    if not xs:
        I.raise_("RuntimeError" if lib == "torch" else "ValueError", "expected a non-empty list of tensors")
    # torch skips legacy empty 1-d tensors
    if lib == "torch" and len(xs) > 1:
        ys = [x for x in xs if not (len(x.shape) == 1 and isinstance(C.norm(x.shape[0]), int)
                                    and C.norm(x.shape[0]) == 0)]
        if ys and len(ys) < len(xs) and len(ys[0].shape) != 1:
            xs = ys
    n = len(xs[0].shape)
    for x in xs:
        if len(x.shape) != n:
            shape_error(I, lib, "cat of %s" % [list(x.shape) for x in xs])
    ax = norm_axis(I, xs[0], axis)
    for x in xs[1:]:
        for i in range(n):
            if i != ax and not dim_eq(I, x.shape[i], xs[0].shape[i]):
                shape_error(I, lib, "cat of %s" % [list(x.shape) for x in xs])
    if len(xs) == 1:
        return copy_of(xs[0])
    tot = 0
    offs = []
    for x in xs:
        offs.append(tot)
        tot = C.norm(add(tot, x.shape[ax]))
    shape = list(xs[0].shape)
    shape[ax] = tot
    rds = [freeze(x) for x in xs]

    def f(idx):
        i = idx[ax]
        for j in range(len(xs) - 1):
            c = C.mk_ge(add(add(offs[j + 1], i, -1), -1))
            if C.truth(c) if isinstance(c, Cond) else c:
                return rds[j](tuple(idx[:ax]) + (C.norm(add(i, offs[j], -1)),) + tuple(idx[ax + 1:]))
        j = len(xs) - 1
        return rds[j](tuple(idx[:ax]) + (C.norm(add(i, offs[j], -1)),) + tuple(idx[ax + 1:]))
    out = fn(f, shape, lib, res_dtype(*xs), bmix_of(*xs))
    out.src = ("cat", ax) + tuple(xs)
    return out


def stack(I, xs, axis, lib):
    xs = [from_nested(I, x, lib) if not isinstance(x, OArr) else x for x in xs]
    return concat(I, [unsqueeze(I, x, axis) for x in xs], axis, lib)


def seq_arrays(I, v, what):
    """List of arrays for cat/stack; None for an unknown-length one."""
    items = list(I.iter_items(v))
    if any(isinstance(x, Seg) for x in items):
        return None
    return items


def expand(I, a, shape):
    shape = list(shape)
    k = len(shape) - len(a.shape)
    for i, d in enumerate(a.shape):
        if isinstance(shape[k + i], int) and shape[k + i] == -1:
            shape[k + i] = d
        elif not is_one(C.norm(d)) and not dim_eq(I, d, shape[k + i]):
            shape_error(I, a.lib, "expand %s to %s" % (list(a.shape), shape))
    r = freeze(a)
    src = a.shape
    return fn(lambda idx: r(bidx(src, idx)), shape, a.lib, a.dtype, a.bmix)


def matmul(I, a, b):
    a = a if isinstance(a, OArr) else from_nested(I, a, "torch")
    b = b if isinstance(b, OArr) else from_nested(I, b, "torch")
    if not a.shape or not b.shape:
        shape_error(I, a.lib, "matmul of scalar")
    sa, sb = list(a.shape), list(b.shape)
    va, vb = len(sa) == 1, len(sb) == 1
    if va:
        sa = [1] + sa
    if vb:
        sb = sb + [1]
    if not dim_eq(I, sa[-1], sb[-2]):
        shape_error(I, a.lib, "matmul %s @ %s" % (list(a.shape), list(b.shape)))
    lead = list(broadcast(I, [tuple(sa[:-2]), tuple(sb[:-2])], a.lib))
    shape = lead + ([] if va else [sa[-2]]) + ([] if vb else [sb[-1]])
    mix = bmix_of(a, b)
    if isinstance(C.norm(sa[-1]), Lin):
        mix = mix or "contraction over a symbolic (batch) axis at %s" % I.loc()
    out = opaque("matmul", shape, a.lib, "float32", mix)
    out.src = ("matmul", a, b)
    return out


def softmax(I, a, dim):
    ax = norm_axis(I, a, dim)
    mix = a.bmix
    if isinstance(C.norm(a.shape[ax]), Lin):
        mix = mix or "softmax over a symbolic (batch) axis at %s" % I.loc()
    out = opaque("softmax", a.shape, a.lib, "float32", mix)
    out.src = ("softmax", a)
    return out


def clamp(I, a, lo, hi):
    def f(x):
        if lo is not None:
            x = I.natives["builtins.max"](I, [x, lo], {}) if not isinstance(x, Term) else Term("clamp", x, lo, hi)
        if hi is not None and not isinstance(x, Term):
            x = I.natives["builtins.min"](I, [x, hi], {})
        return x
    return ew(I, f, [a])


def where3(I, c, x, y):
    def f(cc, xx, yy):
        return xx if I.truth(cc) else yy
    if not isinstance(c, OArr):
        c = from_nested(I, c, "np")
    return ew(I, f, [c, x, y], res_dtype(x, y))


def where1(I, c):
    """np.where(cond): tuple of index arrays."""
    if len(c.shape) != 1:
        n = C.freshvar("nz", 0, None)
        return tuple(opaque("where", (n,), c.lib, "int64") for _ in c.shape)
    n = C.norm(c.shape[0])
    rdc = freeze(c)
    nm = C.fresh("where")

    def pick():
        i = C.freshvar("wi", 0, n - 1 if isinstance(n, int) else None)
        if not I.truth(rdc((i,))):
            raise Infeasible()
        return C.norm(i)
    KEYLOG[0], old = [], KEYLOG[0]
    try:
        if not C.feasible(pick):
            return (OList([]),)
        cand = KEYLOG[0]
    finally:
        KEYLOG[0] = old
    if getattr(I, "exact_where", False) and 0 < len(cand) <= 40 and all(len(k) == 1 for k in cand):
        # true at written cells only: an exact list
        def outside():
            i = C.freshvar("wi", 0, n - 1 if isinstance(n, int) else None)
            for k in cand:
                C.assume(C.mk_eq(add(i, C.norm(k[0]), -1)), False)
            if not I.truth(rdc((i,))):
                raise Infeasible()
        if not C.feasible(outside):
            out = []
            for k in cand:
                k = C.norm(k[0])
                if any(C.truth(C.mk_eq(add(k, o, -1))) for o in out):
                    continue
                if I.truth(rdc((k,))):
                    out.append(C.norm(k))
            if all(isinstance(x, int) for x in out):
                out.sort()
            return (OList(out),)
    s = Seg([pick], nm)
    s.count = var(("count", nm), 0, n if isinstance(n, int) else None)
    o = OList([s])
    o.tag = ("indices", c)
    return (o,)


# ---------------------------------------------------------------- attributes
def arr_attr(I, a, name):
    if name == "shape":
        return tuple(a.shape)
    if name == "T":
        return transpose(I, a, list(reversed(range(len(a.shape)))))
    if name == "ndim":
        return len(a.shape)
    if name == "dtype":
        return Ext(("numpy." if a.lib == "np" else "torch.") + a.dtype)
    if name == "device":
        return Term("device")
    if name in ("data", "real"):
        return a
    if name == "size" and a.lib == "np":
        return numel(a.shape)
    if name in ("requires_grad", "grad", "is_cuda", "flat", "nbytes"):
        return Term("attr", Term("obj", a.oid), name)
    f = METHODS.get(name)
    if f is not None:
        return BoundMethod(a, Native("arr." + name, f))
    if a.dtype == "object" and False:
        pass
    return BoundMethod(a, Native("arr." + name, lambda I, ar, kw: unknown_method(I, name, ar, kw)))


def unknown_method(I, name, ar, kw):
    known = KNOWN_ATTRS
    if name not in known:
        I.raise_("AttributeError", "%s object has no attribute %s" % (
            "numpy.ndarray" if ar[0].lib == "np" else "Tensor", name))
    raise Unsupported("array method %s at %s" % (name, I.loc()))


def _names(lib):
    try:
        return set(lib)
    except Exception:
        return set()


KNOWN_ATTRS = set("""abs add all any argmax argmin argsort astype backward bmm bool byte chunk clamp clip clone
contiguous copy cpu cuda cumsum detach device diag dim double dot dtype eq exp expand expand_as fill fill_ flatten
flip float gather ge gt half index_select int item le log log_softmax logical_and logical_not logical_or long lt
masked_fill masked_fill_ masked_select matmul max mean min mm mul narrow ndim ne new_full new_zeros nonzero norm numel
numpy permute pow prod ravel repeat requires_grad_ reshape roll round scatter scatter_ shape sigmoid sign sin size
softmax sort split sqrt square squeeze std sub sum swapaxes t take tanh tile to tobytes tolist topk transpose tril triu
trunc type type_as unbind unfold unique unsqueeze var view where zero_ cos add_ sub_ mul_ div_ div index_fill
repeat_interleave relu masked_scatter data searchsorted resize newbyteorder put partition choose compress conj
cumprod diagonal dump dumps getfield imag itemsize""".split())


def m_kw(ar, kw, i, name, default=None):
    if len(ar) > i:
        return ar[i]
    return kw.get(name, default)


def axis_arg(ar, kw, i=1):
    if len(ar) > i:
        return ar[i]
    return kw.get("axis", kw.get("dim"))


def m_reduce(name):
    def f(I, ar, kw):
        return arr_reduce(I, name, ar[0], axis_arg(ar, kw), bool(kw.get("keepdim", kw.get("keepdims", False))))
    return f


def shape_args(I, ar, i=1):
    if len(ar) == i + 1 and isinstance(ar[i], (tuple, OList)):
        return list(I.iter_items(ar[i]))
    return list(ar[i:])


def m_to(I, ar, kw):
    a = ar[0]
    for x in list(ar[1:]) + list(kw.values()):
        if isinstance(x, Ext) and (x.name.startswith("torch.") or x.name.startswith("numpy.") or
                                   x.name.startswith("builtins.")) and x.name.split(".")[-1] in (
                "int64", "int32", "long", "float32", "float", "bool", "float64", "double", "half", "float16",
                "int", "int8", "uint8", "bool_", "object", "int16"):
            return cast(I, a, dtype_name(x))
    return a


def cast(I, a, dt):
    if dt == a.dtype:
        return a
    if dt == "bool":
        return ew(I, lambda x: I.cond(x), [a], "bool")
    if a.dtype == "bool":
        return ew(I, lambda x: I.cond_num(x) if isinstance(x, Cond) else int(x) if isinstance(x, bool) else x, [a], dt)
    if dt == "int64":
        return ew(I, lambda x: int(x) if isinstance(x, float) else x, [a], dt)
    return ew(I, lambda x: x, [a], dt)


def m_size(I, ar, kw):
    a = ar[0]
    d = m_kw(ar, kw, 1, "dim")
    if d is None:
        return tuple(a.shape)
    return a.shape[norm_axis(I, a, d)]


def m_masked_fill(I, ar, kw):
    a, m, v = ar[0], ar[1], m_kw(ar, kw, 2, "value")
    if m.dtype != "bool":
        I.effect("shape_error", "masked_fill needs a bool mask", I.loc())
        I.raise_("RuntimeError", "masked_fill only supports boolean masks")

    def f(x, c):
        return v if I.truth(c) else x
    r = ew(I, f, [a, m], a.dtype)
    r.src = ("masked_fill", a, m, v)
    return r


def m_tolist(I, ar, kw):
    a = ar[0]
    if not a.shape:
        return rd(a, ())
    out = []
    for x in arr_items(I, a):
        if isinstance(x, Seg):
            out.append(x)
        elif isinstance(x, OArr):
            out.append(m_tolist(I, [x], {}))
        else:
            out.append(x)
    return OList(out)


def m_repeat(I, ar, kw):
    a = ar[0]
    reps = shape_args(I, ar)
    sh = [1] * (len(reps) - len(a.shape)) + list(a.shape)
    out = [C.mul(d, r) for d, r in zip(sh, reps)]
    r0 = freeze(a)
    k = len(reps) - len(a.shape)

    def f(idx):
        return r0(tuple(C.mod(i, d) if not C.must_equal(d, o) else i
                        for i, d, o in zip(idx[k:], a.shape, out[k:])))
    return fn(f, out, a.lib, a.dtype, a.bmix)


def m_flatten(I, ar, kw):
    a = ar[0]
    s = norm_axis(I, a, m_kw(ar, kw, 1, "start_dim", 0)) if a.lib == "torch" else 0
    e = norm_axis(I, a, m_kw(ar, kw, 2, "end_dim", -1)) if a.lib == "torch" else len(a.shape) - 1
    return reshape(I, a, list(a.shape[:s]) + [numel(a.shape[s:e + 1])] + list(a.shape[e + 1:]))


def m_chunk(I, ar, kw):
    a, n = ar[0], ar[1]
    ax = norm_axis(I, a, m_kw(ar, kw, 2, "dim", 0))
    d = C.norm(a.shape[ax])
    if isinstance(d, Lin) or d % n:
        raise Unsupported("chunk")
    out = []
    for i in range(n):
        ks = [slice(None)] * len(a.shape)
        ks[ax] = slice(i * (d // n), (i + 1) * (d // n))
        out.append(basic_view(I, a, ks))
    return tuple(out)


def m_split(I, ar, kw):
    a, n = ar[0], ar[1]
    ax = norm_axis(I, a, m_kw(ar, kw, 2, "dim", 0))
    d = C.norm(a.shape[ax])
    out = []
    pos = 0
    sizes = list(I.iter_items(n)) if isinstance(n, (OList, tuple)) else None
    if sizes is None:
        if isinstance(d, Lin):
            raise Unsupported("split")
        sizes = [min(n, d - i) for i in range(0, d, n)]
    for s in sizes:
        ks = [slice(None)] * len(a.shape)
        ks[ax] = slice(pos, add(pos, s))
        out.append(basic_view(I, a, ks))
        pos = add(pos, s)
    return tuple(out)


def m_index_select(I, ar, kw):
    a, d, ix = ar[0], ar[1], ar[2]
    ks = [slice(None)] * len(a.shape)
    ks[norm_axis(I, a, d)] = ix
    return arr_get(I, a, tuple(ks))


def opaque_like(op):
    def f(I, ar, kw):
        a = ar[0]
        r = opaque(op, a.shape, a.lib, "float32", a.bmix)
        r.src = ("ew", a)
        return r
    return f


def m_fill(I, ar, kw):
    region_set(I, ar[0], ar[1] if len(ar) > 1 else 0)
    return ar[0]


def m_ipop(k):
    def f(I, ar, kw):
        return inplace(I, getattr(ast, k)(), ar[0], ar[1])
    return f


def m_op(k):
    def f(I, ar, kw):
        return arr_binop(I, k, ar[0], ar[1])
    return f


def m_cmp(k):
    def f(I, ar, kw):
        return arr_compare(I, k, ar[0], ar[1])
    return f


def m_permute(I, ar, kw):
    p = [norm_axis(I, ar[0], x) for x in shape_args(I, ar)]
    return transpose(I, ar[0], p)


def m_transpose(I, ar, kw):
    a = ar[0]
    p = list(range(len(a.shape)))
    if a.lib == "np":
        xs = shape_args(I, ar)
        return transpose(I, a, [norm_axis(I, a, x) for x in xs] if xs else p[::-1])
    i, j = norm_axis(I, a, m_kw(ar, kw, 1, "dim0")), norm_axis(I, a, m_kw(ar, kw, 2, "dim1"))
    p[i], p[j] = p[j], p[i]
    return transpose(I, a, p)


def m_backward(I, ar, kw):
    I.effect("backward", ar[0], I.loc())


def m_logical(k):
    def f(I, ar, kw):
        if k == "not":
            return ew(I, lambda x: c_not(I.cond(x)), [ar[0]], "bool")
        g = c_and if k == "and" else c_or
        return ew(I, lambda x, y: g([I.cond(x), I.cond(y)]), [ar[0], ar[1]], "bool")
    return f


METHODS = dict(
    sum=m_reduce("sum"), max=m_reduce("max"), min=m_reduce("min"), any=m_reduce("any"), all=m_reduce("all"),
    mean=m_reduce("mean"), argmax=m_reduce("argmax"), argmin=m_reduce("argmin"), prod=m_reduce("prod"),
    std=m_reduce("std"), var=m_reduce("var"),
    copy=lambda I, a, k: copy_of(a[0]), clone=lambda I, a, k: copy_of(a[0]),
    astype=m_to, to=m_to, type=m_to, cpu=lambda I, a, k: a[0], cuda=lambda I, a, k: a[0],
    float=lambda I, a, k: cast(I, a[0], "float32"), long=lambda I, a, k: cast(I, a[0], "int64"),
    int=lambda I, a, k: cast(I, a[0], "int64"), bool=lambda I, a, k: cast(I, a[0], "bool"),
    double=lambda I, a, k: cast(I, a[0], "float32"),
    detach=lambda I, a, k: a[0], requires_grad_=lambda I, a, k: a[0], contiguous=lambda I, a, k: a[0],
    numpy=lambda I, a, k: OArr(a[0].store, a[0].shape, a[0].dims, "np", a[0].dtype, a[0].bmix),
    item=lambda I, a, k: arr_item(I, a[0]), tolist=m_tolist,
    reshape=lambda I, a, k: reshape(I, a[0], shape_args(I, a)),
    view=lambda I, a, k: reshape(I, a[0], shape_args(I, a)) if len(a) > 1 else OArr(
        a[0].store, a[0].shape, list(a[0].dims), a[0].lib, a[0].dtype, a[0].bmix),
    flatten=m_flatten, ravel=m_flatten,
    unsqueeze=lambda I, a, k: unsqueeze(I, a[0], m_kw(a, k, 1, "dim")),
    squeeze=lambda I, a, k: squeeze(I, a[0], axis_arg(a, k)),
    transpose=m_transpose, swapaxes=m_transpose, permute=m_permute,
    t=lambda I, a, k: transpose(I, a[0], list(reversed(range(len(a[0].shape))))),
    size=m_size, dim=lambda I, a, k: len(a[0].shape), numel=lambda I, a, k: numel(a[0].shape),
    nelement=lambda I, a, k: numel(a[0].shape),
    expand=lambda I, a, k: expand(I, a[0], shape_args(I, a)),
    expand_as=lambda I, a, k: expand(I, a[0], a[1].shape),
    repeat=m_repeat, chunk=m_chunk, split=m_split, index_select=m_index_select,
    masked_fill=m_masked_fill, clamp=lambda I, a, k: clamp(I, a[0], m_kw(a, k, 1, "min"), m_kw(a, k, 2, "max")),
    clip=lambda I, a, k: clamp(I, a[0], m_kw(a, k, 1, "min"), m_kw(a, k, 2, "max")),
    softmax=lambda I, a, k: softmax(I, a[0], axis_arg(a, k)),
    log_softmax=lambda I, a, k: softmax(I, a[0], axis_arg(a, k)),
    matmul=lambda I, a, k: matmul(I, a[0], a[1]), bmm=lambda I, a, k: matmul(I, a[0], a[1]),
    mm=lambda I, a, k: matmul(I, a[0], a[1]), dot=lambda I, a, k: matmul(I, a[0], a[1]),
    exp=opaque_like("exp"), log=opaque_like("log"), sin=opaque_like("sin"), cos=opaque_like("cos"),
    tanh=opaque_like("tanh"), sigmoid=opaque_like("sigmoid"), sqrt=opaque_like("sqrt"), relu=opaque_like("relu"),
    fill=m_fill, fill_=m_fill, zero_=m_fill, add_=m_ipop("Add"), sub_=m_ipop("Sub"), mul_=m_ipop("Mult"),
    add=m_op("Add"), sub=m_op("Sub"), mul=m_op("Mult"), div=m_op("Div"), pow=m_op("Pow"),
    eq=m_cmp("Eq"), ne=m_cmp("NotEq"), lt=m_cmp("Lt"), le=m_cmp("LtE"), gt=m_cmp("Gt"), ge=m_cmp("GtE"),
    logical_and=m_logical("and"), logical_or=m_logical("or"), logical_not=m_logical("not"),
    backward=m_backward, nonzero=lambda I, a, k: where1(I, cast(I, a[0], "bool")),
    abs=lambda I, a, k: ew(I, lambda x: I.natives["builtins.abs"](I, [x], {}), [a[0]]),
    __len__=lambda I, a, k: a[0].shape[0],
)


# ---------------------------------------------------------------- installation
def install(I):
    N = I.natives

    def shape_of(a):
        if isinstance(a, (tuple, OList)):
            return [C.norm(x) for x in I.iter_items(a)]
        return [C.norm(a)]

    for lib, pk in (("np", "numpy"), ("torch", "torch")):
        def filler(v, lib=lib):
            def f(I, a, k):
                if lib == "torch":
                    sh = shape_args(I, a, 0) if a else list(I.iter_items(k["size"]))
                else:
                    sh = shape_of(a[0] if a else k["shape"])
                dt = dtype_name(k.get("dtype", a[1] if lib == "np" and len(a) > 1 else None))
                vv = v if v is not None else 0
                r = fill(vv, sh, lib, dt)
                if v is None:
                    r = new(("sym", Term("uninit", C.fresh("uninit")), (None, None)), sh, lib, dt)
                return r
            return f
        N[pk + ".zeros"] = filler(0)
        N[pk + ".ones"] = filler(1)
        N[pk + ".empty"] = filler(None)

        def full(I, a, k, lib=lib):
            v = a[1] if len(a) > 1 else k.get("fill_value")
            return fill(v, shape_of(a[0]), lib, dtype_name(k.get("dtype"), res_dtype(v)))
        N[pk + ".full"] = full

        def like(v, lib=lib):
            def f(I, a, k):
                return fill(v, a[0].shape, lib, dtype_name(k.get("dtype"), a[0].dtype))
            return f
        N[pk + ".zeros_like"] = like(0)
        N[pk + ".ones_like"] = like(1)
        N[pk + ".empty_like"] = like(0)

        def full_like(I, a, k, lib=lib):
            return fill(a[1] if len(a) > 1 else k["fill_value"], a[0].shape, lib, a[0].dtype)
        N[pk + ".full_like"] = full_like

        def arange(I, a, k, lib=lib):
            a = [C.norm(x) for x in a]
            lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
            n = add(hi, lo, -1)
            n = C.norm(n)
            if st != 1:
                n = C.floordiv(add(n, st - 1), st)
            return fn(lambda i: add(lo, scale(i[0], st)) if isinstance(i[0], Lin) else add(lo, i[0] * st),
                      [n], lib, dtype_name(k.get("dtype"), "int64"))
        N[pk + ".arange"] = arange

        def ctor(I, a, k, lib=lib):
            return from_nested(I, a[0], lib, k.get("dtype", a[1] if len(a) > 1 else None))
        N[pk + (".array" if lib == "np" else ".tensor")] = ctor

        def asarray(I, a, k, lib=lib):
            if isinstance(a[0], OArr) and a[0].lib == lib and k.get("dtype") is None:
                return a[0]
            return ctor(I, a, k, lib)
        N[pk + (".asarray" if lib == "np" else ".as_tensor")] = asarray

        def cat(I, a, k, lib=lib):
            xs = seq_arrays(I, a[0], "cat")
            ax = axis_arg(a, k)
            if xs is None:
                raise Unsupported("concatenation of an unknown number of arrays at %s" % I.loc())
            return concat(I, xs, 0 if ax is None else ax, lib)
        N[pk + ".concatenate"] = N[pk + ".cat"] = N[pk + ".concat"] = cat

        def stk(I, a, k, lib=lib):
            xs = seq_arrays(I, a[0], "stack")
            if xs is None:
                raise Unsupported("stack of an unknown number of arrays at %s" % I.loc())
            ax = axis_arg(a, k)
            return stack(I, xs, 0 if ax is None else ax, lib)
        N[pk + ".stack"] = stk
        N[pk + ".vstack"] = lambda I, a, k, lib=lib: concat(
            I, [x if len(x.shape) > 1 else unsqueeze(I, x, 0) for x in I.iter_items(a[0])], 0, lib)

        def wh(I, a, k, lib=lib):
            if len(a) == 1:
                return where1(I, cast(I, a[0], "bool"))
            return where3(I, a[0], a[1], a[2])
        N[pk + ".where"] = wh
        for nm in ("sum", "max", "min", "any", "all", "mean", "argmax", "argmin", "prod", "std", "var",
                   "amax", "amin"):
            def red(I, a, k, nm=nm, lib=lib):
                x = a[0]
                if not isinstance(x, OArr):
                    x = from_nested(I, x, lib)
                if nm in ("max", "min") and len(a) > 1 and isinstance(a[1], OArr):
                    return ew(I, lambda p, q: I.natives["builtins." + nm](I, [p, q], {}), [x, a[1]])
                n2 = {"amax": "max", "amin": "min"}.get(nm, nm)
                return METHODS[n2](I, [x] + list(a[1:]), k)
            N[pk + "." + nm] = red
        for nm in ("reshape", "transpose", "squeeze", "softmax", "log_softmax", "matmul", "bmm", "mm", "dot",
                   "clip", "clamp", "flatten", "ravel", "exp", "log", "sin", "cos", "tanh", "sigmoid", "sqrt",
                   "relu", "copy", "clone", "masked_fill", "nonzero", "numel", "chunk", "split", "eq", "ne", "lt",
                   "le", "gt", "ge", "add", "sub", "mul", "div", "pow", "index_select", "logical_and",
                   "logical_or", "logical_not", "swapaxes", "permute", "abs", "unsqueeze", "repeat"):
            def meth(I, a, k, nm=nm, lib=lib):
                x = a[0]
                if not isinstance(x, OArr):
                    if isinstance(x, (int, float)) and nm in ("pow", "mul", "add", "sub", "div") and len(a) > 1 \
                            and isinstance(a[1], OArr):
                        return arr_binop(I, {"pow": "Pow", "mul": "Mult", "add": "Add", "sub": "Sub",
                                             "div": "Div"}[nm], x, a[1])
                    x = from_nested(I, x, lib)
                return METHODS[nm](I, [x] + list(a[1:]), k)
            N[pk + "." + nm] = meth

    N["numpy.flatnonzero"] = lambda I, a, k: where1(I, cast(I, a[0], "bool"))[0]
    N["numpy.argwhere"] = lambda I, a, k: where1(I, cast(I, a[0], "bool"))[0]

    def count_nonzero(I, a, k):
        return arr_reduce(I, "sum", cast(I, cast(I, a[0], "bool"), "int64"), axis_arg(a, k))
    N["numpy.count_nonzero"] = N["torch.count_nonzero"] = count_nonzero

    def np_pow(I, a, k):
        x, y = a
        if isinstance(x, OArr) or isinstance(y, OArr):
            z = y if isinstance(y, OArr) else x
            return opaque("pow", broadcast(I, [t.shape for t in (x, y) if isinstance(t, OArr)], z.lib), z.lib)
        return I.binop(ast.Pow(), x, y)
    N["torch.pow"] = N["numpy.power"] = np_pow
    N["numpy.expand_dims"] = lambda I, a, k: unsqueeze(I, a[0], axis_arg(a, k))

    def allclose(I, a, k):
        xs = [x if isinstance(x, OArr) else from_nested(I, x, "np") for x in a[:2]]
        return Cond("truth", Term("allclose", C.fresh("allclose")))
    N["numpy.allclose"] = N["torch.allclose"] = N["numpy.isclose"] = allclose
    N["numpy.array_equal"] = N["torch.equal"] = allclose
    for nm in ("sin", "cos", "log", "exp", "sqrt"):
        def sc(I, a, k, nm=nm):
            if isinstance(a[0], OArr):
                return opaque(nm, a[0].shape, a[0].lib, "float32", a[0].bmix)
            if isinstance(a[0], (int, float)):
                import math
                return getattr(math, nm)(a[0])
            return var(Term("np." + nm, I.tkey(a[0])))
        N["numpy." + nm] = sc
    I.ext_consts["numpy.newaxis"] = None
    I.ext_consts["numpy.pi"] = 3.141592653589793
    I.ext_consts["numpy.inf"] = float("inf")
    for nm in ("float32", "float64", "int64", "int32", "int8", "uint8", "int16", "float16"):
        def conv(I, a, k, nm=nm):
            x = a[0] if a else 0
            if isinstance(x, OArr):
                return m_to(I, [x, Ext("numpy." + nm)], {})
            return I.natives["builtins." + ("float" if nm.startswith("f") else "int")](I, [x], {})
        N["numpy." + nm] = conv
    N["torch.from_numpy"] = lambda I, a, k: OArr(a[0].store, a[0].shape, a[0].dims, "torch", a[0].dtype, a[0].bmix)

    def randperm(I, a, k):
        n = C.norm(a[0])
        nm = Term("perm", C.fresh("perm"))
        r = new(("sym", nm, (None, None)), [n], "torch", "int64")

        def f(key):
            v = var(Term("el", nm, *[Term("i", x) if isinstance(x, Lin) else x for x in key]), 0, None)
            C.assume(C.mk_ge(add(add(n, v, -1), -1)), True)
            return v
        r.store.base = ("fn", f)
        r.tag = ("perm", n)
        return r
    N["torch.randperm"] = randperm
    N["torch.randint"] = lambda I, a, k: opaque("randint", shape_of(k.get("size", a[-1])), "torch", "int64")
    for nm in ("torch.rand", "torch.randn"):
        N[nm] = lambda I, a, k: opaque("rand", shape_args(I, a, 0))
    N["numpy.random.permutation"] = lambda I, a, k: randperm(I, a, k)
    from . import nnmod
    nnmod.install(I)
