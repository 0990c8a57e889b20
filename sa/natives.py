"""Transfer functions of Python builtins and a few standard-library functions."""
import math
from .dom import (C, Lin, Term, Cond, Infeasible, Unsupported, add, scale, mk, var, c_and, c_or,
                  c_not)
from .objs import *


def isnum(v):
    return isinstance(v, (int, float, Lin))


class IterEndEx(Exception):
    pass


def lazy_iter(I, v):
    """The iterator of an instance whose class defines the iterator protocol (consumed element by element)."""
    if getattr(I, "lazy", None) is None or not isinstance(v, OInst):
        return None
    if v.cls.lookup("__iter__"):
        v = I.call(I.getattr_(v, "__iter__"), [], {})
    return v if isinstance(v, OInst) and v.cls.lookup("__next__") else None


def install(I):
    N = I.natives

    def reg(name):
        def d(f):
            N[name] = f
            return f
        return d

    def b(name):
        return reg("builtins." + name)

    @b("len")
    def _len(I, a, k):
        return I.length(a[0])

    @b("range")
    def _range(I, a, k):
        a = [I.as_lin(x) if isinstance(x, Term) else (I.cond_num(x) if isinstance(x, Cond) else x) for x in a]
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        lo, hi, st = C.norm(lo), C.norm(hi), C.norm(st)
        if isinstance(st, Lin):
            st = C.concretize(st)
            if st is None:
                raise Unsupported("range step")
        if not isinstance(lo, Lin) and not isinstance(hi, Lin):
            return OList(list(range(int(lo), int(hi), int(st))), "range")
        n = C.norm(add(hi, lo, -1))
        if st == 1 and not isinstance(n, Lin):
            return OList([add(lo, i) for i in range(max(0, n))], "range")
        if C.domain_size(add(hi, lo, -1), 40) is not None:
            lo2, hi2 = C.concretize(lo, 40), C.concretize(hi, 40)
            if lo2 is not None and hi2 is not None:
                return OList(list(range(lo2, hi2, st)), "range")
        blo = C.bounds(lo)[0]
        bhi = C.bounds(hi)[1]
        name = C.fresh("range")

        def pick():
            i = C.freshvar("ri", blo if st > 0 else None, None if bhi is None or st < 0 else bhi - 1)
            if st > 0:
                C.assume(C.mk_ge(add(i, lo, -1)), True)
                C.assume(C.mk_ge(add(add(hi, i, -1), -1)), True)
            return i
        s = Seg([pick], name)
        if st == 1:
            nlo, nhi = C.bounds(n)
            if nlo is not None and nlo >= 0:
                s.count = n
        return OList([s], "range")

    @b("enumerate")
    def _enumerate(I, a, k):
        start = k.get("start", a[1] if len(a) > 1 else 0)
        u = lazy_iter(I, a[0])
        if u is not None:
            return I.call(I.lazy.vars["Enumerate"], [u, start], {})
        out = []
        i = start
        for x in I.iter_items(a[0]):
            if isinstance(x, Seg):
                if x.count is None:
                    x.count = var(("count", x.name), 0, None)
                base = i

                def pick(x=x, base=base):
                    v = x.pick()
                    j = C.freshvar("ei", 0, None)
                    C.assume(C.mk_ge(add(add(x.count, j, -1), -1)), True)
                    return (add(base, j), v)
                out.append(Seg([pick], ("enum", x.name), x.count, x))
                i = add(i, x.count)
            else:
                out.append((i, x))
                i = add(i, 1)
        return OIter(out)

    @b("zip")
    def _zip(I, a, k):
        us = [lazy_iter(I, x) for x in a]
        if any(u is not None for u in us):
            return I.call(I.lazy.vars["Zip"], [OList([u if u is not None else OIter(list(I.iter_items(x)))
                                                      for u, x in zip(us, a)])], {})
        cols = [list(I.iter_items(x)) for x in a]
        if not cols:
            return OIter([])
        if not any(isinstance(x, Seg) for c in cols for x in c):
            return OIter([tuple(t) for t in zip(*cols)])
        # same shape: element-wise
        def shp(c):
            return [isinstance(x, Seg) for x in c]
        if all(shp(c) == shp(cols[0]) for c in cols):
            out = []
            for t in zip(*cols):
                if isinstance(t[0], Seg):
                    out.append(Seg([lambda t=t: tuple(s.pick() for s in t)], C.fresh("zip"), t[0].count))
                else:
                    out.append(tuple(t))
            return OIter(out)

        def gen(c):
            segs = []
            for x in c:
                segs.append((lambda x=x: x.pick()) if isinstance(x, Seg) else (lambda x=x: x))
            return segs
        # a concrete column against one unknown-length column: bounded by the concrete one
        alts = [gen(c) for c in cols]

        def pick():
            return tuple(al[C.choose(len(al))]() for al in alts)
        return OIter([Seg([pick], C.fresh("zip"))])

    @b("map")
    def _map(I, a, k):
        out = OList([])
        its = _zip(I, a[1:], {}) if len(a) > 2 else None
        if its is None and I.each_rep(a[1], lambda x: out.set(out.items + [I.call(a[0], [x], {})]), out):
            pass
        elif its is None:
            I.run_loop(a[1], lambda x: out.set(out.items + [I.call(a[0], [x], {})]), None)
        else:
            I.run_loop(its, lambda t: out.set(out.items + [I.call(a[0], list(t), {})]), None)
        return OIter(out.items)

    @b("filter")
    def _filter(I, a, k):
        out = OList([])

        def body(x):
            if I.truth(x if a[0] is None else I.call(a[0], [x], {})):
                out.set(out.items + [x])
        I.run_loop(a[1], body, None)
        return OIter(out.items)

    @b("reversed")
    def _reversed(I, a, k):
        return OIter(list(I.iter_items(a[0]))[::-1])

    def seqctor(kind):
        def f(I, a, k):
            items = list(I.iter_items(a[0])) if a else []
            if isinstance(a[0] if a else None, OIter):
                C.setattr(a[0], "pos", len(a[0].items))
            if kind == "tuple" and not any(isinstance(x, Seg) for x in items):
                return tuple(items)
            o = OList(items, kind)
            if kind == "set":
                I.dedupe(o)
            return o
        return f
    for kd in ("list", "tuple", "set"):
        b(kd)(seqctor(kd))
    b("frozenset")(seqctor("set"))

    @b("dict")
    def _dict(I, a, k):
        d = ODict()
        if a:
            if isinstance(a[0], ODict):
                d.d.update(a[0].d)
            else:
                for x in I.iter_items(a[0]):
                    kk, vv = list(I.iter_items(x))
                    d.d[I.key(kk)] = vv
        d.d.update(k)
        return d

    @b("sum")
    def _sum(I, a, k):
        from .arr import OArr, arr_reduce
        if isinstance(a[0], OArr) and len(a[0].shape) == 1:
            return I.binop(_ADD, a[1], arr_reduce(I, "sum", a[0], None)) if len(a) > 1 else arr_reduce(I, "sum", a[0], None)
        acc = k.get("start", a[1] if len(a) > 1 else 0)
        items = I.iter_items(a[0])
        for x in items:
            if isinstance(x, Seg):
                # unknown number of addends
                lo = None
                acc = add(C.freshvar("sum", lo, None), 0) if isnum(acc) else Term("sum", C.fresh("sum"))
                continue
            acc = I.binop(_ADD, acc, x)
        return acc

    def minmax(name):
        def f(I, a, k):
            from .arr import OArr, arr_reduce
            if len(a) == 1:
                if isinstance(a[0], OArr):
                    return arr_reduce(I, name, a[0], None)
                xs = list(I.iter_items(a[0]))
            else:
                xs = list(a)
            key = k.get("key")
            if any(isinstance(x, Seg) for x in xs):
                if "default" in k or True:
                    return Term(name, C.fresh(name))
            if not xs:
                if "default" in k:
                    return k["default"]
                I.raise_("ValueError", "empty sequence")
            if key is None and all(isnum(x) or isinstance(x, Cond) for x in xs):
                xs = [I.cond_num(x) if isinstance(x, Cond) else C.norm(x) for x in xs]
                if not any(isinstance(x, Lin) for x in xs):
                    return min(xs) if name == "min" else max(xs)
                bs = [C.bounds(x) for x in xs]
                # dominated candidates
                uniq = []
                for i, x in enumerate(xs):
                    dom = False
                    for j, y in enumerate(xs):
                        if i == j:
                            continue
                        c = C.mk_ge(add(x, y, -1) if name == "min" else add(y, x, -1))
                        d = C.decide(c) if isinstance(c, Cond) else c
                        if d is True:
                            e = C.must_equal(x, y)
                            if not e or j < i:
                                dom = True
                                break
                    if not dom:
                        uniq.append(x)
                if len(uniq) == 1:
                    return uniq[0]
                bs = [C.bounds(x) for x in uniq]
                los = [x[0] for x in bs]
                his = [x[1] for x in bs]
                if name == "min":
                    lo = None if None in los else min(los)
                    his = [h for h in his if h is not None]
                    hi = min(his) if his else None
                else:
                    hi = None if None in his else max(his)
                    los = [h for h in los if h is not None]
                    lo = max(los) if los else None
                return C.derived(name, tuple(sorted(uniq, key=repr)), lo, hi)
            best = xs[0]
            kb = I.call(key, [best], {}) if key else best
            for x in xs[1:]:
                kx = I.call(key, [x], {}) if key else x
                if I.truth(I.compare(_LT if name == "min" else _GT, kx, kb)):
                    best, kb = x, kx
            return best
        return f
    b("min")(minmax("min"))
    b("max")(minmax("max"))

    @b("abs")
    def _abs(I, a, k):
        x = C.norm(a[0])
        if isinstance(x, Lin):
            if I.truth(C.mk_ge(x)):
                return x
            return scale(x, -1)
        if isinstance(x, Term):
            return Term("abs", x)
        return abs(x)

    def to_int(I, x, base=10):
        from .arr import OArr, arr_item
        if isinstance(x, OArr):
            x = arr_item(I, x)
        if isinstance(x, (Lin,)):
            return x
        if isinstance(x, Cond):
            return I.cond_num(x)
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, (int, float)):
            return int(x)
        if isinstance(x, str):
            try:
                return int(x, base)
            except ValueError:
                I.raise_("ValueError", "invalid literal for int(): %r" % x)
        if isinstance(x, SStr):
            if len(x.parts) == 1 and x.parts[0][0] == "int" and base == 10:
                return x.parts[0][1]
            if len(x.parts) == 1 and x.parts[0][0] == "txt":
                t = x.parts[0][1]
                c = Cond("truth", Term("isint", t))
                if not (isinstance(t, Term) and t.op == "mcode") and not C.truth(c):
                    I.raise_("ValueError", "invalid literal for int()")
                return var(Term("int", t))
            if any(p[0] == "lit" and not p[1].strip().lstrip("-").isdigit() for p in x.parts):
                I.raise_("ValueError", "invalid literal for int()")
            return var(Term("int", x))
        if isinstance(x, Term):
            return var(Term("int", x)) if x.op != "int" else var(x)
        if x is None:
            I.raise_("TypeError", "int() argument must not be None")
        if isinstance(x, OInst) and x.cls.lookup("__int__"):
            return I.call(I.getattr_(x, "__int__"), [], {})
        I.raise_("TypeError", "int() argument")

    @b("int")
    def _int(I, a, k):
        if not a:
            return 0
        return to_int(I, a[0], *(a[1:2] or [k.get("base", 10)]))

    @b("float")
    def _float(I, a, k):
        if not a:
            return 0.0
        x = a[0]
        from .arr import OArr, arr_item
        if isinstance(x, OArr):
            x = arr_item(I, x)
        if isinstance(x, Cond):
            return I.cond_num(x)
        if isinstance(x, (int, float)):
            return float(x)
        if isinstance(x, Lin):
            return x
        if isinstance(x, str):
            try:
                return float(x)
            except ValueError:
                I.raise_("ValueError", "could not convert")
        return var(Term("float", I.tkey(x)))

    @b("str")
    def _str(I, a, k):
        if not a:
            return ""
        return mkstr(I.str_parts(a[0]))

    @b("repr")
    def _repr(I, a, k):
        return I.to_repr(a[0])

    @b("bool")
    def _bool(I, a, k):
        return I.cond(a[0]) if a else False

    @b("print")
    def _print(I, a, k):
        return None

    @b("isinstance")
    def _isinstance(I, a, k):
        o, t = a
        if isinstance(t, (tuple,)):
            cs = [_isinstance(I, [o, x], {}) for x in t]
            return c_or(cs)
        if isinstance(t, ClassVal):
            if isinstance(o, OInst):
                return t in o.cls.mro or t.name == "object"
            if isinstance(o, Term):
                return Cond("truth", Term("isinstance", o, I.tkey(t)))
            return False
        if isinstance(t, Native) and t.name.startswith("builtins."):
            n = t.name[9:]
            return py_isinstance(I, o, n)
        if isinstance(t, Ext):
            n = t.name
            from .arr import OArr
            if isinstance(o, OArr):
                return {"np": "numpy.ndarray", "torch": "torch.Tensor"}[o.lib] == n
            if isinstance(o, Term):
                return Cond("truth", Term("isinstance", o, n))
            if isinstance(o, OInst):
                return t in o.cls.mro
            if n.startswith("builtins."):
                return py_isinstance(I, o, n[9:])
            return False
        if isinstance(t, Term):
            return Cond("truth", Term("isinstance", I.tkey(o), t))
        raise Unsupported("isinstance")

    def py_isinstance(I, o, n):
        if isinstance(o, Term):
            return Cond("truth", Term("isinstance", o, n))
        if n == "object":
            return True
        if n == "int":
            return isinstance(o, (int, Lin)) or isinstance(o, Cond)
        if n == "bool":
            return isinstance(o, (bool, Cond))
        if n == "float":
            return isinstance(o, float)
        if n == "str":
            return isinstance(o, (str, SStr))
        if n in ("list", "set", "tuple"):
            return isinstance(o, OList) and o.kind == n or (n == "tuple" and isinstance(o, tuple))
        if n == "dict":
            return isinstance(o, ODict)
        if n == "type":
            return isinstance(o, ClassVal)
        return False

    @b("issubclass")
    def _issubclass(I, a, k):
        return a[1] in a[0].mro

    @b("hasattr")
    def _hasattr(I, a, k):
        s = object()
        try:
            r = I.getattr_(a[0], a[1], s)
        except PyRaise as e:
            if I.exc["AttributeError"] in e.exc.cls.mro:
                return False
            raise
        return r is not s

    @b("getattr")
    def _getattr(I, a, k):
        if not isinstance(a[1], str):
            return Term("getattr", I.tkey(a[0]), I.tkey(a[1]))
        if len(a) > 2:
            return I.getattr_(a[0], a[1], a[2])
        return I.getattr_(a[0], a[1])

    @b("setattr")
    def _setattr(I, a, k):
        I.setattr_(a[0], a[1], a[2])

    @b("sorted")
    def _sorted(I, a, k):
        xs = list(I.iter_items(a[0]))
        if any(isinstance(x, Seg) for x in xs):
            return OList([Seg([(lambda x=x: x.pick()) if isinstance(x, Seg) else (lambda x=x: x) for x in xs],
                              C.fresh("sorted"), I.length(OList(xs)))])
        return OList(sort_items(I, xs, k))

    @b("any")
    def _any(I, a, k):
        from .arr import OArr, arr_reduce
        if isinstance(a[0], OArr):
            return arr_reduce(I, "any", a[0], None)
        cs = []
        for x in I.iter_items(a[0]):
            if isinstance(x, Seg):
                cs.append(Cond("truth", Term("any", C.fresh("any"))))
            else:
                cs.append(I.cond(x))
        return c_or(cs)

    @b("all")
    def _all(I, a, k):
        from .arr import OArr, arr_reduce
        if isinstance(a[0], OArr):
            return arr_reduce(I, "all", a[0], None)
        cs = []
        for x in I.iter_items(a[0]):
            if isinstance(x, Seg):
                cs.append(Cond("truth", Term("all", C.fresh("all"))))
            else:
                cs.append(I.cond(x))
        return c_and(cs)

    @b("iter")
    def _iter(I, a, k):
        u = lazy_iter(I, a[0])
        if u is not None:
            return u
        return OIter(list(I.iter_items(a[0])))

    @b("next")
    def _next(I, a, k):
        it = a[0]
        if isinstance(it, OInst) and it.cls.lookup("__next__"):
            return I.call(I.getattr_(it, "__next__"), [], {})
        if isinstance(it, OIter):
            if it.pos < len(it.items):
                x = it.items[it.pos]
                if isinstance(x, Rep):
                    if C.truth(C.mk_ge(add(x.count, -1))):
                        return x.val
                    C.setattr(it, "pos", it.pos + 1)
                    return _next(I, a, k)
                if isinstance(x, Seg):
                    if C.choose(2) == 0:
                        return x.pick()
                    C.setattr(it, "pos", it.pos + 1)
                    return _next(I, a, k)
                C.setattr(it, "pos", it.pos + 1)
                return x
            if len(a) > 1:
                return a[1]
            I.raise_("StopIteration")
        return Term("next", I.tkey(it), C.fresh("next"))

    @b("type")
    def _type(I, a, k):
        if isinstance(a[0], OInst):
            return a[0].cls
        return Term("type", I.tkey(a[0]))

    @b("id")
    def _id(I, a, k):
        return a[0].oid if isinstance(a[0], Obj) else Term("id", I.tkey(a[0]))

    @b("round")
    def _round(I, a, k):
        if isinstance(a[0], (int, float)):
            return round(*a)
        if isinstance(a[0], Lin) and len(a) == 1:
            return a[0]
        return var(Term("round", I.tkey(a[0])))

    @b("divmod")
    def _divmod(I, a, k):
        import ast
        return (I.binop(ast.FloorDiv(), a[0], a[1]), I.binop(ast.Mod(), a[0], a[1]))

    @b("pow")
    def _pow(I, a, k):
        import ast
        r = I.binop(ast.Pow(), a[0], a[1])
        if len(a) > 2:
            r = I.binop(ast.Mod(), r, a[2])
        return r

    @b("callable")
    def _callable(I, a, k):
        return isinstance(a[0], (FuncVal, BoundMethod, Native, ClassVal, Ext))

    @b("ord")
    def _ord(I, a, k):
        if isinstance(a[0], str):
            return ord(a[0])
        return var(Term("ord", I.tkey(a[0])), 0, None)

    @b("chr")
    def _chr(I, a, k):
        if isinstance(a[0], int):
            return chr(a[0])
        return SStr([("txt", Term("chr", a[0]))])

    for nm in ("staticmethod", "classmethod", "property"):
        cls = {"staticmethod": StaticM, "classmethod": ClassM, "property": Prop}[nm]
        N["builtins." + nm] = (lambda c: (lambda I, a, k: c(a[0])))(cls)

    @b("open")
    def _open(I, a, k):
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        t = Term("file", I.tkey(a[0]), I.tkey(mode), C.fresh("open"))
        I.effect("open", a[0], mode, t, I.loc())
        return t

    @b("hash")
    def _hash(I, a, k):
        return Term("hash", I.tkey(a[0]))

    # ---- stdlib
    def deepcopy_val(I, v, memo, deep=True):
        from .arr import OArr
        if isinstance(v, Obj):
            if v.oid in memo:
                return memo[v.oid]
        if isinstance(v, tuple):
            return tuple(deepcopy_val(I, x, memo) for x in v) if deep else v
        if isinstance(v, OList):
            o = OList([], v.kind)
            memo[v.oid] = o
            items = []
            for x in v.items:
                if isinstance(x, Seg):
                    items.append(Seg([(lambda al=al: deepcopy_val(I, al(), {})) for al in x.alts],
                                     C.fresh("dc"), x.count) if deep else x)
                else:
                    items.append(deepcopy_val(I, x, memo) if deep else x)
            o.items = items
            return o
        if isinstance(v, ODict):
            o = ODict()
            memo[v.oid] = o
            for kk, vv in v.d.items():
                o.d[kk] = deepcopy_val(I, vv, memo) if deep else vv
            return o
        if isinstance(v, OInst):
            m = v.cls.lookup("__deepcopy__" if deep else "__copy__")
            if m is not None:
                return I.call(BoundMethod(v, m), [ODict()] if deep else [], {})
            o = OInst(v.cls)
            memo[v.oid] = o
            for kk, vv in v.attrs.items():
                o.attrs[kk] = deepcopy_val(I, vv, memo) if deep else vv
            return o
        if isinstance(v, OArr):
            from .arr import arr_copy
            o = arr_copy(I, v, deep)
            memo[v.oid] = o
            return o
        return v
    I.deepcopy_val = lambda v: deepcopy_val(I, v, {})

    @reg("copy.deepcopy")
    def _dc(I, a, k):
        return deepcopy_val(I, a[0], {})

    @reg("copy.copy")
    def _cc(I, a, k):
        return deepcopy_val(I, a[0], {}, False)

    @reg("os.path.join")
    def _join(I, a, k):
        ps = []
        for i, x in enumerate(a):
            p = I.str_parts(x)
            if ps and not (ps[-1][0] == "lit" and ps[-1][1].endswith("/")):
                ps.append(("lit", "/"))
            ps.extend(p)
        return mkstr(ps)

    @reg("sys.path.append")
    def _spa(I, a, k):
        return None
    N["sys.path.insert"] = _spa

    @reg("sys.exit")
    def _exit(I, a, k):
        e = OInst(I.exc["SystemExit"], {"args": tuple(a)})
        raise PyRaise(e, I.loc())
    N["builtins.exit"] = N["builtins.quit"] = N["os._exit"] = N["os.abort"] = _exit

    @reg("functools.reduce")
    def _reduce(I, a, k):
        xs = list(I.iter_items(a[1]))
        acc = a[2] if len(a) > 2 else xs.pop(0)
        for x in xs:
            if isinstance(x, Seg):
                raise Unsupported("reduce over unknown length")
            acc = I.call(a[0], [acc, x], {})
        return acc

    @reg("functools.partial")
    def _partial(I, a, k):
        f, pa, pk = a[0], list(a[1:]), dict(k)
        return Native("partial", lambda I, aa, kk: I.call(f, pa + list(aa), {**pk, **kk}))

    @reg("itertools.islice")
    def _islice(I, a, k):
        u = lazy_iter(I, a[0])
        if u is not None and len(a) == 2:
            return I.call(I.lazy.vars["Islice"], [u, a[1]], {})
        xs = list(I.iter_items(a[0]))
        if any(isinstance(x, Seg) for x in xs) or not all(x is None or isinstance(x, int) for x in a[1:]):
            raise Unsupported("islice of unknown length")
        return OIter(xs[slice(*a[1:])])

    @reg("itertools.chain")
    def _chain(I, a, k):
        out = []
        for x in a:
            out.extend(I.iter_items(x))
        return OIter(out)

    @reg("itertools.chain.from_iterable")
    def _chain2(I, a, k):
        out = []
        for x in I.iter_items(a[0]):
            if isinstance(x, Seg):
                raise Unsupported("chain of unknown length")
            out.extend(I.iter_items(x))
        return OIter(out)

    @reg("itertools.product")
    def _product(I, a, k):
        import itertools
        cols = [list(I.iter_items(x)) for x in a] * int(k.get("repeat", 1))
        if any(isinstance(x, Seg) for c in cols for x in c):
            raise Unsupported("product of unknown length")
        return OIter([tuple(t) for t in itertools.product(*cols)])

    @reg("collections.defaultdict")
    def _dd(I, a, k):
        return ODict(default=a[0] if a else None)

    @reg("collections.OrderedDict")
    def _od(I, a, k):
        return _dict(I, a, k)

    @reg("collections.deque")
    def _deque(I, a, k):
        return OList(list(I.iter_items(a[0])) if a else [])

    for nm in ("math.sqrt", "math.floor", "math.ceil", "math.exp", "math.log", "math.cos", "math.sin"):
        def mf(I, a, k, nm=nm):
            if isinstance(a[0], (int, float)):
                return getattr(math, nm[5:])(a[0])
            return var(Term(nm, I.tkey(a[0])))
        N[nm] = mf
    I.ext_consts["math.pi"] = math.pi
    I.ext_consts["math.inf"] = float("inf")
    I.ext_consts["typing.TYPE_CHECKING"] = False
    N["contextlib.contextmanager"] = lambda I, a, k: a[0]
    N["functools.lru_cache"] = lambda I, a, k: a[0] if a and isinstance(a[0], FuncVal) else Native("id", lambda I, a, k: a[0])
    N["functools.cache"] = lambda I, a, k: a[0]
    N["functools.wraps"] = lambda I, a, k: Native("id", lambda I, a, k: a[0])
    N["enum.Enum.__init__"] = lambda I, a, k: None


import ast as _ast
_ADD = _ast.Add()
_LT = _ast.Lt()
_GT = _ast.Gt()


def sort_items(I, xs, k):
    key = k.get("key")
    ks = [I.call(key, [x], {}) if key else x for x in xs]
    if all(isinstance(x, (int, float, str)) for x in ks) or all(
            isinstance(x, tuple) and all(isinstance(y, (int, float, str)) for y in x) for x in ks):
        order = sorted(range(len(xs)), key=lambda i: ks[i])
    else:
        order = []
        for i in range(len(xs)):
            p = 0
            while p < len(order) and not I.truth(I.compare(_LT, ks[i], ks[order[p]])):
                p += 1
            order.insert(p, i)
    if I.truth(k.get("reverse", False)):
        order.reverse()
    return [xs[i] for i in order]


# ---------------------------------------------------------------- methods of builtin values
def method_of(I, o, name):
    if isinstance(o, OList):
        f = LIST.get(name)
        if name == "__class__":
            return None
        if f is not None:
            return BoundMethod(o, Native("list." + name, f))
    if isinstance(o, tuple):
        f = TUPLE.get(name)
        if f:
            return BoundMethod(o, Native("tuple." + name, f))
    if isinstance(o, ODict):
        f = DICT.get(name)
        if f:
            return BoundMethod(o, Native("dict." + name, f))
    if isinstance(o, (str, SStr)):
        f = STR.get(name)
        if f:
            return BoundMethod(o, Native("str." + name, f))
        if hasattr(str, name):
            return BoundMethod(o, Native("str." + name, lambda I, a, k: str_generic(I, name, a, k)))
    if isinstance(o, (int, float, Lin, Cond)):
        if name == "is_integer":
            return BoundMethod(o, Native("is_integer", lambda I, a, k: True))
        if name == "bit_length" and isinstance(o, int):
            return BoundMethod(o, Native("bl", lambda I, a, k: a[0].bit_length()))
        if name in ("item", "tolist"):
            return BoundMethod(o, Native("item", lambda I, a, k: a[0]))
        if name in ("all", "any", "copy", "astype", "max", "min", "sum"):
            return BoundMethod(o, Native("np." + name, lambda I, a, k: a[0]))
        if name == "real":
            return o
        if name == "shape":
            return ()
    if isinstance(o, OIter):
        if name == "__next__":
            return BoundMethod(o, Native("next", I.natives["builtins.next"]))
        if name == "__iter__":
            return BoundMethod(o, Native("iter", lambda I, a, k: a[0]))
        if name in ("close", "send"):
            return BoundMethod(o, Native(name, lambda I, a, k: None))
    if isinstance(o, Native):
        if o.name == "builtins.dict" and name == "fromkeys":
            def fk(I, a, k):
                d = ODict()
                for x in I.iter_items(a[0]):
                    d.d[I.key(x)] = a[1] if len(a) > 1 else None
                return d
            return Native("fromkeys", fk)
        if o.name == "builtins.str":
            f = STR.get(name)
            if f:
                return Native("str." + name, f)
        if o.name == "itertools.chain" and name == "from_iterable":
            return Native(name, I.natives["itertools.chain.from_iterable"])
    return None


def _l_append(I, a, k):
    a[0].set(a[0].items + [a[1]])


def _l_extend(I, a, k):
    a[0].set(a[0].items + list(I.iter_items(a[1])))


def _l_pop(I, a, k):
    o = a[0]
    if o.kind == "set":
        raise Unsupported("set.pop")
    if not o.items:
        I.raise_("IndexError", "pop from empty list")
    i = a[1] if len(a) > 1 else -1
    j = I.list_index(o, i)
    if j is None:
        # one element of unknown position disappears; contents are over-approximated
        for x in o.items:
            if isinstance(x, Seg):
                v = x.pick()
                o.set([y if not isinstance(y, Seg) else Seg(y.alts, C.fresh("pop"), None) for y in o.items])
                return v
        raise Unsupported("pop")
    v = o.items[j]
    o.set(o.items[:j] + o.items[j + 1:])
    return v


def _l_insert(I, a, k):
    o = a[0]
    i = C.concretize(a[1])
    items = list(o.items)
    if o.has_seg() and i != 0:
        raise Unsupported("insert")
    items.insert(i, a[2])
    o.set(items)


def _l_remove(I, a, k):
    o = a[0]
    for j, x in enumerate(o.items):
        if isinstance(x, Seg):
            raise Unsupported("remove from unknown-length list")
        if I.truth(I.equal(x, a[1])):
            o.set(o.items[:j] + o.items[j + 1:])
            return
    I.raise_("ValueError", "list.remove(x): x not in list")


def _l_index(I, a, k):
    items = a[0].items if isinstance(a[0], OList) else a[0]
    for j, x in enumerate(items):
        if isinstance(x, Seg):
            return C.freshvar("index", j, None)
        if I.truth(I.equal(x, a[1])):
            return j
    I.raise_("ValueError", "not in list")


def _l_count(I, a, k):
    items = a[0].items if isinstance(a[0], OList) else a[0]
    n = 0
    for x in items:
        if isinstance(x, Seg):
            return add(n, C.freshvar("count", 0, None))
        if I.truth(I.equal(x, a[1])):
            n += 1
    return n


def _l_copy(I, a, k):
    return OList(a[0].items, a[0].kind)


def _l_sort(I, a, k):
    o = a[0]
    if o.has_seg():
        o.set(I.natives["builtins.sorted"](I, [o], k).items)
    else:
        o.set(sort_items(I, o.items, k))


def _l_add(I, a, k):
    a[0].set(a[0].items + [a[1]])
    I.dedupe(a[0])


def _l_discard(I, a, k):
    o = a[0]
    for j, x in enumerate(o.items):
        if isinstance(x, Seg):
            return
        if I.truth(I.equal(x, a[1])):
            o.set(o.items[:j] + o.items[j + 1:])
            return


def _l_clear(I, a, k):
    a[0].set([])


def _l_reverse(I, a, k):
    a[0].set(a[0].items[::-1])


def _l_popleft(I, a, k):
    return _l_pop(I, [a[0], 0], k)


def _s_union(I, a, k):
    r = a[0]
    for x in a[1:]:
        r = I.set_op("BitOr", r, OList(list(I.iter_items(x)), "set"))
    return r


def _s_update(I, a, k):
    for x in a[1:]:
        a[0].set(a[0].items + list(I.iter_items(x)))
    I.dedupe(a[0])


LIST = dict(append=_l_append, extend=_l_extend, pop=_l_pop, insert=_l_insert, remove=_l_remove,
            index=_l_index, count=_l_count, copy=_l_copy, sort=_l_sort, add=_l_add, discard=_l_discard,
            clear=_l_clear, reverse=_l_reverse, popleft=_l_popleft, union=_s_union, update=_s_update,
            appendleft=lambda I, a, k: a[0].set([a[1]] + a[0].items),
            intersection=lambda I, a, k: I.set_op("BitAnd", a[0], a[1]),
            difference=lambda I, a, k: I.set_op("Sub", a[0], a[1]),
            issubset=lambda I, a, k: c_and([I.cond(I.contains(a[1], x)) for x in a[0].items]),
            __len__=lambda I, a, k: I.length(a[0]),
            __getitem__=lambda I, a, k: I.getitem(a[0], a[1]),
            __contains__=lambda I, a, k: I.contains(a[0], a[1]))
TUPLE = dict(index=_l_index, count=_l_count)


def _d_get(I, a, k):
    o, key = a[0], I.key(a[1])
    if key in o.d:
        return o.d[key]
    for kk in list(o.d):
        if isinstance(key, (Lin, SStr, Term)) or isinstance(kk, (Lin, SStr, Term)):
            if I.truth(I.equal(key, kk)):
                return o.d[kk]
    return a[2] if len(a) > 2 else None


def _d_setdefault(I, a, k):
    key = I.key(a[1])
    if key not in a[0].d:
        a[0].put(key, a[2] if len(a) > 2 else None)
    return a[0].d[key]


def _d_pop(I, a, k):
    key = I.key(a[1])
    if key in a[0].d:
        v = a[0].d[key]
        C.ddel(a[0].d, key)
        note_mut(a[0])
        return v
    if len(a) > 2:
        return a[2]
    I.raise_("KeyError", key)


def _d_update(I, a, k):
    if len(a) > 1:
        src = a[1].d if isinstance(a[1], ODict) else dict(tuple(I.iter_items(x)) for x in I.iter_items(a[1]))
        for kk, v in src.items():
            a[0].put(kk, v)
    for kk, v in k.items():
        a[0].put(kk, v)


def _d_clear(I, a, k):
    for kk in list(a[0].d):
        C.ddel(a[0].d, kk)


DICT = dict(get=_d_get, setdefault=_d_setdefault, pop=_d_pop, update=_d_update, clear=_d_clear,
            keys=lambda I, a, k: OList(list(a[0].d.keys())),
            values=lambda I, a, k: OList(list(a[0].d.values())),
            items=lambda I, a, k: OList([(x, y) for x, y in a[0].d.items()]),
            copy=lambda I, a, k: ODict(dict(a[0].d), a[0].default))


def _st_split(I, a, k):
    s = a[0]
    sep = a[1] if len(a) > 1 else k.get("sep")
    if isinstance(s, str):
        return OList(s.split(sep) if sep is not None else s.split())
    if sep is None:
        return OList([Seg([lambda: SStr([("txt", Term("word", s, C.fresh("word")))])], C.fresh("split"))])
    out = []
    cur = []
    for p in s.parts:
        if p[0] == "lit":
            bits = p[1].split(sep)
            for j, bt in enumerate(bits):
                if j > 0:
                    out.append(mkstr(cur))
                    cur = []
                if bt:
                    cur.append(("lit", bt))
        elif p[0] == "seg":
            # a delimiter-separated run of unknown length
            if p[2] == sep:
                if cur:
                    raise Unsupported("split")
                out.append(p[1])
                cur = None
            else:
                raise Unsupported("split on other separator")
        elif p[0] == "txt":
            return OList([Seg([lambda: SStr([("txt", Term("piece", s, C.fresh("piece")))])], C.fresh("split"))])
        else:
            if cur is None:
                raise Unsupported("split")
            cur.append(p)
    if cur is not None:
        out.append(mkstr(cur))
    return OList(out)


def _st_join(I, a, k):
    sep = a[0]
    ps = []
    items = list(I.iter_items(a[1]))
    for i, x in enumerate(items):
        if isinstance(x, Rep) and sep == "" and isinstance(x.val, (str, SStr)):
            ps.append(("rep", x.val, x.count))
            continue
        if isinstance(x, Seg):
            return SStr([("txt", Term("join", I.tkey(sep), C.fresh("join")))])
        if i:
            ps.extend(I.str_parts(sep))
        if not isinstance(x, (str, SStr)):
            if isinstance(x, Term):
                ps.append(("txt", x))
                continue
            I.raise_("TypeError", "sequence item: expected str instance")
        ps.extend(I.str_parts(x))
    return mkstr(ps)


def _st_startswith(I, a, k):
    s, p = a[0], a[1]
    if isinstance(p, tuple):
        return c_or([I.cond(_st_startswith(I, [s, x], k)) for x in p])
    if isinstance(s, str) and isinstance(p, str):
        return s.startswith(p)
    if isinstance(p, str) and isinstance(s, SStr):
        q = s.parts[0]
        if q[0] == "lit":
            n = min(len(q[1]), len(p))
            if q[1][:n] != p[:n]:
                return False
            if len(q[1]) >= len(p):
                return True
        elif q[0] == "int" and not (p[0].isdigit() or p[0] == "-"):
            return False
    return Cond("truth", Term("startswith", I.tkey(s), I.tkey(p)))


def _st_endswith(I, a, k):
    s, p = a[0], a[1]
    if isinstance(p, tuple):
        return c_or([I.cond(_st_endswith(I, [s, x], k)) for x in p])
    if isinstance(s, str) and isinstance(p, str):
        return s.endswith(p)
    if isinstance(p, str) and isinstance(s, SStr):
        q = s.parts[-1]
        if q[0] == "lit" and len(q[1]) >= len(p):
            return q[1].endswith(p)
        if q[0] == "int" and not p[-1].isdigit():
            return False
    return Cond("truth", Term("endswith", I.tkey(s), I.tkey(p)))


def _st_isdigit(I, a, k):
    s = a[0]
    if isinstance(s, str):
        return s.isdigit()
    if all(p[0] == "int" or (p[0] == "lit" and p[1].isdigit()) for p in s.parts):
        if all(p[0] != "int" or (C.bounds(p[1])[0] or -1) >= 0 for p in s.parts):
            return True
    if any(p[0] == "lit" and not p[1].isdigit() for p in s.parts):
        return False
    return Cond("truth", Term("isdigit", s))


def _st_strip(I, a, k):
    if isinstance(a[0], str):
        return a[0].strip(*[x for x in a[1:]])
    if len(a) == 1 and all(p[0] == "int" or (p[0] == "lit" and p[1] == p[1].strip()) for p in a[0].parts):
        return a[0]
    return SStr([("txt", Term("strip", *[I.tkey(x) for x in a]))])


def _st_find(I, a, k):
    if isinstance(a[0], str) and isinstance(a[1], str):
        return a[0].find(a[1])
    for j, ch in enumerate(a[0] if isinstance(a[0], str) else ()):
        if I.truth(I.equal(ch, a[1])):
            return j
    if isinstance(a[0], str):
        return -1
    return var(Term("find", I.tkey(a[0]), I.tkey(a[1])), -1, None)


def _st_index(I, a, k):
    r = _st_find(I, a, k)
    if I.truth(I.equal(r, -1)):
        I.raise_("ValueError", "substring not found")
    return r


def _st_format(I, a, k):
    import re
    s = a[0]
    if not isinstance(s, str):
        return SStr([("txt", Term("format", I.tkey(s)))])
    ps = []
    auto = 0
    pos = 0
    for m in re.finditer(r"\{\{|\}\}|\{([^{}:!]*)(![rs])?(:[^{}]*)?\}", s):
        ps.append(("lit", s[pos:m.start()]))
        pos = m.end()
        if m.group(0) in ("{{", "}}"):
            ps.append(("lit", m.group(0)[0]))
            continue
        f = m.group(1)
        if f == "":
            v = a[1 + auto]
            auto += 1
        elif f.isdigit():
            v = a[1 + int(f)]
        elif f in k:
            v = k[f]
        else:
            return SStr([("txt", Term("format", s, *[I.tkey(x) for x in a[1:]]))])
        if m.group(2) == "!r":
            v = I.to_repr(v)
        ps.extend(I.fmt(v, (m.group(3) or ":")[1:]))
    ps.append(("lit", s[pos:]))
    return mkstr(ps)


STR = dict(split=_st_split, join=_st_join, startswith=_st_startswith, endswith=_st_endswith,
           isdigit=_st_isdigit, isdecimal=_st_isdigit, isnumeric=_st_isdigit, strip=_st_strip,
           find=_st_find, index=_st_index, format=_st_format)


def str_generic(I, name, a, k):
    if all(isinstance(x, (str, int)) for x in a) and not k:
        r = getattr(str, name)(*a)
        if isinstance(r, list):
            return OList(r)
        return r
    if name.startswith("is"):
        return Cond("truth", Term("str." + name, *[I.tkey(x) for x in a]))
    if name in ("count", "rfind"):
        return var(Term("str." + name, *[I.tkey(x) for x in a]), -1, None)
    return SStr([("txt", Term("str." + name, *[I.tkey(x) for x in a]))])
