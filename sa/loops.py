"""Loops with an unknown trip count: abstract fixpoint over the slots the body changes.

The loop body is interpreted from the abstract loop-head state; every slot (local variable,
attribute, list contents, array contents) of an object older than the loop that changed is
abstracted to a template; templates are joined (with widening) until stable.  The loop head
is a disjunction over the kinds (None / number / class ...) of the live slots."""
import ast
from math import gcd
from .dom import (C, Lin, Term, Cond, Var, Infeasible, Unsupported, Budget, var, add, scale, r_lo, r_hi)
from .objs import *
from . import objs as _o


# ---------------------------------------------------------------- templates
class Freezer:
    def __init__(self, I, mark_oid):
        self.I = I
        self.mark = mark_oid

    def fz(self, v, depth=0, seen=()):
        from .arr import OArr
        I = self.I
        if v is None or isinstance(v, (bytes, slice)):
            return ("c", v)
        if isinstance(v, bool):
            return ("b", frozenset([v]))
        if isinstance(v, Cond):
            d = C.decide(v)
            return ("b", frozenset([True, False]) if d is None else frozenset([d]))
        if isinstance(v, str):
            return ("str", frozenset([v]))
        if isinstance(v, (int, float)):
            return ("n", v, v, 0)
        if isinstance(v, Lin):
            v = C.norm(v)
            if not isinstance(v, Lin):
                return ("n", v, v, 0)
            lo, hi = C.bounds(v)
            m = 1
            if lo is not None and all(isinstance(k, int) for _, k in v.ts) and isinstance(v.c, int):
                m = 0
                for x, k in v.ts:
                    r = C.range_of(x)
                    if isinstance(r, frozenset):
                        b = min(r)
                        for y in r:
                            m = gcd(m, k * (y - b))
                    else:
                        m = gcd(m, k)
                m = m or 1
            if len(v.ts) == 1:
                r = C.range_of(v.ts[0][0])
                if isinstance(r, frozenset):
                    vals = [v.c + v.ts[0][1] * x for x in r]
                    lo, hi = min(vals), max(vals)
            return ("n", lo, hi, m)
        if isinstance(v, SStr):
            ps = []
            for q in v.parts:
                if q[0] == "int":
                    t = self.fz(q[1])
                    if t[0] != "n":
                        return ("sstr",)
                    ps.append(("int", t))
                elif q[0] == "lit" or q[0] == "seg" or (q[0] == "txt" and isinstance(q[1], Term)
                                                        and q[1].op == "mcode"):
                    ps.append(q)
                else:
                    return ("sstr",)
            return ("ss", tuple(ps))
        if isinstance(v, Term):
            return ("term",)
        if isinstance(v, tuple):
            return ("t", tuple(self.fz(x, depth + 1, seen) for x in v))
        if isinstance(v, Obj):
            if v.oid <= self.mark:
                return ("ref", v)
            if v.oid in seen or depth > 14:
                return ("term",)
            seen = seen + (v.oid,)
            if isinstance(v, OInst):
                return ("i", v.cls, {k: self.fz(x, depth + 1, seen) for k, x in v.attrs.items()},
                        v.escaped, v.tag)
            if isinstance(v, OList):
                pre = []
                rest = None
                for x in v.items:
                    if isinstance(x, Seg) and rest is None:
                        rest = []
                    if rest is None:
                        pre.append(self.fz(x, depth + 1, seen))
                    elif isinstance(x, Seg):
                        for t in self.seg(x, depth, seen):
                            rest = alts_add(rest, t, False)
                    else:
                        rest = alts_add(rest, self.fz(x, depth + 1, seen), False)
                return ("l", v.kind, tuple(pre), None if rest is None else tuple(rest), v.escaped)
            if isinstance(v, ODict):
                return ("d", {k: self.fz(x, depth + 1, seen) for k, x in v.d.items()}, v.default, v.escaped)
            if isinstance(v, OArr):
                if v.store.oid <= self.mark:
                    return ("ref", v)
                return ("a", v.shape, v.lib, v.dtype, self.arng(v.store), v.store.escaped)
            if isinstance(v, OIter):
                l = OList(v.items[v.pos:])
                t = self.fz(l, depth + 1, seen)
                return ("it",) + t[1:]
            if isinstance(v, Frame):
                return ("c", v)
            return ("term",)
        if isinstance(v, BoundMethod):
            return ("bm", self.fz(v.self_, depth + 1, seen), v.func)
        return ("c", v)

    def seg(self, s, depth, seen):
        if s.tmpl is not None:
            return s.tmpl
        out = []
        for al in s.alts:
            def one(al=al):
                t = self.fz(al(), depth + 1, seen)
                out[:] = alts_add(out, t, False)
            C.explore(one)
        return out

    def arng(self, st):
        return arr_range(st)


def arr_range(st):
    b = st.base
    if b[0] == "fill":
        v = b[1]
        if isinstance(v, (int, float, Lin)):
            lo, hi = C.bounds(v) if isinstance(v, Lin) else (v, v)
            lo, hi = (int(lo) if lo is not None else None), (int(hi) if hi is not None else None)
        else:
            lo = hi = None
    elif b[0] == "sym":
        lo, hi = b[2]
    else:
        lo = hi = None
    for v in st.cells.values():
        if isinstance(v, (bool, int, float)):
            a = z = v
        elif isinstance(v, Lin):
            a, z = C.bounds(C.norm(v)) if isinstance(C.norm(v), Lin) else (C.norm(v), C.norm(v))
        else:
            a = z = None
        lo = None if lo is None or a is None else min(lo, a)
        hi = None if hi is None or z is None else max(hi, z)
    return (lo, hi)


def key(t):
    k = t[0]
    if k == "c":
        v = t[1]
        return ("c", v if isinstance(v, (type(None), str, bytes)) else id(v))
    if k in ("b", "n", "str", "sstr", "term", "undef", "top"):
        return (k,)
    if k == "t":
        return ("t", len(t[1]))
    if k == "ref":
        return ("ref", t[1].oid)
    if k == "i":
        return ("i", id(t[1]))
    if k in ("l", "it"):
        return (k, t[1])
    if k == "d":
        return ("d", discr(t))
    if k == "ss":
        return ("ss", tuple(("int",) if q[0] == "int" else (q[0], id(q[1]) if q[0] == "seg" else q[1])
                            for q in t[1]))
    if k == "a":
        return ("a", repr(t[1]), t[2])
    if k == "bm":
        return ("bm", id(t[2]))
    if k == "alt":
        return ("alt",)
    raise Unsupported("template %s" % k)


def discr(t):
    """Literal texts among the values of a dict template keep different records apart."""
    out = []
    for n, x in t[1].items():
        if x[0] == "str" and len(x[1]) == 1:
            out.append((n, next(iter(x[1]))))
        elif x[0] == "ss":
            out.append((n, key(x)))
        elif x[0] == "d":
            out.append((n, discr(x)))
    return tuple(sorted(out, key=repr))


def alts_add(alts, t, widen):
    alts = list(alts)
    if t[0] == "alt":
        for x in t[1]:
            alts = alts_add(alts, x, widen)
        return alts
    k = key(t)
    for i, a in enumerate(alts):
        if key(a) == k:
            alts[i] = join(a, t, widen)
            return alts
    alts.append(t)
    return alts


def _num(lo1, hi1, lo2, hi2, widen):
    lo = None if lo1 is None or lo2 is None else min(lo1, lo2)
    hi = None if hi1 is None or hi2 is None else max(hi1, hi2)
    if widen:
        if lo1 is not None and lo != lo1:
            lo = 0 if (lo is not None and lo >= 0) else None
        if hi1 is not None and hi != hi1:
            hi = None
    return lo, hi


def join(a, b, widen):
    """Join of two templates (a: old, b: new)."""
    if a is b or a == b:
        return a
    ka, kb = key(a), key(b)
    if ka != kb:
        a, b = unref(a, b), unref(b, a)
        ka, kb = key(a), key(b)
    if ka != kb:
        base = list(a[1]) if a[0] == "alt" else [a]
        return ("alt", tuple(alts_add(base, b, widen)))
    k = a[0]
    if k == "alt":
        base = list(a[1])
        for x in b[1]:
            base = alts_add(base, x, widen)
        return ("alt", tuple(base))
    if k == "n":
        lo, hi = _num(a[1], a[2], b[1], b[2], widen)
        m = 1
        if isinstance(a[1], int) and isinstance(b[1], int) and isinstance(lo, int):
            m = gcd(gcd(a[3], b[3]), gcd(a[1] - b[1], lo - a[1])) or 1
        return ("n", lo, hi, m)
    if k in ("b", "str"):
        return (k, a[1] | b[1])
    if k == "ss":
        return (k, tuple(("int", join(p[1], q[1], widen)) if p[0] == "int" else p for p, q in zip(a[1], b[1])))
    if k == "t":
        return ("t", tuple(join(x, y, widen) for x, y in zip(a[1], b[1])))
    if k == "i":
        at = {}
        for n in list(a[2]) + [n for n in b[2] if n not in a[2]]:
            if n in a[2] and n in b[2]:
                at[n] = join(a[2][n], b[2][n], widen)
            else:
                at[n] = join(("undef",), a[2].get(n) or b[2].get(n), widen)
        return ("i", a[1], at, a[3] or b[3], a[4] if a[4] == b[4] else None)
    if k in ("l", "it"):
        pa, pb = a[2], b[2]
        if len(pa) == len(pb) and a[3] is None and b[3] is None:
            return (k, a[1], tuple(join(x, y, widen) for x, y in zip(pa, pb)), None, a[4] or b[4])
        n = min(len(pa), len(pb))
        pre = tuple(join(x, y, widen) for x, y in zip(pa[:n], pb[:n]))
        rest = list(a[3] or ())
        for x in tuple(pa[n:]) + tuple(pb[n:]) + tuple(b[3] or ()):
            rest = alts_add(rest, x, widen)
        return (k, a[1], pre, tuple(rest), a[4] or b[4])
    if k == "d":
        d = {}
        for n in list(a[1]) + [n for n in b[1] if n not in a[1]]:
            if n in a[1] and n in b[1]:
                d[n] = join(a[1][n], b[1][n], widen)
            else:
                d[n] = join(("undef",), a[1].get(n) or b[1].get(n), widen)
        return ("d", d, a[2], a[3] or b[3])
    if k == "a":
        dt = a[3] if a[3] == b[3] else None
        if dt is None:
            dt = "float32"
        return ("a", a[1], a[2], dt, _num(*a[4], *b[4], widen), a[5] or b[5])
    if k == "bm":
        return ("bm", join(a[1], b[1], widen), a[2])
    return a


def unref(a, b):
    """An older, unshared empty list joined with newer lists is summarised as a list."""
    if a[0] == "ref" and b[0] == "l" and isinstance(a[1], OList) and a[1].kind == b[1] and MERGE[0] is not None:
        I = MERGE[0]
        if I.merge_empty and (not a[1].items or a[1].escaped):
            return Freezer(I, -1).fz(a[1])
    return a


MERGE = [None]


UNDEF = object()


def thaw(t, I):
    from .arr import OArr, Store
    k = t[0]
    if k == "c":
        return t[1]
    if k == "undef":
        return UNDEF
    if k == "b":
        if len(t[1]) == 1:
            return next(iter(t[1]))
        return Cond("truth", Term("head", C.fresh("headb")))
    if k == "str":
        if len(t[1]) == 1:
            return next(iter(t[1]))
        l = sorted(t[1])
        return l[C.choose(len(l), ("headstr",))]
    if k == "n":
        lo, hi = t[1], t[2]
        if lo is not None and lo == hi:
            return lo
        if isinstance(lo, float) or isinstance(hi, float):
            lo = int(lo) if lo is not None and float(lo).is_integer() else None
            hi = int(hi) if hi is not None and float(hi).is_integer() else None
        m = t[3]
        if m > 1 and isinstance(lo, int):
            return add(scale(C.freshvar("head", 0, None if hi is None else (hi - lo) // m), m), lo)
        return C.freshvar("head", lo, hi)
    if k == "ss":
        return mkstr([("int", thaw(q[1], I)) if q[0] == "int" else q for q in t[1]])
    if k == "sstr":
        return SStr([("txt", Term("headtxt", C.fresh("headtxt")))])
    if k == "term":
        return Term("headval", C.fresh("headval"))
    if k == "t":
        return tuple(thaw(x, I) for x in t[1])
    if k == "ref":
        return t[1]
    if k == "alt":
        return thaw(t[1][C.choose(len(t[1]), ("headalt",))], I)
    if k == "i":
        o = OInst(t[1])
        for n, x in t[2].items():
            v = thaw(x, I)
            if v is not UNDEF:
                o.attrs[n] = v
        o.escaped, o.tag = t[3], t[4]
        return o
    if k in ("l", "it"):
        l = OList([], t[1] if k == "l" else "list")
        l.items = thaw_items(t, I)
        l.escaped = t[4]
        if k == "it":
            return OIter(l.items)
        return l
    if k == "d":
        d = ODict(None, t[2])
        for n, x in t[1].items():
            v = thaw(x, I)
            if v is not UNDEF:
                d.d[n] = v
        d.escaped = t[3]
        return d
    if k == "a":
        a = OArr(Store(("sym", Term("headarr", C.fresh("headarr") + tuple(t[4])), tuple(t[4])), t[1], t[3]),
                 t[1], None, t[2], t[3])
        a.store.escaped = t[5]
        return a
    if k == "bm":
        return BoundMethod(thaw(t[1], I), t[2])
    raise Unsupported("thaw %s" % k)


def thaw_items(t, I):
    items = [thaw(x, I) for x in t[2]]
    if t[3] is not None:
        if t[3]:
            items.append(mkseg(t[3], I))
    return items


def mkseg(alts, I):
    flat = []
    for a in alts:
        flat.extend(a[1] if a[0] == "alt" else [a])
    s = Seg([(lambda x=x: thaw(x, I)) for x in flat], C.fresh("headseg"))
    s.tmpl = tuple(flat)
    s.count = C.freshvar("headcount", 0, None)
    return s


# ---------------------------------------------------------------- slots
def slots_changed(mark, mark_oid):
    """Slots of objects older than the loop that the trail since mark modifies."""
    from .arr import Store
    out = set()
    for kind, o, k, old in C.trail[mark:]:
        if kind == 0:
            if isinstance(o, Obj) and o.oid <= mark_oid:
                if isinstance(o, Store) and k in ("base", "cells"):
                    out.add((o, "contents"))
                else:
                    out.add((o, k))
            elif isinstance(o, Seg):
                pass
        else:
            ow = getattr(o, "owner", None)
            if ow is None or ow.oid > mark_oid:
                continue
            if isinstance(ow, Store):
                out.add((ow, "contents"))
            elif kind == 2:
                if isinstance(ow, ODict):
                    out.add((ow, "%d"))
                else:
                    out.add((ow, ("%", k_deleted(old, o))))
            elif isinstance(ow, ODict):
                out.add((ow, "%d"))
            else:
                out.add((ow, ("%", k)))
    return out


def k_deleted(old, o):
    return None


def slot_key(s):
    return (s[0].oid, str(s[1]))


def read_slot(s, fz):
    from .arr import Store
    o, k = s
    if isinstance(o, Store):
        if k == "contents":
            if o.base[0] == "fn" and not o.cells:
                return ("A", None, None)
            return ("A",) + tuple(arr_range(o))
        return ("c", getattr(o, k))
    if isinstance(k, tuple):
        d = o.vars if isinstance(o, Frame) else o.attrs
        if k[1] not in d:
            return ("undef",)
        return fz.fz(d[k[1]])
    if k == "%d":
        return ("D", {kk: fz.fz(v) for kk, v in o.d.items()})
    if k == "items":
        if isinstance(o, OIter):
            return ("c", None)
        t = fz.fz(_ListView(o))
        return t
    if k == "pos":
        return ("c", None)
    if k in ("escaped", "tag"):
        return ("E", getattr(o, k))
    return ("c", getattr(o, k))


def _ListView(o):
    l = OList(o.items, o.kind)
    return l


def slot_key_t(t):
    if t[0] == "A":
        return ("A",)
    if t[0] == "D":
        return ("D",)
    if t[0] == "E":
        return ("E",)
    return key(t)


def slot_join(a, b, widen):
    if a[0] == "A":
        return ("A",) + _num(a[1], a[2], b[1], b[2], widen)
    if a[0] == "E":
        return ("E", a[1] or b[1])
    if a[0] == "D":
        x = join(("d", a[1], None, None), ("d", b[1], None, None), widen)
        return ("D", x[1])
    return join(a, b, widen)


def apply_slot(s, t, I):
    o, k = s
    if t[0] == "A":
        C.setattr(o, "base", ("sym", Term("headst", C.fresh("headst") + tuple(t[1:])), tuple(t[1:])))
        C.setattr(o, "cells", TD(o))
        return
    if t[0] == "E":
        C.setattr(o, k, t[1])
        return
    if t[0] == "D":
        for kk in list(o.d):
            if kk not in t[1]:
                C.ddel(o.d, kk)
        for kk, x in t[1].items():
            v = thaw(x, I)
            if v is UNDEF:
                if kk in o.d:
                    C.ddel(o.d, kk)
            else:
                C.dset(o.d, kk, v)
        return
    if isinstance(k, tuple):
        d = o.vars if isinstance(o, Frame) else o.attrs
        v = thaw(t, I)
        if v is UNDEF:
            if k[1] in d:
                C.ddel(d, k[1])
        else:
            C.dset(d, k[1], v)
        return
    if k == "items":
        if isinstance(o, OIter):
            return
        if t[0] == "alt":
            t = t[1][C.choose(len(t[1]))]
        C.setattr(o, "items", thaw_items(t, I))
        return
    if k == "pos":
        return
    if t[0] == "c":
        C.setattr(o, k, t[1])


# ---------------------------------------------------------------- fixpoint
MAX_ROUNDS = 14
DEBUG_HEADS = False


def fix_loop(I, step, node, count=None):
    """step(): one iteration; returns 'cont' or 'exit'.  Returns when the loop is exited normally."""
    fr, _ = I.stack[-1]
    mark_oid = Obj._n
    Obj._n += 1
    from .interp import CompLoop
    MERGE[0] = I
    comp = node if isinstance(node, CompLoop) else None
    live = None if comp is not None else live_at(fr, node)
    slots = []
    entry_len = {}
    heads = {}
    done = {}
    saved_stack = list(I.stack)
    in_final = I.in_final

    def relevant(s):
        o, k = s
        if isinstance(o, Frame) and isinstance(k, tuple):
            if comp is not None and o is comp.frame and k[1] in comp.dead:
                return False
            if o is fr:
                return live is None or k[1] in live
        return True
    dead = set()
    seen_slots = set()
    first = True
    rounds = 0
    entry_fz = Freezer(I, mark_oid)
    entry_vec = None

    def inst_head(vec):
        for s in dead:
            d = s[0].vars
            if s[1][1] in d:
                C.ddel(d, s[1][1])
        for s, t in zip(slots, vec):
            apply_slot(s, t, I)

    entry_items = None
    if count is not None:
        entry_items = _EntryItems(C.trail, len(C.trail))
    while True:
        rounds += 1
        if rounds > MAX_ROUNDS:
            raise Unsupported("loop at %s does not stabilise" % I.loc())
        results = []
        grown = set()
        leaves = []
        growth = {}

        def run(vec):
            def one():
                nonlocal_leaves, nonlocal_growth = leaves, growth
                m0 = len(C.trail)
                oid0 = mark_oid
                if vec is not None:
                    inst_head(vec)
                before = {s: list(s[0].items) for s in slots if s[1] == "items" and isinstance(s[0], OList)}
                del I.stack[:]
                I.stack.extend(saved_stack)
                I.in_final = False
                try:
                    r = step()
                except _leave():
                    nonlocal_leaves.append(1)
                    return
                finally:
                    I.in_final = in_final
                    del I.stack[:]
                    I.stack.extend(saved_stack)
                if r == "exit":
                    return
                ch = slots_changed(m0, oid0)
                for s in ch:
                    if s not in seen_slots:
                        grown.add(s)
                for s in ch | set(before):
                    if s[1] == "items" and isinstance(s[0], OList):
                        b = before.get(s)
                        if b is None:
                            b = entry_items.get(s[0]) if entry_items else None
                        n = list(s[0].items)
                        k = len(n) - len(b) if b is not None else -1
                        ok = k >= 0 and all(x is y for x, y in zip(b, n)) and not any(
                            isinstance(x, Seg) for x in n[len(b):])
                        nonlocal_growth.setdefault(s, set()).add(k if ok else None)
                fz = Freezer(I, mark_oid)
                results.append({s: read_slot(s, fz) for s in list(slots) + [x for x in ch if relevant(x)]})
            C.explore(one)
        if not heads:
            run(None)
        else:
            for sig, vec in list(heads.items()):
                if sig in done and done[sig][0] == vec:
                    continue
                leaves, growth = [], {}
                run(vec)
                done[sig] = (vec, leaves, growth)
            leaves = [1 for d in done.values() if d[1]]
            growth = {}
            for d in done.values():
                for s, g in d[2].items():
                    growth.setdefault(s, set()).update(g)
        if not results and not heads:
            # the body never completes normally: at most one iteration
            heads = None
            break
        new = sorted((s for s in grown), key=slot_key)
        add_slots = []
        for s in new:
            seen_slots.add(s)
            if relevant(s):
                add_slots.append(s)
            else:
                dead.add(s)
        if add_slots or not heads:
            for s in add_slots:
                if s[1] == "items" and isinstance(s[0], OList) and not s[0].has_seg():
                    entry_len[s] = len(s[0].items)
            slots.extend(add_slots)
            heads = {}
            done = {}
            fz = Freezer(I, mark_oid)
            ev = [read_slot(s, fz) for s in slots]
            heads[tuple(slot_key_t(t) for t in ev)] = ev
            # seed with this round's results as well
        changed = bool(add_slots)
        for res in results:
            vec = []
            for s in slots:
                if s in res:
                    vec.append(res[s])
                else:
                    # not touched on this path: entry value
                    fz = Freezer(I, mark_oid)
                    vec.append(read_slot(s, fz))
            sig = tuple(slot_key_t(t) for t in vec)
            old = heads.get(sig)
            if old is None:
                heads[sig] = vec
                changed = True
            else:
                nv = [slot_join(a, b, rounds > 2) for a, b in zip(old, vec)]
                if nv != old:
                    heads[sig] = nv
                    changed = True
        if DEBUG_HEADS == 2 and getattr(node, "lineno", 0) == 123:
            import time
            print("round", rounds, "heads", len(heads), "slots", len(slots), "results", len(results), "new", len(add_slots), C.stats["paths"], round(time.time() % 1000, 1), flush=True)
        if len(heads) > 80:
            raise Unsupported("too many loop-head kinds at %s" % I.loc())
        if not changed:
            break
    # ---- final: leave through the head or through the body
    C.dset(C.counters, ("loopfinal", getattr(node, "lineno", 0)), 1)
    if heads is None:
        c = C.choose(2, ("loop", getattr(node, "lineno", 0)))
        if c == 0 and step is not None and not getattr(step, "is_while", False):
            return
        if step() == "exit":
            return
        raise Infeasible()
    vecs = list(heads.values())
    if DEBUG_HEADS and len(vecs) > 1:
        print('HEADS', I.loc(), [(s[0], s[1]) for s in slots])
        for v in vecs:
            print('    ', v)
    inst_head(vecs[C.choose(len(vecs), ("loophead",))])
    if getattr(step, "is_while", False):
        if step() == "exit":
            return
        raise Infeasible()
    if not leaves or C.choose(2, ("loop", getattr(node, "lineno", 0))) == 0:
        if count is not None:
            for s in slots:
                g = growth.get(s)
                if s[1] == "items" and g is not None and len(g) == 1 and None not in g and s in entry_len:
                    segs = [x for x in s[0].items if isinstance(x, Seg)]
                    if len(segs) == 1:
                        k = next(iter(g))
                        segs[0].count = add(add(entry_len[s], scale(count, k)), -(len(s[0].items) - 1))
        return
    step()
    raise Infeasible()


class _EntryItems:
    """Items of a list when the loop was entered, from the undo trail."""

    def __init__(self, trail, mark):
        self.trail, self.mark = trail, mark

    def get(self, o):
        for kind, ob, k, old in self.trail[self.mark:]:
            if kind == 0 and ob is o and k == "items":
                return old
        return o.items


def _leave():
    from .interp import BreakEx, ReturnEx
    return (BreakEx, ReturnEx, PyRaise)


def seg_loop(I, seg, iterate, node):
    def step():
        iterate()
        return "cont"
    fix_loop(I, step, node, seg.count)


def while_loop(I, step, node):
    step.is_while = True
    fix_loop(I, step, node)


# ---------------------------------------------------------------- liveness
_live_cache = {}


def live_at(fr, node):
    """Names of the frame's function that may be read after (re-)entering the loop head;
    None when unknown (keep everything)."""
    from .interp import _COMP
    f = fr.func
    if f is _COMP or isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
        return None
    if f is None or node is None:
        return None
    k = (id(f.node), id(node))
    if k in _live_cache:
        return _live_cache[k]
    try:
        a = _Live(f.node)
        r = a.run(node)
    except Unsupported:
        r = None
    _live_cache[k] = r
    return r


class _Live:
    def __init__(self, fn):
        self.fn = fn
        self.heads = {}
        self.always = set()
        self.hl = []
        for n in ast.walk(fn):
            if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda)):
                for m in ast.walk(n):
                    if isinstance(m, ast.Name):
                        self.always.add(m.id)
                    elif isinstance(m, ast.Nonlocal):
                        self.always.update(m.names)

    def run(self, node):
        body = self.fn.body if isinstance(self.fn.body, list) else []
        for _ in range(3):
            self.block(body, frozenset(self.always), None, None)
        r = self.heads.get(id(node))
        if r is None:
            raise Unsupported("loop not found")
        return r | self.always

    def uses(self, e):
        out = set()
        if e is None:
            return out
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            bound = set()
            for g in e.generators:
                bound |= {m.id for m in ast.walk(g.target) if isinstance(m, ast.Name)}
            for i, g in enumerate(e.generators):
                out |= self.uses(g.iter) - (bound if i else set())
                for c in g.ifs:
                    out |= self.uses(c) - bound
            for f in ("elt", "key", "value"):
                x = getattr(e, f, None)
                if x is not None:
                    out |= self.uses(x) - bound
            return out
        if isinstance(e, ast.Lambda):
            a = e.args
            ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
            for d in a.defaults + [y for y in a.kw_defaults if y]:
                out |= self.uses(d)
            return out | (self.uses(e.body) - ps)
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, (ast.Load, ast.Del)):
                out.add(e.id)
            return out
        for n in ast.iter_child_nodes(e):
            out |= self.uses(n)
        return out

    def target(self, t, live):
        """live before an assignment to t"""
        if isinstance(t, ast.Name):
            return live - {t.id}
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                live = self.target(e, live)
            return live
        if isinstance(t, ast.Starred):
            return self.target(t.value, live)
        return live | self.uses(t)

    def block(self, stmts, live, brk, cont):
        for s in reversed(stmts):
            live = self.stmt(s, live, brk, cont)
        return live

    def stmt(self, s, live, brk, cont):
        if isinstance(s, ast.Assign):
            for t in s.targets:
                live = self.target(t, live)
            # names used inside subscript/attribute targets
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    live = live | self.uses(t)
            return live | self.uses(s.value)
        if isinstance(s, ast.AugAssign):
            return live | self.uses(s.value) | self.uses(s.target) | (
                {s.target.id} if isinstance(s.target, ast.Name) else set())
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                live = self.target(s.target, live) | self.uses(s.value)
            return live
        if isinstance(s, ast.If):
            a = self.block(s.body, live, brk, cont)
            b = self.block(s.orelse, live, brk, cont)
            return a | b | self.uses(s.test)
        if isinstance(s, (ast.For, ast.While)):
            out = self.block(s.orelse, live, brk, cont) | live
            for x in self.hl:
                out = out | x
            head = self.heads.get(id(s), frozenset())
            for _ in range(20):
                body = self.block(s.body, head | out, live, head | out)
                if isinstance(s, ast.For):
                    new = (self.target(s.target, body)) | out
                else:
                    new = body | out | self.uses(s.test)
                new = head | new
                if new == head:
                    break
                head = frozenset(new)
            self.heads[id(s)] = head
            if isinstance(s, ast.For):
                return head | self.uses(s.iter)
            return head
        if isinstance(s, ast.Break):
            return brk if brk is not None else live
        if isinstance(s, ast.Continue):
            return cont if cont is not None else live
        if isinstance(s, ast.Return):
            return frozenset(self.always) | self.uses(s.value)
        if isinstance(s, ast.Raise):
            return frozenset(self.always) | self.uses(s.exc) | self.uses(s.cause)
        if isinstance(s, ast.Try):
            fin = self.block(s.finalbody, live, brk, cont)
            h = frozenset()
            for x in s.handlers:
                h = h | self.block(x.body, fin, brk, cont) | self.uses(x.type)
            o = self.block(s.orelse, fin, brk, cont)
            self.hl.append(h | fin)
            b = self.block(s.body, o | h, brk, cont)
            self.hl.pop()
            return b | h | fin
        if isinstance(s, ast.With):
            live = self.block(s.body, live, brk, cont)
            for i in reversed(s.items):
                if i.optional_vars is not None:
                    live = self.target(i.optional_vars, live)
                live = live | self.uses(i.context_expr)
            return live
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return live - {s.name}
        if isinstance(s, ast.Match):
            r = live
            for c in s.cases:
                r = r | self.block(c.body, live, brk, cont) | self.uses(c.guard)
                for n in ast.walk(c.pattern):
                    if isinstance(n, ast.expr):
                        r = r | self.uses(n)
            return r | self.uses(s.subject)
        if isinstance(s, (ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass)):
            return live
        if isinstance(s, ast.Delete):
            return live | self.uses(s)
        return live | self.uses(s)
