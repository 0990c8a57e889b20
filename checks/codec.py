"""Meld codec (draw.Naki): C01-C05.

A raw meld code is an affine form over ranged fields (seat, tile copies, colour, number,
position of the called tile), one family per meld kind, exactly as the log format lays the
bits out.  The codec's functions are interpreted over that form; every obligation is an
(in)equality of affine forms that must hold on the whole partition."""
from sa.dom import C, Lin, add, scale, var, parts, Unsupported, c_not, Cond
from sa.objs import OList, PyRaise, OInst
from .base import Broken

KINDS = ("chi", "pon", "kakan", "minkan", "ankan")


def fields(kind, tag=""):
    """Symbolic fields of a raw code of this kind and the code itself."""
    f = {}
    if kind == "chi":
        f["color"] = var("color" + tag, 0, 2)
        f["number"] = var("number" + tag, 0, 6)
        f["which"] = var("which" + tag, 0, 2)
        f["copy"] = [var("copy%d" % i + tag, 0, 3) for i in range(3)]
        f["who"] = 3
        pat = add(scale(add(scale(f["color"], 7), f["number"]), 3), f["which"])
        code = add(scale(pat, 1 << 10), 7)
        for i, s in enumerate((3, 5, 7)):
            code = add(code, scale(f["copy"][i], 1 << s))
        f["code"] = code
        return f
    f["color"] = var("mcolor" + tag, 0, 3)
    f["number"] = var("mnumber" + tag, 0, 8)
    if C.truth(C.mk_eq(add(f["color"], -3))):
        C.set_range(f["number"].ts[0][0], frozenset(range(7)))
    tile = add(scale(f["color"], 9), f["number"])
    f["tile"] = tile
    if kind == "pon":
        f["which"] = var("which" + tag, 0, 2)
        f["copy"] = var("unused" + tag, 0, 3)
        f["who"] = var("who" + tag, 1, 3)
        pat = add(scale(tile, 3), f["which"])
        f["code"] = add(add(scale(pat, 1 << 9), add(f["who"], 8)), scale(f["copy"], 1 << 5))
    elif kind == "kakan":
        f["which"] = var("which" + tag, 0, 2)
        f["copy"] = var("added" + tag, 0, 3)
        f["who"] = var("who" + tag, 1, 3)
        pat = add(scale(tile, 3), f["which"])
        f["code"] = add(add(scale(pat, 1 << 9), add(f["who"], 16)), scale(f["copy"], 1 << 5))
    elif kind == "minkan":
        f["which"] = var("whichm" + tag, 0, 3)
        f["who"] = var("who" + tag, 1, 3)
        f["code"] = add(scale(add(scale(tile, 4), f["which"]), 1 << 8), f["who"])
    else:
        f["which"] = var("whichm" + tag, 0, 3)
        f["who"] = 0
        f["code"] = scale(add(scale(tile, 4), f["which"]), 1 << 8)
    return f


def expected(kind, f):
    """(tiles exposed besides the called one, called tile, has_red) by the log format.
    Partitions on the fields the answer depends on."""
    n = C.norm
    if kind == "chi":
        base = add(scale(f["color"], 9), f["number"])
        tiles = [add(scale(add(base, i), 4), f["copy"][i]) for i in range(3)]
        w = C.concretize(f["which"])
        red = False
        for i in range(3):
            if C.truth(C.mk_eq(add(f["number"], i - 4))) and C.truth(C.mk_eq(f["copy"][i])):
                red = True
        return tiles[:w] + tiles[w + 1:], tiles[w], red
    five = C.truth(C.mk_eq(add(f["number"], -4))) and not C.truth(C.mk_eq(add(f["color"], -3)))
    base = scale(f["tile"], 4)
    if kind == "pon":
        u = C.concretize(f["copy"])
        w = C.concretize(f["which"])
        cs = [k for k in range(4) if k != u]
        tiles = [add(base, k) for k in cs]
        return tiles[:w] + tiles[w + 1:], tiles[w], five and 0 in cs
    if kind == "kakan":
        return [add(base, f["copy"])], None, five
    if kind == "minkan":
        w = C.concretize(f["which"])
        return [add(base, k) for k in range(4) if k != w], add(base, w), five
    return [add(base, k) for k in range(4)], None, five


def describe(kind, f):
    d = {k: (C.norm(v) if isinstance(v, Lin) else [C.norm(x) for x in v] if isinstance(v, list) else v)
         for k, v in f.items() if k not in ("code", "tile")}

    def one(v):
        if isinstance(v, Lin):
            vs = [C.range_of(x) for x, _ in v.ts]
            return "%s in %s" % (v, [sorted(r) if isinstance(r, frozenset) and len(r) < 6 else
                                     "%s..%s" % (min(r), max(r)) if isinstance(r, frozenset) else r for r in vs])
        return str(v)
    return "%s meld code with " % kind + ", ".join(
        "%s=%s" % (k, one(v) if not isinstance(v, list) else [one(x) for x in v]) for k, v in sorted(d.items()))


class Codec:
    def __init__(self, c):
        self.c = c
        self.I = I = c.interp()
        m = I.load("MahjongAI.draw")
        if "Naki" not in m.vars:
            raise Broken("anchor MahjongAI.draw.Naki not found")
        self.Naki = m.vars["Naki"]

    def make(self, code, clean=True):
        return self.I.call(self.Naki, [code], {} if clean else {"clean": False})

    def meth(self, o, name, *args):
        return self.I.call(self.I.getattr_(o, name), list(args), {})

    def con(self, name, *args):
        return self.I.call(self.I.getattr_(self.Naki, name), list(args), {})

    def kind_truth(self, o, k):
        return self.I.truth(self.meth(o, "is_" + k))


def eqv(a, b):
    if a is None or b is None:
        return a is b
    return C.must_equal(C.norm(a) if isinstance(a, Lin) else a, C.norm(b) if isinstance(b, Lin) else b)


def same_multiset(I, got, exp):
    got = list(I.iter_items(got)) if got is not None else None
    if got is None or len(got) != len(exp):
        return False
    left = list(exp)
    for g in got:
        for i, e in enumerate(left):
            if eqv(g, e):
                del left[i]
                break
        else:
            return False
    return True


def guarded(c, rule, construct, fn, text):
    """Run fn; an exception of the analysed code on a feasible partition fails the rule."""
    try:
        return True, fn()
    except PyRaise as e:
        c.fail(rule, construct, "%s raises %s at %s" % (text() if callable(text) else text, e.exc.cls.name, e.loc))
        return False, None


def c01(c):
    cd = Codec(c)
    c.explain("Abstract interpretation of the meld decoder over affine bit-field families covering every raw "
              "code of the five kinds; each decoded component is compared with the log format's layout "
              "on every partition.")
    c.assumes("raw codes follow the Tenhou m-attribute layout (seat bits, tile-copy bits, pattern); "
              "chi is always called from the left neighbour")
    for kind in KINDS:
        rule = "decode-" + kind

        def body(kind=kind, rule=rule):
            f = fields(kind)
            desc = lambda: describe(kind, f)
            ok, o = guarded(c, rule, "constructor:" + kind, lambda: cd.make(f["code"]), desc)
            if not ok:
                return
            ok, r = guarded(c, rule, "get_exposed:" + kind, lambda: cd.meth(o, "get_exposed"), desc)
            if not ok:
                return
            ok, p = guarded(c, rule, "pattern:" + kind, lambda: cd.meth(o, "pattern_" + kind), desc)
            if not ok:
                return
            who = cd.meth(o, "from_who")
            exp, acq, red = expected(kind, f)
            ge, ga = list(cd.I.iter_items(r))
            c.ob(rule, same_multiset(cd.I, ge, exp), "get_exposed.tiles:" + kind,
                 lambda: "%s: exposed %r, format says %r" % (desc(), ge, exp))
            c.ob(rule, eqv(ga, acq), "get_exposed.called:" + kind,
                 lambda: "%s: called tile %r, format says %r" % (desc(), ga, acq))
            p = list(cd.I.iter_items(p))
            c.ob(rule, len(p) == 6, "pattern.arity:" + kind, "pattern does not have six components")
            c.ob(rule, eqv(p[0], f["color"]), "pattern.color:" + kind, lambda: "%s: colour %r" % (desc(), p[0]))
            c.ob(rule, eqv(p[1], f["number"]), "pattern.number:" + kind, lambda: "%s: number %r" % (desc(), p[1]))
            c.ob(rule, eqv(p[2], f["which"]), "pattern.which:" + kind, lambda: "%s: position %r" % (desc(), p[2]))
            c.ob(rule, cd.I.truth(p[3]) == red, "pattern.red:" + kind,
                 lambda: "%s: red flag %r, format says %s" % (desc(), p[3], red))
            c.ob(rule, same_multiset(cd.I, p[4], exp), "pattern.tiles:" + kind,
                 lambda: "%s: exposed %r, format says %r" % (desc(), p[4], exp))
            c.ob(rule, eqv(p[5], acq), "pattern.called:" + kind,
                 lambda: "%s: called %r, format says %r" % (desc(), p[5], acq))
            c.ob(rule, eqv(who, f["who"]), "from_who:" + kind, lambda: "%s: seat %r" % (desc(), who))
            c.sample(rule, "%s -> exposed %r called %r" % (desc(), exp, acq))
        c.explore(cd.I, body)
        c.require(rule, 9)


def c02(c):
    cd = Codec(c)
    c.explain("The five kind predicates are interpreted over every raw code family (and the family of codes of no "
              "supported kind); exactly one must be true, and unsupported codes must be refused with ValueError.")
    for kind in KINDS:
        rule = "one-kind"

        def body(kind=kind):
            f = fields(kind)
            desc = lambda: describe(kind, f)
            o = cd.make(f["code"], clean=False)
            for k in KINDS:
                t = cd.kind_truth(o, k)
                c.ob(rule, t == (k == kind), "is_%s on %s" % (k, kind),
                     lambda: "%s: is_%s is %s" % (desc(), k, t))
            c.sample(rule, desc())
        c.explore(cd.I, body)
    c.require("one-kind", 25)

    def invalid():
        hi = var("high", 0, 1023)
        who = var("who0", 0, 3)
        code = add(add(scale(hi, 64), 0x20), who)
        desc = "code high*64+0x20+who of no supported kind (north extraction / corrupt)"
        for clean in (True, False):
            try:
                o = cd.make(code, clean=clean)
                if clean:
                    c.fail("reject", "constructor", desc + " is accepted")
                    return
            except PyRaise as e:
                c.ob("reject", cd.I.exc["ValueError"] in e.exc.cls.mro, "constructor",
                     desc + " raises %s" % e.exc.cls.name)
                continue
            for k in KINDS:
                t = cd.kind_truth(o, k)
                c.ob("reject", not t, "is_" + k, desc + ": is_%s is %s" % (k, t))
            try:
                r = cd.meth(o, "get_exposed")
                c.fail("reject", "get_exposed", desc + " decodes to %r" % (r,))
            except PyRaise as e:
                c.ob("reject", cd.I.exc["ValueError"] in e.exc.cls.mro, "get_exposed",
                     desc + " raises %s" % e.exc.cls.name)
    c.explore(cd.I, invalid)
    c.require("reject", 3)


def info(kind):
    """Symbolic constructor arguments (valid melds only) and the called/added tile facts."""
    v = {}
    if kind == "chi":
        v["color"] = var("color", 0, 2)
        v["number"] = var("number", 0, 6)
        v["which"] = var("which", 0, 2)
        v["red"] = False
        if C.truth(C.mk_ge(add(v["number"], -2))) and C.truth(C.mk_ge(add(scale(v["number"], -1), 4))):
            v["red"] = bool(C.choose(2))
        v["args"] = ["color", "number", "which", "red"]
        return v
    v["color"] = var("mcolor", 0, 3)
    v["number"] = var("mnumber", 0, 8)
    if C.truth(C.mk_eq(add(v["color"], -3))):
        C.set_range(v["number"].ts[0][0], frozenset(range(7)))
    v["tile"] = add(scale(v["color"], 9), v["number"])
    v["five"] = C.truth(C.mk_eq(add(v["number"], -4))) and not C.truth(C.mk_eq(add(v["color"], -3)))
    if kind == "pon":
        v["red"] = v["five"] and bool(C.choose(2))
        v["which"] = C.choose(2) if v["red"] else 0
        v["who"] = var("who", 1, 3)
        v["args"] = ["tile", "which", "red", "who"]
    elif kind == "kakan":
        v["which"] = C.choose(2) if v["five"] else 0
        v["args"] = ["tile", "which"]
    elif kind == "minkan":
        v["which"] = C.choose(2) if v["five"] else 1
        v["who"] = var("who", 1, 3)
        v["args"] = ["tile", "who", "which"]
    else:
        v["args"] = ["tile"]
    return v


def c03(c):
    cd = Codec(c)
    c.explain("Every from_*_info constructor is interpreted over symbolic arguments (all valid melds) and its result "
              "decoded again by the interpreted decoder; the decoded description must equal the arguments.")
    for kind in KINDS:
        rule = "roundtrip-" + kind

        def body(kind=kind, rule=rule):
            v = info(kind)
            desc = lambda: "from_%s_info(%s)" % (kind, ", ".join("%s=%r" % (a, v[a]) for a in v["args"]))
            ok, o = guarded(c, rule, "constructor:" + kind,
                            lambda: cd.con("from_%s_info" % kind, *[v[a] for a in v["args"]]), desc)
            if not ok:
                return
            for k in KINDS:
                t = cd.kind_truth(o, k)
                c.ob(rule, t == (k == kind), "kind:%s/%s" % (kind, k), lambda: "%s: is_%s is %s" % (desc(), k, t))
            # the code must survive normalisation unchanged
            ok, o2 = guarded(c, rule, "reparse:" + kind,
                             lambda: cd.make(cd.I.getattr_(o, "naki_code")), desc)
            if not ok:
                return
            ok, p = guarded(c, rule, "pattern:" + kind, lambda: cd.meth(o, "pattern_" + kind), desc)
            if not ok:
                return
            p = list(cd.I.iter_items(p))
            c.ob(rule, eqv(p[0], v["color"]), "color:" + kind, lambda: "%s: colour %r" % (desc(), p[0]))
            c.ob(rule, eqv(p[1], v["number"]), "number:" + kind, lambda: "%s: number %r" % (desc(), p[1]))
            tiles = list(cd.I.iter_items(p[4])) + ([p[5]] if p[5] is not None else [])
            red_id = add(scale(v["color"], 36), 16)

            def has_red(ts):
                return any(cd.I.truth(C.mk_eq(add(t, red_id, -1))) for t in ts) \
                    and not cd.I.truth(C.mk_eq(add(v["color"], -3)))
            if kind == "chi":
                c.ob(rule, eqv(p[2], v["which"]), "which:chi", lambda: "%s: position %r" % (desc(), p[2]))
                c.ob(rule, eqv(C.floordiv(p[5], 4), add(add(scale(v["color"], 9), v["number"]), v["which"])),
                     "called:chi", lambda: "%s: called tile %r" % (desc(), p[5]))
                c.ob(rule, cd.I.truth(p[3]) == v["red"] and has_red(tiles) == v["red"], "red:chi",
                     lambda: "%s: red flag %r tiles %r" % (desc(), p[3], tiles))
            elif kind == "pon":
                c.ob(rule, eqv(cd.meth(o, "from_who"), v["who"]), "who:pon", desc)
                c.ob(rule, cd.I.truth(p[3]) == v["red"] and has_red(tiles) == v["red"], "red:pon",
                     lambda: "%s: red flag %r tiles %r" % (desc(), p[3], tiles))
                c.ob(rule, (has_red([p[5]])) == (v["red"] and v["which"] == 0), "red-called:pon",
                     lambda: "%s: called tile %r" % (desc(), p[5]))
            elif kind == "kakan":
                c.ob(rule, has_red(tiles) == (v["five"] and v["which"] == 0), "red-added:kakan",
                     lambda: "%s: added tile %r" % (desc(), tiles))
            elif kind == "minkan":
                c.ob(rule, eqv(cd.meth(o, "from_who"), v["who"]), "who:minkan", desc)
                c.ob(rule, has_red([p[5]]) == (v["five"] and v["which"] == 0), "red-called:minkan",
                     lambda: "%s: called tile %r" % (desc(), p[5]))
                c.ob(rule, len(tiles) == 4, "tiles:minkan", desc)
            else:
                c.ob(rule, len(tiles) == 4, "tiles:ankan", desc)
            for t in tiles:
                lo = scale(v["tile"], 4) if kind != "chi" else None
                if lo is not None:
                    d = C.norm(add(t, lo, -1))
                    b = C.bounds(d)
                    c.ob(rule, b[0] >= 0 and b[1] <= 3, "tile-kind:" + kind,
                         lambda: "%s: tile %r is of another kind" % (desc(), t))
            c.ob(rule, eqv(cd.I.getattr_(o2, "convenient_naki_code"), cd.I.getattr_(o, "naki_code")),
                 "fixpoint:" + kind, lambda: "%s: re-reading the constructed code normalises it to %r, not %r" % (
                     desc(), cd.I.getattr_(o2, "convenient_naki_code"), cd.I.getattr_(o, "naki_code")))
            c.sample(rule, desc())
        c.explore(cd.I, body)
        c.require(rule, 5)


def canonical_args(kind, f):
    exp, acq, red = expected(kind, f)
    if kind == "chi":
        return [f["color"], f["number"], f["which"], red]
    five = C.truth(C.mk_eq(add(f["number"], -4))) and not C.truth(C.mk_eq(add(f["color"], -3)))
    red_id = add(scale(f["color"], 36), 16)

    def is_red(t):
        return C.truth(C.mk_eq(add(t, red_id, -1)))
    if kind == "pon":
        w = 0
        if red and not is_red(acq):
            w = 1
        return [f["tile"], w, red, f["who"]]
    if kind == "kakan":
        return [f["tile"], 1 if five and not is_red(exp[0]) else 0]
    if kind == "minkan":
        return [f["tile"], f["who"], 0 if five and is_red(acq) else 1]
    return [f["tile"]]


def c04(c):
    cd = Codec(c)
    c.explain("For every raw code family the interpreted normalisation is compared, as affine forms, with the code the "
              "interpreted constructor yields for the same meld description (physical tile copies abstracted).")
    for kind in KINDS:
        rule = "canonical-" + kind

        def body(kind=kind, rule=rule):
            f = fields(kind)
            desc = lambda: describe(kind, f)
            ok, o = guarded(c, rule, "constructor:" + kind, lambda: cd.make(f["code"]), desc)
            if not ok:
                return
            got = cd.I.getattr_(o, "convenient_naki_code")
            args = canonical_args(kind, f)
            ok, ref = guarded(c, rule, "reference:" + kind, lambda: cd.con("from_%s_info" % kind, *args), desc)
            if not ok:
                return
            want = cd.I.getattr_(ref, "convenient_naki_code")
            c.ob(rule, eqv(got, want), "normalised:" + kind,
                 lambda: "%s: canonical code %r, constructor gives %r" % (desc(), got, want))
            c.ob(rule, eqv(cd.I.getattr_(o, "naki_code"), f["code"]), "raw-kept:" + kind,
                 lambda: "%s: raw code became %r" % (desc(), cd.I.getattr_(o, "naki_code")))
            c.sample(rule, desc())
        c.explore(cd.I, body)
        c.require(rule, 2)


def value_set(x):
    """All values of an affine form over the current ranges."""
    x = C.norm(x)
    c0, d = parts(x)
    vals = {c0}
    for v, k in d.items():
        r = C.range_of(v)
        if not isinstance(r, frozenset):
            raise Unsupported("unbounded index %r" % (x,))
        vals = {a + k * b for a in vals for b in r}
    return vals


def meld_class(kind, f):
    """The kind of call a player chooses: everything but physical copies and seat."""
    exp, acq, red = expected(kind, f)
    C.concretize(f["color"])
    C.concretize(f["number"])
    col, num = C.norm(f["color"]), C.norm(f["number"])
    red_id = 36 * col + 16
    if kind == "chi":
        w = C.concretize(f["which"])
        inhand = any(C.truth(C.mk_eq(add(t, -red_id))) for t in exp)
        return ("chi", col, num, w, inhand)
    if kind == "pon":
        inhand = col < 3 and num == 4 and any(C.truth(C.mk_eq(add(t, -red_id))) for t in exp)
        return ("pon", 9 * col + num, inhand)
    return (kind, 9 * col + num)


def c05(c):
    cd = Codec(c)
    c.explain("The action index of every meld (raw and constructed) is interpreted to an affine form per partition; it "
              "must be a constant of the semantic class, lie inside the filter vector and collide with no other "
              "class nor with the reserved pass/win/riichi slots.")
    dec = cd.I.load("MahjongAI.utils.constants").vars
    reserved = {v for k, v in dec.items() if k.startswith("DECISION_") and isinstance(v, int)}
    tables = {"during": {}, "post": {}}
    sizes = {"during": 71, "post": 154}
    for kind in KINDS:
        tab = "during" if kind in ("kakan", "ankan") else "post"
        meth = "get_%s_turn_filter_idx" % tab
        rule = "index-" + kind

        def put(cls, idx, desc):
            idx = C.norm(idx)
            if isinstance(idx, Lin) or not isinstance(idx, int):
                c.fail(rule, "depends:" + kind, "%s: index %r is not a function of the call offered" % (desc(), idx))
                return
            c.ob(rule, 0 <= idx < sizes[tab], "range:%s" % kind,
                 lambda: "%s: index %d outside [0,%d)" % (desc(), idx, sizes[tab]))
            lim = {0, 1, 2} if tab == "during" else {0, 1}
            c.ob(rule, idx not in lim, "reserved:%s" % kind,
                 lambda: "%s: index %d is a reserved slot" % (desc(), idx))
            t = tables[tab]
            for k2, i2 in t.items():
                if k2 == cls:
                    c.ob(rule, i2 == idx, "copies:%s" % kind,
                         lambda: "%s: index %d, another copy/seat of the same call has %d" % (desc(), idx, i2))
                elif i2 == idx:
                    c.fail(rule, "collision:%s" % "/".join(sorted({k2[0], cls[0]})),
                           "%s: index %d already means %r" % (desc(), idx, k2))
            t.setdefault(cls, idx)

        def raw(kind=kind):
            f = fields(kind)
            cls = meld_class(kind, f)
            ok, o = guarded(c, rule, "constructor:" + kind, lambda: cd.make(f["code"]), lambda: describe(kind, f))
            if not ok:
                return
            ok, idx = guarded(c, rule, "index:" + kind, lambda: cd.meth(o, meth), lambda: describe(kind, f))
            if ok:
                put(cls, idx, lambda: describe(kind, f))

        def built(kind=kind):
            v = info(kind)
            C.concretize(v["color"])
            C.concretize(v["number"])
            col, num = C.norm(v["color"]), C.norm(v["number"])
            desc = lambda: "from_%s_info(%s)" % (kind, ", ".join("%s=%r" % (a, C.norm(v[a]) if isinstance(
                v[a], Lin) else v[a]) for a in v["args"]))
            if kind == "chi":
                w = C.concretize(v["which"])
                cls = ("chi", col, num, w, v["red"] and num + w != 4)
            elif kind == "pon":
                cls = ("pon", 9 * col + num, v["red"] and v["which"] == 1)
            else:
                cls = (kind, 9 * col + num)
            ok, idx = guarded(c, rule, "index-built:" + kind, lambda: cd.meth(
                cd.con("from_%s_info" % kind, *[v[a] for a in v["args"]]), meth), desc)
            if ok:
                put(cls, idx, desc)
        c.explore(cd.I, raw)
        c.explore(cd.I, built)
        c.require(rule, 34)
        c.extra["index_classes_" + kind] = sum(1 for k in tables[tab] if k[0] == kind)
