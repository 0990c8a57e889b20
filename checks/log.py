"""Properties of the log reader (process_xml.process)."""
from sa.dom import C, Lin, Term, Cond, Var, add, scale, var, Infeasible, Unsupported
from sa.objs import *
from sa import arr
from .base import Broken, fork_explore, parallel
from .rounds import Round, Track, Meld, plain, red, show
from . import rounds

SUITS = range(27)
HON = [4 * k + r for r in (1, 2, 3) for k in range(27, 34)]


def tile(label, v):
    return red(label) if v == "red" else plain(label, SUITS)


def rest(start, n, h):
    """n draws and tsumogiri discards of distinct honours by successive players."""
    out = []
    for i in range(n):
        t = h.pop(0)
        out += [("T", (start + i) % 4, t), ("D", (start + i) % 4, t)]
    return out


def chi(v, q):
    """345 in a symbolic suit or any run; the red five among the exposed or as the called tile."""
    c = C.freshvar("suit", 0, 2)
    b = lambda n, r: add(scale(c, 36), 4 * n + r)
    if v == "redex":
        return Meld("chi", add(scale(c, 9), 2), [b(3, 1), b(4, 0)], b(2, 2), 3, 2, 0, True, 1005)
    if v == "redcall":
        return Meld("chi", add(scale(c, 9), 3), [b(3, 1), b(5, 1)], b(4, 0), 3, 3, 1, True, 1006)
    if v == "low":
        return Meld("chi", add(scale(c, 9), 0), [b(0, 1), b(1, 2)], b(2, 2), 3, 0, 2, False, 1003)
    return Meld("chi", add(scale(c, 9), 5), [b(6, 1), b(7, 2)], b(5, 2), 3, 5, 0, False, 1004)


def same(kind, v, src, ident, n):
    """Pon or kan of a symbolic tile kind."""
    if v == "red":
        k = add(scale(C.freshvar("suit", 0, 2), 9), 4)
        t = [add(scale(k, 4), r) for r in (0, 1, 2, 3)]
    elif v == "redcall":
        k = add(scale(C.freshvar("suit", 0, 2), 9), 4)
        t = [add(scale(k, 4), r) for r in (1, 2, 3, 0)]
        if kind == "pon":
            t = [t[0], t[1], t[3]]
    else:
        k = add(scale(C.freshvar("suit", 0, 2), 9), C.freshvar("num", vals=[0, 1, 2, 3, 5, 6, 7, 8]))
        t = [add(scale(k, 4), r) for r in (1, 2, 3, 0)]
    t = t[:n]
    if kind == "ankan":
        return Meld(kind, k, t, None, 0, 0, 0, v == "red", ident)
    return Meld(kind, k, t[:-1], t[-1], src, 0, 0, v in ("red", "redcall"), ident)


def kakan(pon, v, src):
    k = pon.tile
    if v == "red":          # the red five is the added tile
        t = scale(k, 4)
    else:
        t = add(scale(k, 4), 3) if pon.red else scale(k, 4)
    return Meld("kakan", k, [t], None, src, 0, 0, v == "red" or pon.red, 1030)


def scripts(P, name, a, v):
    h = list(HON)
    n1, n2, n3 = [(a + i) % 4 for i in (1, 2, 3)]
    if name == "draw":
        x = tile("x", v)
        t = h.pop(0)
        return rest(a, 1, h) + [("T", n1, x), ("D", n1, t)] + rest(n2, 4, h)
    if name == "discard":
        x = tile("x", v)
        t = h.pop(0)
        return rest(a, 1, h) + [("T", n1, t), ("D", n1, x)] + rest(n2, 4, h)
    if name == "tsumogiri":
        x = tile("x", v)
        return rest(a, 1, h) + [("T", n1, x), ("D", n1, x)] + rest(n2, 4, h)
    if name == "same-kind":         # another copy of the drawn kind leaves the hand
        k = add(scale(C.freshvar("suit", 0, 2), 9), 4 if v else C.freshvar("num", vals=[0, 1, 2, 3, 5, 6, 7, 8]))
        x, y = {"": (1, 2), "red": (1, 0), "drawn-red": (0, 1)}[v]
        return rest(a, 1, h) + [("T", n1, add(scale(k, 4), x)), ("D", n1, add(scale(k, 4), y))] + rest(n2, 4, h)
    if name == "dora":
        x = tile("x", v)
        return rest(a, 2, h) + [("dora", x)] + rest(n2, 5, h)
    if name == "chi":
        m = chi(v, n1)
        t, u = h.pop(0), h.pop(0)
        return rest(n1, 3, h) + [("T", a, t), ("D", a, m.called), ("N", n1, m), ("D", n1, u)] + rest(n2, 4, h)
    if name.startswith("pon") or name.startswith("minkan"):
        kan = name.startswith("minkan")
        off = int(name[-1])
        q = (a + off) % 4
        src = (a - q) % 4
        m = same("minkan" if kan else "pon", v, src, 1020 if kan else 1010, 4 if kan else 3)
        t, u = h.pop(0), h.pop(0)
        s = rest(n1, 3, h) + [("T", a, t), ("D", a, m.called), ("N", q, m)]
        if kan:
            t = h.pop(0)
            s += [("T", q, t), ("D", q, u), ("dora", h.pop(0))]
        else:
            s += [("D", q, u)]
        return s + rest((q + 1) % 4, 5, h)
    if name == "ankan":
        m = same("ankan", v, 0, 1040, 4)
        t, u = h.pop(0), h.pop(0)
        return rest(n1, 3, h) + [("T", a, t), ("N", a, m), ("dora", h.pop(0)), ("T", a, u), ("D", a, u)] + \
            rest(n1, 5, h)
    if name == "kakan":
        src = 3
        m = same("pon", "redcall" if v == "redpon" else "", src, 1010, 3)
        if v == "red":
            k = add(scale(C.freshvar("suit", 0, 2), 9), 4)
            t = [add(scale(k, 4), r) for r in (1, 2, 3)]
            m = Meld("pon", k, t[:2], t[2], src, 0, 0, False, 1010)
        kk = kakan(m, v, src)
        t, u, w = h.pop(0), h.pop(0), h.pop(0)
        return rest(n2, 2, h) + [("T", a, t), ("D", a, m.called), ("N", n1, m), ("D", n1, u)] + rest(n2, 3, h) + \
            [("T", n1, w), ("N", n1, kk), ("T", n1, h.pop(0)), ("D", n1, w), ("dora", h.pop(0))] + rest(n2, 5, h)
    if name == "riichi":
        t, u = h.pop(0), h.pop(0)
        return rest(n1, 3, h) + [("T", a, t), ("R", a, 1), ("D", a, u), ("R", a, 2)] + rest(n1, 6, h)
    if name == "ippatsu-call":      # a call ends everybody's chance
        t, u, w = h.pop(0), h.pop(0), h.pop(0)
        m = same("pon", "", 3, 1010, 3)
        return rest(n1, 3, h) + [("T", a, t), ("R", a, 1), ("D", a, u), ("R", a, 2), ("T", n1, w), ("D", n1, m.called),
                                 ("N", n2, m), ("D", n2, w)] + rest(n3, 3, h)
    if name == "two-riichi":
        t, u = h.pop(0), h.pop(0)
        w, x = h.pop(0), h.pop(0)
        return rest(n1, 3, h) + [("T", a, t), ("R", a, 1), ("D", a, u), ("R", a, 2),
                                 ("T", n1, w), ("R", n1, 1), ("D", n1, x), ("R", n1, 2)] + rest(n2, 5, h)
    if name == "riichi-ankan":
        t, u, w = h.pop(0), h.pop(0), h.pop(0)
        m = same("ankan", "", 0, 1040, 4)
        if v == "own":
            return rest(n1, 3, h) + [("T", a, t), ("R", a, 1), ("D", a, u), ("R", a, 2)] + rest(n1, 3, h) + \
                [("T", a, w), ("N", a, m), ("T", a, h[0]), ("D", a, h.pop(0))] + rest(n1, 5, h)
        return rest(n1, 3, h) + [("T", a, t), ("R", a, 1), ("D", a, u), ("R", a, 2), ("T", n1, w), ("N", n1, m),
                                 ("T", n1, h.pop(0)), ("D", n1, w)] + rest(n2, 4, h)
    if name == "kan-end":           # the round stops at a replacement draw
        t = h.pop(0)
        s = rest(n1, 3, h) + [("T", a, t)]
        if v == "ankan":
            return s + [("N", a, same("ankan", "", 0, 1040, 4)), ("T", a, h.pop(0))]
        m = same("minkan", "", 2, 1020, 4)
        return s + [("D", a, m.called), ("N", n2, m), ("T", n2, h.pop(0)), ("D", n2, h.pop(0))]
    if name == "two-melds":         # two pons, the second one extended later
        m = same("pon", "", 3, 1010, 3)
        k = 33
        if v == "first":
            m, w = Meld("pon", k, [add(scale(k, 4), r) for r in (1, 2)], add(scale(k, 4), 3), 3, 0, 0, False, 1010), m
            w = Meld("pon", w.tile, w.exposed, w.called, 2, 0, 0, False, 1012)
            kk = kakan(m, "", 3)
        else:
            w = Meld("pon", k, [add(scale(k, 4), r) for r in (1, 2)], add(scale(k, 4), 3), 2, 0, 0, False, 1012)
            kk = kakan(w, "", 2)
        h = [x for x in h if x < 4 * 33]
        d = lambda p: [("T", p, h[0]), ("D", p, h.pop(0))]
        return [("T", a, h.pop(0)), ("D", a, m.called), ("N", n1, m), ("D", n1, h.pop(0)), ("T", n2, h.pop(0)),
                ("D", n2, h.pop(0)), ("T", n3, h.pop(0)), ("D", n3, w.called), ("N", n1, w), ("D", n1, h.pop(0))] + \
            d(n2) + d(n3) + d(a) + [("T", n1, h.pop(0)), ("N", n1, kk), ("T", n1, h.pop(0)), ("D", n1, h.pop(0)),
                                    ("dora", h.pop(0))] + d(n2)
    raise KeyError(name)


ALL = [("draw", ""), ("draw", "red"), ("discard", ""), ("discard", "red"), ("tsumogiri", ""), ("tsumogiri", "red"),
       ("same-kind", ""), ("same-kind", "red"), ("same-kind", "drawn-red"), ("dora", ""), ("dora", "red"), ("chi", "redex"), ("chi", "redcall"), ("chi", "low"), ("chi", "high"),
       ("pon1", ""), ("pon2", "red"), ("pon3", "redcall"), ("pon2", ""), ("pon3", ""),
       ("minkan1", "red"), ("minkan2", ""), ("minkan3", "redcall"), ("ankan", ""), ("ankan", "red"),
       ("kakan", ""), ("kakan", "red"), ("kakan", "redpon"), ("riichi", ""), ("ippatsu-call", ""),
       ("two-riichi", ""), ("riichi-ankan", ""), ("riichi-ankan", "own"),
       ("two-melds", ""), ("two-melds", "first"), ("kan-end", ""), ("kan-end", "ankan")]


def play_all(c, items, judge, setup=None, history="TD", pre=None):
    """judge(P, c, rec, name) on every partition of every script; items are (script, variant, seat)."""
    def one(cc, it):
        name, v, a = it
        P = Round(cc)
        P.sh = 3
        if setup is not None:
            setup(P, it)

        def body():
            if pre is None:
                rec = P.play(scripts(P, name, a, v), history)
            else:
                els = pre(P)
                rec = P.play(scripts(P, name, a, v), history, init=P.INIT(1), pre=els)
            label = "%s%s" % (name, "/" + v if v else "")
            if rec.exc is not None:
                x = rec.exc.exc
                if x.cls.name == "AssertionError":
                    return
                cc.fail("a well-formed log is processed", "%s: %s at %s" % (label, x.cls.name, rec.exc.loc),
                        "%s raised by the script '%s': %r" % (x.cls.name, label, x.attrs.get("args")))
                return
            cc.ok("a well-formed log is processed")
            judge(P, cc, rec, label)
        fork_explore(cc, P.I, body, 3)
    parallel(c, one, items, 4)
    names = sorted({i[0] for i in items})
    c.extra["event_scripts"] = ["%s%s seat %d" % (n, "/" + v if v else "", a) for n, v, a in items]
    c.explain("process_xml.process is interpreted on an abstract log: a deal of unknown hands, any number of draws "
              "and discards (loop fixpoint), then a script of events with symbolic tiles (%s)." % ", ".join(names))
    c.assumes("the log is well formed: asserts of process() hold, and the codec, call generator and win evaluation "
              "meet their own contracts (C01-C06, C20)")


def seats(c, lst):
    """Quick: one seat per script, rotating; thorough: all four."""
    if c.tier == "thorough":
        return [(n, v, a) for n, v in lst for a in range(4)]
    return [(n, v, i % 4) for i, (n, v) in enumerate(lst)]


def lined_up(c, rec, name):
    if rec.aligned:
        return True
    c.fail("every event yields its half-turns", name, "recorded %s, expected %s" % (
        [x.cls.name if isinstance(x, OInst) else "..." for x in rec.h],
        ["%s(event %d, %s)" % (k, i + 1, show(rec.script[i])) for i, k in rec.want_h]))
    return False


def tracked(rules):
    def judge(P, c, rec, name):
        if not lined_up(c, rec, name):
            return
        if not rec.ev_ok or not rec.ca_ok:
            raise Broken("evaluations of script %s do not line up with its events" % name)
        Track(P, c, rec, name, rules).walk()
    return judge


def check_tiles(c):
    r = {"hand": "concealed hand follows draws, discards and melds",
         "wall": "unseen tiles follow the draws and indicators",
         "pov": "each player's unseen tiles follow what that player has seen",
         "river": "discards are marked in the discarder's river"}
    play_all(c, seats(c, [("draw", ""), ("draw", "red"), ("discard", ""), ("discard", "red"), ("tsumogiri", "red"),
                          ("dora", ""), ("dora", "red"), ("chi", "redex"), ("chi", "redcall"), ("pon1", ""),
                          ("pon2", "red"), ("pon3", "redcall"), ("minkan1", "red"), ("minkan3", "redcall"),
                          ("ankan", "red"), ("kakan", "redpon"), ("kakan", "red"), ("ankan", ""),
                          ("two-melds", ""), ("two-melds", "first")]), tracked(r))
    base_case(c, r, [("", 1), ("redind", 2)])
    for x in r.values():
        c.require(x, 100)


def check_left(c):
    r = {"left": "the remaining draws drop by one per draw and by nothing else"}
    play_all(c, seats(c, [("draw", ""), ("discard", ""), ("dora", ""), ("chi", "low"), ("pon1", ""), ("minkan2", ""),
                          ("ankan", ""), ("kakan", ""), ("riichi", "")]), tracked(r))

    def low(P, it):
        P.min_left = 0
    play_all(c, [("draw", "", 1), ("minkan2", "", 2), ("ankan", "", 3)], tracked(r), setup=low)
    base_case(c, r)
    for x in r.values():
        c.require(x, 100)


def check_flags(c):
    r = {"flags": "riichi, ippatsu, closed-hand flags follow the events",
         "money": "scores and riichi sticks follow the accepted riichi"}
    play_all(c, seats(c, [("riichi", ""), ("two-riichi", ""), ("ippatsu-call", ""), ("riichi-ankan", ""),
                          ("riichi-ankan", "own"),
                          ("chi", "low"), ("pon1", ""), ("minkan2", ""), ("ankan", ""), ("kakan", ""), ("dora", ""),
                          ("draw", "")]), tracked(r))
    base_case(c, r, [("", 1), ("poor", 3)])
    for x in r.values():
        c.require(x, 100)


# ------------------------------------------------------------------ the deal
def deal(P, v, a, tag=0):
    """A deal with known hands except one symbolic tile per variant, and a symbolic indicator."""
    hands = []
    for p in range(4):
        hands.append([4 * k + p for k in range(27, 34)] + [4 * k + p for k in (0, 9, 18, 8, 17)])
    sp = lambda d: add(scale(add(scale(C.freshvar("ds%d" % d, 0, 2), 9),
                                 C.freshvar("dn%d" % d, *((2, 3) if d == 0 else (5, 6)))), 4), 1)
    hands[a].append(red("dealt") if v == "red" else sp(0))
    hands[(a + 1) % 4].append(4 * 7 + 2)
    hands[(a + 2) % 4].append(4 * 16 + 2)
    hands[(a + 3) % 4].append(4 * 25 + 1)
    ind = red("ind") if v == "redind" else 4 * 25 + 2 if v == "red" else add(sp(1), 1)
    return P.INIT(tag, ind, hands), hands, ind


def prime(P, tr, hands, ind):
    """The values every tracked quantity has right after the deal."""
    def count(tiles, base):
        ks = [k for t in tiles for k in rounds.kinds(t)]

        def f(key):
            n = base(key)
            for k in ks:
                c = arr.keys_equal(key, (k,))
                if c is True or (c is not False and C.truth(c)):
                    n += 1 if base is zero else -1
                    key = (k,)          # equal: continue with the more specific form
            return n
        return ("arr", f, (37,))
    zero = lambda key: 0

    def full(key):
        return 4 if C.truth(C.mk_ge(add(33, key[0], -1))) else 1
    L = tr.last
    for p in range(4):
        L[("hand", p)] = count(hands[p], zero)
        L[("full", p)] = count(hands[p], zero)
        L[("pov", p)] = count(hands[p] + [ind], full)
        L[("melds", p)] = []
    L[("wall",)] = count([t for h in hands for t in h] + [ind], full)
    L[("river",)] = ("arr", lambda key: 0, (4, 37))
    L[("left",)] = 70
    for q in ("reaches", "double", "ippatsu"):
        L[(q,)] = [0] * 4
    L[("menzen",)] = [1] * 4
    i = P.init
    L[("scores",)] = list(i["ten"])
    L[("sticks",)] = i["kyotaku"]
    L[("honba",)] = i["honba"]
    L[("doras",)] = [ind]
    L[("parent",)] = ("arr", lambda key: 1 if C.truth(C.mk_eq(add(key[0], i["oya"], -1))) else 0, (4,))
    left = add(8, i["kyoku"], -1)
    L[("rounds_remaining",)] = left
    L[("parent_rounds_remaining",)] = [C.floordiv(add(left, k), 4) for k in range(4)]


DEAL_RULES = {k: "the first state of a round is the deal" for k in
              "hand wall pov river left flags money fixed doras melds who efull emelds eriver edoras eflags emoney".split()}


def first_turns(a, k):
    h = [4 * x + r for x, r in ((1, 1), (1, 2), (10, 1), (10, 2), (19, 1))]
    return rest(a, k, h) + [("T", (a + k) % 4, h.pop(0))]


def opening(P, cc, v, a, pre_of, rule):
    pre = pre_of(P) if pre_of else []
    init, hands, ind = deal(P, v, a, 1)
    rec = P.play(first_turns(a, 2 if pre_of else 4 if v == "" else 3), None, init=init, pre=pre)
    return rec, hands, ind


def run_opening(c, items, pre_of, rule, only=None):
    def one(cc, it):
        v, a = it
        P = Round(cc)
        P.sh = 3
        if v == "poor":
            P.min_ten, P.max_ten = -500, 9

        def body():
            rec, hands, ind = opening(P, cc, v, a, pre_of, rule)
            if rec.exc is not None:
                if rec.exc.exc.cls.name != "AssertionError":
                    cc.fail("a well-formed log is processed", "deal%s: %s at %s" % (v, rec.exc.exc.cls.name, rec.exc.loc),
                            "%r" % (rec.exc.exc.attrs.get("args"),))
                return
            if not lined_up(cc, rec, "deal" + v):
                return
            if not rec.ev_ok or not rec.ca_ok:
                raise Broken("evaluations of the opening do not line up with its events")
            cc.ob("one list of half-turns and tokens per round", rec.nrounds == ((2, 2) if pre_of else (1, 1)),
                  "process", "a log of %d rounds gave %r lists" % (2 if pre_of else 1, rec.nrounds))
            tr = Track(P, cc, rec, "deal", only or {k: rule for k in DEAL_RULES})
            prime(P, tr, hands, ind)
            tr.walk()
            if only:
                return
            for (i, k), x in sorted(rec.turns.items()):
                want = sum(1 for e in rec.script[:i + (k == "PostTurn")] if e[0] == "D")
                cc.ob("token counts restart with the round", C.must_equal(x.attrs["encoding_idx"], want),
                      "%s at event %d" % (k, i + 1), "encoding_idx %r, expected %d" % (x.attrs["encoding_idx"], want))
        fork_explore(cc, P.I, body, 3)
    parallel(c, one, items, 4)
    if not only:
        c.require(rule, 100)


def base_case(c, rules, items=(("", 1),)):
    """The tracked quantities start from the deal."""
    run_opening(c, list(items), None, None, rules)


def check_deal(c):
    """First states after INIT."""
    run_opening(c, [(v, a) for v in ("", "red", "redind", "poor") for a in ((0, 2) if c.tier == "quick" else range(4))],
                None, "the first states of a round are the deal and the first draws")
    c.explain("process is interpreted on INIT with one symbolic tile per hand, symbolic indicator, scores, sticks, "
              "honba and round number; every field of the first states is compared with the deal.")


def earlier_round(P):
    """A round with riichi and a call that ends in a win."""
    h = list(HON)
    m = same("pon", "", 3, 1010, 3)
    s = [("T", 0, h.pop(0)), ("R", 0, 1), ("D", 0, h.pop(0)), ("R", 0, 2), ("T", 1, h.pop(0)),
         ("D", 1, m.called), ("N", 2, m), ("D", 2, h.pop(0)), ("T", 3, h.pop(0))]
    els = [P.INIT(0)]
    for e in s:
        els.append({"T": lambda: P.T(e[1], e[2]), "D": lambda: P.D(e[1], e[2]), "N": lambda: P.N(e[1], e[2]),
                    "R": lambda: P.REACH(e[1], e[2])}[e[0]]())
    P.script_melds = [m]
    return els + [P.AGARI(3, 3)]


def check_isolation(c):
    """Second round of a game."""
    def pre_k(P):
        h = list(HON)
        m = same("ankan", "", 0, 1040, 4)
        els = [P.INIT(0), P.T(2, h.pop(0)), P.N(2, m), P.DORA(h.pop(0)), P.RYUU()]
        P.script_melds = [m]
        return els
    run_opening(c, [("", 0), ("", 1), ("", 2), ("", 3)], earlier_round, "the next round starts from its own deal")
    run_opening(c, [("", 2)], pre_k, "the next round starts from its own deal")
    c.explain("A round with riichi, a call, a kan and an indicator, ended by a win or a draw, is followed by a second "
              "round; every field of the second round's first states is compared with its own INIT.")


# ------------------------------------------------------------------ tokens
def const(P, cls, name):
    m = P.I.load("MahjongAI.utils.constants")
    k = m.vars.get(cls)
    if k is None or name not in k.attrs:
        raise Broken("anchor MahjongAI.utils.constants.%s.%s not found" % (cls, name))
    return k.attrs[name]


def token(P, rec, i):
    """The event token the i-th event must produce (None: it produces none)."""
    e = rec.script[i]
    st = lambda n: const(P, "EventStateTypes", n) << 13
    ev = lambda n: const(P, "EventTypes", n) << 10
    if e[0] == "D":
        drawn = None
        for f in rec.script[i - 1::-1] if i else []:
            if f[0] == "R":
                continue
            if f[0] == "T":
                drawn = f[2]
            break
        giri = 0
        if drawn is not None:
            d = add(e[2], drawn, -1)
            giri = 1 if C.truth(C.mk_eq(d)) else 0
        return add(st("DISCARD") | ev("DISCARD") | e[1] << 8 | giri << 7, rounds.kinds(e[2])[0])
    if e[0] == "N":
        m = e[2]
        s = "DURING" if m.kind in ("ankan", "kakan") else "POST"
        return st(s) | ev("NAKI") | e[1] << 8 | (40 + m.ident - 1000)
    if e[0] == "R" and e[2] == 2:
        return st("DURING") | ev("RIICHI") | e[1] << 8 | 2
    if e[0] == "dora":
        return add(st("NEW_DORA") | ev("NEW_DORA"), rounds.kinds(e[1])[0])
    return None


def judge_tokens(P, cc, rec, name):
    rule = "one token per visible event, in order, with the event's fields"
    hist = rec.tpre
    n = len(rec.want_t)
    if len(rec.t) != n:
        cc.fail(rule, name, "%d tokens recorded for %d visible events" % (len(rec.t), n))
        return
    for t, i in zip(rec.t, rec.want_t):
        e = rec.script[i]
        where = "%s: event %d (%s)" % (name, i + 1, show(e))
        if isinstance(t, Seg):
            cc.fail(rule, where, "no token recorded")
            return

        def one():
            w = token(P, rec, i)
            d = add(t, w, -1) if isinstance(t, (int, Lin)) else None
            d = C.norm(d) if isinstance(d, Lin) else d
            if isinstance(d, Lin) and C.truth(C.mk_eq(d)):
                d = 0
            cc.ob(rule, d == 0, where, lambda: "token %r, expected %r" % (t, w))
        C.explore(one)
    # nothing but event tokens may come from the unknown part
    for t in hist:
        if not isinstance(t, (Seg, int, Lin)):
            cc.fail(rule, name, "the token list holds %r" % (t,))


TOKEN_SCRIPTS = [("same-kind", ""), ("same-kind", "red"), ("same-kind", "drawn-red"),
                 ("draw", ""), ("discard", ""), ("discard", "red"), ("tsumogiri", ""), ("tsumogiri", "red"),
                 ("dora", ""), ("dora", "red"), ("chi", "redex"), ("chi", "low"), ("pon1", ""), ("pon2", "red"),
                 ("pon3", ""), ("minkan1", "red"), ("minkan2", ""), ("minkan3", "redcall"), ("ankan", ""), ("kakan", ""),
                 ("riichi", ""), ("two-riichi", ""), ("riichi-ankan", "")]


def check_tokens(c):
    play_all(c, seats(c, TOKEN_SCRIPTS), judge_tokens)
    # exactly: short rounds without an unknown part
    play_all(c, [("tsumogiri", "", 0), ("riichi", "", 1), ("dora", "", 2), ("minkan2", "", 3), ("chi", "low", 0)],
             judge_tokens, history=None)
    play_all(c, [("tsumogiri", "", 1)], judge_tokens, history=None, pre=earlier_round)
    c.require("one token per visible event, in order, with the event's fields", 500)


def judge_prefix(P, cc, rec, name):
    rule = "a half-turn's token count is the number of events before it"
    if not lined_up(cc, rec, name):
        return
    for (i, k), x in rec.turns.items():
        after = sum(1 for j in rec.want_t if j > i or (j == i and k == "DiscardTurn"))
        if k == "PostTurn" and rec.script[i][0] == "N":
            after = sum(1 for j in rec.want_t if j > i)
        known = not any(isinstance(t, Seg) for t in rec.allt)
        want = add(len(rec.want_t) if known else rec.ntok, after, -1)
        got = x.attrs.get("encoding_idx")
        d = add(got, want, -1) if isinstance(got, (int, Lin)) else None
        if isinstance(d, Lin):
            d = C.norm(d)
        if isinstance(d, Lin):
            raise Unsupported("encoding_idx %r against %r" % (got, want))
        cc.ob(rule, d == 0, "%s: %s at event %d (%s)" % (name, k, i + 1, show(rec.script[i])),
              lambda: "encoding_idx %r with %r tokens recorded by then" % (got, want))


def check_prefix(c):
    l = [("draw", ""), ("dora", ""), ("chi", "low"), ("pon2", ""), ("minkan2", ""), ("minkan1", ""), ("ankan", ""),
         ("kakan", ""), ("riichi", ""), ("two-riichi", ""), ("riichi-ankan", "")]
    play_all(c, seats(c, l), judge_prefix)
    play_all(c, [("riichi", "", 0), ("kakan", "", 1), ("ankan", "", 2)], judge_prefix, history=None)
    play_all(c, [("tsumogiri", "", 3)], judge_prefix, history=None, pre=earlier_round)
    c.require("a half-turn's token count is the number of events before it", 500)


# ------------------------------------------------------------------ half-turns
def judge_turns(P, cc, rec, name):
    rule = "the half-turns are exactly the decisions of the round, in order"
    want = ["%s(event %d, %s)" % (k, i + 1, show(rec.script[i])) for i, k in rec.want_h]
    if not cc.ob(rule, rec.aligned, name, lambda: "recorded %s, expected %s" % (
            [x.cls.name if isinstance(x, OInst) else "..." for x in rec.h], want)):
        return
    last = {}
    for (i, k) in rec.want_h:
        x = rec.turns[(i, k)]
        e = rec.script[i]
        where = "%s: %s at event %d (%s)" % (name, k, i + 1, show(e))
        a = x.attrs
        cc.ob("a half-turn names its player", C.must_equal(a.get("player"), e[1]), where,
              "player %r" % (a.get("player"),))
        ty = {"DuringTurn": "DURING", "DiscardTurn": "DISCARD", "PostTurn": "POST"}[k]
        hv = P.I.load("MahjongAI.turn").vars["HalfTurn"].attrs
        cc.ob("a half-turn carries its phase", C.must_equal(a.get("type_"), hv[ty]), where, "type %r" % (a.get("type_"),))
        if k == "DiscardTurn":
            t = a.get("discarded_tile")
            cc.ob("a discard half-turn names the discarded tile",
                  isinstance(t, (int, Lin)) and C.must_equal(t, e[2]), where, "tile %r, expected %r" % (t, e[2]))
        st = a.get("stateObj")
        cc.ob("a half-turn shows its player's state", isinstance(st, OInst) and C.must_equal(st.attrs["player"], e[1]),
              where, "state %r" % (st,))
        if k != "DuringTurn" and e[0] == "D":
            prev = rec.script[i - 1] if i else None
            j = i - 1
            while j >= 0 and rec.script[j][0] in ("R", "dora"):
                j -= 1
            if j >= 0 and rec.script[j][0] == "T":
                src = rec.turns[(j, "DuringTurn")].attrs["stateObj"]
                cc.ob("a discard is taken in the state the draw left", st is src, where, "another state is attached")
            else:
                cc.ob("a discard is taken in the state the draw left",
                      all(st is not y.attrs["stateObj"] for (q, _), y in rec.turns.items() if q < i), where,
                      "the state of an earlier turn is attached after a call")
        if k == "PostTurn" and e[0] == "D":
            cc.ob("discard and reaction share the state", st is rec.turns[(i, "DiscardTurn")].attrs["stateObj"], where,
                  "different states")


def check_turns(c):
    l = [("draw", ""), ("tsumogiri", "red"), ("dora", ""), ("chi", "low"), ("chi", "redcall"), ("pon1", ""),
         ("pon2", "red"), ("pon3", ""), ("minkan1", "red"), ("minkan2", ""), ("ankan", ""), ("kakan", ""),
         ("kakan", "red"), ("riichi", ""), ("riichi-ankan", "")]
    play_all(c, seats(c, l), judge_turns)
    play_all(c, [("tsumogiri", "", 0), ("kakan", "", 1), ("chi", "low", 2), ("riichi", "", 3)], judge_turns,
             history=None)
    play_all(c, [("tsumogiri", "", 2)], judge_turns, history=None, pre=earlier_round)
    c.require("the half-turns are exactly the decisions of the round, in order", 100)
    c.require("a half-turn shows its player's state", 500)


# ------------------------------------------------------------------ melds, indicators and round data
def check_melds(c):
    r = {"melds": "recorded melds are the calls made so far",
         "doras": "recorded indicators are those revealed so far",
         "fixed": "dealer, counters and remaining rounds stay as dealt",
         "who": "a state belongs to the player to act"}
    play_all(c, seats(c, [("draw", ""), ("dora", ""), ("dora", "red"), ("chi", "redex"), ("chi", "low"), ("pon1", ""),
                          ("pon2", "red"), ("pon3", "redcall"), ("minkan1", "red"), ("minkan2", ""), ("ankan", ""),
                          ("ankan", "red"), ("kakan", ""), ("kakan", "red"), ("kakan", "redpon"), ("riichi", ""),
                          ("two-melds", ""), ("two-melds", "first"), ("riichi-ankan", "")]), tracked(r))
    base_case(c, r)
    for x in r.values():
        c.require(x, 100)
