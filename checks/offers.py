"""What the log reader offers and marks: riichi, kans, calls, wins; win-evaluation inputs; immutability."""
from sa.dom import C, Lin, Cond, add, scale, var, Infeasible, Unsupported
from sa.objs import *
from sa import arr
from sa import objs as _o
from .base import Broken, fork_explore, parallel
from .rounds import Round, Track, Meld, show, kinds
from . import rounds, log
from .log import HON, rest, same, chi, kakan, play_all, seats, scripts, tile

AG, RE, NA = 0, 1, 2


def idx(P):
    m = P.I.load("MahjongAI.utils.constants").vars
    return [m["DECISION_%s_IDX" % k] for k in ("AGARI", "REACH", "NAKI")]


def decide(P, cls, *args):
    return P.I.call(P.I.load("MahjongAI.decision").vars[cls], list(args), {})


def naki(P, kind, tile, src, ident):
    o = OInst(P.I.load("MahjongAI.draw").vars["Naki"])
    for k, v in (("%kind", kind), ("%src", src), ("%tile", tile), ("%exposed", OList([])), ("%called", None),
                 ("%pat", (0, 0, False)), ("convenient_naki_code", ident), ("naki_code", ident)):
        o.attrs[k] = v
    return o


def lst(P, v, where):
    if isinstance(v, (OList, tuple, list)):
        l = list(v.items) if isinstance(v, OList) else list(v)
        return l
    return list(P.I.iter_items(v))


def is_kind(d, *names):
    return isinstance(d, OInst) and d.cls.name in names


def flag(P, d):
    """executed, as a bool (splits if undetermined)"""
    return P.I.truth(d.attrs.get("executed"))


def yes(c):
    return c if isinstance(c, bool) else C.truth(c)


# ------------------------------------------------------------------ C15
RI = "riichi is offered exactly when it is allowed"
KA = "closed kans are offered exactly for the kinds held four times"
AD = "added kans are offered exactly for own pons whose fourth tile is in hand"
CA = "calls on a discard reach exactly the players who may call"
ARG = "the call generator sees the discard and its discarder"


def hook_offers(P):
    """Every player the generator could serve gets one pon and one kan offer."""
    P.given = {}

    def f(R, n, b):
        out = []
        for p in range(4):
            l = []
            if not C.must_equal(b[0], p):
                l = [decide(P, "NakiDecision", p, naki(P, "pon", 5, 1, 700 + 20 * n + p), False),
                     decide(P, "NakiDecision", p, naki(P, "minkan", 5, 1, 800 + 20 * n + p), False)]
            out.append(OList(l))
        P.given[n] = [[d.attrs["naki"].attrs["convenient_naki_code"] for d in l.items] for l in out]
        return OList(out)
    P.offers = f


def nat(x):
    return C.norm(x) if isinstance(x, Lin) else x


def judge_offers(P, cc, rec, name, held=None):
    if not log.lined_up(cc, rec, name):
        return
    ag, re_, na = idx(P)
    own = {p: [] for p in range(4)}         # own pons so far
    riichi = [False] * 4
    closed = [True] * 4
    nd = 0
    for i, e in enumerate(rec.script):
        where = "%s: event %d (%s)" % (name, i + 1, show(e))
        if e[0] == "R" and e[2] == 2:
            riichi[e[1]] = True
        if e[0] == "N":
            m = e[2]
            if m.kind == "pon":
                own[e[1]].append(m)
            if m.kind == "kakan":
                own[e[1]] = [x for x in own[e[1]] if not C.must_equal(x.tile, m.tile)]
            if m.src:
                closed[e[1]] = False
        if e[0] == "T":
            x = rec.turns[(i, "DuringTurn")]
            C.explore(lambda: during(P, cc, x, e, where, own[e[1]], riichi[e[1]], closed[e[1]], held))
        if e[0] == "D":
            x = rec.turns[(i, "PostTurn")]
            n = nd
            nd += 1
            b = rec.caat.get(i)
            C.explore(lambda: post(P, cc, x, e, where, riichi, n, b))


def during(P, cc, x, e, where, own, riichi, closed, held):
    ag, re_, na = idx(P)
    p = e[1]
    d = lst(P, x.attrs["decisions"], where)
    st = x.attrs["stateObj"].attrs
    left = st["remaining_tsumo"]
    hand = arr.freeze(st["hand_tensor"])
    # riichi
    got = lst(P, d[re_], where)
    ok = all(is_kind(y, "ReachDecision") and C.must_equal(y.attrs["player"], p) for y in got) and len(got) <= 1
    may = not riichi and closed and yes(C.mk_ge(add(P.shv, -1)) if isinstance(P.shv, Lin) else P.shv >= 1) is False
    if may:
        sc = lst(P, st["scores"], where)[p]
        may = yes(C.mk_ge(add(sc, -10)) if isinstance(sc, Lin) else sc >= 10)
    if may:
        may = yes(C.mk_ge(add(left, -4)) if isinstance(left, Lin) else left >= 4)
    cc.ob(RI, ok and bool(got) == bool(may), where,
          lambda: "%d riichi offers, expected %d (in riichi %s, closed %s, shanten %r, left %r)" % (
              len(got), may, riichi, closed, C.norm(P.shv), C.norm(left)))
    # kans
    last = yes(C.mk_eq(left) if isinstance(left, Lin) else left == 0)
    got = lst(P, d[na], where)
    fours, adds = [], []
    for y in got:
        if isinstance(y, Seg):
            y = y.pick()
            if last:
                cc.fail(KA, where, "kan offered on the last draw")
            k = y.attrs["naki"].attrs if is_kind(y, "NakiDecision") else {}
            cc.ob(KA, k.get("%kind") == "ankan" and C.must_equal(y.attrs["player"], p), where,
                  lambda: "unexpected offer %r" % (y,))
            continue
        k = y.attrs["naki"].attrs if is_kind(y, "NakiDecision") else {}
        if not is_kind(y, "NakiDecision") or not C.must_equal(y.attrs["player"], p) or \
                k.get("%kind") not in ("ankan", "kakan"):
            cc.fail(KA, where, "unexpected offer %r" % (y,))
            continue
        (fours if k["%kind"] == "ankan" else adds).append(k["%tile"])
    exp = []
    if held is not None:
        seen = []
        for t in held[p] + [e[2]]:
            k = kinds(t)[0]
            if any(C.must_equal(k, s) for s in seen):
                continue
            seen.append(k)
            if yes(num_eq(hand((k,)), 4)):
                exp.append(k)
        exp = [] if last else exp
        good = len(fours) == len(exp) and all(any(C.must_equal(a, b) for b in exp) for a in fours) and \
            all(any(C.must_equal(a, b) for b in fours) for a in exp)
        cc.ob(KA, good, where, lambda: "closed kans offered of %r, expected %r" % (fours, exp))
    exp = []
    for m in own:
        v = hand((m.tile,))
        if isinstance(v, Lin):          # the pon holds three of the four
            C.assume(C.mk_ge(add(scale(v, -1), 1)), True)
            C.assume(C.mk_ge(v), True)
        if not last and yes(num_eq(v, 1)):
            exp.append(m.tile)
    good = len(adds) == len(exp) and all(any(C.must_equal(a, b) for b in exp) for a in adds) and \
        all(any(C.must_equal(a, b) for b in adds) for a in exp)
    cc.ob(AD, good, where, lambda: "added kans offered of %r, expected %r" % (adds, exp))


def num_eq(v, n):
    v = C.norm(v) if isinstance(v, Lin) else v
    return C.mk_eq(add(v, -n)) if isinstance(v, Lin) else v == n


def post(P, cc, x, e, where, riichi, n, b):
    ag, re_, na = idx(P)
    d = lst(P, x.attrs["decisions"], where)
    left = x.attrs["stateObj"].attrs["remaining_tsumo"]
    last = yes(num_eq(left, 0))
    if b is not None:
        cc.ob(ARG, C.must_equal(b[0], e[1]), where, lambda: "player %r" % (b[0],))
        ks = kinds(e[2])
        cc.ob(ARG, C.must_equal(b[2], ks[0]), where, lambda: "tile %r, expected %r" % (b[2], ks[0]))
        if len(ks) == 2 or C.must_equal(C.mod(ks[0], 9), 4) and C.decide(C.mk_ge(add(26, ks[0], -1))) is True:
            r = b[3] if isinstance(b[3], bool) else P.I.truth(b[3])
            cc.ob(ARG, r == (len(ks) == 2), where, lambda: "red flag %r" % (b[3],))
    for p in range(4):
        l = lst(P, d[p], where)
        got = []
        for y in lst(P, l[na], where):
            if not is_kind(y, "NakiDecision") or not C.must_equal(y.attrs["player"], p):
                cc.fail(CA, where, "seat %d is offered %r" % (p, y))
                continue
            got.append(y.attrs["naki"].attrs["convenient_naki_code"])
        want = [] if p == e[1] or riichi[p] or last else P.given[n][p]
        cc.ob(CA, sorted(got) == sorted(want), where,
              lambda: "seat %d is offered %d calls, expected %d (in riichi %s, last draw %s)" % (
                  p, len(got), len(want), riichi[p], last))
        cc.ob(CA, not lst(P, l[re_], where), where, "riichi offered on a discard")


def kan_deal(P, a, v):
    """Player a's hand has three or four copies of a symbolic kind; the others' hands are unknown."""
    four = v[0] == "4"
    if v[1:] == "five":
        k = add(scale(C.freshvar("ks", 0, 2), 9), 4)
    elif v[1:] == "hon":
        k = C.freshvar("kh", 31, 33)
    else:
        k = add(scale(C.freshvar("ks", 0, 2), 9), C.freshvar("kn", vals=[0, 1, 2, 3, 5, 6, 7, 8]))
    t = [add(scale(k, 4), r) for r in range(4)]
    # among the others: a triplet, which is no kan
    hand = [108, 109, 110, 112, 113, 116, 117, 120, 121]
    n = 4 if four else 3
    if v == "44":
        hand = [108, 109, 110, 112, 113] + t + [132, 133, 134, 135]
        n = 0
    hand = hand[:13 - n] + (t[:n] if n else [])
    hand += [114][:13 - len(hand)]
    hands = [None] * 4
    hands[a] = hand
    # the draw that completes four, or another one; then the other players' draws
    h = [111, 114, 115, 118, 119]
    script = [("T", a, t[3] if not four else 111)]
    return hands, script, k, t


LD = "the draws left and closed-hand flags that decide offers start from the deal"


def check_offers(c):
    c.explain("decision_mask, the shanten solver and the win evaluation are replaced by their contracts; every offer "
              "of every half-turn is compared with the rule, the solver's answer, scores, riichi and remaining draws "
              "being symbolic.")
    L = [("draw", ""), ("draw", "red"), ("discard", "red"), ("discard", ""), ("pon1", ""), ("pon2", "red"),
         ("minkan2", ""), ("ankan", ""), ("kakan", ""), ("kakan", "red"), ("kakan", "redpon"), ("chi", "low"),
         ("riichi", ""), ("two-riichi", ""), ("riichi-ankan", ""), ("two-melds", ""), ("two-melds", "first")]

    def setup(P, it):
        hook_offers(P)
        P.shv = 3

    # calls and kans with everything but the solver symbolic
    play_all(c, seats(c, L), judge_offers, setup)

    # the end of the wall
    def low(P, it):
        setup(P, it)
        P.min_left = 0
        P.sh = P.shv = 0
    play_all(c, [("draw", "", 0), ("discard", "", 2), ("kakan", "", 1), ("pon2", "", 3), ("riichi", "", 1)],
             judge_offers, low)
    log.base_case(c, {"left": LD, "flags": LD})
    parallel(c, opening, [("sh", a) for a in range(4)] + [("call", 0), ("call", 2), ("ankan", 1)] + [
        (v + k, a) for a, v in ((0, "3"), (1, "4"), (3, "3")) for k in ("five", "hon", "")], 8)
    for r in (RI, KA, AD, CA, ARG):
        c.require(r, 40)


def opening(cc, it):
    v, a = it
    P = Round(cc)
    P.I.exact_where = True
    hook_offers(P)

    def body():
        if v in ("sh", "call", "ankan"):
            P.min_ten, P.max_ten = -500, 2000
            P.sh = P.shv = C.freshvar("shanten", -1, 6)
            h = list(HON)
            if v == "sh":
                s = rest(a, 2, h) + [("T", (a + 2) % 4, h.pop(0))]
            elif v == "call":
                m = same("pon", "", 2, 1010, 3)
                q = (a + 2) % 4
                t, u = h.pop(0), h.pop(0)
                s = [("T", a, t), ("D", a, m.called), ("N", q, m), ("D", q, u)] + rest((q + 1) % 4, 3, h) + \
                    [("T", q, h.pop(0))]
            else:
                m = same("ankan", "", 0, 1040, 4)
                s = [("T", a, h.pop(0)), ("N", a, m), ("T", a, h.pop(0))]
            held = None
            init = P.INIT()
        else:
            P.sh = P.shv = 3
            hands, s, k, t = kan_deal(P, a, v)
            held = {p: hands[p] or [] for p in range(4)}
            s = s + [("D", a, s[0][2]), ("T", (a + 1) % 4, 132), ("D", (a + 1) % 4, 132)]
            s = s[:3]
            init = P.INIT(0, 135, hands)
        rec = P.play(s, None, init=init)
        if rec.exc is not None:
            if rec.exc.exc.cls.name == "AssertionError":
                return
            cc.fail("a well-formed log is processed", "%s: %s" % (v, rec.exc.exc.cls.name), "%r" % (rec.exc.loc,))
            return
        if held is not None:
            rec.script = s[:2]
            hold = held
            judge_offers(P, cc, rec, "hand with " + v, hold)
        else:
            judge_offers(P, cc, rec, "opening " + v)
    fork_explore(cc, P.I, body, 2)


# ------------------------------------------------------------------ C16
EX = "a decision is marked executed exactly when the log shows it taken"
WO = "the wins offered are those the evaluation returned"
FOUND = "the decision the log shows is among the offers"


def hook_all(P):
    """Every discard offers every call of the script to its caller (plus decoys); every evaluation allows a win."""
    P.ids = {}
    P.winners = {}

    def offers(R, n, b):
        out = []
        for p in range(4):
            l = []
            if not C.must_equal(b[0], p):
                l.append(decide(P, "NakiDecision", p, naki(P, "pon", 5, 1, 700 + p), False))
                for i, e in enumerate(P.calls_of):
                    if e[0] == p:
                        l.append(decide(P, "NakiDecision", p, naki(P, e[1].kind, e[1].tile, e[1].src, e[1].ident), False))
                l.append(decide(P, "NakiDecision", p, naki(P, "minkan", 6, 1, 720 + p), False))
            out.append(OList(l))
        return OList(out)
    P.offers = offers

    def wins(R, n, name, b):
        p = b["player"]
        if name == "evaluate_tsumo":
            return OList([decide(P, "AgariDecision", C.norm(p), False)])
        return OList([None if C.must_equal(p, q) else decide(P, "AgariDecision", q, False) for q in range(4)])
    P.wins = wins


def judge_executed(P, cc, rec, name, tail=()):
    if not log.lined_up(cc, rec, name):
        return
    ag, re_, na = idx(P)
    sc = rec.script
    lastturn = max(rec.turns, key=lambda k: (k[0], k[1] == "PostTurn")) if rec.turns else None
    for (i, k), x in sorted(rec.turns.items()):
        e = sc[i]
        where = "%s: %s at event %d (%s)" % (name, k, i + 1, show(e))
        if k == "DiscardTurn":
            continue
        if k == "DuringTurn":
            nx = next((f for f in sc[i + 1:] if f[0] != "dora"), None)
            taken = {"reach": nx is not None and nx[0] == "R" and nx[2] == 1,
                     "naki": nx[2].ident if nx is not None and nx[0] == "N" else None}
            d = lst(P, x.attrs["decisions"], where)
            seats_ = {e[1]: d}
        else:
            nx = next((f for f in sc[i + 1:] if f[0] not in ("dora", "R")), None)
            taken = {"reach": False, "naki": nx[2].ident if nx is not None and nx[0] == "N" and e[0] == "D" else None}
            d = lst(P, x.attrs["decisions"], where)
            seats_ = {p: lst(P, d[p], where) for p in range(4)}
        final = (i, k) == lastturn
        hit = 0
        for p, groups in seats_.items():
            for y in lst(P, groups[re_], where):
                want = taken["reach"]
                mark(P, cc, y, want, where + ", riichi")
            for y in lst(P, groups[na], where):
                if isinstance(y, Seg):
                    if taken["naki"] is None:
                        C.explore(lambda: mark(P, cc, y.pick(), False, where + ", a kan"))
                    continue
                want = taken["naki"] is not None and y.attrs["naki"].attrs["convenient_naki_code"] == taken["naki"] \
                    and (k == "DuringTurn" or nx[1] == p)
                hit += want
                mark(P, cc, y, want, where + ", %s offered to %d" % (y.attrs["naki"].attrs["%kind"], p))
            got = lst(P, groups[ag], where)
            may = k == "DuringTurn" or p != e[1]
            cc.ob(WO, len(got) == int(may) and all(
                is_kind(y, "AgariDecision") and C.must_equal(y.attrs["player"], p) for y in got), where,
                lambda: "seat %d has win offers %r" % (p, got))
            for y in got:
                mark(P, cc, y, final and p in tail, where + ", win offered to %d" % p)
        if taken["naki"] is not None and not (k == "DuringTurn" and any(
                isinstance(y, Seg) for y in lst(P, seats_[e[1]][na], where))):
            cc.ob(FOUND, hit == 1, where, lambda: "the call taken matches %d offers" % hit)


def mark(P, cc, y, want, where):
    def one():
        if not isinstance(y, OInst):
            raise Unsupported("offer %r" % (y,))
        got = flag(P, y)
        cc.ob(EX, got == bool(want), where, lambda: "executed is %s, expected %s" % (got, bool(want)))
    C.explore(one)


def check_executed(c):
    c.explain("Every evaluation offers a win to everybody, every discard offers the script's calls and decoys; after the "
              "round each offer's executed mark is compared with the events that follow.")

    def setup(P, it):
        hook_all(P)
        P.sh = 0
    L = [("chi", "redex"), ("chi", "low"), ("pon1", ""), ("pon2", "red"), ("pon3", "redcall"), ("minkan1", "red"),
         ("minkan3", ""), ("minkan2", ""), ("kakan", ""), ("kakan", "red"), ("riichi", ""), ("two-riichi", ""),
         ("ippatsu-call", ""), ("riichi-ankan", ""), ("two-melds", ""), ("two-melds", "first"), ("draw", "")]
    items = [(n, v, s, None) for n, v, s in seats(c, L)]
    items += [("win-" + k, "", s, k) for s, k in ((0, "ron"), (1, "ron2"), (2, "tsumo"), (3, "chankan"), (2, "ron3"),
                                                  (3, "riichi-ron"), (0, "rinshan"), (1, "kan-ron"), (1, "draw"))]
    items += [("kan", v, s, None) for s, v in ((0, "4five"), (1, "4hon"), (2, "4"), (3, "3"), (1, "44a"),
                                                  (2, "44b"))]
    parallel(c, executed, items, 4)
    c.extra["event_scripts"] = ["%s%s seat %d" % (n, "/" + v if v else "", a) for n, v, a, _ in items]
    for r in (EX, WO, FOUND):
        c.require(r, 10)
    c.assumes("the log is well formed: asserts of process() hold; calls in it were offered (C06, C15)")


def executed(cc, it):
    name, v, a, win = it
    P = Round(cc)
    hook_all(P)
    P.sh = 0

    def body():
        tail, who, hist, init = None, (), "TD", None
        h = list(HON)
        if win:
            s, els, who = win_script(P, a, win, h)
            tail = els
        elif name == "kan":
            hands, s, k, t = kan_deal(P, a, v[:2] if v[:2] == "44" else v)
            m = Meld("ankan", k, t, None, 0, 0, 0, v.endswith("five"), 1040)
            if v[:2] == "44":       # two kinds held four times: either is taken
                m2 = Meld("ankan", 33, [132, 133, 134, 135], None, 0, 0, 0, False, 1045)
                P.idents = [m, m2]
                if v == "44b":
                    m = m2
            s = s + [("N", a, m), ("T", a, 118), ("D", a, 118), ("dora", 119)] + \
                [("T", (a + 1) % 4, 122), ("D", (a + 1) % 4, 122)]
            hist, init = None, P.INIT(0, 123, hands)
            P.I.exact_where = True
        else:
            s = scripts(P, name, a, v)
        P.calls_of = [(e[1], e[2]) for e in s if e[0] == "N" and e[2].src and e[2].kind != "kakan"]
        rec = P.play(s, hist, init=init, tail=tail)
        label = "%s%s" % (name, "/" + v if v else "")
        if rec.exc is not None:
            if rec.exc.exc.cls.name != "AssertionError":
                cc.fail("a well-formed log is processed", "%s: %s at %s" % (label, rec.exc.exc.cls.name, rec.exc.loc),
                        "%r" % (rec.exc.exc.attrs.get("args"),))
            return
        judge_executed(P, cc, rec, label, who)
    fork_explore(cc, P.I, body, 3)


def win_script(P, a, kind, h):
    n1, n2, n3 = [(a + i) % 4 for i in (1, 2, 3)]
    d = lambda p: [("T", p, h.pop(0)), ("D", p, h.pop(0))]
    s = d(n1) + d(n2) + d(n3)
    if kind == "tsumo":
        return s + [("T", a, h.pop(0))], [P.AGARI(a, a)], (a,)
    if kind == "draw":
        return s + d(a), [P.RYUU()], ()
    if kind == "ron":
        return s + d(a), [P.AGARI(n2, a)], (n2,)
    if kind == "ron2":
        return s + d(a), [P.AGARI(n3, a), P.AGARI(n1, a)], (n1, n3)
    if kind == "ron3":
        return s + d(a), [P.AGARI(n1, a), P.AGARI(n2, a), P.AGARI(n3, a)], (n1, n2, n3)
    if kind == "riichi-ron":
        return s + [("T", a, h.pop(0)), ("R", a, 1), ("D", a, h.pop(0))], [P.AGARI(n1, a)], (n1,)
    if kind == "rinshan":
        m = same("ankan", "", 0, 1040, 4)
        return s + [("T", a, h.pop(0)), ("N", a, m), ("T", a, h.pop(0))], [P.AGARI(a, a)], (a,)
    if kind == "kan-ron":           # the indicator is revealed after the discard that deals in
        m = same("minkan", "", 1, 1020, 4)
        return s + [("T", a, h.pop(0)), ("D", a, m.called), ("N", n3, m), ("T", n3, h.pop(0)), ("D", n3, h.pop(0)),
                    ("dora", h.pop(0))], [P.AGARI(n1, n3)], (n1,)
    if kind == "chankan":
        m = same("pon", "", 3, 1010, 3)
        kk = kakan(m, "", 3)
        return s + [("T", a, h.pop(0)), ("D", a, m.called), ("N", n1, m), ("D", n1, h.pop(0))] + d(n2) + d(n3) + d(a) + \
            [("T", n1, h.pop(0)), ("N", n1, kk)], [P.AGARI(n3, n1)], (n3,)
    raise KeyError(kind)


# ------------------------------------------------------------------ C17
UN = "games of unsupported rules are refused, supported ones are read"
BY = "games a player left are refused"
NR = "the remaining rounds follow the game's length"


def check_supported(c):
    c.explain("The game-type word is symbolic in every bit; the log is refused with InvalidGameException on exactly the "
              "partitions where a rule bit is unsupported. A BYE element is placed before, inside and after a round.")
    parallel(c, supported, ["type"] + ["bye%d" % i for i in range(4)], 4)
    c.require(UN, 8)
    c.require(BY, 4)
    c.require(NR, 4)


def supported(cc, it):
    P = Round(cc)
    P.sh = 3
    h = list(HON)
    s = [("T", 0, h.pop(0)), ("D", 0, h.pop(0)), ("T", 1, h.pop(0))]
    if it != "type":
        n = int(it[3:])

        def bye():
            b = P.elem("BYE", {"who": str(C.choose(4))})
            els = [P.INIT(0)] + [P.T(0, 108), P.D(0, 112)] + [P.RYUU()]
            if n < 3:
                els.insert((1, 3, 4)[n], b)
                els += [P.INIT(1), P.T(1, 108), P.RYUU()]
            else:
                els += [P.INIT(1), P.T(1, 108), b, P.RYUU()]
            try:
                P.run(P.header() + els)
                r = "accepted"
            except PyRaise as x:
                r = x.exc.cls.name
            cc.ob(BY, r == "InvalidGameException", "BYE at %d" % n, lambda: "the log is %s" % r)
        fork_explore(cc, P.I, bye, 2)
        return

    def body():
        b = [C.freshvar("bit%d" % i, 0, 1) for i in range(8)]
        go = 0
        for i, x in enumerate(b):
            go = add(go, scale(x, 1 << i))
        rec = P.play(s, None, header=P.header(go))
        v = lambda i: C.truth(C.mk_eq(b[i], ) if False else C.mk_eq(add(b[i], -1)))
        bad = not v(0) or v(1) or v(2) or v(4)
        r = "accepted" if rec.exc is None else rec.exc.exc.cls.name
        if r == "AssertionError":
            return
        cc.ob(UN, r == ("InvalidGameException" if bad else "accepted"), "game type bits human=%s nored=%s kansaki=%s "
              "three=%s" % tuple(v(i) for i in (0, 1, 2, 4)), lambda: "the log is %s" % r)
        if rec.exc is None and rec.aligned:
            left = add(8 if v(3) else 4, P.init["kyoku"], -1)
            st = rec.turns[(0, "DuringTurn")].attrs["stateObj"].attrs

            def one(got, want, what):
                got = P.I.cond_num(got) if isinstance(got, Cond) else got
                d = add(got, want, -1) if isinstance(got, (int, Lin)) else None
                d = rounds.deep(d) if isinstance(d, Lin) else d
                if isinstance(d, Lin):
                    d = 0 if C.truth(C.mk_eq(d)) else d
                cc.ob(NR, d == 0, what, lambda: "%r, expected %r" % (got, want))
            C.explore(lambda: one(st["rounds_remaining"], left, "rounds_remaining"))
            pr = lst(P, st["parent_rounds_remaining"], "")
            for k in range(4):
                C.explore(lambda: one(pr[k], C.floordiv(add(left, k), 4), "parent_rounds_remaining[%d]" % k))
    fork_explore(cc, P.I, body, 2)


# ------------------------------------------------------------------ C18
WI = {"efull": "wins are evaluated on the complete hands", "emelds": "wins are evaluated with the players' melds",
      "eriver": "wins are evaluated with the discards made so far",
      "edoras": "wins are evaluated with the indicators revealed so far",
      "eflags": "wins are evaluated with the riichi and ippatsu in force",
      "emoney": "wins are evaluated with the sticks and counters in force"}
WA = "each draw, discard and added kan is evaluated with its player, tile and kind"
WB = "bonus circumstances of a win are those of the moment"


def judge_eval(P, cc, rec, name):
    if not log.lined_up(cc, rec, name):
        return
    if not rec.ev_ok:
        cc.fail(WA, name, "evaluations %s, expected %s" % ([x[0] for x in rec.ev], rec.ev_want))
        return
    after_kan = False
    first = P.first
    calls = False
    for i, e in enumerate(rec.script):
        where = "%s: event %d (%s)" % (name, i + 1, show(e))
        x = rec.evat.get(i)
        if x is not None:
            nm, b, raw = x
            st = rec.state.get(i) if e[0] != "D" else rec.turns[(i, "PostTurn")].attrs["stateObj"]
            C.explore(lambda: evaluation(P, cc, e, nm, b, st.attrs["remaining_tsumo"], after_kan, where,
                                         i, first, calls, rec))
        if e[0] == "T":
            after_kan = False
        if e[0] == "N":
            after_kan = e[2].kind in ("ankan", "kakan", "minkan")
            calls = True


def evaluation(P, cc, e, nm, b, left, after_kan, where, i, first, calls, rec):
    def same_(key, want, rule=WA):
        v = b.get(key)
        if isinstance(v, Cond):
            v = C.truth(v)
        if isinstance(want, Cond):
            want = C.truth(want)
        if isinstance(v, (bool, int)) and isinstance(want, bool):
            ok = bool(v) == want
        elif isinstance(v, Lin) and isinstance(want, bool):
            ok = P.I.truth(v) == want
        elif isinstance(v, (int, Lin)) and isinstance(want, (int, Lin)):
            ok = C.must_equal(v, want)
            if not ok:
                d = rounds.deep(add(v, want, -1))
                ok = d == 0 or (isinstance(d, Lin) and C.truth(C.mk_eq(d)))
        else:
            ok = v == want
        cc.ob(rule, ok, where, lambda: "%s is %r, expected %r" % (key, v, want))
    same_("player", e[1])
    k = P.init["kyoku"]
    same_("player_wind", C.mod(k, 4), WB)
    same_("round_wind", C.floordiv(k, 4), WB)
    last = num_eq(left, 0)
    last = last if isinstance(last, bool) else C.truth(last)
    if e[0] == "T":
        same_("tsumo_tile", e[2])
        same_("is_rinshan", after_kan, WB)
        same_("is_haitei", last and not after_kan, WB)
        if first is not None:       # a round from its deal: the uninterrupted first turns
            n = sum(1 for f in rec.script[:i + 1] if f[0] == "T")
            if not calls:
                same_("is_tenhou", n == 1, WB)
                same_("is_chiihou", 2 <= n <= 4, WB)
            else:
                same_("is_tenhou", False, WB)
                same_("is_chiihou", False, WB)
        elif calls:
            same_("is_chiihou", False, WB)
            same_("is_tenhou", False, WB)
    else:
        chankan = e[0] == "N"
        same_("discarded_tile", e[2].exposed[0] if chankan else e[2])
        same_("is_chankan", chankan, WB)
        same_("is_haitei", last and not chankan, WB)
        r = b.get("is_renhou")
        r = r if isinstance(r, list) else P.I.iter_items(r)
        cc.ob(WB, len(r) == 4 and not any(P.I.truth(x) for x in r), where,
              lambda: "renhou %r: the logged games do not have it" % (r,))


def tracked_eval(P, cc, rec, name):
    judge_eval(P, cc, rec, name)
    if rec.aligned and rec.ev_ok and rec.ca_ok:
        Track(P, cc, rec, name, WI).walk()


def check_eval(c):
    L = [("draw", "red"), ("discard", ""), ("discard", "red"), ("dora", ""), ("chi", "redex"), ("chi", "redcall"),
         ("chi", "high"), ("pon1", ""), ("pon2", "red"), ("pon3", "redcall"), ("minkan1", "red"), ("minkan2", ""),
         ("ankan", ""), ("ankan", "red"), ("kakan", ""), ("kakan", "red"), ("kakan", "redpon"), ("riichi", ""),
         ("two-riichi", ""), ("ippatsu-call", ""), ("riichi-ankan", ""), ("riichi-ankan", "own"), ("two-melds", ""),
         ("two-melds", "first")]

    def setup(P, it):
        P.first = None

    def low(P, it):
        P.first = None
        P.min_left = 0
    play_all(c, seats(c, L), tracked_eval, setup)
    log.base_case(c, WI)
    play_all(c, [("draw", "", 0), ("discard", "", 2), ("kakan", "", 1), ("minkan2", "", 3), ("ankan", "", 2),
                 ("kan-end", "", 0), ("kan-end", "ankan", 1)], judge_eval, low)
    parallel(c, first_eval, [(k, a) for k in ("plain", "riichi", "late", "call", "kan", "ankan", "riichi-call") for a in
                             ((0, 2) if c.tier == "quick" else range(4))], 4)
    c.explain("The win evaluation is replaced by its contract; each of its calls' arguments is compared with the tracked "
              "hands, melds, discards, indicators, riichi and circumstances.")
    for r in list(WI.values()) + [WA, WB, DR]:
        c.require(r, 30)


DR = "double riichi is exactly a riichi on the uninterrupted first turn"


def first_eval(cc, it):
    kind, a = it
    P = Round(cc)
    P.sh = 3
    P.first = a
    n1, n2, n3 = [(a + i) % 4 for i in (1, 2, 3)]

    def body():
        h = list(HON)
        d = lambda p: [("T", p, h.pop(0)), ("D", p, h.pop(0))]
        ri = lambda p: [("T", p, h.pop(0)), ("R", p, 1), ("D", p, h.pop(0)), ("R", p, 2)]
        pon = same("pon", "", 3, 1010, 3)
        kan = same("minkan", "", 3, 1020, 4)
        ank = same("ankan", "", 0, 1040, 4)
        dbl = set()
        if kind == "plain":
            s = d(a) + d(n1) + d(n2) + d(n3) + d(a) + d(n1)
        elif kind == "riichi":
            s = ri(a) + d(n1) + ri(n2) + ri(n3) + d(a) + ri(n1) + d(n2)
            dbl = {a, n2, n3}
        elif kind == "late":
            s = d(a) + d(n1) + d(n2) + d(n3) + ri(a) + ri(n1) + d(n2)
        elif kind == "call":
            s = d(a) + d(n1)[:1] + [("D", n1, pon.called), ("N", n2, pon), ("D", n2, h.pop(0))] + ri(n3) + ri(a)
        elif kind == "riichi-call":
            s = ri(a) + d(n1)[:1] + [("D", n1, pon.called), ("N", n2, pon), ("D", n2, h.pop(0))] + ri(n3) + d(a)
            dbl = {a}
        elif kind == "kan":
            s = [("T", a, h.pop(0)), ("D", a, kan.called), ("N", n1, kan), ("T", n1, h.pop(0)), ("D", n1, h.pop(0))] + \
                ri(n2) + d(n3)
        else:
            s = [("T", a, h.pop(0)), ("N", a, ank), ("T", a, h.pop(0)), ("D", a, h.pop(0))] + ri(n1) + d(n2)
        init = P.INIT()
        # the dealer opens the round
        C.assume(C.mk_eq(add(C.mod(P.init["kyoku"], 4), -a)), True)
        rec = P.play(s, None, init=init)
        if rec.exc is not None:
            if rec.exc.exc.cls.name != "AssertionError":
                cc.fail("a well-formed log is processed", "first %s: %s at %s" % (kind, rec.exc.exc.cls.name, rec.exc.loc),
                        "%r" % (rec.exc.exc.attrs.get("args"),))
            return
        judge_eval(P, cc, rec, "first turns/" + kind)
        if not rec.aligned or not rec.ev_ok:
            return
        done = set()
        for i, e in enumerate(s):
            if e[0] == "R" and e[2] == 2:
                done.add(e[1])
            x = rec.turns.get((i, "DuringTurn"))
            vals = []
            if x is not None:
                vals.append(lst(P, x.attrs["stateObj"].attrs["double_reaches"], ""))
            if i in rec.evat:
                v = rec.evat[i][1].get("double_reaches")
                vals.append(v if isinstance(v, list) else P.I.iter_items(v))
            for v in vals:
                for p in range(4):
                    want = int(p in dbl and p in done)
                    C.explore(lambda: cc.ob(DR, yes(num_eq(P.I.cond_num(v[p]) if isinstance(v[p], Cond) else v[p], want)),
                                            "first turns/%s: event %d (%s), seat %d" % (kind, i + 1, show(e), p),
                                            lambda: "double riichi is %r, expected %d" % (v[p], want)))
    fork_explore(cc, P.I, body, 2)


# ------------------------------------------------------------------ C19
FZ = "nothing a recorded state shows is modified afterwards"


def reach(o, out, depth=0):
    """Mutable objects reachable from a recorded state."""
    if isinstance(o, OInst):
        if id(o) in out:
            return
        out[id(o)] = o
        for v in list(o.attrs.values()):
            reach(v, out, depth + 1)
    elif isinstance(o, OList):
        if id(o) in out:
            return
        out[id(o)] = o
        for v in o.items:
            if isinstance(v, (OInst, OList, ODict, tuple, arr.OArr)):
                reach(v, out, depth + 1)
    elif isinstance(o, ODict):
        if id(o) in out:
            return
        out[id(o)] = o
        for v in list(o.d.values()):
            reach(v, out, depth + 1)
    elif isinstance(o, tuple):
        for v in o:
            reach(v, out, depth + 1)
    elif isinstance(o, arr.OArr):
        out[id(o.store)] = o.store


def check_frozen(c):
    c.explain("When a StateObject is created everything reachable from it is marked; the abstract heap reports every "
              "later in-place modification of a marked object, in the unknown part of the round as well as in the "
              "scripts.")
    L = [("draw", ""), ("discard", "red"), ("dora", ""), ("chi", "redex"), ("pon1", ""), ("pon2", "red"),
         ("minkan1", "red"), ("minkan3", ""), ("ankan", ""), ("kakan", ""), ("kakan", "redpon"), ("riichi", ""),
         ("two-riichi", ""), ("ippatsu-call", ""), ("riichi-ankan", ""), ("two-melds", "")]
    items = [(n, v, s, "TD") for n, v, s in seats(c, L)] + [("riichi", "", 1, None), ("kakan", "", 2, None)] + \
        [("win-" + k, "", s, "TD") for s, k in ((0, "ron2"), (2, "tsumo"), (3, "chankan"), (1, "draw"))]
    parallel(c, frozen, items, 4)
    c.extra["event_scripts"] = ["%s%s seat %d" % (n, "/" + v if v else "", a) for n, v, a, _ in items]
    c.require(FZ, 300)
    c.assumes("the log is well formed: asserts of process() hold")


def frozen(cc, it):
    name, v, a, hist = it
    P = Round(cc)
    P.sh = 0
    hook_all(P)
    label = "%s%s" % (name, "/" + v if v else "")

    def created(I, o):
        if o.cls is not P.StateObject:
            return
        out = {}
        reach(o, out)
        for x in out.values():
            if x.escaped is None:
                C.setattr(x, "escaped", "state")
        cc.ok(FZ)
    P.I.new_hooks.append(created)

    def mutated(o):
        if getattr(o, "escaped", None) == "state":
            cc.fail(FZ, P.I.loc(), "%s: a %s reachable from a recorded state is modified at %s" % (
                label, type(o).__name__, P.I.loc()))

    def body():
        h = list(HON)
        els = None
        if name.startswith("win-"):
            s, els, _ = win_script(P, a, name[4:], h)
        else:
            s = scripts(P, name, a, v)
        P.calls_of = [(e[1], e[2]) for e in s if e[0] == "N" and e[2].src and e[2].kind != "kakan"]
        _o.MUT_HOOKS.append(mutated)
        try:
            rec = P.play(s, hist, tail=els)
        finally:
            _o.MUT_HOOKS.remove(mutated)
        if rec.exc is not None and rec.exc.exc.cls.name != "AssertionError":
            cc.fail("a well-formed log is processed", "%s: %s at %s" % (label, rec.exc.exc.cls.name, rec.exc.loc),
                    "%r" % (rec.exc.exc.attrs.get("args"),))
    fork_explore(cc, P.I, body, 3)
