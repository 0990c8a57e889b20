"""Evaluation of wins (utils/agari.py): C21."""
from sa.dom import C, Lin, Term, Cond, add, scale, var, Unsupported, Budget
from sa.objs import OList, OInst, Rep, Seg, SStr, PyRaise, Ext
from sa import arr
from .base import Broken, parallel
from .codec import guarded

FN = {"ron": "evaluate_ron", "tsumo": "evaluate_tsumo"}
HAND = "the evaluated hand is the player's hand with the winning tile, kind by kind"
TILE = "the winning tile handed to the evaluator is a tile of the winning kind in the hand"
CONF = "the win is evaluated under the player's own circumstances"
MELD = "the player's melds are handed to the evaluator as they are"
DORA = "the indicators handed to the evaluator are the round's"
OFFER = "a win is offered exactly when the evaluator accepts the hand"
FURI = "no ron for the discarder or on a kind in the player's own discards"
KEEP = "evaluating a win leaves the hands, discards, melds and indicators as they were"
OPT = "open tanyao and red fives are in force"
ALL = [HAND, TILE, CONF, MELD, DORA, OFFER, FURI, KEEP, OPT]

CFG = ["is_tsumo", "is_riichi", "is_ippatsu", "is_rinshan", "is_chankan", "is_haitei", "is_houtei", "is_daburu_riichi",
       "is_nagashi_mangan", "is_tenhou", "is_renhou", "is_chiihou", "is_open_riichi", "player_wind", "round_wind",
       "kyoutaku_number", "tsumi_number", "paarenchan", "options"]
OPTS = ["has_open_tanyao", "has_aka_dora", "has_double_yakuman", "kazoe_limit", "kiriage", "fu_for_open_pinfu",
        "fu_for_pinfu_tsumo", "renhou_as_yakuman"]
EST = ["tiles", "win_tile", "melds", "dora_indicators", "config"]
MLD = ["meld_type", "tiles", "opened", "called_tile", "who", "from_who"]
STR = ["sou", "pin", "man", "honors", "has_aka_dora"]


def bind(names, a, k):
    r = dict(zip(names, a))
    r.update(k)
    return r


class Obj(object):
    """A third-party object, known by its constructor arguments."""

    def __init__(self, kind, args):
        self.kind = kind
        self.args = args


class Cap(object):
    def __init__(self, I, ok):
        self.calls = []
        self.made = {}
        self.I = I
        self.ok = ok            # verdict chosen for each evaluation
        N = I.natives

        def wrap(kind, names):
            def f(I, a, k):
                t = Term("capture", kind, C.fresh("cap"))
                C.dset(self.made, t, Obj(kind, bind(names, a, k)))
                return t
            return f
        N["mahjong.hand_calculating.hand.HandCalculator"] = lambda I, a, k: Ext("CALC")
        N["CALC.estimate_hand_value"] = self.estimate
        N["mahjong.hand_calculating.hand.HandCalculator.estimate_hand_value"] = self.estimate
        N["mahjong.hand_calculating.hand_config.HandConfig"] = wrap("config", CFG)
        N["mahjong.hand_calculating.hand_config.OptionalRules"] = wrap("options", OPTS)
        N["mahjong.meld.Meld"] = wrap("meld", MLD)
        N["mahjong.tile.TilesConverter.string_to_136_array"] = self.convert
        for nm, v in (("CHI", "chi"), ("PON", "pon"), ("KAN", "kan"), ("SHOUMINKAN", "shouminkan")):
            I.ext_consts["mahjong.meld.Meld." + nm] = v
        for i, nm in enumerate(("EAST", "SOUTH", "WEST", "NORTH")):
            I.ext_consts["mahjong.constants." + nm] = 27 + i

    def convert(self, I, a, k):
        d = bind(STR, a, k)
        aka = d.get("has_aka_dora", False)
        aka = bool(aka) if not isinstance(aka, (Lin, Cond)) else I.truth(aka)
        items = []
        self.order = []
        cnt = {}
        for suit, base in (("man", 0), ("pin", 9), ("sou", 18), ("honors", 27)):
            s = d.get(suit)
            if s is None:
                continue
            if isinstance(s, str):
                parts = [("lit", s)]
            elif isinstance(s, SStr):
                parts = s.parts
            else:
                raise Unsupported("tile string of %r" % (s,))
            for p in parts:
                if p[0] == "lit":
                    seq = [(ch, 1) for ch in p[1]]
                elif p[0] == "rep" and isinstance(p[1], str):
                    seq = [(ch, p[2]) for ch in p[1]]
                else:
                    raise Unsupported("tile string part %r" % (p,))
                for ch, n in seq:
                    if ch in "r0":
                        if suit == "honors" or not aka:
                            I.raise_("ValueError", "red five in honours or without red fives")
                        key = 34 + base // 9
                    else:
                        if not ch.isdigit() or (suit == "honors" and int(ch) > 7):
                            I.raise_("ValueError", "no such tile %s%s" % (ch, suit))
                        key = base + int(ch) - 1
                    cnt[key] = add(cnt.get(key, 0), n)
        for key in sorted(cnt):
            n = C.norm(cnt[key])
            if isinstance(n, (int, float)):
                n = int(n)
                if n < 0:
                    n = 0
            kind = (key - 34) * 9 + 4 if key >= 34 else key
            five = kind < 27 and kind % 9 == 4
            if key >= 34:
                val = 4 * kind
            elif isinstance(n, int):
                first = 1 if five and aka else 0
                for j in range(n):
                    items.append(4 * kind + first + j)
                continue
            else:
                val = add(4 * kind, C.freshvar("copy", 1 if five and aka else 0, 3))
            if isinstance(n, int):
                items.extend([val] * n)
            else:
                items.append(Rep(val, n, C.fresh("tiles")))
        r = OList(items)
        self.tiles = getattr(self, "tiles", {})
        C.dset(self.tiles, id(r), (r, cnt))
        return r

    def estimate(self, I, a, k):
        if a and isinstance(a[0], Ext):
            a = a[1:]
        d = bind(EST, a, k)
        acc = self.ok()
        C.setattr(self, "calls", self.calls + [(d, acc)])
        t = Ext("RESULT%d" % len(self.calls))
        I.ext_consts[t.name + ".error"] = None if acc else "no yaku"
        return t


def tv(I, v):
    return False if v is None else I.truth(v)


def same(I, a, b):
    """Equal as numbers or as truth values."""
    if isinstance(a, Cond) and a == b:
        return True
    if isinstance(a, (bool, Cond)) or isinstance(b, (bool, Cond)) or b is None or a is None:
        bad = []

        def once():
            if tv(I, a) != tv(I, b):
                bad.append(1)
        C.explore(once)
        return not bad
    if isinstance(a, (int, float, Lin)) and isinstance(b, (int, float, Lin)):
        return C.must_equal(a, b)
    return a == b


def keyname(k):
    if k >= 34:
        return "red five of suit %d" % (k - 34)
    return "kind %d" % k


class Eval(object):
    def __init__(self, c, mode, tile, player, symbolic=None):
        self.c = c
        self.mode = mode
        self.tile = tile
        self.kind = tile // 4
        self.keys = [self.kind] + ([34 + self.kind // 9] if tile in (16, 52, 88) else [])
        self.player = player
        self.symbolic = symbolic    # None: every count is symbolic; else the kinds that are
        I = self.I = c.interp()
        I.lazy_repeat = True
        self.verdicts = None
        self.cap = Cap(I, lambda: bool(C.choose(2)))
        self.m = I.load("MahjongAI.utils.agari")
        self.Naki = I.load("MahjongAI.draw").vars["Naki"]
        if FN[mode] not in self.m.vars:
            raise Broken("anchor MahjongAI.utils.agari.%s not found" % FN[mode])

    def hand(self, p):
        I = self.I
        # the winning tile is among a tsumo hand, and comes on top of a ron hand
        plus = 0 if self.mode == "tsumo" else 1
        if self.symbolic is None:
            h = arr.sym("hand%d" % p, (37,), 0, 4)
        else:
            h = arr.fill(0, (37,))
            for k in range(34):
                arr.wr(I, h, (k,), (k * 7 + p) % 3 % 2 if k not in self.symbolic else var("h%d_%d" % (p, k), 0, 4))
            for s in range(3):
                f = 9 * s + 4
                arr.wr(I, h, (34 + s,), var("red%d_%d" % (p, s), 0, 1) if f in self.symbolic else 0)
        for s in range(3):
            f = 9 * s + 4
            if self.symbolic is None:
                arr.wr(I, h, (34 + s,), var("red%d_%d" % (p, s), 0, 1))
            if self.symbolic is None or f in self.symbolic:
                C.assume(C.mk_ge(add(arr.rd(h, (f,)), arr.rd(h, (34 + s,)), -1)), True)
        k = self.kind
        red = 34 + k // 9
        if k < 27 and k % 9 == 4:
            if len(self.keys) == 2:
                arr.wr(I, h, (red,), 1 - plus)
            elif not plus:
                C.assume(C.mk_ge(add(add(arr.rd(h, (k,)), arr.rd(h, (red,)), -1), -1)), True)
        if plus:
            C.assume(C.mk_ge(add(3, arr.rd(h, (k,)), -1)), True)
        else:
            C.assume(C.mk_ge(add(arr.rd(h, (k,)), -1)), True)
        return h

    def args(self, hands, melds, rivers):
        a = dict(player=self.player, hand_tensors_full=OList(hands), naki_list=OList([OList(x) for x in melds]),
                 doras=OList([var("ind%d" % i, 0, 135) for i in range(2)]),
                 reaches=OList([var("reach%d" % q, 0, 1) for q in range(4)]),
                 ippatsu=OList([var("ipp%d" % q, 0, 1) for q in range(4)]),
                 double_reaches=OList([var("dbl%d" % q, 0, 1) for q in range(4)]),
                 is_haitei=C.mk_eq(var("last", 0, 1)),
                 player_wind=self.dealer, round_wind=var("round", 0, 3),
                 kyotaku=var("kyotaku", 0, 20), honba=var("honba", 0, 20))
        if self.mode == "ron":
            a.update(sutehai_tensor=rivers, discarded_tile=self.tile, is_chankan=C.mk_eq(var("robbing", 0, 1)),
                     is_renhou=OList([C.mk_eq(var("ren%d" % q, 0, 1)) for q in range(4)]))
        else:
            a.update(tsumo_tile=self.tile, is_rinshan=C.mk_eq(var("rinshan", 0, 1)),
                     is_tenhou=C.mk_eq(var("tenhou", 0, 1)), is_chiihou=C.mk_eq(var("chiihou", 0, 1)))
        return a

    def run(self, active, melds, rivers, where):
        """One evaluation.  active: seats not barred by their own discards."""
        c, I = self.c, self.I
        mode = self.mode
        hands = [self.hand(p) for p in range(4)]
        snap = [{k: arr.rd(h, (k,)) for k in range(37)} for h in hands]
        nk = [[x[0] for x in m] for m in melds]
        a = self.args(hands, nk, rivers)
        doras = list(a["doras"].items)
        ndora = list(doras)
        meth = mode + ":" + where
        desc = lambda: "%s on tile %d (%s) by seat %d, %s" % (mode, self.tile, keyname(self.keys[-1]), self.player, where)
        self.cap.calls = []
        self.cap.tiles = {}
        ok, r = guarded(c, OFFER, meth, lambda: I.call(self.m.vars[FN[mode]], [], a), desc)
        if not ok:
            return
        calls = self.cap.calls
        want = list(active)
        c.ob(FURI if mode == "ron" else OFFER, len(calls) == len(want), "evaluations:" + mode,
             lambda: "%s: %d hands evaluated, expected seats %s" % (desc(), len(calls), want))
        if len(calls) != len(want):
            return
        offered = list(I.iter_items(r))
        for p, (d, acc) in zip(want, calls):
            self.judge(p, d, acc, snap[p], melds[p], doras, a, desc)
            if mode == "ron":
                got = offered[p] if len(offered) == 4 else None
            else:
                got = offered[0] if len(offered) == 1 else None
            if acc:
                good = isinstance(got, OInst) and got.cls.name == "AgariDecision" and \
                    C.must_equal(I.getattr_(got, "player"), p) and I.getattr_(got, "executed") is False
                c.ob(OFFER, good, "accepted:" + mode, lambda: "%s: seat %d's hand is accepted but the result is %r" % (
                    desc(), p, offered))
            else:
                c.ob(OFFER, got is None and (mode == "ron" or not offered), "refused:" + mode,
                     lambda: "%s: seat %d's hand is refused but a win is offered" % (desc(), p))
        if mode == "ron":
            c.ob(OFFER, len(offered) == 4, "seats", lambda: desc() + ": %d results" % len(offered))
            for q in range(4):
                if q not in want:
                    c.ob(FURI, len(offered) == 4 and offered[q] is None, "barred:" + mode,
                         lambda: "%s: seat %d is offered a ron" % (desc(), q))
        for q in range(4):
            for k in range(37):
                c.ob(KEEP, C.must_equal(arr.rd(hands[q], (k,)), snap[q][k]), "hand:" + mode,
                     lambda: "%s: count %d (%s) of seat %d's hand is %s after the evaluation, was %s" % (
                         desc(), k, keyname(k), q, arr.rd(hands[q], (k,)), snap[q][k]))
            c.ob(KEEP, list(a["naki_list"].items[q].items) == nk[q], "melds:" + mode, desc)
        c.ob(KEEP, list(a["doras"].items) == ndora, "indicators:" + mode, desc)
        c.sample(OFFER, desc())

    def judge(self, p, d, acc, hand, melds, doras, a, desc):
        c, I, mode = self.c, self.I, self.mode
        t = self.cap.tiles.get(id(d.get("tiles")))
        if t is None:
            raise Unsupported("evaluated tiles do not come from the converter")
        cnt = t[1]
        for k in range(37):
            e = hand[k]
            if k < 27 and k % 9 == 4:
                e = add(e, hand[34 + k // 9], -1)
            if mode == "ron" and k == self.keys[-1]:
                e = add(e, 1)
            g = cnt.get(k, 0)
            c.ob(HAND, C.must_equal(g, e), "hand:%s:%s" % (mode, "red five" if k >= 34 else
                 "five" if k < 27 and k % 9 == 4 else "winning kind" if k == self.kind else "kind"),
                 lambda: "%s: seat %d's evaluated hand has %s of %s, expected %s" % (desc(), p, g, keyname(k), e))
        w = d.get("win_tile")
        wk = C.floordiv(w, 4) if isinstance(w, Lin) else w // 4 if isinstance(w, int) else None
        c.ob(TILE, wk is not None and C.must_equal(wk, self.kind), "win_tile:" + mode,
             lambda: "%s: evaluated with winning tile %r" % (desc(), w))
        # melds
        ms = d.get("melds")
        ms = list(I.iter_items(ms)) if ms is not None else []
        c.ob(MELD, len(ms) == len(melds), "number:" + mode,
             lambda: "%s: %d melds evaluated, seat %d has %d" % (desc(), len(ms), p, len(melds)))
        if len(ms) == len(melds):
            left = list(ms)
            for mk in melds:
                for g in left:
                    if self.same_meld(g, mk):
                        left = [x for x in left if x is not g]
                        break
                else:
                    c.fail(MELD, "meld:%s:%s" % (mode, mk[1]), "%s: seat %d's %s (tiles %s%s) is evaluated as %s" % (
                        desc(), p, mk[1], mk[2], ", red five" if mk[3] else "", [self.show(x) for x in left]))
                    break
                c.ok(MELD)
        ind = d.get("dora_indicators")
        ind = list(I.iter_items(ind)) if ind is not None else []
        c.ob(DORA, len(ind) == len(doras) and all(
            isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)) and C.must_equal(x, y) for x, y in zip(ind, doras)),
             "indicators:" + mode, lambda: "%s: indicators %s instead of %s" % (desc(), ind, doras))
        cf = self.cap.made.get(d.get("config"))
        if cf is None or cf.kind != "config":
            c.fail(CONF, "config:" + mode, desc() + ": no configuration is given")
            return
        g = cf.args
        item = lambda n: a[n].items[p]
        ron = mode == "ron"
        E = dict(is_tsumo=not ron, is_riichi=item("reaches"), is_ippatsu=item("ippatsu"),
                 is_daburu_riichi=item("double_reaches"), is_chankan=a["is_chankan"] if ron else False,
                 is_rinshan=False if ron else a["is_rinshan"], is_haitei=False if ron else a["is_haitei"],
                 is_houtei=a["is_haitei"] if ron else False, is_tenhou=False if ron else a["is_tenhou"],
                 is_chiihou=False if ron else a["is_chiihou"], is_renhou=item("is_renhou") if ron else False,
                 is_nagashi_mangan=False, is_open_riichi=False)
        for n, e in sorted(E.items()):
            gv = g.get(n, False)
            c.ob(CONF, same(I, self.asbool(gv), self.asbool(e)), "%s:%s" % (n, mode),
                 lambda: "%s: seat %d is evaluated with %s=%r, expected %r" % (desc(), p, n, gv, e))
        seat = add(27, (p - self.dealer) % 4)
        for n, e in (("player_wind", seat), ("round_wind", add(27, a["round_wind"])),
                     ("kyoutaku_number", a["kyotaku"]), ("tsumi_number", a["honba"])):
            gv = g.get(n, None if "wind" in n else 0)
            c.ob(CONF, gv is not None and same(I, gv, e), "%s:%s" % (n, mode),
                 lambda: "%s: seat %d is evaluated with %s=%r, expected %r" % (desc(), p, n, gv, e))
        o = self.cap.made.get(g.get("options"))
        for n in ("has_open_tanyao", "has_aka_dora"):
            c.ob(OPT, o is not None and o.args.get(n) is True, n, lambda: "%s: %s is %r" % (
                desc(), n, None if o is None else o.args.get(n)))

    def asbool(self, v):
        if isinstance(v, Lin):
            return C.mk_ge(add(v, -1))
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return bool(v)
        return v

    def show(self, t):
        o = self.cap.made.get(t)
        return "?" if o is None else "%s %s%s" % (o.args.get("meld_type"), o.args.get("tiles"),
                                                  "" if o.args.get("opened", True) else " closed")

    def same_meld(self, t, mk):
        o = self.cap.made.get(t)
        if o is None:
            return False
        _, kind, kinds, red = mk
        typ = {"chi": "chi", "pon": "pon", "kakan": ("shouminkan", "kan"), "minkan": "kan", "ankan": "kan"}[kind]
        ty = o.args.get("meld_type")
        if ty != typ and not (isinstance(typ, tuple) and ty in typ):
            return False
        op = o.args.get("opened", True)
        if bool(op) != (kind != "ankan"):
            return False
        ts = list(self.I.iter_items(o.args.get("tiles")))
        if len(ts) != len(kinds):
            return False
        left = list(ts)
        copies = []
        for k in kinds:
            for x in left:
                off = C.norm(add(x, scale(k, 4), -1))
                if isinstance(off, (int, float)) and 0 <= off <= 3 and (kind == "chi" or off not in copies):
                    left.remove(x)
                    copies.append(off)
                    break
            else:
                return False
        if kind in ("chi", "pon") and red is not None:
            has = any(C.must_equal(x, 16) or C.must_equal(x, 52) or C.must_equal(x, 88) for x in ts)
            if kind == "chi" and not has:
                has = any(o == 0 and C.must_equal(self.rank(k), 4) for o, k in zip(copies, kinds))
            if kind == "pon" and not has:
                has = 0 in copies and bool(red)
            if red != has:
                return False
        return True

    def rank(self, k):
        return C.mod(k, 9) if isinstance(k, Lin) else k % 9


def tiles():
    return [4 * k + (1 if k < 27 and k % 9 == 4 else k % 4) for k in range(34)] + [16, 52, 88]


def rivers_of(ev, barred):
    """Discards: the winning kind is in the river of exactly the barred seats, everything else is unknown."""
    I = ev.I
    r = arr.sym("river", (4, 37), 0, 4)
    for q in range(4):
        arr.wr(I, r, (q, ev.kind), 0 if q not in barred else var("own%d" % q, 1, 4))
    return r


def hand_part(c, it):
    mode, tile = it
    player = (tile // 4) % 4
    ev = Eval(c, mode, tile, player)
    ev.dealer = (tile // 4 + tile) % 4

    def body():
        if mode == "tsumo":
            ev.run([player], [[]] * 4, None, "any hand")
            return
        p = (player + 1 + C.choose(3)) % 4
        ev.run([p], [[]] * 4, rivers_of(ev, [q for q in range(4) if q not in (p, player)]), "any hand, seat %d" % p)

    def part(kinds):
        def f():
            ev.symbolic = kinds
            body()
        return f
    try:
        c.explore(ev.I, body, 4000)
    except (Unsupported, Budget) as e:
        c.note = str(e)
        # summarising all counts at once does not go through: partition on them, one kind (and the winning kind) at a time
        ev.I.lazy_repeat = False
        for k in range(34):
            c.explore(ev.I, part({k, ev.kind}), 4000)


def seats_part(c, it):
    mode, tile, player = it
    ev = Eval(c, mode, tile, player, {tile // 4})

    def body():
        ev.dealer = C.choose(4)
        if mode == "tsumo":
            ev.run([player], [[]] * 4, None, "dealer %d" % ev.dealer)
            return
        others = [q for q in range(4) if q != player]
        bar = [q for q in others if C.choose(2)]
        r = rivers_of(ev, bar)
        for q in range(4):
            if q == player:
                arr.wr(ev.I, r, (q, ev.kind), C.choose(2))
        ev.run([q for q in others if q not in bar], [[]] * 4, r, "dealer %d, own discards of %s" % (ev.dealer, bar))
    c.explore(ev.I, body, 20000)


def meld_part(c, it):
    from . import codec
    mode, kind, player = it
    ev = Eval(c, mode, 4 * 31 + 1, player, {31})
    I = ev.I

    def body():
        f = codec.fields(kind)
        five = None
        if kind == "chi":
            C.concretize(f["number"])
            base = add(scale(f["color"], 9), f["number"])
            kinds = [add(base, i) for i in range(3)]
            five = True
        else:
            five = C.truth(C.mk_eq(add(f["number"], -4))) and not C.truth(C.mk_eq(add(f["color"], -3)))
            kinds = [f["tile"]] * (3 if kind == "pon" else 4)
        _, _, red = codec.expected(kind, f)
        own = (I.call(ev.Naki, [f["code"]], {}), kind, kinds, red if five else None)
        other = (I.call(I.getattr_(ev.Naki, "from_ankan_info"), [28], {}), "ankan", [28] * 4, None)
        lst = [[own], [own, other], [other, own]][C.choose(3)]
        p = player if mode == "tsumo" else (player + 1 + C.choose(3)) % 4
        melds = [[] for _ in range(4)]
        melds[p] = lst
        if len(lst) == 2:
            melds[(p + 1) % 4] = [other]      # somebody else's melds do not count
        ev.dealer = (p + 1) % 4
        if mode == "tsumo":
            ev.run([p], melds, None, "%s" % codec.describe(kind, f))
        else:
            ev.run([p], melds, rivers_of(ev, [q for q in range(4) if q not in (p, player)]), codec.describe(kind, f))
    c.explore(I, body, 40000)


def work(c, it):
    {"hand": hand_part, "seats": seats_part, "meld": meld_part}[it[0]](c, it[1])


def check_wins(c):
    L = [("hand", (m, t)) for m in ("ron", "tsumo") for t in tiles()]
    L += [("seats", (m, t, p)) for m in ("ron", "tsumo") for t in (16, 125) for p in range(4)]
    L += [("meld", (m, k, p)) for m, p in (("ron", 1), ("tsumo", 2)) for k in ("chi", "pon", "kakan", "minkan", "ankan")]
    parallel(c, work, L)
    c.explain("evaluate_ron/evaluate_tsumo are interpreted with symbolic hands, rivers, meld codes and circumstances; the "
              "third-party evaluator is replaced by a recorder of its arguments that answers either way, and every "
              "recorded argument is compared with the inputs.")
    c.assumes("the third-party evaluator decides validity correctly from its arguments")
    for r in ALL:
        c.require(r, 10)
