"""Calls offered on a discard (decision.decision_mask): C06."""
from sa.dom import C, Lin, add, scale, var, Unsupported
from sa.objs import OList, PyRaise, OInst
from sa import arr
from .base import Broken, parallel
from .codec import guarded


def ge(x, k):
    return C.truth(C.mk_ge(add(x, -k)))


def c06(c):
    c.explain("The call generator is interpreted for one caller with a symbolic hand (a count per tile kind plus the "
              "red-five flags), symbolic suit and every rank/seat class; the set of offered calls is compared with "
              "the rule-derived set in both directions, as canonical codes.")
    c.assumes("a hand holds 0-4 of a kind, at most one red five per suit counted within its kind; the discarded tile "
              "is not also in a hand")
    parallel(c, work, list(range(9)) + ["honor"])
    c.require("offered", 60)


def work(c, n):
    I = c.interp()
    m = I.load("MahjongAI.decision")
    d = I.load("MahjongAI.draw")
    if "decision_mask" not in m.vars:
        raise Broken("anchor MahjongAI.decision.decision_mask not found")
    Naki = d.vars["Naki"]

    def con(name, *a):
        return C.norm(I.getattr_(I.call(I.getattr_(Naki, name), list(a), {}), "convenient_naki_code"))

    def body():
        player = C.choose(4)
        rel = 1 + C.choose(3)
        p = (player + rel) % 4
        if n == "honor":
            t = var("honor", 27, 33)
            color = None
            five = False
        else:
            color = var("color", 0, 2)
            t = add(scale(color, 9), n)
            five = n == 4
        is_red = bool(C.choose(2)) if five else False
        hand = arr.sym("hand", (37,), 0, 4)
        red = 0
        if color is not None:
            rk = add(color, 34)
            arr.wr(I, hand, (rk,), 0 if is_red else var("red", 0, 1))
            red = arr.rd(hand, (rk,))
            h5 = arr.rd(hand, (add(scale(color, 9), 4),))
            C.assume(C.mk_ge(add(h5, red, -1)), True)
        cnt = arr.rd(hand, (t,))
        C.assume(C.mk_ge(add(scale(cnt, -1), 3)), True)
        hands = []
        for q in range(4):
            if q == p:
                hands.append(hand)
            elif q == player:
                hands.append(arr.fill(1, (37,)))
            else:
                hands.append(arr.fill(0, (37,)))
        desc = lambda: "discard %s%s by seat %d, caller seat %d" % (
            "honor" if color is None else "rank %d (suit symbolic)" % (n + 1), " red" if is_red else "", player, p)
        cl = "rank%s" % ("-honor" if n == "honor" else n + 1)
        ok, r = guarded(c, "offered", "decision_mask:" + cl, lambda: I.call(
            m.vars["decision_mask"], [player, OList(hands), t, is_red], {}), desc)
        if not ok:
            return
        r = list(I.iter_items(r))
        c.ob("shape", len(r) == 4, "lists:" + cl, desc)
        for q in range(4):
            if q != p and q < len(r):
                l = list(I.iter_items(r[q]))
                c.ob("nobody-else", not l, "seat%d-relative" % ((q - player) % 4),
                     lambda: "%s: seat %d, holding %s, is offered %d calls" % (
                         desc(), q, "the discard itself" if q == player else "nothing", len(l)))
        got = []
        for x in I.iter_items(r[p]):
            c.ob("fresh", I.getattr_(x, "executed") is False, "executed:" + cl,
                 lambda: desc() + ": offered call already marked executed")
            c.ob("owner", C.must_equal(I.getattr_(x, "player"), p), "player:" + cl,
                 lambda: desc() + ": call attributed to seat %r" % (I.getattr_(x, "player"),))
            got.append(C.norm(I.getattr_(I.getattr_(x, "naki"), "convenient_naki_code")))
        # ---- rule-derived set
        exp = []
        who = (player - p) % 4
        if rel == 1 and color is not None:
            for w in range(3):
                base = n - w
                if base < 0 or base > 6:
                    continue
                others = [base + i for i in range(3) if i != w]
                cs = [arr.rd(hand, (add(scale(color, 9), o),)) for o in others]
                if not all(ge(x, 1) for x in cs):
                    continue
                if five:
                    exp.append((con("from_chi_info", color, base, w, is_red), "chi"))
                elif 4 in others:
                    if ge(red, 1):
                        exp.append((con("from_chi_info", color, base, w, True), "chi with the red five"))
                    if ge(add(h5, red, -1), 1):
                        exp.append((con("from_chi_info", color, base, w, False), "chi with a plain five"))
                else:
                    exp.append((con("from_chi_info", color, base, w, False), "chi"))
        if ge(cnt, 2):
            if is_red:
                exp.append((con("from_pon_info", t, 0, True, who), "pon of a red five"))
            elif five:
                if ge(red, 1):
                    exp.append((con("from_pon_info", t, 1, True, who), "pon with the red five"))
                if ge(add(cnt, red, -1), 2):
                    exp.append((con("from_pon_info", t, 0, False, who), "pon with plain fives"))
            else:
                exp.append((con("from_pon_info", t, 0, False, who), "pon"))
        if ge(cnt, 3):
            exp.append((con("from_minkan_info", t, who, 0 if is_red else 1), "open kan"))
        left = list(exp)
        for g in got:
            for i, (e, _) in enumerate(left):
                if C.must_equal(g, e):
                    del left[i]
                    c.ok("offered")
                    break
            else:
                c.fail("offered", "spurious:" + cl, "%s: offers code %r which the rules do not allow here (allowed: %s)"
                       % (desc(), g, [k for _, k in exp]))
        for e, k in left:
            c.fail("offered", "missing:%s:%s" % (cl, k), "%s: %s (code %r) is possible but not offered" % (
                desc(), k, e))
        if exp:
            c.sample("offered", desc() + " -> " + ", ".join(k for _, k in exp))
    c.explore(I, body)
