"""Agents (agents/*.py): what the models are trained on, and how.

Every model class of the agents package is interpreted from its constructor to the losses its
forward yields, on recorded rounds whose contents (tokens, prefix length, tile counts, scores,
decisions, which option was taken) are symbolic.  Layers are abstracted by their shape/dtype
contract with opaque values; everything that selects, orders, masks or encodes is exact."""
import ast
import os
from sa.dom import C, Lin, Term, Cond, Var, add, scale, var, Unsupported, Infeasible, mk
from sa.objs import *
from sa import arr, nnmod
from sa.arr import OArr, rd
from .base import Broken, parallel
from . import codec

ACTIONS = {"discard": 37, "during": 71, "post": 154}
CONST = "MahjongAI.utils.constants"


def find_models(c):
    """(module, class, takes a layer count) of every trainable model in the agents package."""
    out = []
    d = os.path.join(c.repo, "MahjongAI", "agents")
    for f in sorted(os.listdir(d)):
        if not f.endswith(".py"):
            continue
        tree = ast.parse(open(os.path.join(d, f), encoding="utf-8").read())
        for n in tree.body:
            if not isinstance(n, ast.ClassDef) or not n.name.endswith("Model"):
                continue
            init = [x for x in n.body if isinstance(x, ast.FunctionDef) and x.name == "__init__"]
            k = 0
            if init:
                a = init[0].args
                k = len(a.args) - 1 - len(a.defaults)
            out.append((f[:-3], n.name, k))
    if len(out) < 4:
        raise Broken("only %d models found in agents/" % len(out))
    return out


class World:
    def __init__(self, c, item, layers=1):
        self.c = c
        self.I = I = c.interp()
        C.deadline = c.t0 + 700
        nnmod.enable(I)
        I.assume_asserts = "unless false"     # an assertion known to fail is an error, others hold
        I.opaque_reduce = True
        self.mod, self.cls, self.nargs = item
        m = I.load("MahjongAI.agents." + self.mod)
        self.model_cls = m.vars[self.cls]
        t = I.load("MahjongAI.turn")
        self.turn = {k: t.vars[k] for k in ("DuringTurn", "DiscardTurn", "PostTurn")}
        d = I.load("MahjongAI.decision")
        self.dec = {k: d.vars[k] for k in ("NakiDecision", "ReachDecision", "AgariDecision")}
        self.naki = I.load("MahjongAI.draw").vars["Naki"]
        self.state_cls = I.load("MahjongAI.state").vars["StateObject"]
        self.consts = I.load(CONST)
        self.layers = layers
        self.top = self.model()
        self._i = [self.consts.vars[k] for k in ("DECISION_AGARI_IDX", "DECISION_REACH_IDX", "DECISION_NAKI_IDX")]

    def model(self):
        return self.I.call(self.model_cls, [self.layers] * self.nargs, {})

    # -- recorded contents ------------------------------------------------
    def tokens(self, name):
        n = var(name + ".len", 0, 150)
        a = arr.sym(name, (n,), 0, 32767, "np", "int64")
        s = Seg([lambda: rd(a, (C.freshvar("ti", 0, 149),))], name)
        s.count = n
        o = OList([s])
        o.tag = ("arr", a)
        return o, a, n

    def state(self, name, player):
        def vec(k, lo, hi):
            return OList([var("%s.%s%d" % (name, k, i), lo, hi) for i in range(4)])
        kw = dict(
            remaining_turns=var(name + ".turns", 0, 70),
            hand_tensor=arr.sym(name + ".hand", (37,), 0, 4, "np", "float32"),
            remaining_tiles=arr.sym(name + ".left", (37,), 0, 4, "np", "float32"),
            remaining_tiles_pov=arr.sym(name + ".unseen", (37,), 0, 4, "np", "float32"),
            sutehai_tensors=arr.sym(name + ".river", (4, 37), 0, 4, "np", "float32"),
            is_menzen=vec("closed", 0, 1), double_reaches=vec("wriichi", 0, 1), reaches=vec("riichi", 0, 1),
            ippatsu=vec("ippatsu", 0, 1), melds=OList([OList([]) for _ in range(4)]), scores=vec("score", -500, 2000),
            kyotaku=var(name + ".kyotaku", 0, 50), honba=var(name + ".honba", 0, 50),
            dora=OList([var(name + ".dora", 0, 135)]), parent_tensor=vec("parent", 0, 1),
            rounds_remaining=var(name + ".rounds", 0, 12), parent_rounds_remaining=vec("prounds", 0, 3),
            remaining_tsumo=var(name + ".tsumo", 0, 70), player=player)
        # a state that holds more than this is fine; one that holds less is not ours to judge
        return self.I.call(self.state_cls, [], kw)

    def made(self, kind, name, state, idx, n, **kw):
        """A recorded turn; the prefix length idx lies within the n tokens of its round."""
        C.assume(C.mk_ge(add(n, idx, -1)), True)
        return self.I.call(self.turn[kind], [], dict(stateObj=state, encoding_idx=idx, **kw))

    def naki_obj(self, kind, tag):
        # numbers without the five: which of the four copies is red is the codec's business
        for v in ("number", "mnumber"):
            var(v + tag, 0, 8)
            C.set_range(var(v + tag, 0, 8).ts[0][0], frozenset((0, 1, 2, 3, 5, 6)))
        for v, hi in (("which", 2), ("whichm", 3), ("unused", 3), ("added", 3)):
            C.set_range(var(v + tag, 0, hi).ts[0][0], frozenset((1,)))
        if self.c.tier == "quick":
            C.set_range(var("mcolor" + tag, 0, 3).ts[0][0], frozenset((0, 1, 2)))
        f = codec.fields(kind, tag)
        return self.I.call(self.naki, [f["code"]], {})

    def options(self, p, agari, reach, kinds, taken, tag):
        """(decision lists of one player, [(slot, executed)]) ; taken: index of the executed option or None."""
        I = self.I
        lists = [OList([]), OList([]), OList([])]
        opts = []
        k = [0]

        def ex():
            k[0] += 1
            return k[0] - 1 == taken
        a, r, m = self._i
        if agari:
            e = ex()
            lists[a].items.append(I.call(self.dec["AgariDecision"], [p, e], {}))
            opts.append((1, e))
        if reach:
            e = ex()
            lists[r].items.append(I.call(self.dec["ReachDecision"], [p, e], {}))
            opts.append((2, e))
        for kind in kinds:
            e = ex()
            o = self.naki_obj(kind, tag)
            lists[m].items.append(I.call(self.dec["NakiDecision"], [p, o, e], {}))
            f = "get_during_turn_filter_idx" if kind in ("kakan", "ankan") else "get_post_turn_filter_idx"
            opts.append((C.norm(I.call(I.getattr_(o, f), [], {})), e))
        return OList(lists), opts

    # -- recorded turns + what each must contribute --------------------------
    def during(self, name, rnd, player, spec):
        st = self.state(name, player)
        d, opts = self.options(player, *spec, tag=name)
        t = self.made("DuringTurn", name, st, var(name + ".idx", 0, 149), rnd[2], player=player, decisions=d)
        want = []
        if opts:
            want.append(self.sample("during", name, rnd, t, st, player, [0] + [s for s, _ in opts],
                                    next((s for s, e in opts if e), 0)))
        return t, want

    def discard(self, name, rnd, player, red=False):
        st = self.state(name, player)
        y = var(name + ".kind", 0, 33)
        x = add(scale(y, 4), var(name + ".copy", 0 if red else 1, 3))
        t = self.made("DiscardTurn", name, st, var(name + ".idx", 0, 149), rnd[2], player=player, discarded_tile=x)
        h = st.attrs["hand_tensor"]
        # the discarded kind is in the hand it is discarded from
        C.assume(C.mk_ge(add(rd(h, (y,)), -1)), True)
        return t, [self.sample("discard", name, rnd, t, st, player, h, y)]

    def post(self, name, rnd, player, specs):
        st = self.state(name, player)
        lists, want = [], []
        per = {}
        for p in range(4):
            l, o = self.options(p, *specs.get(p, (0, 0, (), None)), tag=name + str(p))
            lists.append(l)
            per[p] = o
        t = self.made("PostTurn", name, st, var(name + ".idx", 0, 149), rnd[2], player=player, decisions=OList(lists))
        for p in list(range(player + 1, 4)) + list(range(0, player)):
            o = per[p]
            if not o:
                continue
            want.append(self.sample("post", name, rnd, t, st, p, [0] + [s for s, _ in o],
                                    next((s for s, e in o if e), 0)))
            if any(e for _, e in o):
                break
        return t, want

    def sample(self, head, name, rnd, t, st, p, legal, label):
        return dict(head=head, name=name, tok=rnd[1], len=rnd[2], idx=t.attrs["encoding_idx"], st=st, player=p,
                    owner=st.attrs["player"], legal=legal, label=label)

    # -- running ------------------------------------------------------------
    def run(self, games, **kw):
        """games: [[(turns, tokens)]] ; returns the observed phases."""
        I = self.I
        model = self.top
        ht = OList([OList([OList(list(t)) for t, _ in g]) for g in games])
        tk = OList([OList([r[0] for _, r in g]) for g in games])
        n0 = len(I.effects())
        out = I.call(model, [ht, tk], kw)
        yields = list(I.iter_items(out))
        return self.observe(I.effects()[n0:], yields)

    def observe(self, eff, yields):
        """Group what the model's parts received by the loss they led to."""
        phases, cur, calls = [], [], []
        for e in eff:
            if e[0] == "nn.call" and e[3 + 1] == 1:
                cur.append(e)
            elif e[0] == "nn.loss":
                phases.append(self.phase(cur, e))
                cur = []
        if cur and not phases:
            pass
        return phases, yields

    def phase(self, calls, loss):
        toks, states, masks, ones = [], [], [], []

        def walk(x):
            if isinstance(x, (tuple, OList)):
                l = list(x) if isinstance(x, tuple) else x.items
                if len(l) == 3 and all(isinstance(a, OArr) for a in l):
                    states.append(tuple(l))
                    return
                for a in l:
                    walk(a)
            elif isinstance(x, OArr):
                n = len(x.shape)
                if n == 2 and C.must_equal(x.shape[1], 150):
                    toks.append(x)
                elif n == 2 and x.shape[1] in ACTIONS.values():
                    masks.append(x)
                elif n == 1:
                    ones.append(x)
        for e in calls:
            for a in list(e[2]) + list(e[3].values()):
                walk(a)
        y = loss[2]
        other = [x for x in ones if x is not y and x.store is not y.store]
        return dict(logits=loss[1], y=y, kw=loss[3], tok=toks, state=states, mask=masks, player=other, calls=calls)


MASKED = -1e9 + 1


def masked(v):
    """Is this logit forced to (at most) -1e9?  True / False (a head output) / None."""
    v = C.norm(v) if isinstance(v, Lin) else v
    if isinstance(v, (int, float)):
        return v <= MASKED
    if isinstance(v, Lin):
        if v.c <= MASKED and all(abs(k) <= 1 for _, k in v.ts):
            return True
        if v.c == 0 and len(v.ts) == 1 and v.ts[0][1] == 1:
            return False
    return None


def generic(label, n):
    return C.freshvar(label, 0, n - 1)


def where(w, s):
    return "%s.%s %s" % (w.mod, w.cls, s["head"])


def by_head(W, phases):
    """{head: phase} with the head identified by the width of its logits."""
    out = {}
    for ph in phases:
        a = C.norm(ph["logits"].shape[1])
        h = {v: k for k, v in ACTIONS.items()}.get(a)
        out.setdefault(h, []).append(ph)
    return out


def same(v, e):
    if isinstance(v, Cond):
        d = C.decide(v)
        if d is None:
            d = C.truth(v)
        v = int(d)
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, (int, float)) and isinstance(e, (int, float)):
        return v == e
    return isinstance(v, (int, float, Lin)) and isinstance(e, (int, float, Lin)) and C.must_equal(v, e)


def check_rows(W, want, phases, rules):
    """Compare what was fed to the loss with the samples the rounds must contribute."""
    c = W.c
    heads = by_head(W, phases)
    tag = "%s.%s" % (W.mod, W.cls)
    for h in ACTIONS:
        exp = [s for s in want if s["head"] == h]
        got = heads.get(h, [])
        if "rows" in rules:
            n = [C.norm(p["logits"].shape[0]) for p in got]
            ok = (len(got) == 1 and n[0] == len(exp)) if exp else not got
            c.ob("one sample per decision", ok, "%s %s" % (tag, h),
                 "%d decision(s) of this kind recorded (%s), batches with %s row(s) trained on"
                 % (len(exp), [s["name"] for s in exp], n))
        if not exp or len(got) != 1 or C.norm(got[0]["logits"].shape[0]) != len(exp):
            continue
        ph = got[0]
        if len(ph["tok"]) < 1 or len(ph["state"]) < 1:
            raise Broken("token or state tensors of the %s phase not recognised in %s" % (h, tag))
        for r, s in enumerate(exp):
            for f in rules:
                if f != "rows":
                    RULES[f](W, ph, r, s)


def r_label(W, ph, r, s):
    c = W.c
    v = rd(ph["y"], (r,))
    c.ob("label is the option taken", same(v, s["label"]), where(W, s),
         "row %d (%s, player %s): label %s, the recorded choice is slot %s" % (r, s["name"], s["player"], v, s["label"]))


def r_mask(W, ph, r, s):
    """Each option is open iff it was offered."""
    c = W.c
    n = ACTIONS[s["head"]]
    for lab, lg in (("logits", ph["logits"]),):
        def go():
            a = generic("act", n)
            if isinstance(s["legal"], OArr):
                open_ = C.truth(C.mk_ge(add(rd(s["legal"], (a,)), -1)))
            else:
                open_ = False
                for k in s["legal"]:
                    if C.truth(C.mk_eq(add(a, k, -1))):
                        open_ = True
                        break
            v = rd(lg, (r, a))
            m = masked(v)
            if open_:
                c.ob("offered options stay open", m is False, where(W, s),
                     "row %d (%s): the offered option %s has logit %s" % (r, s["name"], a, v))
            else:
                c.ob("options not offered are masked", m is True, where(W, s),
                     "row %d (%s): option %s was not offered but its logit is %s" % (r, s["name"], a, v))
        C.explore(go)


def r_tokens(W, ph, r, s):
    c = W.c
    for tk in ph["tok"]:
        def go():
            j = generic("pos", 150)
            before = C.truth(C.mk_ge(add(add(s["idx"], j, -1), -1)))
            if before:
                C.assume(C.mk_ge(add(add(s["len"], j, -1), -1)), True)
            v = rd(tk, (r, j))
            if before:
                c.ob("prefix is the recorded tokens", same(v, rd(s["tok"], (j,))), where(W, s),
                     "row %d (%s): position %s before the decision (prefix %s) holds %s" % (r, s["name"], j, s["idx"], v))
            else:
                c.ob("nothing after the decision", same(v, 0), where(W, s),
                     "row %d (%s): position %s at or after the decision (prefix %s) holds %s instead of padding"
                     % (r, s["name"], j, s["idx"], v))
        C.explore(go)


def planes(st, ordered):
    """Documented planes of the tile input: hand, unseen, own river | all rivers from the own seat on."""
    h, u, rv, p = (st.attrs[k] for k in ("hand_tensor", "remaining_tiles_pov", "sutehai_tensors", "player"))
    out = [("hand", lambda k: rd(h, (k,))), ("unseen tiles", lambda k: rd(u, (k,)))]
    if ordered:
        for i in range(4):
            out.append(("river of seat +%d" % i, lambda k, i=i: rd(rv, ((p + i) % 4, k))))
    else:
        out.append(("own river", lambda k: rd(rv, (p, k))))
    return out


X2 = ("scores", "parent_tensor", "parent_rounds_remaining", "double_reaches", "reaches", "ippatsu", "is_menzen")
X3 = ("remaining_tsumo", "kyotaku", "honba", "rounds_remaining")


def r_state(W, ph, r, s):
    c, I = W.c, W.I
    st = s["st"]
    x1, x2, x3 = ph["state"][0]
    n1 = C.norm(x1.shape[1])
    ordered = n1 == 6
    exp = planes(st, ordered)
    own = s["player"] == s["owner"]
    rule = "state features are the deciding player's" if own else "state features are the turn's recorded state"
    if n1 != len(exp) or C.norm(x1.shape[2]) != 37 or [C.norm(d) for d in x2.shape[1:]] != [7, 4] \
            or [C.norm(d) for d in x3.shape[1:]] != [4]:
        c.fail(rule, where(W, s), "feature tensors have shapes %s %s %s" % (list(x1.shape), list(x2.shape), list(x3.shape)))
        return
    if not own:
        # the only state a call decision comes with is the discarder's
        c.fail("state features are the deciding player's", where(W, s),
               "row %d (%s): player %d decides, but the features (hand, unseen tiles) are those of the discarder, player %d"
               % (r, s["name"], s["player"], s["owner"]))
    for i, (nm, f) in enumerate(exp):
        def go():
            k = generic("kind", 37)
            e = f(k)
            if len(x1.shape) == 4:
                q = generic("copy", 4)
                v = rd(x1, (r, i, k, q))
                e = int(C.truth(C.mk_ge(add(add(e, q, -1), -1))))
                if isinstance(v, Cond):
                    v = int(C.truth(v))
            else:
                v = rd(x1, (r, i, k))
            c.ob(rule, same(v, e), where(W, s) + " plane %d" % i,
                 "row %d (%s): plane %d (%s) holds %s instead of %s" % (r, s["name"], i, nm, v, e))
        C.explore(go)
    for i, nm in enumerate(X2):
        src = st.attrs[nm]
        for j in range(4):
            e = src.items[j] if isinstance(src, OList) else rd(src, (j,))
            v = rd(x2, (r, i, j))
            c.ob(rule, same(v, e), where(W, s) + " " + nm,
                 "row %d (%s): %s of seat %d is %s instead of %s" % (r, s["name"], nm, j, v, e))
    for i, nm in enumerate(X3):
        v = rd(x3, (r, i))
        c.ob(rule, same(v, st.attrs[nm]), where(W, s) + " " + nm,
             "row %d (%s): %s is %s instead of %s" % (r, s["name"], nm, v, st.attrs[nm]))


def r_player(W, ph, r, s):
    for p in ph["player"]:
        v = rd(p, (r,))
        W.c.ob("seat tensor is the deciding player", same(v, s["player"]), where(W, s),
               "row %d (%s): player %s decides, the seat given to the encoder is %s" % (r, s["name"], s["player"], v))


RULES = {"label": r_label, "mask": r_mask, "tokens": r_tokens, "state": r_state, "player": r_player}


# ---------------------------------------------------------------- scenarios
def during_specs():
    out = []
    for a in (0, 1):
        for r in (0, 1):
            for kinds in ((), ("kakan",), ("ankan",), ("kakan", "ankan")):
                n = a + r + len(kinds)
                for t in [None] + list(range(n)):
                    out.append((a, r, kinds, t))
    return out


FEW = [(1, 1, (), None), (0, 0, ("kakan", "ankan"), 1), (1, 0, (), 0)]


def post_specs(rich):
    out = []
    for a in (0, 1):
        for kinds in (((), ("pon",), ("pon", "minkan")) if rich else ((), ("minkan",))):
            n = a + len(kinds)
            for t in [None] + list(range(n)):
                out.append((a, 0, kinds, t))
    return out


def scene_during(W, player):
    r0, r1, r2 = W.tokens("A"), W.tokens("B"), W.tokens("C")
    specs = FEW if W.few else during_specs()
    s = specs[C.choose(len(specs), "options")]
    d0, w0 = W.discard("a0", r0, (player + 1) % 4)
    d1, w1 = W.during("a1", r0, player, s)
    d2, w2 = W.during("a2", r0, (player + 2) % 4, (1, 0, (), 0))
    d3, w3 = W.during("b0", r1, player, (0, 1, (), None))
    d4, w4 = W.during("c0", r2, (player + 3) % 4, (0, 0, ("ankan",), 0))
    games = [[((d0, d1, d2), r0), ((d3,), r1)], [((d4,), r2)]]
    return games, w0 + w1 + w2 + w3 + w4


def scene_discard(W, player):
    r0, r1, r2 = W.tokens("A"), W.tokens("B"), W.tokens("C")
    d0, w0 = W.discard("a0", r0, player)
    d1, w1 = W.post("a1", r0, player, {})
    d2, w2 = W.discard("a2", r0, (player + 1) % 4, True)
    d3, w3 = W.discard("b0", r1, (player + 2) % 4)
    d4, w4 = W.discard("c0", r2, player)
    games = [[((d0, d1, d2), r0)], [((d3,), r1), ((), r2), ((d4,), r2)]]
    return games, w0 + w1 + w2 + w3 + w4


def scene_post(W, player, focus):
    """focus: the player with every combination of options (the others: none or one fixed), or None:
    every combination of {nothing, a win passed on, a meld called} for all three."""
    r0, r1 = W.tokens("A"), W.tokens("B")
    others = [p for p in range(4) if p != player]
    few = [(0, 0, (), None), (1, 0, (), None), (0, 0, ("minkan",), 0)]
    specs = {}
    for p in others:
        l = few if focus is None else ([few[1], few[2]] if W.few else post_specs(True)) if p == focus else few[:1]
        specs[p] = l[C.choose(len(l), ("options of", p))] if len(l) > 1 else l[0]
    if focus is not None and (W.few or C.choose(2, "another")):
        specs[others[0] if others[0] != focus else others[1]] = few[1]
    d0, w0 = W.post("a0", r0, player, specs)
    d1, w1 = W.discard("a1", r0, player)
    d2, w2 = W.post("b0", r1, (player + 1) % 4, {player: (1, 0, (), None)})
    games = [[((d0, d1), r0)], [((d2,), r1)]]
    return games, w0 + w1 + w2


def items(c, few=False):
    out = []
    for m in find_models(c):
        out.append((m, "nothing", 0, None))
        for p in range(4):
            out.append((m, "during", p, None))
            out.append((m, "discard", p, None))
            for f in ((p + 1) % 4, (p + 2) % 4, (p + 3) % 4) if few else (None, (p + 1) % 4, (p + 2) % 4, (p + 3) % 4):
                out.append((m, "post", p, f))
    return out


def play(c, item, rules, few=False):
    m, kind, player, focus = item
    W = World(c, m)
    W.few = few

    def go():
        if kind == "during":
            games, want = scene_during(W, player)
        elif kind == "discard":
            games, want = scene_discard(W, player)
        elif kind == "nothing":
            r = W.tokens("A")
            t = W.post("a0", r, 0, {})[0]
            games = [[], [[]], [[((), r)]], [[((t,), r)], []]][C.choose(4, "games")]
            want = []
        else:
            games, want = scene_post(W, player, focus)
        try:
            phases, ys = W.run(games)
        except PyRaise as e:
            c.fail("batches are built", "%s.%s %s" % (m[0], m[1], kind),
                   "%s %s at %s" % (e.exc.cls.name, e.exc.attrs.get("args"), e.loc))
            return
        c.ok("batches are built")
        check_rows(W, want, phases, rules)
    c.explore(W.I, go)


def common(c, rules, few=False):
    its = items(c, few)
    its.sort(key=lambda i: i[1] != "during")
    c.assumes("half-turns, states and tokens are as the log reader records them (C01-C20): counts 0..4 per kind, 37 "
              "tile slots, at most one executed option per player")
    c.assumes("torch and numpy operations have their documented shape, dtype, indexing and broadcasting semantics")
    parallel(c, lambda cc, it: play(cc, it, rules, few), its)
    c.explain("model classes analysed: %d; scenes (model, kind of half-turn, player, focus): %d" % (
        len(find_models(c)), len(its)))
    return its


def check_samples(c):
    common(c, ("rows", "label"))
    for r in ("batches are built", "one sample per decision", "label is the option taken"):
        c.require(r, 100)


def check_tokens(c):
    common(c, ("tokens",))
    for r in ("prefix is the recorded tokens", "nothing after the decision"):
        c.require(r, 100)


def check_state(c):
    common(c, ("state", "player"), few=True)
    for r in ("state features are the deciding player's", "state features are the turn's recorded state",
              "seat tensor is the deciding player"):
        c.require(r, 50)


def check_masks(c):
    common(c, ("mask",))
    for r in ("offered options stay open", "options not offered are masked"):
        c.require(r, 100)


def check_network(c):
    ms = find_models(c)
    parallel(c, lambda cc, it: net_forward(cc, *it), [(m, l) for m in ms for l in ((1, 2, 3) if m[2] else (1,))])
    c.assumes("batches have the component shapes of one real sample of each kind; their sizes are arbitrary")
    for r in ("every batch size runs", "one loss per kind of decision", "rows stay together",
              "samples do not influence each other", "layers used are parameters of the model"):
        c.require(r, 20)


def check_embedding(c):
    parallel(c, lambda cc, m: embedding(cc, m), find_models(c))
    c.assumes("tokens have the fields the log encoder emits (C11, C12); rows of an embedding table are distinct")
    for r in ("events are told apart", "empty slots are zero", "the position is embedded"):
        c.require(r, 20)


# ---------------------------------------------------------------- the network, for any batch size
class Net:
    """A model whose batches are symbolic tensors of unknown size."""

    def __init__(self, c, item, layers=1):
        self.W = W = World(c, item, layers)
        self.c, self.I = c, W.I
        # shapes and dtypes of the batches, from one sample of each kind
        got = []

        def go():
            ht, tk = self.game()
            f, self.qual = self.builder()
            got.append(self.skeleton(W.I.call(f, [ht, tk], {})))
        C.explore(go)
        self.skel = got[0]
        self.ordered = all(sum(x == ("T", (), x[2]) for x in s) == 2 for s in self.skel)
        W.I.overrides[self.qual] = lambda I, a, k: self.batches()
        self.content = {}

    def game(self):
        """One game with one sample of each kind."""
        W = self.W
        r = W.tokens("A")
        a, _ = W.during("a", r, 0, (1, 0, (), 0))
        b, _ = W.discard("b", r, 0)
        d, _ = W.post("d", r, 0, {1: (1, 0, (), 0)})
        return OList([OList([OList([a, b, d])])]), OList([OList([r[0]])])

    def builder(self):
        I = self.I
        for v in self.W.top.attrs.values():
            if isinstance(v, OInst) and v.cls.lookup("prepare_batches"):
                f = v.cls.lookup("prepare_batches")
                return BoundMethod(v, f), f.qual
        raise Broken("anchor prepare_batches of %s not found" % self.W.cls)

    def skeleton(self, v):
        if isinstance(v, OList):
            v = tuple(v.items)
        if isinstance(v, tuple):
            return tuple(self.skeleton(x) for x in v)
        if isinstance(v, OArr):
            if not v.shape or C.norm(v.shape[0]) != 1:
                raise Broken("batch tensors of one sample have shape %s" % (list(v.shape),))
            return ("T", tuple(C.norm(d) for d in v.shape[1:]), v.dtype)
        raise Broken("unexpected batch component %r" % (v,))

    def heads(self):
        return [self.head_of(s) for s in self.skel]

    def head_of(self, s):
        for x in s:
            if x[0] == "T" and len(x[1]) == 1 and x[1][0] in ACTIONS.values():
                return {v: k for k, v in ACTIONS.items()}[x[1][0]]
        raise Broken("no action mask among the batch tensors")

    def size(self, h):
        return var("B." + h, 0, 100000)

    def batches(self):
        self.tensors = {}
        out = []
        for s in self.skel:
            h = self.head_of(s)
            n = self.size(h)
            k = [0]

            def build(x):
                if x and x[0] == "T":
                    k[0] += 1
                    return self.tensor(h, k[0], (n,) + x[1], x[2])
                return tuple(build(y) for y in x)
            out.append(build(s))
        return tuple(out)

    def tensor(self, h, i, shape, dtype):
        nm = "%s#%d" % (h, i)
        if len(shape) == 2 and shape[1] == 150 and "tok" in self.content:
            a = arr.fn(lambda idx: self.content["tok"](idx), shape, "torch", dtype)
        elif len(shape) == 1 and "player" in self.content:
            a = arr.fn(lambda idx: self.content["player"](idx), shape, "torch", dtype)
        elif len(shape) == 2 and shape[1] in ACTIONS.values():
            a = arr.sym(nm, shape, 0, 1, "torch", dtype)
        elif dtype == "int64" or len(shape) == 2 and shape[1] == 150:
            a = arr.sym(nm, shape, 0, 32767 if len(shape) == 2 else 3, "torch", dtype)
        else:
            a = arr.sym(nm, shape, None, None, "torch", dtype)
        self.tensors[nm] = a
        return a

    def forward(self, **kw):
        I = self.I
        n0 = len(I.effects())
        out = I.call(self.W.top, list(self.game()), kw)
        ys = list(I.iter_items(out))
        return self.W.observe(I.effects()[n0:], ys) + (I.effects()[n0:],)


def key_of(v, name):
    """Row of the original tensor an element was read from."""
    v = C.norm(v) if isinstance(v, Lin) else v
    if isinstance(v, Lin) and v.c == 0 and len(v.ts) == 1 and v.ts[0][1] == 1:
        t = v.ts[0][0].name
        if isinstance(t, Term) and t.op == "el" and isinstance(t.args[0], str) and t.args[0].startswith(name):
            k = t.args[1]
            return t.args[0], (k.args[0] if isinstance(k, Term) else k)
    return None


def net_forward(c, item, layers=1):
    """Rules: every non-empty kind of decision yields one loss on exactly its samples, for any batch size;
    no operation mixes samples; every layer used is part of the model."""
    N = Net(c, item, layers)
    W, I = N.W, N.I
    tag = "%s.%s" % (W.mod, W.cls)

    def go():
        sample = C.choose(2, "sample")
        kw = {"sample": True, "sample_size": 1000} if sample else {}
        try:
            phases, ys, eff = N.forward(**kw)
        except PyRaise as e:
            c.fail("every batch size runs", tag, "%s %s at %s" % (e.exc.cls.name, e.exc.attrs.get("args"), e.loc))
            return
        c.ok("every batch size runs")
        hs = by_head(W, phases)
        c.ob("(logits, loss) pairs", len(ys) == len(phases) and all(
            isinstance(y, (tuple, OList)) and len(list(I.iter_items(y))) == 2 for y in ys), tag,
             "%d losses computed, %d results yielded" % (len(phases), len(ys)))
        registered = {m.oid for m in nnmod.modules(I, W.top)}
        for e in eff:
            if e[0] == "nn.layer":
                c.ob("layers used are parameters of the model", e[1].oid in registered, tag,
                     "a %s used in the forward pass is not a registered submodule" % e[1].cls.name)
            if e[0] == "maybe_squeezed":
                c.fail("every batch size runs", tag, "squeeze drops the batch axis for a single sample at %s" % e[2])
        for h in N.heads():
            n = N.size(h)
            c0 = C.decide(C.mk_eq(n))
            got = hs.get(h, [])
            if c0 is None:
                c.fail("one loss per kind of decision", "%s %s" % (tag, h), "the forward pass does not depend on "
                       "whether there are %s samples" % h)
                continue
            c.ob("one loss per kind of decision", len(got) == (0 if c0 else 1), "%s %s" % (tag, h),
                 "%s %s sample(s): %d losses" % ("no" if c0 else "some", h, len(got)))
            if c0 or len(got) != 1:
                continue
            one_phase(c, N, tag, h, n, got[0], ys, sample)
    c.explore(I, go)


def one_phase(c, N, tag, h, n, ph, ys, sample):
    W, I = N.W, N.I
    lg, y, kw = ph["logits"], ph["y"], ph["kw"]
    where = "%s %s" % (tag, h)
    c.ob("samples do not influence each other", not lg.bmix, where, "logits of one sample depend on the others: %s" % lg.bmix)
    ok = kw["weight"] is None and kw["reduction"] == "mean" and not (
        isinstance(kw["label_smoothing"], (int, float)) and kw["label_smoothing"] != 0)
    ign = kw["ignore_index"]
    ok = ok and not (isinstance(ign, int) and 0 <= ign < ACTIONS[h])
    c.ob("loss is the mean cross entropy of the labels", ok, where, "cross_entropy called with %s" % (
        {k: v for k, v in kw.items() if k not in ("loss", "loc")},))
    pair = [q for q in ys if list(I.iter_items(q))[1] is kw["loss"]]
    c.ob("the yielded pair is the batch's", len(pair) == 1 and list(I.iter_items(pair[0]))[0] is lg, where,
         "the loss and the logits it was computed from are not yielded together")
    # which rows
    b = C.norm(lg.shape[0])
    if sample and not C.must_equal(b, n):
        c.ob("at most sample_size samples", C.must_equal(b, 1000), where, "%s rows kept of %s" % (b, n))
    elif sample:
        c.ob("at most sample_size samples", C.decide(C.mk_ge(add(1000, n, -1))) is True, where,
             "all of %s rows kept" % n)
    else:
        c.ob("no row is left out", C.must_equal(b, n), where, "%s rows kept of %s" % (b, n))
    arrs = list(ph["tok"]) + [x for t in ph["state"][:1] for x in t] + list(ph["mask"]) + list(ph["player"]) + [y]
    want = [k for k in N.tensors if k.startswith(h + "#")]
    r = C.freshvar("row", 0, None)
    C.assume(C.mk_ge(add(add(b, r, -1), -1)), True)
    rows, seen = [], []
    for a in arrs:
        ix = (r,) + tuple(C.freshvar("ix", 0, C.norm(d) - 1) for d in a.shape[1:])
        k = key_of(rd(a, ix), h + "#")
        if k is None:
            c.fail("rows stay together", where, "a tensor of the %s batch is not made of its rows: %r" % (h, rd(a, ix)))
            return
        seen.append(k[0])
        rows.append(k)
    c.ob("every tensor of the batch is used", sorted(set(seen)) == sorted(want), where,
         "used: %s, prepared: %s" % (sorted(set(seen)), sorted(want)))
    for nm, k in rows:
        c.ob("rows stay together", C.must_equal(k, rows[0][1]), where,
             "row %s of %s is used with row %s of %s" % (k, nm, rows[0][1], rows[0][0]))
    k = rows[0][1]
    if C.must_equal(b, n):
        c.ob("rows are distinct", C.must_equal(k, r) or is_perm(k, r), where, "row %s taken at position %s" % (k, r))
    else:
        c.ob("rows are distinct", is_perm(k, r), where,
             "row %s taken at position %s: not a selection without repetition" % (k, r))


def is_perm(k, r):
    k = C.norm(k) if isinstance(k, Lin) else k
    if isinstance(k, Lin) and k.c == 0 and len(k.ts) == 1 and k.ts[0][1] == 1:
        t = k.ts[0][0].name
        if isinstance(t, Term) and t.op == "el" and isinstance(t.args[0], Term) and t.args[0].op == "perm":
            i = t.args[1]
            i = i.args[0] if isinstance(i, Term) else i
            return C.must_equal(i, r)
    return False


# ---------------------------------------------------------------- token embedding
# kind -> (state type, event type, value range); tokens as the log encoder emits them (C15-C18)
TOKENS = {
    "discard": (1, 1, "tile", 0, 33),
    "dora": (4, 4, "tile", 0, 33),
    "own-turn call": (2, 2, "action", 3, 70),
    "riichi": (2, 3, None, 2, 2),
    "call": (3, 2, "action", 2, 153),
}


def embedding(c, item, layers=1):
    """Rules: different recorded events get different embeddings, empty slots the zero vector."""
    N = Net(c, item, layers)
    W, I = N.W, N.I
    tag = "%s.%s" % (W.mod, W.cls)
    order = ["empty"] + sorted(TOKENS)
    seen = {}

    def go():
        kind = order[C.choose(len(order), "token kind")]
        who = C.choose(4, "seat") if kind not in ("empty", "dora") else 0
        giri = C.choose(2, "tsumogiri") if kind == "discard" else 0
        player = C.choose(4, "deciding player")
        if kind == "empty":
            tok = 0
        else:
            s, e, f, lo, hi = TOKENS[kind]
            tok = s * 8192 + e * 1024 + who * 256 + giri * 128
            tok = add(tok, var(f + " of " + kind, lo, hi)) if f else tok + lo
        N.content = {"tok": lambda ix: tok, "player": lambda ix: player}
        for h in N.heads():
            C.assume(C.mk_ge(add(N.size(h), -1)), True)
        name = "%s %s" % (tag, kind)
        try:
            _, _, eff = N.forward()
        except PyRaise as e:
            c.fail("every recorded event can be embedded", name, "%s %s at %s" % (
                e.exc.cls.name, e.exc.attrs.get("args"), e.loc))
            return
        c.ok("every recorded event can be embedded")
        sigs = first_inputs(eff)
        if len(sigs) < len(N.heads()):
            raise Broken("%s: the embedded token sequence does not reach a layer" % tag)
        for x in sigs:
            for col in (0, 1):
                v = rd(x, (var("b", 0, None), var("pos", 0, 149), col))
                if kind == "empty":
                    c.ob("empty slots are zero", isinstance(v, (int, float)) and v == 0 or C.must_equal(v, 0), name,
                         "the embedding of an empty slot is %s" % (v,))
                    continue
                g = signature(v)
                if g is None:
                    c.fail("events are told apart", name, "the embedding is not a sum of table rows: %s" % (v,))
                    continue
                const, byvar = g
                need = {"pos"} | ({"%s of %s" % (TOKENS[kind][2], kind)} if TOKENS[kind][2] else set())
                for q in need:
                    c.ob("the %s is embedded" % ("position" if q == "pos" else "tile or action"),
                         len(byvar.get(q, ())) == 1, name, "%s: %s" % (
                             "the embedding does not depend one to one on it" if not byvar.get(q)
                             else "several table rows depend on it", v))
                seen.setdefault((col, player), {}).setdefault((kind, who, giri), set()).add(
                    (const, tuple(sorted((q, tuple(sorted(t))) for q, t in byvar.items()))))
    c.explore(I, go)
    for (col, player), d in sorted(seen.items()):
        back = {}
        for k, g in sorted(d.items()):
            c.ob("an event has one embedding", len(g) == 1, "%s %s" % (tag, k[0]),
                 "seat %d tsumogiri %d is embedded in %d ways" % (k[1], k[2], len(g)))
            for s in g:
                if s in back and back[s] != k:
                    c.fail("events are told apart", "%s %s" % (tag, k[0]),
                           "%s and %s have the same embedding (deciding player %d)" % (back[s], k, player))
                else:
                    c.ok("events are told apart")
                back[s] = k
        if N.ordered:
            for k, g in d.items():
                if k[0] == "dora":
                    ref = seen[col, 0].get(k)
                else:
                    ref = seen[col, 0].get((k[0], (k[1] - player) % 4, k[2]))
                c.ob("seats are seen from the deciding player", ref == g, "%s %s" % (tag, k[0]),
                     "seat %d seen by player %d is not embedded as the seat %d places after player 0" % (
                         k[1], player, (k[1] - player) % 4))


def first_inputs(eff):
    """The (B, 150, E) tensor entering the first layer of each encoder run."""
    out, take = [], True
    for e in eff:
        if e[0] == "nn.layer" and e[2] and isinstance(e[2][0], OArr):
            x = e[2][0]
            if len(x.shape) == 3 and C.norm(x.shape[1]) == 150:
                if take:
                    out.append(x)
                take = False
        elif e[0] == "nn.loss":
            take = True
    return out


def signature(v):
    """(rows not depending on an unknown, {unknown: rows depending one to one on it}) of a sum of table rows."""
    v = C.norm(v) if isinstance(v, Lin) else v
    if isinstance(v, (int, float)):
        return (), {}
    if isinstance(v, Term):
        terms = [v]
    elif isinstance(v, Lin):
        if v.c != 0 or any(k != 1 for _, k in v.ts):
            return None
        terms = [x.name for x, _ in v.ts]
    else:
        return None
    const, byvar = [], {}
    for t in terms:
        if not isinstance(t, Term) or t.op not in ("emb", "el"):
            return None
        tab = "%s" % (t.args[0],)
        i = t.args[1]
        i = i.args[0] if isinstance(i, Term) and i.op == "i" else i
        i = C.norm(i) if isinstance(i, Lin) else i
        if isinstance(i, int):
            const.append((t.op, tab, i))
        elif isinstance(i, Lin) and len(i.ts) == 1 and abs(i.ts[0][1]) == 1:
            byvar.setdefault(str(i.ts[0][0].name), []).append((t.op, tab, i.ts[0][1], i.c))
        else:
            return None
    return tuple(sorted(const)), byvar
