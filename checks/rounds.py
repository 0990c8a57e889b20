"""Transition harness: what the log reader records while it plays a script of events.

`Round` runs process() on  INIT, <any draws and discards>, script  and exposes, per script event,
the half-turn, state, tokens and the arguments of the win/call evaluation.  `Track` is the oracle:
it carries the effect every event has by the rules from one observation of a quantity to the next."""
from sa.dom import C, Lin, Term, Cond, Var, add, scale, var, Infeasible, Unsupported
from sa.objs import *
from sa import arr
from .base import Broken, fork_explore
from . import proc
from .proc import Meld, ss

REDS = (16, 52, 88)


def kinds(t):
    """Tensor indices a physical tile occupies: kind, and the red slot for a red five."""
    t = C.norm(t)
    if isinstance(t, int):
        return [t // 4] + ([34 + REDS.index(t)] if t in REDS else [])
    k = C.floordiv(t, 4)
    if all(x % 36 == 0 for _, x in t.ts) and (t.c - 16) % 36 == 0:
        return [k, add(C.floordiv(add(t, 16, -1), 36), 34)]
    lo = C.truth(C.mk_eq(C.mod(t, 4)))
    if not lo:
        return [k]
    for i, r in enumerate(REDS):
        if C.truth(C.mk_eq(add(t, r, -1))):
            return [r // 4, 34 + i]
    return [k]


def plain(label, vals=None):
    """Any non-red tile: copy 1 of any kind."""
    return add(scale(C.freshvar(label, 0, 33, vals), 4), 1)


def red(label):
    return add(scale(C.freshvar(label, 0, 2), 36), 16)


def deep(x):
    """Rewrite array-element symbols whose index has become known since."""
    if not isinstance(x, Lin):
        return x
    x = C.norm(x)
    if not isinstance(x, Lin):
        return x
    out = x.c
    seen = []
    for v, k in x.ts:
        n = v.name
        if isinstance(n, Term) and n.op == "el":
            args = []
            for a in n.args:
                if isinstance(a, Term) and a.op == "i":
                    b = C.norm(a.args[0])
                    a = Term("i", b) if isinstance(b, Lin) else b
                args.append(a)
            m = Term("el", *args)
            if m is not n:
                v = Var(m, v.rng)
            for w in seen:
                if same_index(w.name, v.name):
                    v = w
                    break
            else:
                seen.append(v)
        out = add(out, Lin(0, ((v, k),)))
    return C.norm(out)


def same_index(a, b):
    """Two element symbols of one array whose indices are equal on this partition."""
    if a is b:
        return True
    if a.op != "el" or b.op != "el" or a.args[0] != b.args[0] or len(a.args) != len(b.args):
        return False
    for x, y in zip(a.args[1:], b.args[1:]):
        x = x.args[0] if isinstance(x, Term) else x
        y = y.args[0] if isinstance(y, Term) else y
        if C.decide(C.mk_eq(add(x, y, -1))) is not True:
            return False
    return True


class Rec:
    pass


class Round(proc.Proc):
    def __init__(self, c):
        super().__init__(c)
        C.part_max = 100
        self.evals = []
        self.calls = []
        self.offers = None      # fn(round, n, bound) -> list of 4 lists of decisions
        self.wins = None        # fn(round, n, name, bound) -> value
        self.sh = None          # value of the shanten solver
        self.nhist = 0
        self.min_left = 4       # draws left in the script's states (0: the end of the wall is reached)

    def top(self):
        """Are we past the history?  (The fixpoint runs in nested explorations.)"""
        return len(C.expl) == self.depth

    def on_new(self, I, o):
        if o.cls is self.StateObject:
            v = o.attrs.get("remaining_tsumo")
            if isinstance(v, (int, Lin)):       # a round has 70 draws
                C.assume(C.mk_ge(add(v, -(self.min_left if self.top() else 0))), True)

    def snap(self, v):
        if isinstance(v, arr.OArr):
            return ("arr", arr.freeze(v), v.shape)
        if isinstance(v, OList):
            return [self.snap(x) for x in v.items]
        if isinstance(v, tuple):
            return [self.snap(x) for x in v]
        return v

    def on_eval(self, name, b):
        if self.top():
            self.evals.append((name, {k: self.snap(v) for k, v in b.items()}, b))
            if self.wins is not None:
                r = self.wins(self, len(self.evals) - 1, name, b)
                if r is not None:
                    return r
        return super().on_eval(name, b)

    def on_calls(self, b):
        if self.top():
            self.calls.append([self.snap(v) for v in b])
            if self.offers is not None:
                r = self.offers(self, len(self.calls) - 1, b)
                if r is not None:
                    return r
        return super().on_calls(b)

    # ---------------------------------------------------------------- run
    def play(self, script, history="TD", init=None, tail=None, header=None, pre=()):
        """script: list of event tuples.  Returns the record, or None for a rejected log."""
        self.evals, self.calls = [], []
        self.depth = len(C.expl)
        els = []
        for e in script:
            k = e[0]
            els.append({"T": lambda: self.T(e[1], e[2]), "D": lambda: self.D(e[1], e[2]),
                        "N": lambda: self.N(e[1], e[2]), "R": lambda: self.REACH(e[1], e[2]),
                        "dora": lambda: self.DORA(e[1])}[k]())
        self.script_melds = [e[2] for e in script if e[0] == "N"]
        init = init if init is not None else self.INIT()
        items = list(header or self.header()) + list(pre) + [init]
        if history:
            items.append(self.history(history))
        items += els
        items += tail if tail is not None else [self.RYUU()]
        try:
            r = self.run(items)
        except PyRaise as x:
            rec = Rec()
            rec.exc = x
            return rec
        return self.record(script, r, bool(history), bool(pre))

    def rounds(self, r):
        I = self.I
        if not isinstance(r, tuple) or len(r) != 2:
            raise Broken("process does not return (half-turns, tokens)")
        return I.iter_items(r[0]), I.iter_items(r[1])

    def record(self, script, r, hist, pre=False, rnd=-1):
        hts, toks = self.rounds(r)
        rec = Rec()
        rec.exc = None
        rec.nrounds = (len(hts), len(toks))
        h = hts[rnd].items if isinstance(hts[rnd], OList) else list(hts[rnd])
        t = toks[rnd].items if isinstance(toks[rnd], OList) else list(toks[rnd])
        rec.allh, rec.allt = h, t
        kinds_ = []         # (event index, kind)
        ntok = []           # (event index)
        ev, ca = [], []
        for i, e in enumerate(script):
            if e[0] == "T":
                kinds_.append((i, "DuringTurn"))
                ev.append((i, "evaluate_tsumo"))
            elif e[0] == "D":
                kinds_ += [(i, "DiscardTurn"), (i, "PostTurn")]
                ntok.append(i)
                ev.append((i, "evaluate_ron"))
                ca.append(i)
            elif e[0] == "N":
                ntok.append(i)
                if e[2].kind == "kakan":
                    kinds_.append((i, "PostTurn"))
                    ev.append((i, "evaluate_ron"))
            elif e[0] == "R" and e[2] == 2:
                ntok.append(i)
            elif e[0] == "dora":
                ntok.append(i)
        rec.want_h, rec.want_t = kinds_, ntok
        rec.script = script
        rec.seg = hist and any(isinstance(x, Seg) for x in h)
        n = len(kinds_)
        rec.h = h[len(h) - n:] if hist else h
        rec.t = t[len(t) - len(ntok):] if hist else t
        rec.tpre = t[:len(t) - len(ntok)]
        m = len(ev)
        rec.ev_want, rec.ca_want = ev, ca
        rec.ntok = self.I.length(toks[rnd])
        rec.ev = self.evals[-m:] if m and (hist or pre) else self.evals
        rec.ca = self.calls[-len(ca):] if ca and (hist or pre) else self.calls
        # per-event view
        rec.turns = {}
        rec.aligned = len(rec.h) == n and all(
            isinstance(x, OInst) and x.cls.name == k for x, (_, k) in zip(rec.h, kinds_))
        if rec.aligned:
            for x, (i, k) in zip(rec.h, kinds_):
                rec.turns[(i, k)] = x
        rec.evat, rec.caat = {}, {}
        rec.ev_ok = len(rec.ev) == m and all(a[0] == b[1] for a, b in zip(rec.ev, ev))
        if rec.ev_ok:
            for x, (i, _) in zip(rec.ev, ev):
                rec.evat[i] = x
        rec.ca_ok = len(rec.ca) == len(ca)
        if rec.ca_ok:
            for x, i in zip(rec.ca, ca):
                rec.caat[i] = x
        # the state in force after event i
        rec.state = {}
        nxt = None
        for i in range(len(script) - 1, -1, -1):
            e = script[i]
            if e[0] == "D":
                nxt = rec.turns.get((i, "DiscardTurn"))
            elif e[0] in "TN":
                o = rec.turns.get((i, "DuringTurn")) or rec.turns.get((i, "PostTurn"))
                o = o or (nxt if e[0] == "N" and e[2].kind in ("chi", "pon") else None)
                if o is not None:
                    rec.state[i] = o.attrs.get("stateObj")
                if e[0] == "T":
                    nxt = None
        return rec


def show(e):
    if e[0] == "T":
        return "draw by %d" % e[1]
    if e[0] == "D":
        return "discard by %d" % e[1]
    if e[0] == "N":
        return "%s by %d" % (e[2].kind, e[1])
    if e[0] == "R":
        return "riichi step %d by %d" % (e[2], e[1])
    return "new dora"


class Track:
    """Oracle for one script: expected changes per quantity since its last observation."""

    def __init__(self, rnd, c, rec, name, rules):
        self.R = rnd
        self.c = c
        self.rec = rec
        self.name = name
        self.rules = rules          # quantity group -> rule name, only these are compared
        self.last = {}
        self.roles = {}
        self.named = set()
        self.pend = {}

    # -- effects
    def eff(self, q, *op):
        self.pend.setdefault(q, []).append(op)

    def apply(self, i, e):
        k = e[0]
        if k == "T":
            p, t = e[1], e[2]
            for x in kinds(t):
                self.eff(("hand", p), "add", x, 1)
                self.eff(("full", p), "add", x, 1)
                self.eff(("wall",), "add", x, -1)
                self.eff(("pov", p), "add", x, -1)
            self.eff(("left",), "inc", -1)
        elif k == "D":
            p, t = e[1], e[2]
            for x in kinds(t):
                self.eff(("hand", p), "add", x, -1)
                self.eff(("full", p), "add", x, -1)
                for q in range(4):
                    if q != p:
                        self.eff(("pov", q), "add", x, -1)
                self.eff(("river",), "set", (p, x), 1)
            self.eff(("ippatsu",), "put", p, 0)
        elif k == "N":
            p, m = e[1], e[2]
            for t in m.exposed:
                for x in kinds(t):
                    self.eff(("hand", p), "add", x, -1)
                    for q in range(4):
                        if q != p:
                            self.eff(("pov", q), "add", x, -1)
            if m.called is not None:
                for x in kinds(m.called):
                    self.eff(("full", p), "add", x, 1)
            if m.src != 0:
                self.eff(("menzen",), "put", p, 0)
            for q in range(4):
                self.eff(("ippatsu",), "put", q, 0)
            if m.kind == "kakan":
                self.eff(("melds", p), "replace", m)
            else:
                self.eff(("melds", p), "append", m)
        elif k == "R" and e[2] == 2:
            p = e[1]
            self.eff(("reaches",), "put", p, 1)
            self.eff(("double",), "free", p)
            self.eff(("ippatsu",), "put", p, 1)
            self.eff(("sticks",), "inc", 1)
            self.eff(("scores",), "inc", p, -10)
        elif k == "dora":
            for x in kinds(e[1]):
                self.eff(("wall",), "add", x, -1)
                for q in range(4):
                    self.eff(("pov", q), "add", x, -1)
            self.eff(("doras",), "append", e[1])

    # -- comparison
    def verdict(self, rule, diff, where, what):
        """diff is the difference between the recorded and the expected value."""
        if isinstance(diff, Cond):
            diff = self.R.I.cond_num(diff)
        diff = deep(diff)
        if diff == 0:
            self.c.ok(rule)
            return
        if isinstance(diff, Lin):
            if any("head" in repr(v) or "el(" in repr(v) and "headst" in repr(v) for v, _ in diff.ts):
                lo, hi = C.bounds(diff)
                if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                    pass
                elif self.crossed(diff):
                    what += " (another quantity)"
                else:
                    raise Unsupported("%s: difference %r undetermined" % (where, diff))
            elif not C.truth(C.mk_eq(diff)):
                pass
            else:
                self.c.ok(rule)
                return
        self.c.fail(rule, "%s: %s" % (self.name, where), "%s (off by %r)" % (what, diff))

    def role(self, q, v):
        """Remember which loop-carried array held quantity q when it was first observed."""
        if q in self.named:
            return
        self.named.add(q)
        if isinstance(v, arr.OArr):
            b = v.store.base
        elif isinstance(v, tuple) and v and v[0] == "arr":
            b = getattr(v[1], "base", None)
        else:
            return
        if b and b[0] == "sym" and isinstance(b[1], Term):
            self.roles.setdefault(b[1], set()).add(q)

    def crossed(self, diff):
        """Does the difference only relate the arrays of different quantities?  (They are unrelated histories.)"""
        ws = []
        for v, _ in diff.ts:
            v = v.name
            if not (isinstance(v, Term) and v.op == "el" and v.args[0] in self.roles):
                return False
            ws.append(self.roles[v.args[0]])
        return len(ws) > 1 and all(not (a & b) for i, a in enumerate(ws) for b in ws[:i])

    def obs(self, group, q, v, where):
        """A value of quantity q was observed."""
        self.role(q, v)
        if group not in self.rules:
            return
        rule = self.rules[group]
        v = self.R.snap(v) if not (isinstance(v, tuple) and v and v[0] == "arr") else v
        old = self.last.get(q)
        ops = self.pend.pop(q, [])
        self.last[q] = v
        if old is None:
            return
        # a local case split: its partitions do not multiply with those of the other obligations
        C.explore(lambda: self.compare(rule, q, old, ops, v, where))

    def compare(self, rule, q, old, ops, v, where):
        nm = q[0] + ("[%d]" % q[1] if len(q) > 1 else "")
        if isinstance(v, tuple) and v[0] == "arr":
            shape = v[2]
            if len(old) != 3 or old[2] != shape:
                self.c.fail(rule, "%s: %s" % (self.name, where), "%s changes its shape" % nm)
                return
            keys = []
            for op in ops:
                k = op[1] if isinstance(op[1], tuple) else (op[1],)
                k = tuple(C.norm(x) for x in k)
                if k not in keys:
                    keys.append(k)
            gen = tuple(C.freshvar("any", 0, d - 1) for d in shape)
            for k in keys:
                c = arr.keys_equal(gen, k)
                if c is True:
                    continue
                if c is not False and C.truth(c):
                    gen = None
                    break
            for k in keys + ([gen] if gen is not None else []):
                for _ in (1, 2):        # decide aliasing with earlier writes first
                    old[1](k), v[1](k)
                    k = arr.norm_key(k)
                want = old[1](k)
                for op in ops:
                    ok = op[1] if isinstance(op[1], tuple) else (op[1],)
                    same = arr.keys_equal(k, tuple(C.norm(x) for x in ok))
                    if same is not True and (same is False or not C.truth(same)):
                        continue
                    want = add(want, op[2]) if op[0] == "add" else op[2]
                got = v[1](k)
                self.verdict(rule, add(self.num(got), self.num(want), -1), where,
                             "%s at %r is %r, expected %r" % (nm, k, got, want))
        elif isinstance(v, list) and q[0] in ("melds", "doras"):
            want = list(old)
            for op in ops:
                if op[0] == "append":
                    want.append(op[1])
                elif op[0] == "replace":
                    m = op[1]
                    want = [x for x in want if not (self.mk(x)[0] == "pon" and C.must_equal(self.mk(x)[1], m.tile))]
                    want.append(m)
            same = len(v) == len(want)
            if same:
                for a, b in zip(v, want):
                    if a is b:
                        continue
                    if q[0] == "melds":
                        same = same and self.mk(a)[2] == self.mk(b)[2]
                    else:
                        self.verdict(rule, add(a, b, -1), where, "%s holds %r, expected %r" % (nm, a, b))
            if not same:
                self.c.fail(rule, "%s: %s" % (self.name, where),
                            "%s is %s, expected %s" % (nm, self.desc(v), self.desc(want)))
            else:
                self.c.ok(rule)
        elif isinstance(v, list):
            want = list(old)
            for op in ops:
                if op[0] == "free":
                    want[op[1]] = v[op[1]]
                elif op[0] == "put":
                    want[op[1]] = op[2]
                else:
                    want[op[1]] = add(want[op[1]], op[2])
            if len(v) != len(want):
                self.c.fail(rule, "%s: %s" % (self.name, where), "%s changes its length" % nm)
                return
            for i, (a, b) in enumerate(zip(v, want)):
                self.verdict(rule, add(self.num(a), self.num(b), -1), where,
                             "%s of player %d is %r, expected %r" % (nm, i, a, b))
        else:
            want = old
            for op in ops:
                want = add(want, op[1])
            self.verdict(rule, add(self.num(v), self.num(want), -1), where, "%s is %r, expected %r" % (nm, v, want))

    def num(self, x):
        if isinstance(x, Cond):
            return self.R.I.cond_num(x)
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, float) and x == int(x):
            return int(x)
        return x

    def mk(self, x):
        if isinstance(x, Meld):
            return (x.kind, x.tile, x.ident)
        a = x.attrs
        return (a.get("%kind"), a.get("%tile"), a.get("convenient_naki_code"))

    def desc(self, l):
        out = []
        for x in l:
            out.append("%s/%s" % self.mk(x)[::2] if isinstance(x, (Meld, OInst)) else repr(x))
        return "[" + ", ".join(out) + "]"

    # -- walk
    def walk(self):
        rec = self.rec
        for i, e in enumerate(rec.script):
            self.apply(i, e)
            where = "after event %d (%s)" % (i + 1, show(e))
            st = rec.state.get(i)
            if st is not None and e[0] in "TN":
                self.state(st, e[1], where)
            x = rec.evat.get(i)
            if x is not None:
                self.eval(x, e, where)
            x = rec.caat.get(i)
            if x is not None:
                w = where + " offering calls"
                for p, h in enumerate(x[1] if isinstance(x[1], list) else []):
                    self.obs("hand", ("hand", p), h, w)

    def state(self, st, p, where):
        a = st.attrs
        o = self.obs
        w = where + " in the recorded state"
        o("hand", ("hand", p), a["hand_tensor"], w)
        o("wall", ("wall",), a["remaining_tiles"], w)
        o("pov", ("pov", p), a["remaining_tiles_pov"], w)
        o("river", ("river",), a["sutehai_tensors"], w)
        o("left", ("left",), a["remaining_tsumo"], w)
        if "left" in self.rules:
            self.verdict(self.rules["left"], add(a["remaining_turns"], a["remaining_tsumo"], -1), w,
                         "remaining_turns differs from remaining_tsumo")
        o("flags", ("menzen",), a["is_menzen"], w)
        o("flags", ("double",), a["double_reaches"], w)
        o("flags", ("reaches",), a["reaches"], w)
        o("flags", ("ippatsu",), a["ippatsu"], w)
        o("money", ("scores",), a["scores"], w)
        o("money", ("sticks",), a["kyotaku"], w)
        o("fixed", ("honba",), a["honba"], w)
        o("doras", ("doras",), a["dora"], w)
        o("fixed", ("parent",), a["parent_tensor"], w)
        o("fixed", ("rounds_remaining",), a["rounds_remaining"], w)
        o("fixed", ("parent_rounds_remaining",), a["parent_rounds_remaining"], w)
        if "melds" in self.rules:
            ml = a["melds"]
            for q in range(4):
                o("melds", ("melds", q), self.R.I.iter_items(ml)[q], w)
        if "who" in self.rules:
            self.verdict(self.rules["who"], add(a["player"], p, -1), w, "the state belongs to another player")

    def eval(self, x, e, where):
        b = x[1]
        o = self.obs
        w = where + " evaluating wins"

        def get(k):
            return b.get(k)
        f = b.get("hand_tensors_full")
        if isinstance(f, list):
            for p, h in enumerate(f):
                o("efull", ("full", p), h, w)
        n = b.get("naki_list")
        if isinstance(n, list) and "emelds" in self.rules:
            for p, l in enumerate(n):
                o("emelds", ("melds", p), l if isinstance(l, list) else self.R.snap(l), w)
        for grp, q, key in (("eriver", "river", "sutehai_tensor"), ("edoras", "doras", "doras"),
                            ("eflags", "reaches", "reaches"), ("eflags", "ippatsu", "ippatsu"),
                            ("eflags", "double", "double_reaches"), ("emoney", "sticks", "kyotaku"),
                            ("emoney", "honba", "honba")):
            if key in b:
                o(grp, (q,), b[key], w)
