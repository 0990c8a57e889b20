"""Harness for process_xml.process: an abstract log, contract summaries of the other modules, and
an observer recording what the module produces.

The log is   header, INIT, <any sequence of events>, script, result   where the middle part is an
unknown number of events of every kind (loop fixpoint) and the script is a short run of events of
known kind whose tiles are symbolic."""
import os
from sa.dom import C, Lin, Term, Cond, Var, add, scale, var, Infeasible, Unsupported
from sa.objs import *
from sa import objs as _o
from sa import arr
from .base import Broken

PX = "MahjongAI.process_xml"
NOFIVE = [k for k in range(34) if k not in (4, 13, 22)]
DRAW, DISC = "TUVW", "DEFG"


def ss(*ps):
    out = []
    for p in ps:
        if isinstance(p, str):
            out.append(("lit", p))
        elif isinstance(p, (int, Lin)):
            out.append(("int", p))
        else:
            out.append(p)
    return mkstr(out)


class Meld:
    """Contract of a decoded meld (decided for the codec by C01-C05)."""

    def __init__(self, kind, tile=None, exposed=(), called=None, src=0, number=0, which=0, red=False, ident=0):
        self.kind = kind            # chi pon kakan minkan ankan
        self.tile = tile            # lowest tile kind 0-33 (Lin allowed)
        self.exposed = list(exposed)    # physical ids
        self.called = called
        self.src = src
        self.number = number
        self.which = which
        self.red = red
        self.ident = ident          # canonical code (distinct integer)


class Proc:
    def __init__(self, c, seg=True):
        self.c = c
        self.seg = seg
        I = self.I = c.interp()
        I.sum_filter = True
        I.assume_asserts = True
        I.merge_empty = True
        self.melds = {}
        self.obs = []               # observed events (trailed)
        self.setup()
        self.m = I.load(PX)
        if "process" not in self.m.vars:
            raise Broken("anchor %s.process not found" % PX)
        self.StateObject = I.load("MahjongAI.state").vars.get("StateObject")
        if self.StateObject is None:
            raise Broken("anchor MahjongAI.state.StateObject not found")

    # ------------------------------------------------------------ stubs
    def setup(self):
        I = self.I
        self.Elem = ClassVal("Element", [Ext("%Element")], {})
        N = I.natives

        def parse(I, a, k):
            t = OInst(ClassVal("ElementTree", [Ext("%Tree")], {}))
            t.attrs["%root"] = self.root
            return t
        N["xml.etree.ElementTree.parse"] = parse
        N["xml.etree.ElementTree.fromstring"] = lambda I, a, k: self.root
        N["%Tree.getroot"] = lambda I, a, k: a[0].attrs["%root"]
        N["%Tree.findall"] = lambda I, a, k: N["%Element.findall"](I, [a[0].attrs["%root"]] + a[1:], k)
        N["%Tree.find"] = lambda I, a, k: N["%Element.find"](I, [a[0].attrs["%root"]] + a[1:], k)
        N["%Tree.iter"] = lambda I, a, k: N["%Element.iter"](I, [a[0].attrs["%root"]] + a[1:], k)
        N["%Element.%items%"] = lambda I, o: list(o.attrs["%ch"].items)
        N["%Element.__len__"] = lambda I, a, k: I.length(a[0].attrs["%ch"])

        def findall(I, a, k):
            out = []
            tag = a[1]
            for x in a[0].attrs["%ch"].items:
                if isinstance(x, Seg):
                    continue          # the unknown part holds play events only
                if x.attrs["tag"] == tag:
                    out.append(x)
            return OList(out)
        N["%Element.findall"] = findall

        def find(I, a, k):
            r = findall(I, a, k)
            return r.items[0] if r.items else None
        N["%Element.find"] = find
        N["%Element.iter"] = lambda I, a, k: OIter([a[0]] + list(a[0].attrs["%ch"].items))
        N["%Element.get"] = lambda I, a, k: a[0].attrs["attrib"].d.get(a[1], a[2] if len(a) > 2 else None)
        N["%Element.items"] = lambda I, a, k: OList([(x, y) for x, y in a[0].attrs["attrib"].d.items()])
        self.codec()
        self.externals()
        I.new_hooks.append(self.on_new)

    def codec(self):
        """Meld decoding replaced by its contract."""
        O = self.I.overrides
        Q = "MahjongAI.draw.Naki."
        KINDS = ("chi", "pon", "kakan", "minkan", "ankan")

        def init(I, a, k):
            code = a[1] if len(a) > 1 else k.get("naki_code")
            o = a[0]
            C.dset(o.attrs, "naki_code", code)
            t = code
            while isinstance(t, Lin):
                cc, ts = t.c, t.ts
                if len(ts) == 1 and isinstance(ts[0][0], Var):
                    t = ts[0][0].name
                else:
                    break
            s = t
            while isinstance(s, Term) and s.op != "mcode":
                s = next((x for x in s.args if isinstance(x, Term)), None)
            if isinstance(t, Term) and isinstance(s, Term):
                m = self.meld_of(s.args)
            elif t in self.melds:
                m = self.melds[t]
            else:
                raise Unsupported("meld code %r at %s" % (code, I.loc()))
            for kk, v in vars_of(m):
                C.dset(o.attrs, kk, v)

        def vars_of(m):
            return (("%kind", m.kind), ("%src", m.src), ("%tile", m.tile), ("%exposed", OList(m.exposed)),
                    ("%called", m.called), ("%pat", (m.number, m.which, m.red)), ("convenient_naki_code", m.ident))
        O[Q + "__init__"] = init
        for kd in KINDS:
            O[Q + "is_" + kd] = lambda I, a, k, kd=kd: a[0].attrs["%kind"] == kd
        O[Q + "from_who"] = lambda I, a, k: a[0].attrs["%src"]

        def exposed(I, a, k):
            at = a[0].attrs
            return (OList(list(at["%exposed"].items)), at["%called"])
        O[Q + "get_exposed"] = exposed

        def color(o):
            t = o.attrs["%tile"]
            return C.floordiv(t, 9), C.mod(t, 9)

        def chi(I, a, k):
            o = a[0]
            co, nu = color(o)
            n, w, r = o.attrs["%pat"]
            ex, cl = o.attrs["%exposed"], o.attrs["%called"]
            return (co, nu, w, r, OList(list(ex.items)), cl)

        def pon(I, a, k):
            o = a[0]
            co, nu = color(o)
            n, w, r = o.attrs["%pat"]
            return (co, nu, w, r, OList(list(o.attrs["%exposed"].items)), o.attrs["%called"])

        def kan(I, a, k):
            o = a[0]
            co, nu = color(o)
            n, w, r = o.attrs["%pat"]
            return (co, nu, w, r, OList(list(o.attrs["%exposed"].items)), o.attrs["%called"])
        O[Q + "pattern_chi"] = chi
        O[Q + "pattern_pon"] = pon
        O[Q + "pattern_kakan"] = kan
        O[Q + "pattern_minkan"] = kan
        O[Q + "pattern_ankan"] = kan

        def fidx(name, base):
            def f(I, a, k):
                at = a[0].attrs
                c = at["convenient_naki_code"]
                if isinstance(c, int) and c >= 1000:
                    return base + c - 1000
                return C.freshvar("fidx", 3, 153)
            return f
        O[Q + "get_post_turn_filter_idx"] = fidx("post", 40)
        O[Q + "get_during_turn_filter_idx"] = fidx("during", 40)

        def made(kind):
            def f(I, a, k):
                Naki = I.load("MahjongAI.draw").vars["Naki"]
                o = OInst(Naki)
                f2 = I.load("MahjongAI.draw").vars["Naki"].lookup("from_%s_info" % kind)
                if isinstance(f2, StaticM):
                    f2 = f2.func
                b = I.bind(f2, a, k)
                m = Meld(kind)
                m.tile = b.get("tile")
                m.src = b.get("from_who", 0)
                m.which = b.get("which", 0)
                m.red = b.get("has_red", False)
                m.ident = self.offer_ident(kind, b)
                for kk, v in vars_of(m):
                    o.attrs[kk] = v
                o.attrs["naki_code"] = m.ident
                return o
            return f
        for kd in KINDS:
            O[Q + "from_%s_info" % kd] = made(kd)

    def offer_ident(self, kind, b):
        """Canonical code of a meld the module constructs itself."""
        t = C.norm(b.get("tile")) if b.get("tile") is not None else None
        for m in self.idents or self.script_melds:
            if m.kind == kind and t is not None and C.must_equal(m.tile, t) and (
                    kind != "kakan" or m.which == b.get("which")):
                return m.ident
        return C.freshvar("ocode", 0, 900)

    script_melds = ()
    idents = None
    min_ten = 10            # enough for a riichi stick
    max_ten = 2000
    sh = None

    def meld_of(self, args):
        """Meld in the unknown part: arbitrary tiles."""
        if args[0] == "script":
            return self.melds[args[1]]
        kind = args[0]
        k = C.freshvar("mk", vals=NOFIVE if kind != "chi" else None, lo=0, hi=33 if kind != "chi" else 24)
        i = lambda d, r: add(add(scale(k, 4), 4 * d), r)
        src = {"chi": 3, "ankan": 0, "kakan": 0, "pon": 2, "minkan": 1}[kind]
        ex, called = {
            "chi": lambda: ([i(0, 1), i(2, 1)], i(1, 1)),
            "pon": lambda: ([i(0, 1), i(0, 2)], i(0, 3)),
            "kakan": lambda: ([i(0, 0)], None),
            "minkan": lambda: ([i(0, 0), i(0, 1), i(0, 2)], i(0, 3)),
            "ankan": lambda: ([i(0, 0), i(0, 1), i(0, 2), i(0, 3)], None)}[kind]()
        return Meld(kind, k, ex, called, src, C.freshvar("mn", 0, 8), C.freshvar("mw", 0, 1),
                    Cond("truth", Term("mred", C.fresh("mred"))), C.freshvar("mcode", 0, 900))

    def externals(self):
        I = self.I
        O = I.overrides

        def sh(I, a, k):
            return C.freshvar("shanten", -1, 6) if self.sh is None else self.sh
        I.natives["mahjong.shanten.Shanten"] = lambda I, a, k: OInst(ClassVal("Shanten", [Ext("%Shanten")], {}))
        I.natives["%Shanten.calculate_shanten"] = sh

        def ev(name):
            def f(I, a, k):
                fv = I.load("MahjongAI.utils.agari").vars[name]
                b = I.bind(fv, a, k)
                return self.on_eval(name, b)
            return f
        for n in ("evaluate_ron", "evaluate_tsumo"):
            if n not in I.load("MahjongAI.utils.agari").vars:
                raise Broken("anchor MahjongAI.utils.agari.%s not found" % n)
            O["MahjongAI.utils.agari." + n] = ev(n)

        def dm(I, a, k):
            fv = I.load("MahjongAI.decision").vars["decision_mask"]
            b = list(I.bind(fv, a, k).values())
            return self.on_calls(b)
        if "decision_mask" not in I.load("MahjongAI.decision").vars:
            raise Broken("anchor MahjongAI.decision.decision_mask not found")
        O["MahjongAI.decision.decision_mask"] = dm

    # default contracts of the other modules
    def on_eval(self, name, b):
        if name == "evaluate_ron":
            return OList([None, None, None, None])
        return OList([])

    def on_calls(self, b):
        return OList([OList([]) for _ in range(4)])

    def on_new(self, I, o):
        pass

    # ------------------------------------------------------------ document
    def elem(self, tag, attrib=None, children=()):
        e = OInst(self.Elem)
        e.attrs["tag"] = tag
        e.attrs["attrib"] = ODict(dict(attrib or {}))
        e.attrs["text"] = None
        e.attrs["%ch"] = OList(list(children))
        return e

    def T(self, p, t):
        return self.elem(ss(DRAW[p], t))

    def D(self, p, t):
        return self.elem(ss(DISC[p], t))

    def N(self, p, m):
        k = ("m", len(self.melds))
        self.melds[k] = m
        return self.elem("N", {"who": str(p), "m": ss(("txt", Term("mcode", "script", k)))})

    def REACH(self, p, step):
        return self.elem("REACH", {"who": str(p), "step": str(step)})

    def DORA(self, t):
        return self.elem("DORA", {"hai": ss(t)})

    def AGARI(self, who, frm):
        return self.elem("AGARI", {"who": str(who), "fromWho": str(frm), "sc": "250,0,250,0,250,0,250,0"})

    def RYUU(self):
        return self.elem("RYUUKYOKU", {"sc": "250,0,250,0,250,0,250,0"})

    def INIT(self, tag=0, dora=135, hands=None):
        hai = {}
        for p in range(4):
            if hands is not None and hands[p] is not None:
                l = []
                for t in hands[p]:
                    l += [",", t] if l else [t]
                hai["hai%d" % p] = ss(*l)
                continue
            hai["hai%d" % p] = SStr([("seg", Seg([lambda p=p: ss(C.freshvar("hai", 0, 135))],
                                                 ("hai", tag, p), 13), ",")])
        kyoku = add(scale(var(("wind", tag), 0, 2), 4), var(("seat", tag), 0, 3))
        honba = var(("honba", tag), 0, 40)
        kyotaku = var(("kyotaku", tag), 0, 40)
        if dora is None:
            dora = var(("dora0", tag), 0, 135)
        self.init = dict(kyoku=kyoku, honba=honba, kyotaku=kyotaku, dora=dora, oya=C.mod(kyoku, 4))
        ten = [var(("ten", tag, p, self.min_ten), self.min_ten, self.max_ten) for p in range(4)]
        self.init["ten"] = ten
        at = {"seed": ss(kyoku, ",", honba, ",", kyotaku, ",", var(("d1", tag), 0, 5), ",", var(("d2", tag), 0, 5),
                         ",", dora),
              "ten": ss(ten[0], ",", ten[1], ",", ten[2], ",", ten[3]),
              "oya": ss(C.mod(kyoku, 4))}
        at.update(hai)
        return self.elem("INIT", at)

    def htile(self):
        return add(scale(C.freshvar("ht", 0, 33), 4), 1)

    def history(self, kinds="TDRNd"):
        """Zero or more play events of the given kinds: T draw, D discard, R riichi, N calls, d dora."""
        fs = []
        for p in range(4):
            if "T" in kinds:
                fs.append(lambda p=p: self.T(p, self.htile()))
            if "D" in kinds:
                fs.append(lambda p=p: self.D(p, self.htile()))
        for step in (1, 2) if "R" in kinds else ():
            for p in range(4):
                fs.append(lambda step=step, p=p: self.elem("REACH", {"who": str(p), "step": str(step)}))
        for kd in ("chi", "pon", "kakan", "minkan", "ankan") if "N" in kinds else ():
            for p in range(4):
                fs.append(lambda kd=kd, p=p: self.elem("N", {"who": str(p), "m": ss(("txt", Term("mcode", kd)))}))
        if "d" in kinds:
            fs.append(lambda: self.elem("DORA", {"hai": ss(self.htile())}))
        return Seg(fs, ("history",))

    def header(self, go=169):
        return [self.elem("SHUFFLE", {"seed": "x", "ref": ""}), self.elem("GO", {"type": ss(go), "lobby": "0"}),
                self.elem("UN", {"n0": "a", "n1": "b", "n2": "c", "n3": "d"}),
                self.elem("TAIKYOKU", {"oya": "0"})]

    def run(self, items):
        """items: children of the root after the header."""
        self.root = self.elem("mjloggm", {"ver": "2.3"}, items)
        return self.I.call(self.m.vars["process"], ["log.xml"], {})
