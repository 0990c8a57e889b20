"""Properties of training: batches of games, optimisation, validation, checkpoints, the model registry."""
import ast
import fnmatch
import math
import os
import re
from sa.dom import C, Lin, Term, Cond, var, Unsupported
from sa.objs import *
from sa import arr, nnmod
from sa.arr import OArr
from .base import Broken, parallel

SL = "MahjongAI.supervised_learning"
DL = "MahjongAI.utils.dataloader"
PX = "MahjongAI.process_xml"
STUB = os.path.join(os.path.dirname(nnmod.STUBS), "satrain")


class Setup:
    """The training module with its file system, the log reader and the networks replaced by contracts."""

    def __init__(self, c):
        self.c = c
        self.I = I = c.interp()
        I.iter_limit = 20000
        nnmod.enable(I)
        I.roots["satrain"] = STUB
        I.roots["salazy"] = os.path.join(os.path.dirname(STUB), "salazy")
        I.lazy = I.load("salazy")
        self.stub = I.load("satrain")
        self.mod = I.load(SL)
        self.px = I.load(PX)
        self.Losses = self.stub.vars["Losses"]
        self.files = {}          # directory -> names
        self.outcome = {}        # path -> "ok" or an exception class name
        self.n_train = 3         # losses per batch of games
        self.n_val = 3
        self.is_val = lambda path: False
        N = I.natives
        N["os.listdir"] = lambda I, a, k: OList(self.ls(conc(a[0])))
        N["glob.glob"] = lambda I, a, k: OList(self.glob(conc(a[0])))
        N["glob.iglob"] = N["glob.glob"]
        N["os.makedirs"] = N["os.mkdir"] = lambda I, a, k: None
        N["os.path.exists"] = N["os.path.isdir"] = N["os.path.isfile"] = lambda I, a, k: True
        for n in ("os.replace", "os.rename", "shutil.move"):
            N[n] = (lambda n: lambda I, a, k: I.effect("publish", n, a[0], a[1], I.loc()))(n)
        for n in ("os.remove", "os.unlink"):
            N[n] = lambda I, a, k: I.effect("remove", a[0], I.loc())
        N["torch.save"] = lambda I, a, k: I.effect("save", a[0], a[1] if len(a) > 1 else k.get("f"), I.loc())
        N["torch.load"] = self.load
        for n in ("search", "match", "fullmatch", "findall", "escape", "sub"):
            N["re." + n] = regex(n)
        N["re.compile"] = compiled
        N["sat.loss_value"] = self.loss_value
        I.overrides[PX + ".process"] = self.process
        n = 0
        for v in list(self.mod.vars.values()):
            if isinstance(v, ClassVal) and v.name.endswith("Model"):
                f = v.lookup("forward")
                if isinstance(f, FuncVal):
                    I.overrides[f.qual] = self.forward
                    n += 1
        if n < 4:
            raise Broken("supervised_learning uses %d model classes" % n)
        self.values = {}
        self.calls = {}

    def ls(self, d):
        return list(self.files.get(os.path.normpath(d), []))

    def glob(self, pat):
        d, p = os.path.split(pat)
        return [os.path.join(d, f) for f in self.ls(d) if fnmatch.fnmatchcase(f, p)]

    def load(self, I, a, k):
        I.effect("load", a[0], I.loc())
        return Term("loaded", I.tkey(a[0]))

    def process(self, I, a, k):
        path = os.path.normpath(conc(a[0]))
        I.effect("read", path, I.loc())
        o = self.outcome.get(path, "ok")
        if o != "ok":
            e = self.px.vars.get(o) or I.exc.get(o)
            raise PyRaise(OInst(e, {"args": ("bad game",), "msg": "bad game"}), I.loc())
        return (Term("halfturns", path), Term("tokens", path))

    def forward(self, I, a, k):
        games = [path_of(x) for x in I.iter_items(a[1])]
        n = self.n_val if games and self.is_val(games[0]) else self.n_train
        return I.call(self.Losses, [n, a[0], (a[1], a[2]), tuple(sorted(k.items(), key=str))], {})

    def loss_value(self, I, a, k):
        v = self.values.get(a[0].oid)
        return 1.0 if v is None else v


MATCH = ClassVal("Match", [], {})


def match(m):
    if m is None:
        return None

    def f(name):
        def g(I, a, k):
            r = getattr(m, name)(*a, **k)
            return r
        return Native("match." + name, g)
    return OInst(MATCH, {n: f(n) for n in ("group", "groups", "start", "end", "span", "groupdict")})


def regex(name):
    """Regular expressions on known strings."""
    def f(I, a, k):
        if not all(isinstance(x, (str, int)) for x in list(a) + list(k.values())):
            raise Unsupported("re.%s of %r" % (name, a))
        r = getattr(re, name)(*a, **k)
        if isinstance(r, re.Match) or r is None:
            return match(r)
        if name == "finditer":
            return OList([match(m) for m in r])
        return OList([tuple(x) if isinstance(x, tuple) else x for x in r]) if isinstance(r, list) else r
    return f


def compiled(I, a, k):
    pat = a[0]
    o = OInst(ClassVal("Pattern", [], {}), {"pattern": pat})
    for n in ("search", "match", "fullmatch", "findall", "finditer", "sub", "split"):
        o.attrs[n] = (lambda n: Native("pattern." + n, lambda I, aa, kk: regex(n)(I, [pat] + list(aa), kk)))(n)
    return o


def conc(s):
    if isinstance(s, str):
        return s
    raise Unsupported("path %r" % (s,))


def path_of(t):
    if isinstance(t, Term) and t.op in ("halfturns", "tokens"):
        return t.args[0]
    return None


# ---------------------------------------------------------------- the data loader
OUT = ["ok", "InvalidGameException", "AssertionError", "KeyError"]


def loader(c, item):
    n, bs = item
    S = Setup(c)
    I = S.I
    I.load(DL)
    names = ["g%d.log" % i for i in range(n)]
    S.files["d/x"] = names
    paths = ["d/x/" + f for f in names]
    L = I.load(DL).vars["DataLoader"]

    def pas(d, limit=None):
        """Batches of one pass (of at most limit batches) and the files read for each."""
        out = []
        it = I.call(I.getattr_(d, "__iter__"), [], {})
        while limit is None or len(out) < limit:
            n0 = len(I.effects())
            try:
                b = I.call(I.getattr_(it, "__next__"), [], {})
            except PyRaise as e:
                if e.exc.cls.name == "StopIteration":
                    return out, [x[1] for x in I.effects()[n0:] if x[0] == "read"], True
                raise
            out.append((b, [x[1] for x in I.effects()[n0:] if x[0] == "read"]))
            if len(out) > n + 2:
                break
        return out, [], False

    def check(label, out, tail, ended, whole):
        where = "DataLoader " + label
        c.ob("a pass ends", ended or not whole, where, "no StopIteration after %d batches of %d files" % (len(out), n))
        got, toks, read = [], [], []
        for b, r in out:
            x, y = I.iter_items(b)
            gx, gy = [path_of(t) for t in I.iter_items(x)], [path_of(t) for t in I.iter_items(y)]
            c.ob("batches have games, at most the batch size", 0 < len(gx) <= bs, where, "%d games in a batch of size %d" % (len(gx), bs))
            c.ob("half-turns and tokens of a game stay together", gx == gy and None not in gx, where, "%s with %s" % (gx, gy))
            got += gx
            read += r
        read += tail
        good = [p for p in paths if S.outcome.get(p, "ok") == "ok"]
        if whole:
            c.ob("every usable game is delivered exactly once", sorted(map(str, got)) == sorted(good), where,
                 "delivered %s of the usable %s" % (got, good))
            c.ob("every file is tried exactly once", sorted(read) == sorted(paths), where, "tried %s of %s" % (read, paths))
        else:
            c.ob("every usable game is delivered exactly once", len(set(got)) == len(got) and set(got) <= set(good), where, "%s" % got)

    def go():
        S.outcome = {}
        for p in paths:
            S.outcome[p] = OUT[C.choose(len(OUT), p)]
        partial = C.choose(3, "batches before the reset")
        try:
            d = I.call(L, ["d/x/", bs], {"log_func": Native("log", lambda I, a, k: None)})
            if partial < 2:
                o = pas(d, partial)
                check("interrupted pass", *o, False)
                I.call(I.getattr_(d, "reset"), [], {})
            for label in ("pass", "pass after a reset"):
                o = pas(d)
                check(label, *o, True)
                again = pas(d, 1)
                c.ob("a finished pass stays finished until reset", not again[0], "DataLoader", "a batch after StopIteration")
                I.call(I.getattr_(d, "reset"), [], {})
        except PyRaise as e:
            c.fail("an unusable file never ends a pass", "DataLoader", "%s %s at %s (files: %s)" % (
                e.exc.cls.name, e.exc.attrs.get("args"), e.loc, sorted(S.outcome.values())))
            return
        c.ok("an unusable file never ends a pass")
    c.explore(I, go)


def check_loader(c):
    its = [(n, b) for n in range(0, 5 if c.tier == "thorough" else 4) for b in (1, 2, 3, 5)]
    parallel(c, loader, its)
    c.assumes("directories of at most %d files, each usable or failing in one of %d ways" % (its[-1][0], len(OUT) - 1))
    for r in ("every usable game is delivered exactly once", "an unusable file never ends a pass",
              "batches have games, at most the batch size"):
        c.require(r, 50)


# ---------------------------------------------------------------- the training run
YEARS = range(2012, 2020)
VAL = "data/processed/2021"


class Run:
    """One abstract run of train() with its events."""

    def __init__(self, S, name, iters, latest=(), per_dir=6, bad=(), n_train=3, n_val=3):
        self.S, self.I, self.name, self.iters, self.per_dir = S, S.I, name, iters, per_dir
        S.files = {"data/processed/%d" % y: ["%d_%d.log" % (y, i) for i in range(per_dir)] for y in YEARS}
        S.files[VAL] = ["v%d.log" % i for i in range(per_dir)]
        S.files["saved_models"] = list(latest)
        S.outcome = {}
        for d, i, exc in bad:
            for j, f in enumerate(S.files[d]):
                if i is None or i == j:
                    S.outcome[d + "/" + f] = exc
        S.n_train, S.n_val = n_train, n_val
        S.is_val = lambda p: p.startswith(VAL + "/")
        n0 = len(self.I.effects())
        self.error = None
        try:
            self.I.call(S.mod.vars["train"], [name, iters], {})
        except PyRaise as e:
            self.error = "%s %s at %s" % (e.exc.cls.name, e.exc.attrs.get("args"), e.loc)
        self.eff = self.I.effects()[n0:]


def monitor(c, R, tag, rules):
    """Follow the events of a run and decide the obligations of the rules asked for."""
    S, I = R.S, R.I
    grad = [True]
    mode = {}
    opts = {}
    dirty = False         # gradients of an earlier loss still accumulated
    pend = None           # training loss waiting for its step
    stepped = True
    model = None
    iters, cur = [], []   # per iteration: files trained on
    vfiles = []
    saves, loads = [], []
    trained = 0
    in_val = False

    def ob(group, rule, ok, text):
        if group in rules:
            c.ob(rule, ok, tag, text)
    for e in R.eff:
        k = e[0]
        if k == "grad":
            if e[1] is None:
                grad.pop()
            else:
                grad.append(bool(e[1]))
        elif k == "mode":
            mode[e[1].oid] = bool(e[2])
        elif k == "optimizer":
            ps = [p for g in I.iter_items(e[1].attrs["param_groups"]) for p in I.iter_items(I.getitem(g, "params"))]
            opts[e[1].oid] = ps
        elif k == "forward":
            m, games, loss = e[1], e[2], e[3]
            paths = [path_of(x) for x in I.iter_items(games[0])]
            toks = [path_of(x) for x in I.iter_items(games[1])]
            ob("opt", "the model gets half-turns and tokens of the same games", paths == toks and None not in paths, "%s with %s" % (paths, toks))
            val = bool(paths) and S.is_val(paths[0])
            ob("val", "training and validation games are kept apart", len({S.is_val(p) for p in paths}) <= 1, "%s" % paths)
            on = mode.get(m.oid, True)
            if val:
                ob("val", "validation runs without gradients in evaluation mode", not grad[-1] and not on,
                   "gradients %s, %s mode" % ("on" if grad[-1] else "off", "training" if on else "evaluation"))
                vfiles += [p for p in paths if p not in vfiles]
                e[3].attrs["val"] = True
            else:
                ob("opt", "every loss is optimised before the next", pend is None, "the step of the previous loss is missing")
                ob("val", "training runs with gradients in training mode", grad[-1] and on,
                   "gradients %s, %s mode" % ("on" if grad[-1] else "off", "training" if on else "evaluation"))
                model = m
                pend = loss
                trained += 1
                for p in paths:
                    cur.append(p)
        elif k == "zero_grad":
            ob("opt", "gradients are cleared once per step, before the backward pass", pend is None or pend is not dirty,
               "the gradients of the current loss are thrown away before the step")
            dirty = False
        elif k == "backward":
            ob("val", "no step on validation games", "val" not in e[1].attrs, "backward on a validation loss")
            ob("opt", "gradients are cleared once per step, before the backward pass", dirty is False,
               "gradients of an earlier loss are still accumulated")
            ob("opt", "every loss is optimised before the next", pend is e[1], "backward on another loss")
            ob("val", "training runs with gradients in training mode", grad[-1], "backward without gradients")
            dirty = e[1]
        elif k == "step":
            ob("opt", "every loss is optimised before the next", pend is not None and dirty is pend,
               "an optimiser step that does not follow the backward pass of the current loss")
            ps = {id(p.store) if isinstance(p, OArr) else id(p) for p in opts.get(e[1].oid, ())}
            if model is not None:
                want = {id(p.store) if isinstance(p, OArr) else id(p) for p in nnmod.parameters(I, model)}
                ob("opt", "the optimiser owns all parameters of the model", ps == want,
                   "%d parameters optimised, the model has %d" % (len(ps), len(want)))
            pend = None
            stepped = False
        elif k == "scheduler_step":
            ob("opt", "the learning rate advances once per step", not stepped, "a scheduler step without an optimiser step")
            stepped = True
        elif k == "save":
            saves.append([e[1], e[2], None, len(iters), trained])
        elif k == "publish":
            m = [s for s in saves if s[2] is None and s[1] == e[2]]
            if m:
                m[-1][2] = e[3]
                iters.append(cur)
                cur = []
        elif k == "load":
            loads.append(("load", e[1], trained))
        elif k == "load_state_dict":
            loads.append(("set", e[1], e[2], trained))
        if k in ("forward", "save") and not (k == "forward" and val):
            if k == "save":
                ob("opt", "every loss is optimised before the next", pend is None, "a checkpoint is saved before the last step")
            ob("opt", "the learning rate advances once per step", stepped, "no scheduler step after an optimiser step")
    return dict(iters=iters, rest=cur, vfiles=vfiles, saves=saves, loads=loads, trained=trained, model=model,
                optparams=opts, grad=grad, mode=mode)


SCENES = {
    "two iterations": dict(iters=2),
    "many iterations": dict(iters=27, per_dir=1),
    "many decisions": dict(iters=1, per_dir=1, n_train=10001),
    "a long year": dict(iters=1, per_dir=1203, n_train=1),
    "one kind of decision": dict(iters=1, n_train=1, n_val=1),
    "unusable files": dict(iters=2, bad=(("data/processed/2012", 0, "InvalidGameException"), ("data/processed/2012", 3, "ValueError"),
                                         ("data/processed/2013", 2, "AssertionError"), (VAL, 0, "KeyError"))),
    "games without decisions": dict(iters=1, n_train=0),
    "no usable training game": dict(iters=2, bad=(("data/processed/2012", None, "InvalidGameException"),)),
    "no usable validation game": dict(iters=1, bad=((VAL, None, "ValueError"),)),
    "validation games without decisions": dict(iters=1, n_val=0),
}


def scene(c, item, rules):
    name, sc = item
    S = Setup(c)

    def go():
        R = Run(S, name, **SCENES[sc])
        tag = "train: %s, %s" % (name, sc)
        if R.error:
            c.fail("the run completes", tag, R.error)
            return
        c.ok("the run completes")
        M = monitor(c, R, tag, rules)
        if "data" in rules:
            passes(c, S, R, M, tag)
    c.explore(S.I, go)


def passes(c, S, R, M, tag):
    its = M["iters"]
    c.ob("one checkpoint per iteration", len(its) == R.iters and not M["rest"], tag,
         "%d checkpoints published in %d iterations" % (len(its), R.iters))
    last = None
    for files in its:
        ys = sorted({os.path.dirname(f) for f in files})
        if not files:
            last = None
            continue
        good = sorted(ys[0] + "/" + f for f in S.files[ys[0]] if S.outcome.get(ys[0] + "/" + f, "ok") == "ok")
        c.ob("an iteration is one pass over one year", len(ys) == 1 and sorted(files) == sorted(good * S.n_train), tag,
             "trained on %s" % files)
        y = list(YEARS).index(int(ys[0][-4:]))
        if last is not None:
            c.ob("the years are taken in turn", y == (last + 1) % len(YEARS), tag, "year %d after year %d" % (YEARS[y], YEARS[last]))
        last = y
    reads = [e[1] for e in R.eff if e[0] == "read" and not S.is_val(e[1])]
    c.ob("no game is read without being used", len(reads) == R.per_dir * R.iters, tag,
         "%d files read in %d iterations over %d files" % (len(reads), R.iters, R.per_dir))


# ---------------------------------------------------------------- the registry of models
def names(c):
    """Model names accepted by the command line and by train()."""
    S = Setup(c)
    I = S.I
    tree = S.mod.tree
    cand = sorted({n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and isinstance(n.value, str)
                   and n.value.isidentifier() and not n.value.startswith("__")})
    main = [st for st in tree.body if isinstance(st, ast.If) and any(
        isinstance(x, ast.Name) and x.id == "__name__" for x in ast.walk(st.test))]
    if not main:
        raise Broken("supervised_learning has no __main__ block")
    cli, built, broken = {}, {}, {}

    def go():
        nm = cand[C.choose(len(cand), "model name")]
        train = S.mod.vars["train"]
        got = []
        keep = I.overrides.get(SL + ".train")
        I.overrides[SL + ".train"] = lambda I, a, k: got.append((a, k))
        I.ext_consts["sys.argv"] = OList(["supervised_learning.py", nm, "3"])
        S.mod.vars["__name__"] = "__main__"
        I.stack.append((S.mod.frame, tree))
        try:
            I.block(main, S.mod.frame)
            cli[nm] = got
        except PyRaise as e:
            pass
        finally:
            I.stack.pop()
            S.mod.vars["__name__"] = SL
            del I.overrides[SL + ".train"]
        R = Run(S, nm, 0, per_dir=1)
        if R.error is None:
            o = [e for e in R.eff if e[0] == "optimizer"]
            built[nm] = len(o)
        elif not R.error.startswith("NotImplementedError"):
            broken[nm] = R.error
    c.explore(I, go)
    return cli, built, broken


def check_registry(c):
    cli, built, broken = names(c)
    for nm in sorted(set(cli) | set(built) | set(broken)):
        tag = "model " + nm
        c.ob("a model that can be asked for can be trained", nm not in cli or nm in built, tag,
             "the command line accepts %s, train() does not: %s" % (nm, broken.get(nm, "not implemented")))
        c.ob("a model that can be trained can be asked for", nm in cli or nm not in built, tag,
             "train() knows %s, the command line refuses it" % nm)
        if nm in cli:
            a = [list(x[0]) + list(x[1].values()) for x in cli[nm]]
            c.ob("the command line trains the model it was asked for", a == [[nm, 3]], tag, "train called with %s" % a)
    c.require("a model that can be asked for can be trained", 9)
    if len(built) < 4:
        raise Broken("only %d trainable models found" % len(built))
    parallel(c, config, sorted(built))
    c.require("every registered configuration runs", len(built))
    own(c, c.extra.pop("shapes", []))


def own(c, shapes):
    """No two names build the same network; within a family the numbered sizes grow with their number."""
    def number(n):
        m = re.search(r"(\d+)$", n)
        return int(m.group(1)) if m else 0

    def size(s):
        return sum(math.prod(p) for p in s[2])
    for i, a in enumerate(shapes):
        for b in shapes[:i]:
            x, y = sorted((a, b))
            tag = "models %s and %s" % (x[0], y[0])
            c.ob("each name has its own architecture", x[1:] != y[1:], tag, "both build %s with the same layers" % x[1])
            if x[1] == y[1] and number(x[0]) != number(y[0]):
                c.ob("larger numbers name larger models", (size(x) < size(y)) == (number(x[0]) < number(y[0])), tag,
                     "%d and %d weights" % (size(x), size(y)))


def config(c, name):
    """The model train() builds for this name: its networks run, and no other name builds the same."""
    S = Setup(c)
    I = S.I

    def go():
        R = Run(S, name, 1, per_dir=6)
        tag = "model " + name
        if R.error:
            c.fail("every registered configuration runs", tag, R.error)
            return
        M = monitor(c, R, tag, ())
        m = M["model"]
        c.ob("every registered configuration runs", m is not None and M["trained"] > 0, tag, "nothing is trained")
        c.extra.setdefault("configurations", []).append("%s: %s, %d layers and parameters %d" % (
            name, m.cls.name, len(nnmod.modules(I, m)), len(nnmod.parameters(I, m))))
        c.extra.setdefault("shapes", []).append([name, m.cls.name, sorted(
            [int(x) for x in p.shape] for p in nnmod.parameters(I, m))])
    c.explore(I, go)


# ---------------------------------------------------------------- checkpoints
def ckpts(c, item):
    name, others = item
    S = Setup(c)
    tag = "checkpoints of " + name

    def saved(R):
        M = monitor(c, R, tag, ("opt",))
        return M

    def go():
        def run(iters, listing):
            R = Run(S, name, iters, latest=listing, per_dir=1, n_train=1)
            if R.error:
                c.fail("the run completes", tag, R.error)
                return None
            return R, monitor(c, R, tag, ())
        r = run(12, [])
        if r is None:
            return
        R, M = r
        P = []
        c.ob("one checkpoint per iteration", len(M["iters"]) == 12, tag, "%d checkpoints in 12 iterations" % len(M["iters"]))
        c.ob("without checkpoints training starts afresh", not M["loads"], tag, "%s" % M["loads"])
        temps = []
        for s in M["saves"]:
            what, tmp, dst, it, n = s
            c.ob("a checkpoint appears only once it is complete", dst is not None and dst != tmp, tag,
                 "saved directly under %s" % (tmp,) if dst is None else "written in place: %s" % (dst,))
            c.ob("a checkpoint holds the weights of the trained model",
                 isinstance(what, Term) and what.op == "state_dict" and what.args[0] == Term("obj", M["model"].oid), tag, "%s is saved" % (what,))
            p = dst if dst is not None else tmp
            c.ob("a checkpoint is saved after its iteration", n == it + 1, tag, "%d training steps before checkpoint %d" % (n, it))
            P.append(os.path.basename(str(p)))
            temps.append(os.path.basename(str(tmp)))
            c.ob("checkpoints are kept where they are looked for", os.path.dirname(str(p)) == "saved_models", tag, "%s" % p)
        c.ob("every iteration has its own checkpoint", len(set(P)) == len(P), tag, "%s" % P)
        c.ob("checkpoints of models do not collide", True, tag, "")
        if len(P) != 12:
            return
        half = [t for t in temps if t not in P]
        junk = [q.replace(name, o, 1) for o in others for q in (P[0], P[7], P[11])] + half + ["README.md"]
        c.ob("every iteration has its own checkpoint", all(name in q for q in P), tag, "the checkpoint name does not contain the model: %s" % P[:2])
        for L in ([0], [0, 1], [9, 2, 10], list(range(11)), [8, 9], []):
            for extra in ([], junk):
                if not L and not extra:
                    continue
                listing = extra[:len(extra) // 2] + [P[i] for i in L] + extra[len(extra) // 2:]
                r = run(1, listing)
                if r is None:
                    return
                R2, M2 = r
                loads = M2["loads"]
                pub = [os.path.basename(str(s[2])) for s in M2["saves"]]
                if not L:
                    c.ob("other models' and unfinished checkpoints are ignored", not loads and pub == [P[0]], tag,
                         "with %s: loads %s, saves %s" % (listing, loads, pub))
                    continue
                top = max(L)
                want = "saved_models/" + P[top]
                ok = len(loads) == 2 and loads[0][0] == "load" and str(loads[0][1]) == want and loads[0][2] == 0
                c.ob("training resumes from the newest checkpoint" if not extra else "other models' and unfinished checkpoints are ignored",
                     ok, tag, "with checkpoints %s: %s" % (L, loads))
                if ok:
                    c.ob("the resumed weights are the model's", loads[1][0] == "set" and loads[1][1] is M2["model"]
                         and loads[1][2] == Term("loaded", R2.I.tkey(want)) and loads[1][3] == 0, tag, "%s" % (loads,))
                c.ob("iterations are numbered on", pub == [P[top + 1]], tag, "after %s: %s" % (P[top], pub))
                c.ob("existing checkpoints are kept", not any(e[0] == "remove" and os.path.basename(str(e[1])) in listing and
                                                              os.path.basename(str(e[1])) not in half for e in R2.eff), tag,
                     "a checkpoint is removed")
    c.explore(S.I, go)


def check_checkpoints(c):
    cli, built, _ = names(c)
    ns = sorted(built)
    parallel(c, ckpts, [(n, [o for o in ns if o != n]) for n in ns])
    for r in ("training resumes from the newest checkpoint", "other models' and unfinished checkpoints are ignored",
              "a checkpoint appears only once it is complete", "iterations are numbered on"):
        c.require(r, 9)


def run_scenes(c, rules):
    cli, built, _ = names(c)
    its = [("transformer", s) for s in SCENES] if "transformer" in built else []
    its += [(n, "two iterations") for n in sorted(built) if (n, "two iterations") not in its]
    parallel(c, lambda cc, it: scene(cc, it, rules), its)
    c.assumes("directories of 6 files (or 1); the forward pass yields 0, 1 or 3 losses per batch",
              )


def check_optimiser(c):
    run_scenes(c, ("opt",))
    for r in ("every loss is optimised before the next", "the optimiser owns all parameters of the model",
              "gradients are cleared once per step, before the backward pass", "the learning rate advances once per step"):
        c.require(r, 50)


def check_validation(c):
    run_scenes(c, ("val",))
    average(c)
    for r in ("validation runs without gradients in evaluation mode", "training runs with gradients in training mode",
              "no step on validation games", "validation loss is the average"):
        c.require(r, 3)


def check_passes(c):
    run_scenes(c, ("data",))
    for r in ("an iteration is one pass over one year", "the years are taken in turn", "the run completes"):
        c.require(r, 5)


def average(c):
    S = Setup(c)
    I = S.I

    def go():
        S.files = {VAL: ["v%d.log" % i for i in range([60, 7][C.choose(2, "validation games")])]}
        S.is_val = lambda p: True
        S.outcome = {}
        bs = [1, 2, 5][C.choose(3, "batch size")]
        S.n_val = [1, 3][C.choose(2, "losses")]
        vals = []

        def value(I, a, k):
            d = S.values
            if a[0].oid not in d:
                d[a[0].oid] = float(2 ** (len(vals) % 40))
                vals.append(d[a[0].oid])
            return d[a[0].oid]
        S.values = {}
        I.natives["sat.loss_value"] = value
        d = I.call(I.load(DL).vars["DataLoader"], [VAL + "/", bs], {"log_func": Native("log", lambda I, a, k: None)})
        m = I.call(S.mod.vars["TransformerModel"], [], {})
        seen = []
        for rnd in (0, 1):
            del vals[:]
            n0 = len(I.effects())
            try:
                r = I.call(S.mod.vars["estimate_loss"], [d, m, bs], {})
            except PyRaise as e:
                c.fail("validation loss is the average", "estimate_loss", "%s at %s" % (e.exc.cls.name, e.loc))
                return
            n = len([e for e in I.effects()[n0:] if e[0] == "forward"])
            files = [e[1] for e in I.effects()[n0:] if e[0] == "read"]
            seen.append(files)
            c.ob("validation loss is the average", n > 0 and len(vals) == n and isinstance(r, (int, float)) and abs(r - sum(vals) / n) < 1e-9,
                 "estimate_loss", "returns %s for the losses %s" % (r, vals))
        c.ob("every validation uses the same games", seen[0] == seen[1] and len(seen[0]) > 0, "estimate_loss",
             "first %s, then %s" % (seen[0][:3], seen[1][:3]))
    c.explore(I, go)
