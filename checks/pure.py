"""Shared objects (module tables, class attributes, default arguments) are never modified while games are read."""
from sa.dom import C
from sa import arr, objs
from sa.objs import OInst, OList, ODict, ClassVal, FuncVal, ModuleVal, StaticM, ClassM, Prop, BoundMethod

RULE = "shared objects are not modified"


def reach(o, out, path):
    """Everything reachable from a module that later readers see, with the name it is reached by."""
    if isinstance(o, arr.OArr):
        out.setdefault(id(o.store), (o.store, path))
        return
    if isinstance(o, (StaticM, ClassM)):
        for a in ("f", "fn", "func"):
            if hasattr(o, a):
                reach(getattr(o, a), out, path)
        return
    if isinstance(o, tuple):
        for x in o:
            reach(x, out, path)
        return
    if not isinstance(o, (OInst, OList, ODict, ClassVal, FuncVal, ModuleVal)) or id(o) in out:
        return
    out[id(o)] = (o, path)
    if isinstance(o, ModuleVal):
        for k, v in list(o.vars.items()):
            reach(v, out, "%s.%s" % (o.name, k))
    elif isinstance(o, ClassVal):
        for k, v in list(o.attrs.items()):
            reach(v, out, "%s.%s" % (path, k))
        for b in o.bases:
            reach(b, out, path)
    elif isinstance(o, FuncVal):
        for v in list(o.defaults or ()) + list((o.kwdefaults or {}).values()):
            reach(v, out, path + " (default argument)")
    elif isinstance(o, OInst):
        for k, v in list(o.attrs.items()):
            reach(v, out, "%s.%s" % (path, k))
    elif isinstance(o, OList):
        for v in o.items:
            reach(v, out, path)
    else:
        for v in list(o.d.values()):
            reach(v, out, path)


HOOK = []


def install(c, I):
    """Report on c every in-place modification of an object that existed when the modules were loaded."""
    shared = {}

    def loaded(m):
        reach(m, shared, m.name)
    I.load_hooks.append(loaded)

    def mutated(o):
        if I.loading:
            return
        if id(o) in shared:
            nm = shared[id(o)][1]
            c.fail(RULE, "%s at %s" % (nm, I.loc()), "%s is modified at %s: what is read next depends on it" % (nm, I.loc()))
        else:
            c.ok(RULE)
    while HOOK:
        h = HOOK.pop()
        if h in objs.MUT_HOOKS:
            objs.MUT_HOOKS.remove(h)
    HOOK.append(mutated)
    objs.MUT_HOOKS.append(mutated)


def check(c):
    from checks import codec, calls, offers, wins, agents, log
    c.only = RULE
    c.explain("Everything reachable from the modules, classes, functions and default arguments once they are loaded is marked; "
              "the abstract heap reports every in-place modification of a marked object (and every rebinding of a "
              "global) while a meld is decoded, calls are generated, a round is read, a win is evaluated or samples "
              "are built.")
    for f in (codec.c01, codec.c03, codec.c05, calls.c06):
        f(c)
    L = [("draw", ""), ("discard", "red"), ("dora", ""), ("chi", "redex"), ("pon1", ""), ("minkan1", "red"),
         ("ankan", ""), ("kakan", ""), ("riichi", ""), ("ippatsu-call", "")]
    its = [(n, v, s, "TD") for n, v, s in offers.seats(c, L)]
    its += [("win-" + k, "", s, "TD") for s, k in ((0, "ron2"), (3, "chankan"), (1, "draw"))]
    from checks.base import parallel
    parallel(c, offers.frozen, its, 4)
    log.check_deal(c)
    wins.check_wins(c)
    m = [i for i in agents.items(c, True) if i[1] in ("nothing", "discard") and i[2] in (0, 1) or
         i[1] in ("during", "post") and i[2] == 1 and i[3] in (None, 2)]
    parallel(c, lambda cc, it: agents.play(cc, it, ("rows", "label"), True), m)
    c.extra["event_scripts"] = ["%s%s seat %d" % (n, "/" + v if v else "", a) for n, v, a, _ in its]
    c.require(RULE, 1000)
