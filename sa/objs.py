"""Abstract heap objects."""
from .dom import C, Lin, Term, Cond, Unsupported, Var


class Obj:
    __slots__ = ("oid", "escaped", "tag")
    _n = 0

    def __init__(self):
        Obj._n += 1
        self.oid = Obj._n
        self.escaped = None
        self.tag = None


class TD(dict):
    """dict with an owner, so that the undo trail identifies the modified object."""
    __slots__ = ("owner",)

    def __init__(self, owner, d=()):
        dict.__init__(self, d)
        self.owner = owner


class Frame(Obj):
    __slots__ = ("vars", "module", "parent", "func", "yields", "cls")

    def __init__(self, module, parent, func, cls=None):
        super().__init__()
        self.vars = TD(self)
        self.module = module
        self.parent = parent
        self.func = func
        self.yields = None
        self.cls = cls


class Seg:
    """Zero or more elements, each produced by one of the alternatives.
    alts: list of zero-argument factories evaluated in the current partition."""
    __slots__ = ("alts", "name", "count", "nonempty", "src", "tmpl")

    def __init__(self, alts, name, count=None, src=None):
        self.alts = alts
        self.name = name
        self.count = count      # Lin or None
        self.src = src
        self.tmpl = None

    def pick(self):
        i = C.choose(len(self.alts), ("pick", self.name))
        return self.alts[i]()

    def __repr__(self):
        return "<seg %s>" % (self.name,)


class Rep(Seg):
    """count (a Lin) elements that all have the value val."""
    __slots__ = ("val",)

    def __init__(self, val, count, name):
        Seg.__init__(self, [lambda: val], name, count)
        self.val = val


class OList(Obj):
    __slots__ = ("items", "kind")

    def __init__(self, items=(), kind="list"):
        super().__init__()
        self.items = list(items)
        self.kind = kind

    def set(self, items):
        C.setattr(self, "items", list(items))
        note_mut(self)

    def has_seg(self):
        return any(isinstance(x, Seg) for x in self.items)

    def __repr__(self):
        return "%s%r" % (self.kind, self.items)


class ODict(Obj):
    __slots__ = ("d", "default")

    def __init__(self, d=None, default=None):
        super().__init__()
        self.d = TD(self, d or {})
        self.default = default

    def put(self, k, v):
        C.dset(self.d, k, v)
        note_mut(self)

    def __repr__(self):
        return "dict%r" % (self.d,)


class OInst(Obj):
    __slots__ = ("cls", "attrs", "native")

    def __init__(self, cls, attrs=None):
        super().__init__()
        self.cls = cls
        self.attrs = TD(self, attrs or {})
        self.native = None

    def __repr__(self):
        return "<%s #%d>" % (self.cls.name, self.oid)


class OIter(Obj):
    """Iterator over a materialised item list."""
    __slots__ = ("items", "pos")

    def __init__(self, items):
        super().__init__()
        self.items = list(items)
        self.pos = 0


class ClassVal:
    def __init__(self, name, bases, attrs, module=None, node=None, py=None):
        self.name = name
        self.bases = bases
        self.attrs = attrs
        self.module = module
        self.node = node
        self.py = py
        self.mro = self._mro()

    def _mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                for k in b.mro:
                    if k not in out:
                        out.append(k)
            else:
                out.append(b)
        return out

    def lookup(self, name):
        for k in self.mro:
            if isinstance(k, ClassVal) and name in k.attrs:
                return k.attrs[name]
        return None

    def qual(self):
        return (self.module.name + "." if self.module else "") + self.name

    def __repr__(self):
        return "<class %s>" % self.name


class FuncVal:
    __slots__ = ("node", "module", "closure", "defaults", "kwdefaults", "qual", "cls",
                 "islambda", "isgen", "locals_", "globals_", "nonlocals_", "attrs")

    def __init__(self, node, module, closure, defaults, kwdefaults, qual):
        self.node = node
        self.module = module
        self.closure = closure
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.qual = qual
        self.cls = None
        self.attrs = {}

    def __repr__(self):
        return "<func %s>" % self.qual


class BoundMethod:
    __slots__ = ("self_", "func")

    def __init__(self, self_, func):
        self.self_ = self_
        self.func = func

    def __repr__(self):
        return "<bound %r of %r>" % (self.func, self.self_)


class Native:
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return "<native %s>" % self.name


class Prop:
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class StaticM:
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class ClassM:
    __slots__ = ("func",)

    def __init__(self, func):
        self.func = func


class SuperVal:
    __slots__ = ("cls", "self_")

    def __init__(self, cls, self_):
        self.cls = cls
        self.self_ = self_


class Ext:
    """A dotted name of a library that is not analysed."""
    __slots__ = ("name",)
    _t = {}

    def __new__(cls, name):
        e = cls._t.get(name)
        if e is None:
            e = object.__new__(cls)
            e.name = name
            cls._t[name] = e
        return e

    def __repr__(self):
        return "<ext %s>" % self.name


class ModuleVal:
    def __init__(self, name, path, tree):
        self.name = name
        self.path = path
        self.tree = tree
        self.frame = Frame(self, None, None)
        self.vars = self.frame.vars

    def __repr__(self):
        return "<module %s>" % self.name


class SStr:
    """Concatenation of literal pieces and decimal renderings of integers / opaque text.
    parts: ('lit', s) | ('int', Lin) | ('txt', Term)"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if p[0] == "lit" and out and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + p[1])
            elif p == ("lit", ""):
                continue
            else:
                out.append(p)
        self.parts = tuple(out)

    def __hash__(self):
        return hash(self.parts)

    def __eq__(self, o):
        return isinstance(o, SStr) and o.parts == self.parts

    def __repr__(self):
        return "str<%s>" % "+".join(repr(p[1]) for p in self.parts)


def mkstr(parts):
    s = SStr(parts)
    if all(p[0] == "lit" for p in s.parts):
        return "".join(p[1] for p in s.parts)
    out = []
    for p in s.parts:
        if p[0] == "int":
            v = C.norm(p[1])
            if not isinstance(v, Lin):
                out.append(("lit", str(int(v))))
                continue
        out.append(p)
    s = SStr(out)
    if all(p[0] == "lit" for p in s.parts):
        return "".join(p[1] for p in s.parts)
    return s


class PyRaise(Exception):
    """An exception of the analysed program."""

    def __init__(self, exc, loc=None):
        self.exc = exc
        self.loc = loc


MUT_HOOKS = []


def note_mut(o):
    """Called for every in-place modification of an abstract object."""
    for h in MUT_HOOKS:
        h(o)
