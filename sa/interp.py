"""Abstract interpreter for Python source (AST level)."""
import ast
import os
from .dom import (C, Lin, Term, Cond, Var, Infeasible, Unsupported, Budget, add, scale, mk, var,
                  c_and, c_or, c_not, parts)
from .objs import *
from . import objs as _o


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


NUM = (int, float, Lin)


def is_num(v):
    return isinstance(v, (int, float, Lin))


def _bexc():
    out = {}
    names = """BaseException Exception ArithmeticError ZeroDivisionError OverflowError AssertionError
    AttributeError LookupError IndexError KeyError NameError UnboundLocalError OSError
    FileNotFoundError FileExistsError PermissionError RuntimeError NotImplementedError StopIteration TypeError ValueError
    UnicodeDecodeError EOFError ImportError KeyboardInterrupt SystemExit StopAsyncIteration GeneratorExit
    MemoryError RecursionError Warning UserWarning DeprecationWarning""".split()
    import builtins
    for n in names:
        py = getattr(builtins, n)
        out[n] = (py, [b.__name__ for b in py.__bases__ if b is not object])
    res = {}

    def build(n):
        if n in res:
            return res[n]
        if n == "object":
            return None
        py = getattr(builtins, n)
        bases = [build(b.__name__) for b in py.__bases__ if b is not object]
        res[n] = ClassVal(n, [b for b in bases if b], {}, py=py)
        return res[n]
    for n in names:
        build(n)
    res["IOError"] = res["OSError"]
    return res


class Interp:
    def __init__(self, roots):
        """roots: {package name: directory}"""
        self.roots = roots
        self.modules = {}
        self.loading = 0
        self.load_hooks = []
        self.iter_limit = 64
        self.exc = _bexc()
        self.natives = {}
        self.ext_consts = {}
        self.ext_call_hook = None      # f(interp, name, args, kwargs) -> value or NotImplemented
        self.overrides = {}
        self.eff = None
        self.stack = []
        self.loop_hooks = []
        self.new_hooks = []
        self.setattr_hooks = []
        self.while_unroll = 12
        self.analysed_funcs = set()
        self.unknown_ext = set()
        self.in_final = True
        self.max_depth = 120
        from . import natives, arr
        natives.install(self)
        arr.install(self)
        self.obj_t = ClassVal("object", [], {})
        self.type_names = {}

    # ------------------------------------------------------------ utils
    def loc(self):
        if not self.stack:
            return "?"
        f, node = self.stack[-1]
        return "%s:%s (%s)" % (os.path.basename(f.module.path or f.module.name),
                               getattr(node, "lineno", "?"),
                               f.func.qual.split(".", 1)[-1] if f.func else "<module>")

    def raise_(self, name, msg=""):
        e = OInst(self.exc[name], {"args": (msg,)})
        raise PyRaise(e, self.loc())

    def effect(self, *entry):
        C.setattr(self, "eff", (entry, self.eff))

    def effects(self):
        out = []
        e = self.eff
        while e is not None:
            out.append(e[0])
            e = e[1]
        out.reverse()
        return out

    # ------------------------------------------------------------ modules
    def find_module(self, name):
        top = name.split(".")[0]
        if top not in self.roots:
            return None
        rel = name.split(".")[1:]
        base = os.path.join(self.roots[top], *rel)
        if os.path.isfile(base + ".py"):
            return base + ".py"
        if os.path.isdir(base):
            init = os.path.join(base, "__init__.py")
            return init if os.path.isfile(init) else base
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.find_module(name)
        if path is None:
            raise Unsupported("module %s not found" % name)
        if os.path.isdir(path):
            tree = ast.parse("")
        else:
            with open(path, encoding="utf-8") as f:
                tree = ast.parse(f.read(), path)
        m = ModuleVal(name, path, tree)
        self.modules[name] = m
        m.vars["__name__"] = name
        m.vars["__file__"] = path
        fr = m.frame
        self.stack.append((fr, tree))
        self.loading += 1
        try:
            self.block(tree.body, fr)
        finally:
            self.stack.pop()
            self.loading -= 1
        for h in self.load_hooks:
            h(m)
        return m

    def do_import(self, node, fr):
        if isinstance(node, ast.Import):
            for a in node.names:
                if self.find_module(a.name):
                    m = self.load(a.name)
                    if a.asname:
                        self.store_name(fr, a.asname, m)
                    else:
                        top = a.name.split(".")[0]
                        self.store_name(fr, top, self.load(top))
                else:
                    if a.asname:
                        self.store_name(fr, a.asname, self.ext(a.name))
                    else:
                        self.store_name(fr, a.name.split(".")[0], self.ext(a.name.split(".")[0]))
            return
        name = node.module or ""
        if node.level:
            base = fr.module.name.split(".")
            isinit = fr.module.path.endswith("__init__.py")
            base = base[:len(base) - node.level + (1 if isinit else 0)]
            name = ".".join(base + ([name] if name else []))
        if self.find_module(name):
            m = self.load(name)
            for a in node.names:
                if a.name == "*":
                    for k, v in list(m.vars.items()):
                        if not k.startswith("_"):
                            self.store_name(fr, k, v)
                    continue
                if a.name in m.vars:
                    v = m.vars[a.name]
                elif self.find_module(name + "." + a.name):
                    v = self.load(name + "." + a.name)
                else:
                    self.raise_("ImportError", a.name)
                self.store_name(fr, a.asname or a.name, v)
        else:
            for a in node.names:
                if a.name == "*":
                    raise Unsupported("import * from %s" % name)
                self.store_name(fr, a.asname or a.name, self.ext(name + "." + a.name))

    def ext(self, name):
        if name in self.ext_consts:
            return self.ext_consts[name]
        return Ext(name)

    # ------------------------------------------------------------ names
    def store_name(self, fr, name, v):
        f = fr.func
        if f is not None:
            if name in f.globals_:
                C.dset(fr.module.vars, name, v)
                note_mut(fr.module)
                return
            if name in f.nonlocals_:
                p = fr.parent
                while p is not None:
                    if name in p.vars:
                        C.dset(p.vars, name, v)
                        return
                    p = p.parent
        C.dset(fr.vars, name, v)

    def load_name(self, fr, name):
        f = fr.func
        if f is None or name not in f.globals_:
            if name in fr.vars:
                return fr.vars[name]
            if f is not None and name in f.locals_:
                self.raise_("UnboundLocalError", name)
            p = fr.parent
            while p is not None:
                if name in p.vars:
                    return p.vars[name]
                p = p.parent
        mv = fr.module.vars
        if name in mv:
            return mv[name]
        if name in self.exc:
            return self.exc[name]
        b = self.natives.get("builtins." + name)
        if b is not None:
            return Native("builtins." + name, b)
        if name in ("int", "float", "str", "bool", "list", "tuple", "dict", "set", "object", "type", "bytes"):
            return Ext("builtins." + name)
        if name == "NotImplemented" or name == "Ellipsis":
            return Ext("builtins." + name)
        self.raise_("NameError", name)

    # ------------------------------------------------------------ statements
    def block(self, body, fr):
        for st in body:
            self.stmt(st, fr)

    def stmt(self, st, fr):
        C.stats["stmts"] += 1
        self.stack[-1] = (fr, st)
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s at %s" % (type(st).__name__, self.loc()))
        m(st, fr)

    def s_Pass(self, st, fr):
        pass

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, fr)

    def s_Import(self, st, fr):
        self.do_import(st, fr)

    s_ImportFrom = s_Import

    def s_Global(self, st, fr):
        pass

    s_Nonlocal = s_Global

    def s_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.load_name(fr, t.id)
            v = self.ev(st.value, fr)
            self.store_name(fr, t.id, self.augop(st.op, old, v))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            old = self.getattr_(o, t.attr)
            v = self.ev(st.value, fr)
            self.setattr_(o, t.attr, self.augop(st.op, old, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_index(t.slice, fr)
            old = self.getitem(o, k)
            v = self.ev(st.value, fr)
            self.setitem(o, k, self.augop(st.op, old, v))
        else:
            raise Unsupported("augassign target")

    def augop(self, op, old, v):
        if isinstance(old, OList) and old.kind == "list" and isinstance(op, ast.Add):
            old.set(old.items + list(self.iter_items(v)))
            return old
        if isinstance(old, OList) and old.kind == "list" and isinstance(op, ast.Mult):
            r = self.binop(op, old, v)
            old.set(r.items)
            return old
        from .arr import OArr, inplace
        if isinstance(old, OArr):
            return inplace(self, op, old, v)
        return self.binop(op, old, v)

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                C.ddel(fr.vars, t.id)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                k = self.ev_index(t.slice, fr)
                if isinstance(o, ODict):
                    k = self.key(k)
                    if k not in o.d:
                        self.raise_("KeyError", k)
                    C.ddel(o.d, k)
                    note_mut(o)
                elif isinstance(o, OList):
                    if isinstance(k, slice):
                        lo, hi, stp = self.slice_idx(o, k)
                        items = list(o.items)
                        del items[lo:hi:stp]
                        o.set(items)
                    else:
                        i = self.list_index(o, k)
                        o.set(o.items[:i] + o.items[i + 1:])
                else:
                    raise Unsupported("del item")
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if isinstance(o, OInst) and t.attr in o.attrs:
                    C.ddel(o.attrs, t.attr)
                else:
                    self.raise_("AttributeError", t.attr)
            else:
                raise Unsupported("del target")

    def s_If(self, st, fr):
        if self.truth(self.ev(st.test, fr)):
            self.block(st.body, fr)
        else:
            self.block(st.orelse, fr)

    assume_asserts = False
    merge_empty = False      # summarise old empty/shared lists together with newer ones at loop heads
    lazy_repeat = False      # [x] * symbolic count stays a segment of that length

    def s_Assert(self, st, fr):
        if self.assume_asserts:
            k = self.cond(self.ev(st.test, fr))
            bad = self.assume_asserts == "unless false" and C.decide(k) is False
            if not bad:
                C.assume(k, True)
        else:
            bad = not self.truth(self.ev(st.test, fr))
        if bad:
            msg = ""
            if st.msg is not None:
                try:
                    msg = self.ev(st.msg, fr)
                except Unsupported:
                    msg = Term("msg")
            e = OInst(self.exc["AssertionError"], {"args": (msg,)})
            raise PyRaise(e, self.loc())

    def s_Return(self, st, fr):
        raise ReturnEx(self.ev(st.value, fr) if st.value is not None else None)

    def s_Break(self, st, fr):
        raise BreakEx()

    def s_Continue(self, st, fr):
        raise ContinueEx()

    def s_Raise(self, st, fr):
        if st.exc is None:
            cur = getattr(self, "cur_exc", None)
            if cur is None:
                self.raise_("RuntimeError", "No active exception to reraise")
            raise PyRaise(cur, self.loc())
        v = self.ev(st.exc, fr)
        if isinstance(v, ClassVal):
            v = self.call(v, [], {})
        if isinstance(v, (Term, Ext)):
            v = OInst(self.exc["Exception"], {"args": (v,)})
        raise PyRaise(v, self.loc())

    def exc_match(self, exc, typ):
        if isinstance(typ, tuple):
            return any(self.exc_match(exc, t) for t in typ)
        if isinstance(typ, ClassVal):
            return typ in exc.cls.mro
        if isinstance(typ, (Ext, Term)):
            nm = typ.name if isinstance(typ, Ext) else repr(typ)
            for k in exc.cls.mro:
                if isinstance(k, Ext) and k is typ:
                    return True
                if k.name == nm:
                    return True
            return False
        return False

    def s_Try(self, st, fr):
        def inner():
            saved = list(self.stack)
            try:
                self.block(st.body, fr)
            except PyRaise as e:
                del self.stack[len(saved):]
                self.stack[:] = saved
                for h in st.handlers:
                    if h.type is None or self.exc_match(e.exc, self.ev(h.type, fr)):
                        self.effect("caught", e.exc.cls.name, e.loc)
                        old = getattr(self, "cur_exc", None)
                        C.setattr(self, "cur_exc", e.exc)
                        try:
                            if h.name:
                                self.store_name(fr, h.name, e.exc)
                            self.block(h.body, fr)
                        finally:
                            C.setattr(self, "cur_exc", old)
                        return
                raise
            else:
                self.block(st.orelse, fr)
        if not st.finalbody:
            return inner()
        try:
            inner()
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            d = len(self.stack)
            self.block(st.finalbody, fr)
            raise
        else:
            self.block(st.finalbody, fr)

    s_TryStar = s_Try
    cur_exc = None

    def s_With(self, st, fr, i=0):
        if i == len(st.items):
            return self.block(st.body, fr)
        it = st.items[i]
        cm = self.ev(it.context_expr, fr)
        if isinstance(cm, OInst) and cm.cls.lookup("__enter__"):
            v = self.call(self.getattr_(cm, "__enter__"), [], {})
        else:
            self.effect("enter", cm)
            v = cm
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)

        def leave(exc=None):
            if isinstance(cm, OInst) and cm.cls.lookup("__exit__"):
                a = [None, None, None] if exc is None else [exc.exc.cls, exc.exc, None]
                return self.truth(self.call(self.getattr_(cm, "__exit__"), a, {}))
            self.effect("exit", cm)
            return False
        try:
            self.s_With(st, fr, i + 1)
        except PyRaise as e:
            if not leave(e):
                raise
        except (ReturnEx, BreakEx, ContinueEx):
            leave()
            raise
        else:
            leave()

    def s_FunctionDef(self, st, fr):
        f = self.make_func(st, fr)
        v = f
        for d in reversed(st.decorator_list):
            dv = self.ev(d, fr)
            if isinstance(dv, Native) and dv.name == "builtins.staticmethod":
                v = StaticM(v)
            elif isinstance(dv, Native) and dv.name == "builtins.classmethod":
                v = ClassM(v)
            elif isinstance(dv, Native) and dv.name == "builtins.property":
                v = Prop(v)
            elif isinstance(dv, (Term, Ext)):
                f.attrs.setdefault("decorators", []).append(dv)
            else:
                v = self.call(dv, [v], {})
        self.store_name(fr, st.name, v)

    def make_func(self, node, fr):
        a = node.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        pre = fr.func.qual + "." if fr.func else (
            fr.module.name + "." + (fr.cls + "." if fr.cls else ""))
        name = getattr(node, "name", "<lambda>")
        f = FuncVal(node, fr.module, fr if (fr.func is not None) else None, defaults, kwd, pre + name)
        body = node.body if isinstance(node.body, list) else [node.body]
        scan = _scan(node)
        f.locals_, f.globals_, f.nonlocals_, f.isgen = scan
        f.islambda = not isinstance(node.body, list)
        return f

    def s_ClassDef(self, st, fr):
        bases = [self.ev(b, fr) for b in st.bases]
        cf = Frame(fr.module, fr if fr.func is not None else None, None, cls=st.name)
        if fr.func is not None:
            # class inside a function: names resolve through the enclosing frame
            cf.parent = fr
        self.block(st.body, cf)
        c = ClassVal(st.name, bases, dict(cf.vars), fr.module, st)
        for v in c.attrs.values():
            f = v.func if isinstance(v, (Prop, StaticM, ClassM)) else v
            if isinstance(f, FuncVal) and f.cls is None:
                f.cls = c
        for d in reversed(st.decorator_list):
            dv = self.ev(d, fr)
            if isinstance(dv, Ext) and dv.name in ("dataclasses.dataclass",) or \
                    isinstance(dv, Term):
                self._dataclass(c, st)
            else:
                raise Unsupported("class decorator")
        self.store_name(fr, st.name, c)

    def _dataclass(self, c, st):
        fields = []
        for k in reversed(c.mro):
            if isinstance(k, ClassVal) and k.node is not None:
                for s in k.node.body:
                    if isinstance(s, ast.AnnAssign):
                        if s.target.id not in fields:
                            fields.append(s.target.id)

        def init(I, args, kw):
            self_ = args[0]
            for i, f in enumerate(fields):
                if i + 1 < len(args):
                    v = args[i + 1]
                elif f in kw:
                    v = kw[f]
                else:
                    v = c.lookup(f)
                I.setattr_(self_, f, v)
        c.attrs.setdefault("__init__", Native("dataclass.__init__", init))

    sum_filter = False       # a filter over the indices of an array selects a set of indices, as np.where does

    def selected(self, node, it_node, target, tests, fr, f):
        """The elements of range(n) / enumerate(array) that pass the tests, or None when that is no index filter."""
        if not self.sum_filter or not isinstance(it_node, ast.Call) or not isinstance(it_node.func, ast.Name) \
                or it_node.keywords or it_node.func.id not in ("range", "enumerate"):
            return None
        for t in tests:
            for x in ast.walk(t):
                if isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await, ast.ListComp, ast.GeneratorExp, ast.IfExp)) or \
                        isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ("int", "float", "bool", "abs")):
                    return None
        from . import arr
        if it_node.func.id == "range":
            if not any(isinstance(x, ast.Subscript) for t in tests for x in ast.walk(t)):
                return None
            it = self.ev(it_node, fr)
            l = it.items if isinstance(it, OList) else []
            if len(l) < 12 or not all(isinstance(x, int) for x in l) or l != list(range(l[0], l[0] + len(l))):
                return it
            whole, lo, n = it, l[0], len(l)

            def elem(k):
                return C.norm(add(k, lo))
        else:
            if len(it_node.args) != 1 or any(isinstance(x, ast.Call) for x in ast.walk(it_node.args[0])):
                return None
            a = self.ev(it_node.args[0], fr)
            if not isinstance(a, arr.OArr) or len(a.shape) != 1 or not isinstance(a.shape[0], int) or a.shape[0] < 12:
                return None
            whole, n = None, a.shape[0]

            def elem(k):
                return (k, arr.rd(a, (k,)))

        def cond(key):
            tf = Frame(f.module, f, _COMP)
            tf.cls = f.cls
            if f.func is None:
                tf.parent = f
            self.assign(target, elem(key[0]), tf)
            return c_and([self.cond(self.ev(t, tf)) for t in tests])

        def probe(want):
            def go():
                if self.truth(cond((C.freshvar("fi", 0, n - 1),))) is not want:
                    raise Infeasible()
            return C.feasible(go)
        if not probe(True):
            return OList([])
        if not probe(False):
            return whole
        idx = arr.where1(self, arr.fn(cond, (n,), "np", "bool"))[0]
        if it_node.func.id == "range" and lo == 0:
            return idx
        out = []
        for x in idx.items:
            if isinstance(x, Seg):
                s = Seg([lambda x=x: elem(x.pick())], x.name)
                s.count = x.count
                out.append(s)
            else:
                out.append(elem(x))
        return OList(out)

    def s_For(self, st, fr):
        it = None
        if self.sum_filter and not st.orelse and st.body and isinstance(st.body[0], ast.If) and not st.body[0].orelse:
            b = st.body[0]
            if len(st.body) == 1:
                it = self.selected(st, st.iter, st.target, [b.test], fr, fr)
            elif len(b.body) == 1 and isinstance(b.body[0], ast.Continue):
                it = self.selected(st, st.iter, st.target, [ast.UnaryOp(ast.Not(), b.test)], fr, fr)
        if it is None:
            it = self.ev(st.iter, fr)

        def body(elem):
            self.assign(st.target, elem, fr)
            try:
                self.block(st.body, fr)
            except ContinueEx:
                pass
        broke = self.run_loop(it, body, st)
        if not broke:
            self.block(st.orelse, fr)

    def run_loop(self, it, body, node):
        """Iterate an abstract iterable; returns True when left by break."""
        from .arr import OArr
        if isinstance(it, OInst) and it.cls.lookup("__iter__"):
            it = self.call(self.getattr_(it, "__iter__"), [], {})
        if isinstance(it, OInst):
            if it.cls.lookup("__next__"):
                return self.iter_protocol_loop(it, body, node)
        try:
            if isinstance(it, OList) and it.kind == "list":
                i = 0
                while i < len(it.items):
                    x = it.items[i]
                    if isinstance(x, Seg):
                        self.seg_loop(x, lambda: body(x.pick()), node)
                    else:
                        body(x)
                    i += 1
            else:
                for x in self.iter_items(it):
                    if isinstance(x, Seg):
                        self.seg_loop(x, (lambda x=x: body(x.pick())), node)
                    else:
                        if isinstance(it, OIter):
                            C.setattr(it, "pos", it.pos + 1)
                        body(x)
        except BreakEx:
            return True
        return False

    def iter_protocol_loop(self, it, body, node):
        nxt = self.getattr_(it, "__next__")
        for _ in range(self.iter_limit):
            mark = len(C.expl[-1].stack), C.expl[-1].pos
            try:
                x = self.call(nxt, [], {})
            except PyRaise as e:
                if self.exc["StopIteration"] in e.exc.cls.mro:
                    return False
                raise
            try:
                body(x)
            except BreakEx:
                return True
        raise Unsupported("unbounded iterator protocol loop at %s" % self.loc())

    fix_whiles = False

    def s_While(self, st, fr):
        if self.fix_whiles:
            def step():
                if not self.truth(self.ev(st.test, fr)):
                    return "exit"
                try:
                    self.block(st.body, fr)
                except ContinueEx:
                    pass
                return "cont"
            from .loops import while_loop
            try:
                while_loop(self, step, st)
            except BreakEx:
                return
            self.block(st.orelse, fr)
            return
        n_und = 0
        n = 0
        while True:
            p0 = C.expl[-1].pos
            t = self.truth(self.ev(st.test, fr))
            if C.expl[-1].pos != p0:
                n_und += 1
                if n_und > self.while_unroll:
                    raise Unsupported("while loop not bounded at %s" % self.loc())
            if not t:
                self.block(st.orelse, fr)
                return
            n += 1
            if n > 5000:
                raise Unsupported("while loop too long at %s" % self.loc())
            try:
                self.block(st.body, fr)
            except ContinueEx:
                pass
            except BreakEx:
                return

    def s_Match(self, st, fr):
        v = self.ev(st.subject, fr)
        for case in st.cases:
            if self.match(case.pattern, v, fr) and (
                    case.guard is None or self.truth(self.ev(case.guard, fr))):
                self.block(case.body, fr)
                return

    def match(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare(ast.Eq(), v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare(ast.Is(), v, p.value))
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, fr) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, fr):
                return False
            if p.name:
                self.store_name(fr, p.name, v)
            return True
        raise Unsupported("match pattern")

    # ------------------------------------------------------------ loops with unknown trip count
    def seg_loop(self, seg, iterate, node):
        from .loops import seg_loop
        seg_loop(self, seg, iterate, node)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_index(t.slice, fr)
            self.setitem(o, k, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported("assign target %s" % type(t).__name__)

    def unpack(self, elts, v, fr):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, (Term, Ext)):
            for i, e in enumerate(elts):
                self.assign(e, Term("unpack", v, i, len(elts)), fr)
            return
        items = list(self.iter_items(v))
        if any(isinstance(x, Seg) for x in items):
            if not star and len(items) == 1 and isinstance(items[0], Seg):
                for e in elts:
                    self.assign(e, items[0].pick(), fr)
                return
            if star and not any(isinstance(x, Seg) for x in items[:star[0]]):
                i = star[0]
                after = len(elts) - i - 1
                tail = items[len(items) - after:] if after else []
                if len(items) - after < i or any(isinstance(x, Seg) for x in tail):
                    raise Unsupported("unpack of unknown-length sequence")
                for e, x in zip(elts[:i], items[:i]):
                    self.assign(e, x, fr)
                self.assign(elts[i].value, OList(items[i:len(items) - after]), fr)
                for e, x in zip(elts[i + 1:], tail):
                    self.assign(e, x, fr)
                return
            raise Unsupported("unpack of unknown-length sequence at %s" % self.loc())
        if star:
            i = star[0]
            after = len(elts) - i - 1
            if len(items) < len(elts) - 1:
                self.raise_("ValueError", "not enough values to unpack")
            for e, x in zip(elts[:i], items[:i]):
                self.assign(e, x, fr)
            self.assign(elts[i].value, OList(items[i:len(items) - after]), fr)
            for e, x in zip(elts[i + 1:], items[len(items) - after:]):
                self.assign(e, x, fr)
            return
        if len(items) != len(elts):
            self.raise_("ValueError", "wrong number of values to unpack (%d for %d)"
                        % (len(items), len(elts)))
        for e, x in zip(elts, items):
            self.assign(e, x, fr)

    # ------------------------------------------------------------ expressions
    def ev(self, n, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression %s at %s" % (type(n).__name__, self.loc()))
        v = m(n, fr)
        if isinstance(v, Lin):
            v = C.norm(v)
        return v

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return self.load_name(fr, n.id)

    def e_Tuple(self, n, fr):
        r = self.elts(n.elts, fr)
        if any(isinstance(x, Seg) for x in r):
            return OList(r, "tuple")
        return tuple(r)

    def elts(self, es, fr):
        r = []
        for e in es:
            if isinstance(e, ast.Starred):
                r.extend(self.iter_items(self.ev(e.value, fr)))
            else:
                r.append(self.ev(e, fr))
        return r

    def e_List(self, n, fr):
        return OList(self.elts(n.elts, fr))

    def e_Set(self, n, fr):
        return OList(self.elts(n.elts, fr), "set")

    def e_Dict(self, n, fr):
        d = ODict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v, fr)
                if not isinstance(o, ODict):
                    raise Unsupported("** of non-dict")
                for kk, vv in o.d.items():
                    d.d[kk] = vv
            else:
                kk = self.key(self.ev(k, fr))
                d.d[kk] = self.ev(v, fr)
        return d

    def key(self, k):
        if isinstance(k, Lin):
            v = C.concretize(k)
            if v is None:
                return C.norm(k)
            return v
        if isinstance(k, Cond):
            return self.truth(k)
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        if isinstance(k, OList) and k.kind in ("list", "set"):
            self.raise_("TypeError", "unhashable")
        return k

    def e_JoinedStr(self, n, fr):
        ps = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                ps.append(("lit", v.value))
            else:
                x = self.ev(v.value, fr)
                spec = None
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, fr)
                if v.conversion == 114:
                    x = self.to_repr(x)
                ps.extend(self.fmt(x, spec))
        return mkstr(ps)

    def fmt(self, x, spec=None):
        if spec not in (None, ""):
            if isinstance(spec, str) and not isinstance(x, (Lin, Term, Obj, Cond, SStr)):
                return [("lit", format(x, spec))]
            return [("txt", Term("fmt", self.tkey(x), self.tkey(spec)))]
        return self.str_parts(x)

    def str_parts(self, x):
        if isinstance(x, bool) or x is None:
            return [("lit", str(x))]
        if isinstance(x, (int, float)):
            return [("lit", str(x))]
        if isinstance(x, Lin):
            return [("int", x)]
        if isinstance(x, str):
            return [("lit", x)]
        if isinstance(x, SStr):
            return list(x.parts)
        if isinstance(x, OInst):
            for nm in ("__str__", "__repr__"):
                if x.cls.lookup(nm):
                    r = self.call(self.getattr_(x, nm), [], {})
                    return self.str_parts(r)
        return [("txt", Term("str", self.tkey(x)))]

    def to_repr(self, x):
        if isinstance(x, OInst) and x.cls.lookup("__repr__"):
            return self.call(self.getattr_(x, "__repr__"), [], {})
        if isinstance(x, (int, float)) or x is None:
            return repr(x)
        if isinstance(x, str):
            return repr(x)
        if isinstance(x, Lin):
            return SStr([("int", x)])
        return SStr([("txt", Term("repr", self.tkey(x)))])

    def tkey(self, v):
        """Hashable key of a value for opaque terms."""
        if v is None or isinstance(v, (bool, int, float, str, bytes, Lin, Term, SStr, Cond, Ext)):
            return C.norm(v) if isinstance(v, Lin) else v
        if isinstance(v, tuple):
            return Term("tuple", *[self.tkey(x) for x in v])
        if isinstance(v, Obj):
            return Term("obj", v.oid)
        if isinstance(v, (ClassVal,)):
            return Term("class", v.qual())
        if isinstance(v, FuncVal):
            return Term("func", v.qual, id(v.node))
        if isinstance(v, BoundMethod):
            return Term("bound", self.tkey(v.self_), self.tkey(v.func))
        if isinstance(v, Native):
            return Term("native", v.name)
        if isinstance(v, slice):
            return Term("slice", self.tkey(v.start), self.tkey(v.stop), self.tkey(v.step))
        if isinstance(v, ModuleVal):
            return Term("module", v.name)
        if isinstance(v, Seg):
            return Term("seg", str(v.name))
        return Term("py", type(v).__name__, id(v))

    def e_FormattedValue(self, n, fr):
        return mkstr(self.fmt(self.ev(n.value, fr)))

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            c = self.cond(v)
            return c_not(c) if isinstance(c, Cond) else (not c)
        from .arr import OArr, unary
        if isinstance(v, OArr):
            return unary(self, n.op, v)
        if isinstance(v, Cond):
            if isinstance(n.op, ast.Invert):
                return c_not(v)
            v = int(self.truth(v))
        if isinstance(n.op, ast.USub):
            if is_num(v):
                return scale(v, -1) if isinstance(v, Lin) else -v
            if isinstance(v, Term):
                return self.opq("neg", v)
        elif isinstance(n.op, ast.UAdd):
            return v
        elif isinstance(n.op, ast.Invert):
            if is_num(v):
                return add(scale(v, -1), -1) if isinstance(v, Lin) else ~int(v)
        if isinstance(v, Term):
            return self.opq("unary", type(n.op).__name__, v)
        if isinstance(v, OInst):
            nm = {"USub": "__neg__", "Invert": "__invert__"}.get(type(n.op).__name__)
            if nm and v.cls.lookup(nm):
                return self.call(self.getattr_(v, nm), [], {})
        self.raise_("TypeError", "bad operand for unary op")

    def opq(self, op, *args):
        return Term(op, *[self.tkey(a) for a in args])

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        acc = []      # undecided pure conditions so far
        vals = n.values
        for i, e in enumerate(vals):
            if acc:
                # evaluate lazily: only when the operand is pure and non-partitioning
                p0 = len(C.expl[-1].stack), C.expl[-1].pos
                if _pure(e):
                    v = None
                    try:
                        v = self.ev(e, fr)
                    except PyRaise:
                        v = _RAISED
                    c = None
                    if v is not _RAISED and isinstance(v, (bool, Cond)):
                        c = v
                    if c is not None:
                        if i == len(vals) - 1 or True:
                            acc.append(c)
                            if c is (not isand):
                                # and with False / or with True
                                return (not isand)
                            continue
                # fall back: decide what we have
                t = self.truth(c_and(acc) if isand else c_or(acc))
                if t != isand:
                    return t
                acc = []
            v = self.ev(e, fr)
            if i == len(vals) - 1:
                return v
            if isinstance(v, Cond):
                d = C.decide(v)
                if d is None:
                    acc = [v]
                    continue
                v = d
            t = self.truth(v)
            if t != isand:
                return v
        return c_and(acc) if isand else c_or(acc)

    def e_IfExp(self, n, fr):
        if self.truth(self.ev(n.test, fr)):
            return self.ev(n.body, fr)
        return self.ev(n.orelse, fr)

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_Lambda(self, n, fr):
        return self.make_func(n, fr)

    def e_Starred(self, n, fr):
        raise Unsupported("starred")

    def e_Await(self, n, fr):
        raise Unsupported("await")

    def e_Yield(self, n, fr):
        v = self.ev(n.value, fr) if n.value is not None else None
        fr.yields.set(fr.yields.items + [v])
        self.effect("yield", fr.func.qual)
        return None

    def e_YieldFrom(self, n, fr):
        v = self.ev(n.value, fr)
        fr.yields.set(fr.yields.items + list(self.iter_items(v)))
        return None

    def e_ListComp(self, n, fr):
        out = OList([])
        self.comp(n.generators, 0, fr, lambda f: out.set(out.items + [self.ev(n.elt, f)]), None, n, out)
        return out

    def e_SetComp(self, n, fr):
        out = OList([], "set")
        self.comp(n.generators, 0, fr, lambda f: out.set(out.items + [self.ev(n.elt, f)]), None, n)
        return self.dedupe(out)

    def e_GeneratorExp(self, n, fr):
        out = OList([])
        self.comp(n.generators, 0, fr, lambda f: out.set(out.items + [self.ev(n.elt, f)]), None, n, out)
        return OIter(out.items)

    def e_DictComp(self, n, fr):
        out = ODict()
        self.comp(n.generators, 0, fr,
                  lambda f: out.put(self.key(self.ev(n.key, f)), self.ev(n.value, f)), None, n)
        return out

    def dedupe(self, o):
        items = []
        for x in o.items:
            if isinstance(x, (int, str, float)) and any(
                    isinstance(y, (int, str, float)) and x == y for y in items):
                continue
            items.append(x)
        o.set(items)
        return o

    def each_rep(self, it, body, out):
        """Element-wise body over an iterable with repeated elements: once per repeated value, the count is kept.
        None if the iterable has no such elements."""
        if not self.lazy_repeat or out is None or not isinstance(it, (OList, OIter)):
            return None
        items = list(self.iter_items(it))
        if not any(isinstance(x, Rep) for x in items):
            return None
        if any(isinstance(x, Seg) and not isinstance(x, Rep) for x in items):
            return None
        for x in items:
            n0 = len(out.items)
            body(x.val if isinstance(x, Rep) else x)
            if isinstance(x, Rep):
                new = out.items[n0:]
                if any(isinstance(y, Seg) and not isinstance(y, Rep) for y in new):
                    raise Unsupported("repetition of an unbounded sequence")
                if any(isinstance(y, Rep) for y in new):
                    raise Unsupported("repetition of a repetition")
                out.set(out.items[:n0] + [Rep(y, x.count, C.fresh("rep")) for y in new])
        return True

    def comp(self, gens, i, fr, emit, f, node, rep_out=None):
        if f is None:
            f = Frame(fr.module, fr, _COMP)
            f.cls = fr.cls
            if fr.func is None:
                f.parent = fr
        if i == len(gens):
            emit(f)
            return
        g = gens[i]
        it = self.selected(node, g.iter, g.target, g.ifs, fr if i == 0 else f, f) if self.sum_filter and g.ifs else None
        if it is None:
            it = self.ev(g.iter, fr if i == 0 else f)

        def body(x):
            self.assign(g.target, x, f)
            for c in g.ifs:
                if not self.truth(self.ev(c, f)):
                    return
            self.comp(gens, i + 1, fr, emit, f, node, rep_out)
        if self.each_rep(it, body, rep_out):
            return
        self.run_loop(it, body, CompLoop(node, gens[i:], f))

    def e_Attribute(self, n, fr):
        return self.getattr_(self.ev(n.value, fr), n.attr)

    def e_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        if isinstance(o, (Ext, ClassVal)) or (isinstance(o, Native) and o.name.startswith("builtins.")):
            if isinstance(o, ClassVal) and o.lookup("__class_getitem__") is None or not isinstance(o, ClassVal):
                return o      # type annotation such as List[int]
        return self.getitem(o, self.ev_index(n.slice, fr))

    def ev_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(self.ev(s.lower, fr) if s.lower else None,
                         self.ev(s.upper, fr) if s.upper else None,
                         self.ev(s.step, fr) if s.step else None)
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(e, fr) for e in s.elts)
        return self.ev(s, fr)

    def e_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        cs = []
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, fr)
            c = self.compare(op, left, right)
            if len(n.ops) == 1:
                return c
            c = self.cond(c)
            if c is False:
                return c_and(cs + [False])
            cs.append(c)
            left = right
        return c_and(cs)

    def e_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        return self.binop(n.op, a, b)

    def e_Call(self, n, fr):
        # zero-argument super()
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            args = [self.ev(a, fr) for a in n.args]
            if args:
                return SuperVal(args[0], args[1])
            f = fr
            while f is not None and (f.func is None or f.func is _COMP or f.func.cls is None):
                f = f.parent
            first = f.func.node.args.args[0].arg
            return SuperVal(f.func.cls, f.vars[first])
        fn = self.ev(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                items = list(self.iter_items(self.ev(a.value, fr)))
                args.extend(items)
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if not isinstance(v, ODict):
                    raise Unsupported("** argument")
                kw.update(v.d)
            else:
                kw[k.arg] = v
        self.stack[-1] = (fr, n)
        return self.call(fn, args, kw)

    # ------------------------------------------------------------ calls
    def call(self, fn, args, kw):
        C.stats["calls"] += 1
        if isinstance(fn, BoundMethod):
            return self.call(fn.func, [fn.self_] + args, kw)
        if isinstance(fn, FuncVal):
            ov = self.overrides.get(fn.qual)
            if ov is not None:
                return ov(self, args, kw)
            return self.call_func(fn, args, kw)
        if isinstance(fn, Native):
            return fn.fn(self, args, kw)
        if isinstance(fn, ClassVal):
            return self.instantiate(fn, args, kw)
        if isinstance(fn, Ext):
            return self.call_ext(fn.name, args, kw)
        if isinstance(fn, OInst):
            c = fn.cls.lookup("__call__")
            if c is not None:
                return self.call(BoundMethod(fn, c), args, kw)
            n = self.ext_base(fn.cls)
            if n is not None:
                h = self.natives.get(n + ".__call__")
                if h is not None:
                    return h(self, [fn] + args, kw)
                return self.call_ext(n + ".__call__", [fn] + args, kw)
        if isinstance(fn, Term):
            ks = [self.tkey(a) for a in args] + [Term("kw", k, self.tkey(v)) for k, v in sorted(kw.items())]
            self.effect("call", fn, tuple(args), dict(kw), self.loc())
            return Term("call", fn, *ks)
        if isinstance(fn, (StaticM,)):
            return self.call(fn.func, args, kw)
        if fn is None or is_num(fn) or isinstance(fn, (str, OList, tuple, ODict)):
            self.raise_("TypeError", "object is not callable")
        raise Unsupported("call of %r at %s" % (fn, self.loc()))

    def ext_base(self, cls):
        for k in cls.mro:
            if isinstance(k, Ext):
                return k.name
        return None

    def call_ext(self, name, args, kw):
        h = self.natives.get(name)
        if h is not None:
            return h(self, args, kw)
        if self.ext_call_hook is not None:
            r = self.ext_call_hook(self, name, args, kw)
            if r is not NotImplemented:
                return r
        self.unknown_ext.add(name)
        self.effect("ext", name, tuple(args), dict(kw), self.loc())
        ks = [self.tkey(a) for a in args] + [Term("kw", k, self.tkey(v)) for k, v in sorted(kw.items())]
        return Term("ext:" + name, *ks)

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        n = len(names)
        seg = any(isinstance(x, Seg) for x in args)
        if seg and not a.vararg:
            raise Unsupported("unknown-length argument list")
        for i, x in enumerate(args[:n]):
            out[names[i]] = x
        if len(args) > n:
            if a.vararg is None:
                self.raise_("TypeError", "%s() takes %d positional arguments" % (f.qual, n))
            rest = args[n:]
            out[a.vararg.arg] = OList(rest, "tuple") if any(isinstance(x, Seg) for x in rest) else tuple(rest)
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        extra = {}
        kwnames = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in kwnames:
                if k in out:
                    self.raise_("TypeError", "multiple values for argument %s" % k)
                out[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.raise_("TypeError", "%s() got an unexpected keyword argument %s" % (f.qual, k))
        nd = len(f.defaults)
        for i, nm in enumerate(names):
            if nm not in out:
                j = i - (n - nd)
                if j >= 0:
                    out[nm] = f.defaults[j]
                else:
                    self.raise_("TypeError", "%s() missing argument %s" % (f.qual, nm))
        for nm in kwnames:
            if nm not in out:
                if nm in f.kwdefaults:
                    out[nm] = f.kwdefaults[nm]
                else:
                    self.raise_("TypeError", "%s() missing argument %s" % (f.qual, nm))
        if a.kwarg is not None:
            out[a.kwarg.arg] = ODict(extra)
        return out

    def call_func(self, f, args, kw):
        if len(self.stack) > self.max_depth:
            raise Unsupported("call depth at %s" % self.loc())
        self.analysed_funcs.add(f.qual)
        vals = self.bind(f, args, kw)
        fr = Frame(f.module, f.closure, f)
        fr.vars.update(vals)
        self.stack.append((fr, f.node))
        depth = len(self.stack)
        try:
            for dv in f.attrs.get("decorators", ()):
                self.effect("enter", dv)
            if f.islambda:
                return self.ev(f.node.body, fr)
            if f.isgen:
                fr.yields = OList([])
                try:
                    self.block(f.node.body, fr)
                except ReturnEx:
                    pass
                return OIter(fr.yields.items)
            try:
                self.block(f.node.body, fr)
            except ReturnEx as r:
                return r.v
            return None
        finally:
            del self.stack[depth - 1:]
            for dv in f.attrs.get("decorators", ()):
                self.effect("exit", dv)

    def instantiate(self, cls, args, kw):
        if cls.py is not None:
            return OInst(cls, {"args": tuple(args)})
        o = OInst(cls)
        init = cls.lookup("__init__")
        if init is not None:
            self.call(BoundMethod(o, init), args, kw)
        elif any(isinstance(k, ClassVal) and k.py is not None for k in cls.mro):
            o.attrs["args"] = tuple(args)
        elif (args or kw) and self.ext_base(cls) is None:
            self.raise_("TypeError", "%s() takes no arguments" % cls.name)
        for h in self.new_hooks:
            h(self, o)
        return o

    # ------------------------------------------------------------ attributes
    def getattr_(self, o, name, default=_o):
        from .arr import OArr, arr_attr
        if isinstance(o, OInst):
            if name in o.attrs:
                return o.attrs[name]
            v = o.cls.lookup(name)
            if v is not None or any(isinstance(k, ClassVal) and name in k.attrs for k in o.cls.mro):
                if isinstance(v, FuncVal) or isinstance(v, Native):
                    return BoundMethod(o, v)
                if isinstance(v, Prop):
                    return self.call(v.func, [o], {})
                if isinstance(v, StaticM):
                    return v.func
                if isinstance(v, ClassM):
                    return BoundMethod(o.cls, v.func)
                return v
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                d = ODict()
                d.d = o.attrs
                return d
            n = self.ext_base(o.cls)
            if n is not None:
                h = self.natives.get(n + "." + name)
                if h is not None:
                    return BoundMethod(o, Native(n + "." + name, h))
                if (n + ".%getattr%") in self.natives:
                    return self.natives[n + ".%getattr%"](self, o, name)
                return Term("attr", self.tkey(o), name)
            if o.cls.py is not None or any(isinstance(k, ClassVal) and k.py is not None for k in o.cls.mro):
                if name in ("with_traceback", "add_note"):
                    return BoundMethod(o, Native(name, lambda I, a, k: a[0]))
                if name in ("__traceback__", "__cause__", "__context__"):
                    return None
        elif isinstance(o, ModuleVal):
            if name in o.vars:
                return o.vars[name]
            if self.find_module(o.name + "." + name):
                return self.load(o.name + "." + name)
        elif isinstance(o, ClassVal):
            if name == "__name__":
                return o.name
            v = o.lookup(name)
            if v is not None or any(isinstance(k, ClassVal) and name in k.attrs for k in o.mro):
                if isinstance(v, StaticM):
                    return v.func
                if isinstance(v, ClassM):
                    return BoundMethod(o, v.func)
                return v
            n = self.ext_base(o)
            if n is not None:
                return self.ext(n + "." + name)
        elif isinstance(o, Ext):
            return self.ext(o.name + "." + name)
        elif isinstance(o, OArr):
            return arr_attr(self, o, name)
        elif isinstance(o, SuperVal):
            mro = (o.self_.cls if isinstance(o.self_, OInst) else o.self_).mro
            i = mro.index(o.cls)
            for k in mro[i + 1:]:
                if isinstance(k, ClassVal):
                    if name in k.attrs:
                        v = k.attrs[name]
                        if isinstance(v, (FuncVal, Native)):
                            return BoundMethod(o.self_, v)
                        if isinstance(v, ClassM):
                            return BoundMethod(o.self_, v.func)
                        if isinstance(v, StaticM):
                            return v.func
                        if isinstance(v, Prop):
                            return self.call(v.func, [o.self_], {})
                        return v
                    if k.py is not None and name == "__init__":
                        def _init(I, a, kw2):
                            I.setattr_(a[0], "args", tuple(a[1:]))
                        return BoundMethod(o.self_, Native("exc.__init__", _init))
                else:
                    h = self.natives.get(k.name + "." + name)
                    if h is not None:
                        return BoundMethod(o.self_, Native(k.name + "." + name, h))
                    return BoundMethod(o.self_, Ext(k.name + "." + name))
            if name == "__init__":
                return Native("object.__init__", lambda I, a, k: None)
        elif isinstance(o, FuncVal):
            if name == "__name__":
                return o.node.name if not o.islambda else "<lambda>"
            if name in o.attrs:
                return o.attrs[name]
        elif isinstance(o, Term):
            if o.op.startswith("ext:") and (o.op[4:] + "()." + name) in self.natives:
                return BoundMethod(o, Native(name, self.natives[o.op[4:] + "()." + name]))
            return Term("attr", o, name)
        else:
            from .natives import method_of
            m = method_of(self, o, name)
            if m is not None:
                return m
        if default is not _o:
            return default
        self.raise_("AttributeError", "%s has no attribute %s" % (self.type_name(o), name))

    def type_name(self, o):
        if isinstance(o, OInst):
            return o.cls.name
        if isinstance(o, OList):
            return o.kind
        return {Lin: "int", SStr: "str", ODict: "dict"}.get(type(o), type(o).__name__)

    def setattr_(self, o, name, v):
        if isinstance(o, OInst):
            s = o.cls.lookup("__setattr__")
            if s is not None:
                self.call(BoundMethod(o, s), [name, v], {})
                return
            for h in self.setattr_hooks:
                h(self, o, name, v)
            C.dset(o.attrs, name, v)
            note_mut(o)
        elif isinstance(o, ModuleVal):
            C.dset(o.vars, name, v)
            note_mut(o)
        elif isinstance(o, ClassVal):
            C.dset(o.attrs, name, v)
            note_mut(o)
        elif isinstance(o, (Term, Ext)):
            self.effect("setattr", o, name, v, self.loc())
        elif isinstance(o, FuncVal):
            C.dset(o.attrs, name, v)
            note_mut(o)
        else:
            from .arr import OArr
            if isinstance(o, OArr):
                self.effect("setattr", o, name, v, self.loc())
                return
            self.raise_("AttributeError", name)

    # ------------------------------------------------------------ truth & comparison
    def cond(self, v):
        """Truth value of v as bool or Cond."""
        from .arr import OArr, arr_truth
        if isinstance(v, (bool, Cond)):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float, str, bytes)):
            return bool(v)
        if isinstance(v, Lin):
            c = C.eq0(v)
            return c_not(c) if isinstance(c, Cond) else (not c)
        if isinstance(v, SStr):
            return True if any(p[0] in ("lit", "int") for p in v.parts) else Cond(
                "truth", Term("nonempty", v))
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, OList):
            if any(not isinstance(x, Seg) for x in v.items):
                return True
            if not v.items:
                return False
            ln = self.length(v)
            return self.cond(ln)
        if isinstance(v, ODict):
            return len(v.d) > 0
        if isinstance(v, OInst):
            if v.cls.lookup("__bool__"):
                return self.cond(self.call(self.getattr_(v, "__bool__"), [], {}))
            if v.cls.lookup("__len__"):
                return self.cond(self.call(self.getattr_(v, "__len__"), [], {}))
            return True
        if isinstance(v, OArr):
            return arr_truth(self, v)
        if isinstance(v, Term):
            return Cond("truth", v)
        return True

    def truth(self, v):
        c = self.cond(v)
        if isinstance(c, bool):
            return c
        return C.truth(c)

    def compare(self, op, a, b):
        from .arr import OArr, arr_compare
        k = type(op).__name__
        if k in ("Is", "IsNot"):
            r = self.identical(a, b)
            return c_not(r) if k == "IsNot" and isinstance(r, Cond) else ((not r) if k == "IsNot" else r)
        if k in ("In", "NotIn"):
            r = self.contains(b, a)
            return c_not(r) if k == "NotIn" and isinstance(r, Cond) else ((not r) if k == "NotIn" else r)
        if isinstance(a, OArr) or isinstance(b, OArr):
            return arr_compare(self, k, a, b)
        if isinstance(a, Cond):
            a = self.cond_num(a)
        if isinstance(b, Cond):
            b = self.cond_num(b)
        if k in ("Eq", "NotEq"):
            r = self.equal(a, b)
            return c_not(r) if k == "NotEq" and isinstance(r, Cond) else ((not r) if k == "NotEq" else r)
        if is_num(a) and is_num(b):
            if not isinstance(a, Lin) and not isinstance(b, Lin):
                return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[k]
            for x, y, swap in ((a, b, False), (b, a, True)):
                # infinities
                if isinstance(y, float) and y in (float("inf"), float("-inf")):
                    less = (y > 0) != swap
                    return {"Lt": less, "LtE": less, "Gt": not less, "GtE": not less}[k]
            if k == "Lt":
                c = C.ge0(add(add(b, a, -1), -1) if _intlike(a, b) else add(b, a, -1))
                if not _intlike(a, b):
                    c2 = C.mk_ge(add(a, b, -1))
                    return c_not(c2) if isinstance(c2, Cond) else not c2
                return c
            if k == "LtE":
                return C.ge0(add(b, a, -1))
            if k == "Gt":
                if not _intlike(a, b):
                    c2 = C.mk_ge(add(b, a, -1))
                    return c_not(c2) if isinstance(c2, Cond) else not c2
                return C.ge0(add(add(a, b, -1), -1))
            return C.ge0(add(a, b, -1))
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[k]
        if isinstance(a, tuple) and isinstance(b, tuple):
            n = min(len(a), len(b))
            for x, y in zip(a, b):
                e = self.cond(self.equal(x, y))
                if self.truth(e):
                    continue
                return self.compare(op, x, y)
            return self.compare(op, len(a), len(b))
        if isinstance(a, Term) or isinstance(b, Term):
            if (isinstance(a, Term) and (is_num(b) or isinstance(b, Term))) or \
                    (isinstance(b, Term) and is_num(a)):
                return self.compare(op, self.as_lin(a), self.as_lin(b))
            return Cond("truth", self.opq("cmp" + k, a, b))
        if isinstance(a, OInst):
            nm = {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[k]
            if a.cls.lookup(nm):
                return self.call(self.getattr_(a, nm), [b], {})
        if a is None or b is None:
            self.raise_("TypeError", "'<' not supported with None")
        return Cond("truth", self.opq("cmp" + k, a, b))

    def as_lin(self, t):
        if isinstance(t, Term):
            return var(t)
        return t

    def cond_num(self, c):
        """Condition as 0/1 number."""
        d = C.decide(c)
        if d is not None:
            return int(d)
        return int(C.truth(c))

    def equal(self, a, b):
        from .arr import OArr
        if isinstance(a, Cond):
            a = self.truth(a)
        if isinstance(b, Cond):
            b = self.truth(b)
        if is_num(a) and is_num(b):
            if not isinstance(a, Lin) and not isinstance(b, Lin):
                return a == b
            for y in (a, b):
                if isinstance(y, float) and (y != y or y in (float("inf"), float("-inf"))):
                    return False
            return C.eq0(add(a, b, -1))
        if a is None or b is None:
            if a is b:
                return True
            if isinstance(a, Term) or isinstance(b, Term):
                return Cond("truth", self.opq("eq", a, b))
            return False
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return str_eq(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return c_and([self.cond(self.equal(x, y)) for x, y in zip(a, b)])
        if isinstance(a, OList) and isinstance(b, OList):
            if a is b:
                return True
            if a.kind != b.kind:
                return False
            if not a.has_seg() and not b.has_seg():
                if a.kind == "set":
                    if len(a.items) != len(b.items):
                        return False
                    return c_and([c_or([self.cond(self.equal(x, y)) for y in b.items]) for x in a.items])
                if len(a.items) != len(b.items):
                    return False
                return c_and([self.cond(self.equal(x, y)) for x, y in zip(a.items, b.items)])
            return Cond("truth", self.opq("eq", a, b))
        if isinstance(a, OInst):
            m = a.cls.lookup("__eq__")
            if m is not None:
                return self.cond(self.call(BoundMethod(a, m), [b], {}))
            if isinstance(b, OInst):
                if a is b:
                    return True
                if isinstance(b, OInst) and b.cls.lookup("__eq__"):
                    return self.cond(self.call(BoundMethod(b, b.cls.lookup("__eq__")), [a], {}))
                return False
        if isinstance(b, OInst) and not isinstance(a, Term):
            m = b.cls.lookup("__eq__")
            if m is not None:
                return self.cond(self.call(BoundMethod(b, m), [a], {}))
            return False
        if isinstance(a, Term) or isinstance(b, Term):
            if a is b:
                return True
            if is_num(a) or is_num(b):
                return C.eq0(add(self.as_lin(a), self.as_lin(b), -1))
            x, y = self.tkey(a), self.tkey(b)
            if repr(x) > repr(y):
                x, y = y, x
            return Cond("truth", Term("eq", x, y))
        if isinstance(a, ODict) and isinstance(b, ODict):
            if set(a.d) != set(b.d):
                return False
            return c_and([self.cond(self.equal(a.d[k], b.d[k])) for k in a.d])
        if type(a) is type(b):
            return a is b or a == b
        return False

    def identical(self, a, b):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, Cond) and isinstance(b, bool):
                return a if b else c_not(a)
            if isinstance(b, Cond) and isinstance(a, bool):
                return b if a else c_not(b)
            if isinstance(a, Term) or isinstance(b, Term):
                t = a if isinstance(a, Term) else b
                if a is b:
                    return True
                return Cond("truth", self.opq("is", t, b if t is a else a))
            return a is b
        if isinstance(a, Obj) or isinstance(b, Obj):
            return a is b
        return self.equal(a, b)

    def contains(self, cont, x):
        from .arr import OArr
        if isinstance(cont, (str, SStr)):
            if isinstance(cont, str) and isinstance(x, str):
                return x in cont
            if isinstance(cont, str) and isinstance(x, SStr):
                # a symbolic string inside a literal: compare with every substring of its length class
                return c_or([self.cond(str_eq(x, cont[i:j])) for i in range(len(cont))
                             for j in range(i + 1, len(cont) + 1)])
            if isinstance(cont, SStr) and isinstance(x, str):
                for p in cont.parts:
                    if p[0] == "lit" and x in p[1]:
                        return True
                if not any(p[0] == "txt" for p in cont.parts) and not any(ch.isdigit() or ch == "-" for ch in x) \
                        and len(x) == 1:
                    return False
            return Cond("truth", self.opq("in", x, cont))
        if isinstance(cont, ODict):
            k = self.key(x)
            if k in cont.d:
                return True
            cs = []
            for kk in cont.d:
                c = self.cond(self.equal(k, kk))
                if c is True:
                    return True
                if c is not False:
                    cs.append(c)
            return c_or(cs)
        if isinstance(cont, (Term, Ext)):
            return Cond("truth", self.opq("in", x, cont))
        if isinstance(cont, OInst) and cont.cls.lookup("__contains__"):
            return self.cond(self.call(self.getattr_(cont, "__contains__"), [x], {}))
        cs = []
        for y in self.iter_items(cont):
            if isinstance(y, Rep):
                r = self.cond(self.equal(x, y.val))
                if r is not False and (r is True or C.decide(r) is not False):
                    cs.append(c_and([Cond("truth", Term("in", self.tkey(x), y.name)),
                                     self.cond(C.mk_ge(add(y.count, -1)))]))
            elif isinstance(y, Seg):
                cs.append(Cond("truth", Term("in", self.tkey(x), self.tkey(y))))
            else:
                cs.append(self.cond(self.equal(x, y)))
        return c_or(cs)

    # ------------------------------------------------------------ arithmetic
    def binop(self, op, a, b):
        from .arr import OArr, arr_binop
        k = type(op).__name__
        if isinstance(a, OArr) or isinstance(b, OArr):
            return arr_binop(self, k, a, b)
        if isinstance(a, Cond) and isinstance(b, (Cond, bool)) and k in ("BitAnd", "BitOr"):
            return c_and([a, b]) if k == "BitAnd" else c_or([a, b])
        if isinstance(b, Cond) and isinstance(a, bool) and k in ("BitAnd", "BitOr"):
            return c_and([a, b]) if k == "BitAnd" else c_or([a, b])
        if isinstance(a, Cond):
            a = self.cond_num(a)
        if isinstance(b, Cond):
            b = self.cond_num(b)
        if is_num(a) and is_num(b):
            return self.arith(k, a, b)
        if k == "Add":
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                return mkstr(self.str_parts(a) + self.str_parts(b))
            if isinstance(a, OList) and isinstance(b, OList) and a.kind == b.kind:
                return OList(a.items + b.items, a.kind)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, (tuple, OList)) and isinstance(b, (tuple, OList)):
                ka = "tuple" if isinstance(a, tuple) else a.kind
                kb = "tuple" if isinstance(b, tuple) else b.kind
                if ka == kb:
                    return OList(list(self.iter_items(a)) + list(self.iter_items(b)), ka)
        if k == "Mult":
            if is_num(a) and isinstance(b, (str, OList, tuple, SStr)):
                a, b = b, a
            if isinstance(a, (str, OList, tuple)) and is_num(b):
                if self.lazy_repeat and isinstance(b, Lin) and isinstance(a, OList) and len(a.items) == 1 \
                        and isinstance(a.items[0], (int, str)) and isinstance(C.norm(b), Lin):
                    return OList([Rep(a.items[0], C.norm(b), C.fresh("rep"))], a.kind)
                if self.lazy_repeat and isinstance(b, Lin) and isinstance(a, (str, SStr)) and \
                        isinstance(C.norm(b), Lin):
                    return SStr([("rep", a, C.norm(b))])
                n = C.concretize(b)
                if n is None:
                    if isinstance(a, OList):
                        its = a.items
                        return OList([Seg([(lambda x=x: x) for x in its], C.fresh("rep"))], a.kind)
                    return self.opq("repeat", a, b)
                n = int(n)
                if isinstance(a, OList):
                    return OList(a.items * n, a.kind)
                return a * n
        if k == "Mod" and isinstance(a, (str, SStr)):
            return SStr([("txt", self.opq("fmt%", a, b))])
        if k in ("BitOr", "BitAnd", "Sub", "BitXor") and isinstance(a, OList) and a.kind == "set":
            return self.set_op(k, a, b)
        if k == "BitOr" and isinstance(a, ODict) and isinstance(b, ODict):
            d = dict(a.d)
            d.update(b.d)
            return ODict(d)
        if isinstance(a, (Term, Ext)) or isinstance(b, (Term, Ext)):
            if isinstance(a, (Term, Lin, int, float)) and isinstance(b, (Term, Lin, int, float)) and k in ("Add", "Sub"):
                return self.arith(k, self.as_lin(a), self.as_lin(b))
            if k == "Add" and (isinstance(a, (str, SStr)) or isinstance(b, (str, SStr))):
                return mkstr(self.str_parts(a) + self.str_parts(b))
            return self.opq("op" + k, a, b)
        for o, p, nm in ((a, b, "__%s__"), (b, a, "__r%s__")):
            if isinstance(o, OInst):
                mn = nm % {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv",
                           "FloorDiv": "floordiv", "Mod": "mod"}.get(k, k.lower())
                if o.cls.lookup(mn):
                    return self.call(self.getattr_(o, mn), [p], {})
        self.raise_("TypeError", "unsupported operand types for %s: %s and %s"
                    % (k, self.type_name(a), self.type_name(b)))

    def set_op(self, k, a, b):
        xs, ys = list(self.iter_items(a)), list(self.iter_items(b))
        if any(isinstance(z, (Seg, Lin)) for z in xs + ys):
            return self.opq("set" + k, a, b)
        if k == "BitOr":
            r = xs + [y for y in ys if y not in xs]
        elif k == "BitAnd":
            r = [x for x in xs if x in ys]
        elif k == "Sub":
            r = [x for x in xs if x not in ys]
        else:
            r = [x for x in xs if x not in ys] + [y for y in ys if y not in xs]
        return OList(r, "set")

    def arith(self, k, a, b):
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        conc = not isinstance(a, Lin) and not isinstance(b, Lin)
        try:
            if k == "Add":
                return a + b if conc else add(a, b)
            if k == "Sub":
                return a - b if conc else add(a, b, -1)
            if k == "Mult":
                return a * b if conc else C.mul(a, b)
            if k == "Div":
                if conc:
                    return a / b
                return self.truediv(a, b)
            if k == "FloorDiv":
                return a // b if conc else C.floordiv(a, b)
            if k == "Mod":
                return a % b if conc else C.mod(a, b)
            if k == "Pow":
                if conc:
                    return a ** b
                if not isinstance(b, Lin) and b == 2:
                    return C.mul(a, a)
                if isinstance(b, Lin):
                    bb = C.concretize(b)
                    if bb is not None and not isinstance(a, Lin):
                        return a ** bb
                return var(Term("pow", C.norm(a), C.norm(b)))
            if conc and (isinstance(a, float) or isinstance(b, float)):
                self.raise_("TypeError", "bit operation on float")
            if k == "BitAnd":
                return a & b if conc else C.bitand(a, b)
            if k == "BitOr":
                return a | b if conc else C.bitor(a, b)
            if k == "BitXor":
                return a ^ b if conc else C.bitxor(a, b)
            if k == "LShift":
                return a << b if conc else C.shl(a, b)
            if k == "RShift":
                return a >> b if conc else C.shr(a, b)
        except ZeroDivisionError:
            self.raise_("ZeroDivisionError", "division by zero")
        except ValueError as e:
            self.raise_("ValueError", str(e))
        raise Unsupported("operator %s" % k)

    def truediv(self, a, b):
        a, b = C.norm(a), C.norm(b)
        if not isinstance(b, Lin):
            if b == 0:
                raise ZeroDivisionError
            if isinstance(b, int) and isinstance(a, Lin):
                if a.c % b == 0 and all(kk % b == 0 for _, kk in a.ts):
                    return mk(a.c // b, {v: kk // b for v, kk in a.ts})
            v = C.concretize(a, cap=8)
            if v is not None:
                return v / b
        else:
            if self.truth(C.mk_eq(b)):
                raise ZeroDivisionError
            if C.must_equal(a, b):
                return 1
        return var(Term("truediv", a, b))

    # ------------------------------------------------------------ sequences
    def length(self, v):
        from .arr import OArr
        if isinstance(v, (str, tuple, bytes)):
            return len(v)
        if isinstance(v, OList):
            n = 0
            for x in v.items:
                if isinstance(x, Seg):
                    if x.count is None:
                        x.count = var(("count", x.name), 0, None)
                    n = add(n, x.count)
                else:
                    n = add(n, 1)
            return C.norm(n)
        if isinstance(v, ODict):
            return len(v.d)
        if isinstance(v, OIter):
            self.raise_("TypeError", "object of type generator has no len()")
        if isinstance(v, OArr):
            if not v.shape:
                self.raise_("TypeError", "len() of unsized object")
            return v.shape[0]
        if isinstance(v, SStr):
            if all(p[0] == "lit" for p in v.parts):
                return sum(len(p[1]) for p in v.parts)
            return var(Term("len", v), 0, None)
        if isinstance(v, OInst) and v.cls.lookup("__len__"):
            return self.call(self.getattr_(v, "__len__"), [], {})
        if isinstance(v, OInst):
            n = self.ext_base(v.cls)
            if n and (n + ".__len__") in self.natives:
                return self.natives[n + ".__len__"](self, [v], {})
        if isinstance(v, (Term, Ext)):
            return var(Term("len", self.tkey(v)), 0, None)
        self.raise_("TypeError", "object of type %s has no len()" % self.type_name(v))

    def iter_items(self, v):
        from .arr import OArr, arr_items
        if isinstance(v, (str, tuple)):
            return list(v)
        if isinstance(v, OList):
            return list(v.items)
        if isinstance(v, OIter):
            r = v.items[v.pos:]
            return r
        if isinstance(v, ODict):
            return list(v.d.keys())
        if isinstance(v, OArr):
            return arr_items(self, v)
        if isinstance(v, OInst):
            h = None
            if v.cls.lookup("__iter__"):
                r = self.call(self.getattr_(v, "__iter__"), [], {})
                if r is not v:
                    return self.iter_items(r)
            n = self.ext_base(v.cls)
            if n and (n + ".%items%") in self.natives:
                return self.natives[n + ".%items%"](self, v)
            if v.cls.lookup("__next__"):
                out = OList([])
                self.iter_protocol_loop(v, lambda x: out.set(out.items + [x]), None)
                return list(out.items)
            if v.cls.lookup("__getitem__"):
                raise Unsupported("getitem iteration")
        if isinstance(v, (Term, Ext)):
            t = self.tkey(v)
            return [Seg([lambda: Term("elem", t, C.fresh("elem"))], Term("iter", t))]
        if isinstance(v, SStr):
            if all(p[0] == "lit" for p in v.parts):
                return list("".join(p[1] for p in v.parts))
            raise Unsupported("iteration over symbolic string")
        if isinstance(v, Seg):
            return [v]
        self.raise_("TypeError", "%s object is not iterable" % self.type_name(v))

    def seg_pos(self, o, k):
        """Position of symbolic index k in a list with segments: ('item', i) | ('in', i)"""
        off = 0
        for i, x in enumerate(o.items):
            d = add(k, off, -1)
            if isinstance(x, Seg):
                if C.must_equal(d, 0) and False:
                    return ("in", i)
                if x.count is None:
                    x.count = var(("count", x.name), 0, None)
                off = add(off, x.count)
            else:
                if C.must_equal(d, 0):
                    return ("item", i)
                off = add(off, 1)
        if C.must_equal(k, off):
            return ("end", len(o.items))
        return None

    def list_index(self, o, k):
        """Concrete position of index k in a list (no segments before it)."""
        if isinstance(k, Cond):
            k = self.cond_num(k)
        if isinstance(k, Term):
            k = self.as_lin(k)
        items = o.items if isinstance(o, OList) else o
        n = len(items)
        k = C.norm(k)
        seg = isinstance(o, OList) and o.has_seg()
        if isinstance(k, Lin):
            if seg:
                p = self.seg_pos(o, k)
                if p and p[0] == "item":
                    return p[1]
                return None
            lo, hi = C.bounds(k)
            # out of range part raises
            if lo is None or lo < -n:
                if self.truth(c_not(C.mk_ge(add(k, n))) if isinstance(C.mk_ge(add(k, n)), Cond)
                              else not C.mk_ge(add(k, n))):
                    self.raise_("IndexError", "list index out of range")
            if hi is None or hi >= n:
                if self.truth(C.mk_ge(add(k, -n))):
                    self.raise_("IndexError", "list index out of range")
            k = C.norm(k)
            if isinstance(k, Lin):
                c = C.concretize(k)
                if c is None:
                    # the index was bounded by the tests above: enumerate positions
                    for i in range(n):
                        if self.truth(C.mk_eq(add(k, -i))):
                            return i
                    for i in range(1, n + 1):
                        if self.truth(C.mk_eq(add(k, i))):
                            return n - i
                    raise Infeasible()
                k = c
        if isinstance(k, float) and k.is_integer():
            k = int(k)
        if not isinstance(k, int):
            self.raise_("TypeError", "list indices must be integers")
        k = int(k)
        if seg:
            if k >= 0:
                if any(isinstance(x, Seg) for x in items[:k + 1]):
                    return None
                if k >= n:
                    return None
                return k
            if any(isinstance(x, Seg) for x in items[k:]) or -k > n:
                return None
            return n + k
        if k < -n or k >= n:
            self.raise_("IndexError", "list index out of range")
        return k % n if n else k

    def getitem(self, o, k):
        from .arr import OArr, arr_get
        if isinstance(o, OArr):
            return arr_get(self, o, k)
        if isinstance(o, (OList, tuple)):
            if isinstance(o, OList) and o.kind == "set":
                self.raise_("TypeError", "set is not subscriptable")
            if isinstance(k, slice):
                return self.get_slice(o, k)
            if isinstance(k, OArr):
                k = self.arr_scalar(k)
            items = o.items if isinstance(o, OList) else o
            kk = C.norm(k) if isinstance(k, Lin) else k
            if isinstance(kk, Lin) and len(items) > 6 and not any(isinstance(x, Seg) for x in items):
                from .arr import table_lookup
                lo, hi = C.bounds(kk)
                if lo is not None and lo >= 0 and hi is not None and hi < len(items):
                    r = table_lookup(self, lambda i: items[i], kk)
                    if r is not NotImplemented:
                        return r
            if self.lazy_repeat and kk == 0 and isinstance(kk, int):
                for x in items:
                    if not isinstance(x, Rep):
                        if isinstance(x, Seg):
                            break
                        return x
                    if self.truth(C.mk_ge(add(x.count, -1))):
                        return x.val
            i = self.list_index(o, k)
            if i is None:
                # element of unknown position
                segs = [x for x in items if isinstance(x, Seg)]
                if len(segs) == 1 and not isinstance(C.norm(k), Lin) or len(items) == len(segs):
                    j = C.norm(k)
                    kk = self.truth(Cond("truth", Term("short", self.tkey(o), self.tkey(j))))
                    if kk:
                        self.raise_("IndexError", "list index out of range")
                    return segs[0].pick()
                alts = [(lambda s=s: s.pick()) if isinstance(s, Seg) else (lambda s=s: s) for s in items]
                return alts[C.choose(len(alts))]()
            return items[i]
        if isinstance(o, ODict):
            k = self.key(k)
            if k in o.d:
                return o.d[k]
            for kk in list(o.d):
                if isinstance(k, (Lin, SStr, Term)) or isinstance(kk, (Lin, SStr, Term)):
                    if self.truth(self.equal(k, kk)):
                        return o.d[kk]
            if o.default is not None:
                v = self.call(o.default, [], {})
                o.put(k, v)
                return v
            e = OInst(self.exc["KeyError"], {"args": (k,)})
            raise PyRaise(e, self.loc())
        if isinstance(o, (str, SStr)):
            return self.str_get(o, k)
        if isinstance(o, (Term, Ext)):
            return Term("item", self.tkey(o), self.tkey(k))
        if isinstance(o, OInst):
            if o.cls.lookup("__getitem__"):
                return self.call(self.getattr_(o, "__getitem__"), [k], {})
            n = self.ext_base(o.cls)
            if n and (n + ".__getitem__") in self.natives:
                return self.natives[n + ".__getitem__"](self, [o, k], {})
            if n:
                return Term("item", self.tkey(o), self.tkey(k))
        if o is None:
            self.raise_("TypeError", "'NoneType' object is not subscriptable")
        self.raise_("TypeError", "%s object is not subscriptable" % self.type_name(o))

    def arr_scalar(self, a):
        from .arr import arr_item
        return arr_item(self, a)

    def get_slice(self, o, s):
        items = o.items if isinstance(o, OList) else list(o)
        kind = o.kind if isinstance(o, OList) else "tuple"

        def mkr(r):
            if kind == "tuple" and not any(isinstance(x, Seg) for x in r):
                return tuple(r)
            return OList(r, kind)
        if not any(isinstance(x, Seg) for x in items):
            lo, hi, st = self.slice_idx(o, s)
            return mkr(items[lo:hi:st])
        st = 1 if s.step is None else s.step
        lo = 0 if s.start is None else C.norm(s.start)
        hi = None if s.stop is None else C.norm(s.stop)
        if st == -1 and s.start is None and s.stop is None:
            return mkr(items[::-1])
        if st != 1:
            raise Unsupported("slice step over unknown-length sequence")
        # start position
        if isinstance(lo, int) and lo >= 0:
            if any(isinstance(x, Seg) for x in items[:lo]):
                i = None
            else:
                i = min(lo, len(items))
        elif isinstance(lo, int):
            if any(isinstance(x, Seg) for x in items[lo:]) or -lo > len(items):
                i = None
            else:
                i = len(items) + lo
        else:
            p = self.seg_pos(o, lo)
            i = p[1] if p else None
        if hi is None:
            j = len(items)
        elif isinstance(hi, int) and hi >= 0:
            j = None if any(isinstance(x, Seg) for x in items[:hi]) else min(hi, len(items))
        elif isinstance(hi, int):
            j = None if any(isinstance(x, Seg) for x in items[hi:]) or -hi > len(items) else len(items) + hi
        else:
            p = self.seg_pos(o, hi)
            j = p[1] if p else None
        if i is not None and j is not None:
            return mkr(items[i:j])
        alts = []
        for x in items[i or 0: j if j is not None else len(items)]:
            alts.append((lambda x=x: x.pick()) if isinstance(x, Seg) else (lambda x=x: x))
        return mkr([Seg(alts, C.fresh("slice"))])

    def slice_idx(self, o, s):
        n = len(o.items if isinstance(o, OList) else o)

        def c(x):
            if x is None:
                return None
            if isinstance(x, (Lin, Term)):
                v = C.concretize(self.as_lin(x))
                if v is None:
                    for i in range(n + 1):
                        if i < n:
                            if self.truth(C.mk_eq(add(self.as_lin(x), -i))):
                                return i
                    return n
                return int(v)
            return int(x)
        return c(s.start), c(s.stop), c(s.step)

    def str_get(self, o, k):
        if isinstance(o, str):
            if isinstance(k, slice):
                return o[slice(*[None if x is None else C.concretize(x) for x in (k.start, k.stop, k.step)])]
            if isinstance(k, Lin):
                n = len(o)
                i = self.list_index(tuple(o), k)
                return o[i]
            try:
                return o[k]
            except IndexError:
                self.raise_("IndexError", "string index out of range")
        ps = list(o.parts)
        if isinstance(k, slice) and k.step in (None, 1):
            lo = k.start or 0
            if isinstance(lo, int) and lo >= 0 and k.stop is None:
                out = []
                for j, p in enumerate(ps):
                    if lo == 0:
                        out.append(p)
                    elif p[0] == "lit":
                        t = p[1]
                        out.append(("lit", t[lo:]))
                        lo = max(0, lo - len(t))
                    else:
                        return SStr([("txt", self.opq("substr", o, self.tkey(k)))])
                return mkstr(out)
            if k.stop is not None and isinstance(k.stop, int) and k.stop >= 0 and ps and ps[0][0] == "lit" and \
                    len(ps[0][1]) >= k.stop:
                return ps[0][1][k.start:k.stop]
        if isinstance(k, int) and k >= 0 and ps and ps[0][0] == "lit" and len(ps[0][1]) > k:
            return ps[0][1][k]
        if isinstance(k, int) and k < 0 and ps and ps[-1][0] == "lit" and len(ps[-1][1]) >= -k:
            return ps[-1][1][k]
        return SStr([("txt", self.opq("substr", o, self.tkey(k)))])

    def setitem(self, o, k, v):
        from .arr import OArr, arr_set
        if isinstance(o, OArr):
            arr_set(self, o, k, v)
            return
        if isinstance(o, OList):
            if o.kind != "list":
                self.raise_("TypeError", "%s does not support item assignment" % o.kind)
            if isinstance(k, slice):
                lo, hi, st = self.slice_idx(o, k)
                items = list(o.items)
                items[slice(lo, hi, st)] = list(self.iter_items(v))
                o.set(items)
                return
            i = self.list_index(o, k)
            if i is None:
                # weak update of an unknown element
                new = []
                for x in o.items:
                    if isinstance(x, Seg):
                        new.append(Seg(list(x.alts) + [lambda v=v: v], C.fresh("segset"), x.count))
                    else:
                        new.append(x)
                o.set(new)
                return
            items = list(o.items)
            items[i] = v
            o.set(items)
            return
        if isinstance(o, ODict):
            o.put(self.key(k), v)
            return
        if isinstance(o, OInst) and o.cls.lookup("__setitem__"):
            self.call(self.getattr_(o, "__setitem__"), [k, v], {})
            return
        if isinstance(o, (Term, Ext)):
            self.effect("setitem", o, k, v, self.loc())
            return
        self.raise_("TypeError", "%s does not support item assignment" % self.type_name(o))


_RAISED = object()


class CompLoop:
    """One generator of a comprehension, as a loop."""

    def __init__(self, node, gens, frame):
        self.lineno = getattr(node, "lineno", 0)
        self.frame = frame
        self.dead = frozenset(m.id for g in gens for m in ast.walk(g.target) if isinstance(m, ast.Name))


class _CompFunc:
    qual = "<comp>"
    globals_ = frozenset()
    nonlocals_ = frozenset()
    locals_ = frozenset()
    cls = None
    attrs = {}


_COMP = _CompFunc()


def _intlike(a, b):
    return not (isinstance(a, float) and not a.is_integer()) and \
        not (isinstance(b, float) and not b.is_integer())


def _pure(e):
    for n in ast.walk(e):
        if isinstance(n, (ast.Call, ast.NamedExpr, ast.Yield, ast.Await, ast.ListComp, ast.GeneratorExp,
                          ast.IfExp, ast.Subscript, ast.BoolOp)):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in (
                    "min", "max", "len", "int", "bool", "abs", "any", "all"):
                continue
            return False
    return True


_scan_cache = {}


def _scan(node):
    r = _scan_cache.get(id(node))
    if r is not None and r[0] is node:
        return r[1]
    loc, glo, non = set(), set(), set()
    gen = [False]
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(x.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)

    def tgt(t):
        if isinstance(t, ast.Name):
            loc.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            loc.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                walk(g.iter)
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    tgt(m.target)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Global):
            glo.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            non.update(n.names)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
            tgt(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            tgt(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                loc.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.MatchAs) and n.name:
            loc.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)
    loc -= glo
    loc -= non
    r = (frozenset(loc), frozenset(glo), frozenset(non), gen[0])
    _scan_cache[id(node)] = (node, r)
    return r


def str_eq(a, b):
    """Equality of (symbolic) strings: bool or Cond."""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if a == b:
        return True
    pa = list(a.parts) if isinstance(a, SStr) else [("lit", a)]
    pb = list(b.parts) if isinstance(b, SStr) else [("lit", b)]
    # strip common literal prefixes
    while pa and pb and pa[0][0] == "lit" and pb[0][0] == "lit":
        x, y = pa[0][1], pb[0][1]
        n = min(len(x), len(y))
        if x[:n] != y[:n]:
            return False
        pa = ([("lit", x[n:])] if x[n:] else []) + pa[1:]
        pb = ([("lit", y[n:])] if y[n:] else []) + pb[1:]
    if not pa and not pb:
        return True
    for p, q in ((pa, pb), (pb, pa)):
        if not p:
            if any(z[0] in ("int", "lit") for z in q):
                return False
        if p and p[0][0] == "int" and q and q[0][0] == "lit":
            if not (q[0][1][0].isdigit() or q[0][1][0] == "-"):
                return False
            if len(p) == 1 and len(q) == 1:
                t = q[0][1]
                if t.lstrip("-").isdigit() and str(int(t)) == t:
                    return C.mk_eq(add(p[0][1], -int(t)))
                return False
    if len(pa) == 1 and len(pb) == 1 and pa[0][0] == "int" and pb[0][0] == "int":
        return C.mk_eq(add(pa[0][1], pb[0][1], -1))
    x, y = repr(SStr(pa)), repr(SStr(pb))
    ka, kb = SStr(pa), SStr(pb)
    if x > y:
        ka, kb = kb, ka
    return Cond("truth", Term("streq", ka, kb))
