"""torch.nn for the abstract interpreter: layers checked by their shape/dtype contract, values opaque,
mixing along the (symbolic) batch axis tracked, embedding look-ups kept as terms of their row index."""
import os
from .dom import C, Lin, Term, Cond, Var, Unsupported, add, scale, var
from .objs import *
from .arr import (OArr, fn, fill, opaque, freeze, shape_error, symdims, dim_eq, bmix_of, concat, cast, softmax,
                  from_nested, METHODS, matmul, clamp, axis_arg, m_kw, new, dtype_name)

STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs", "satorch")


def install(I):
    pass


def is_module(I, o):
    return isinstance(o, OInst) and any(isinstance(k, ClassVal) and k is I.nn_module for k in o.cls.mro)


def children(I, m):
    out = []
    for k, v in m.attrs.items():
        if is_module(I, v):
            out.append(v)
        elif k == "items_" and isinstance(v, OList):
            out += [x for x in v.items if is_module(I, x)]
        elif k == "dict_" and isinstance(v, ODict):
            out += [x for x in v.d.values() if is_module(I, x)]
    return out


def modules(I, m, seen=None):
    """children first, then the module itself (the order of Module.apply)."""
    seen = set() if seen is None else seen
    if m.oid in seen:
        return []
    seen.add(m.oid)
    out = []
    for x in children(I, m):
        out += modules(I, x, seen)
    return out + [m]


def parameters(I, m):
    out = []
    for x in modules(I, m):
        for v in x.attrs.values():
            if isinstance(v, OArr) and getattr(v, "src", None) == ("param",) and v not in out:
                out.append(v)
    return out


def need_float(I, x, what):
    if not isinstance(x, OArr):
        I.raise_("TypeError", "%s of a non-tensor" % what)
    if x.dtype != "float32":
        I.effect("shape_error", "%s needs a floating tensor, got %s" % (what, x.dtype), I.loc())
        I.raise_("RuntimeError", "%s: expected a floating point tensor" % what)


def derived(op, shape, x, mix=None, src=None):
    r = opaque(op, shape, "torch", "float32", mix or x.bmix)
    r.src = src or ("ew", x)
    return r


def linear(I, m, x):
    need_float(I, x, "linear")
    if not x.shape or not dim_eq(I, x.shape[-1], m.attrs["in_features"]):
        shape_error(I, "torch", "linear(%s -> %s) of %s" % (m.attrs["in_features"], m.attrs["out_features"],
                                                            list(x.shape)))
    mix = x.bmix
    if isinstance(C.norm(x.shape[-1]), Lin):
        mix = mix or "linear over a symbolic axis at %s" % I.loc()
    touch(I, m, x)
    return derived("lin", list(x.shape[:-1]) + [m.attrs["out_features"]], x, mix, ("linear", x, m))


def touch(I, m, *xs):
    I.effect("nn.layer", m, xs)


def embedding(I, m, x):
    if not isinstance(x, OArr):
        I.raise_("TypeError", "embedding of a non-tensor")
    if x.dtype != "int64":
        I.effect("shape_error", "embedding index of dtype %s" % x.dtype, I.loc())
        I.raise_("RuntimeError", "embedding: indices must be integers")
    n, d = m.attrs["num_embeddings"], m.attrs["embedding_dim"]
    r = freeze(x)
    k = len(x.shape)
    where = I.loc()
    touch(I, m, x)

    def f(idx):
        i = r(tuple(idx[:k]))
        i = C.norm(i) if isinstance(i, Lin) else i
        lo = C.mk_ge(i) if isinstance(i, Lin) else i >= 0
        hi = C.mk_ge(add(add(n, -1), i, -1)) if isinstance(i, Lin) else i < n
        for c in (lo, hi):
            if not (C.truth(c) if isinstance(c, Cond) else c):
                I.effect("index_error", "embedding row %s of %s at %s" % (i, n, where), where)
                I.raise_("IndexError", "index out of range in self (%s rows, %s)" % (n, where))
        return C.norm(var(Term("emb", m.oid, Term("i", i), idx[k])))
    out = fn(f, list(x.shape) + [d], "torch", "float32", x.bmix)
    out.src = ("embedding", x, m)
    return out


def tup(v, n):
    if isinstance(v, (tuple, OList)):
        return [C.norm(x) for x in (v.items if isinstance(v, OList) else v)]
    return [v] * n


def conv(I, m, x, nd):
    need_float(I, x, "conv%dd" % nd)
    sh = [C.norm(s) for s in x.shape]
    if len(sh) not in (nd + 1, nd + 2):
        shape_error(I, "torch", "conv%dd of %s" % (nd, sh))
    ca = len(sh) - nd - 1
    if not dim_eq(I, sh[ca], m.attrs["in_channels"]):
        shape_error(I, "torch", "conv%dd with %s channels of %s" % (nd, m.attrs["in_channels"], sh))
    mix = x.bmix
    if any(i >= ca for i in symdims(sh)):
        mix = mix or "convolution over a symbolic axis at %s" % I.loc()
    ks, st, dl = tup(m.attrs["kernel_size"], nd), tup(m.attrs["stride"], nd), tup(m.attrs["dilation"], nd)
    pd = m.attrs["padding"]
    out = sh[:ca] + [m.attrs["out_channels"]]
    for i in range(nd):
        s = sh[ca + 1 + i]
        if pd == "same":
            out.append(s)
            continue
        p = 0 if pd == "valid" else tup(pd, nd)[i]
        y = add(s, 2 * p - dl[i] * (ks[i] - 1) - 1)
        y = C.norm(add(C.floordiv(y, st[i]) if isinstance(y, Lin) else y // st[i], 1))
        if isinstance(y, int) and y <= 0:
            shape_error(I, "torch", "conv%dd: kernel larger than input %s" % (nd, sh))
        out.append(y)
    touch(I, m, x)
    return derived("conv", out, x, mix, ("conv", x, m))


def layernorm(I, m, x):
    need_float(I, x, "layer_norm")
    ns = tup(m.attrs["normalized_shape"], 1)
    if len(ns) > len(x.shape) or not all(dim_eq(I, a, b) for a, b in zip(ns, x.shape[len(x.shape) - len(ns):])):
        shape_error(I, "torch", "layer_norm %s of %s" % (ns, list(x.shape)))
    mix = x.bmix
    if any(i >= len(x.shape) - len(ns) for i in symdims(x.shape)):
        mix = mix or "layer_norm over a symbolic axis at %s" % I.loc()
    touch(I, m, x)
    return derived("ln", x.shape, x, mix)


def batchnorm(I, m, x):
    need_float(I, x, "batch_norm")
    if len(x.shape) < 2 or not dim_eq(I, x.shape[1], m.attrs["num_features"]):
        shape_error(I, "torch", "batch_norm %s of %s" % (m.attrs["num_features"], list(x.shape)))
    touch(I, m, x)
    return derived("bn", x.shape, x, x.bmix or "batch normalisation at %s" % I.loc())


def pointwise(I, m, x):
    need_float(I, x, m.cls.name if isinstance(m, OInst) else "pointwise")
    return derived("pw", x.shape, x)


def cross_entropy(I, x, y, weight=None, ignore=-100, reduction="mean", smoothing=0.0):
    need_float(I, x, "cross_entropy")
    if not isinstance(y, OArr):
        I.raise_("TypeError", "cross_entropy target is not a tensor")
    if len(x.shape) != 2 or len(y.shape) != 1 or not dim_eq(I, x.shape[0], y.shape[0]):
        shape_error(I, "torch", "cross_entropy of %s with targets %s" % (list(x.shape), list(y.shape)))
    if y.dtype != "int64":
        I.effect("shape_error", "cross_entropy target dtype %s" % y.dtype, I.loc())
        I.raise_("RuntimeError", "expected scalar type Long")
    r = opaque("loss", list(y.shape) if reduction == "none" else [], "torch", "float32", None)
    r.src = ("loss", x, y)
    I.effect("nn.loss", x, y, {"weight": weight, "ignore_index": ignore, "reduction": reduction,
                               "label_smoothing": smoothing, "loss": r, "loc": I.loc()})
    return r


def pad(I, a, k):
    x, p = a[0], m_kw(a, k, 1, "pad")
    mode = m_kw(a, k, 2, "mode", "constant")
    v = m_kw(a, k, 3, "value", 0)
    if mode != "constant":
        raise Unsupported("pad mode %s" % mode)
    p = list(I.iter_items(p))
    v = 0 if v is None else v
    for j in range(0, len(p), 2):
        ax = len(x.shape) - 1 - j // 2
        if ax < 0:
            shape_error(I, "torch", "pad %s of %s" % (p, list(x.shape)))
        for side, q in ((0, p[j]), (1, p[j + 1])):
            q = C.norm(q)
            if not isinstance(q, Lin) and q == 0:
                continue
            neg = C.truth(C.mk_ge(add(scale(q, -1), -1))) if isinstance(q, Lin) else q < 0
            if neg:
                ks = [slice(None)] * len(x.shape)
                ks[ax] = slice(None, q) if side else slice(scale(q, -1) if isinstance(q, Lin) else -q, None)
                from .arr import arr_get
                x = arr_get(I, x, tuple(ks))
                continue
            z = list(x.shape)
            z[ax] = q
            z = fill(v, z, "torch", x.dtype)
            x = concat(I, [x, z] if side else [z, x], ax, "torch")
    return x


def shape_list(ar):
    return [C.norm(x) for x in ar]


def enable(I, root="MahjongAI"):
    """Make torch.nn available (loads the stub classes)."""
    I.roots["satorch"] = STUBS
    N, X = I.natives, I.ext_consts
    I.nn_depth = 0

    def nat(name):
        def d(f):
            N[name] = f
            return f
        return d

    @nat("sat.enter")
    def _(I, a, k):
        args = a[1] if isinstance(a[1], tuple) else tuple(I.iter_items(a[1]))
        kw = {x: v for x, v in a[2].d.items()} if isinstance(a[2], ODict) else dict(a[2])
        I.effect("nn.call", a[0], args, kw, I.nn_depth)
        C.setattr(I, "nn_depth", I.nn_depth + 1)

    @nat("sat.leave")
    def _(I, a, k):
        C.setattr(I, "nn_depth", I.nn_depth - 1)
        I.effect("nn.ret", a[0], a[1], I.nn_depth)

    N["sat.children"] = lambda I, a, k: OList(children(I, a[0]))
    N["sat.modules"] = lambda I, a, k: OList(modules(I, a[0]))
    N["sat.parameters"] = lambda I, a, k: OList(parameters(I, a[0]))
    N["sat.linear"] = lambda I, a, k: linear(I, a[0], a[1])
    N["sat.embedding"] = lambda I, a, k: embedding(I, a[0], a[1])
    N["sat.conv"] = lambda I, a, k: conv(I, a[0], a[1], a[2])
    N["sat.layernorm"] = lambda I, a, k: layernorm(I, a[0], a[1])
    N["sat.batchnorm"] = lambda I, a, k: batchnorm(I, a[0], a[1])
    N["sat.pointwise"] = lambda I, a, k: pointwise(I, a[0], a[1])
    N["sat.softmax"] = lambda I, a, k: softmax(I, a[0], a[1] if a[1] is not None else -1)
    N["sat.cross_entropy"] = lambda I, a, k: cross_entropy(I, *a)

    @nat("sat.param")
    def _(I, a, k):
        r = opaque("param", shape_list(a), "torch", "float32")
        r.src = ("param",)
        return r

    @nat("sat.state_dict")
    def _(I, a, k):
        I.effect("state_dict", a[0], I.loc())
        return Term("state_dict", Term("obj", a[0].oid))

    @nat("sat.load_state_dict")
    def _(I, a, k):
        I.effect("load_state_dict", a[0], a[1], I.loc())

    @nat("sat.mode")
    def _(I, a, k):
        I.effect("mode", a[0], a[1], I.loc())

    @nat("sat.zero_grad")
    def _(I, a, k):
        I.effect("zero_grad", a[0], I.loc())

    @nat("sat.grad")
    def _(I, a, k):
        I.effect("grad", a[0], I.loc())

    @nat("sat.event")
    def _(I, a, k):
        I.effect(a[0], *(list(a[1:]) + [I.loc()]))

    @nat("sat.optimizer")
    def _(I, a, k):
        I.effect("optimizer", a[0], I.loc())

    N["sat.opaque"] = lambda I, a, k: Term("o", a[0], Term("obj", a[1].oid))

    N["torch.nn.Parameter"] = lambda I, a, k: setsrc(a[0])

    def setsrc(x):
        r = OArr(x.store, x.shape, list(x.dims), x.lib, x.dtype, x.bmix)
        r.src = ("param",)
        return r

    # functional
    F = "torch.nn.functional."
    N[F + "pad"] = pad
    N[F + "softmax"] = N[F + "log_softmax"] = lambda I, a, k: softmax(I, a[0], axis_arg(a, k))
    for nm in ("relu", "gelu", "silu", "elu", "leaky_relu", "tanh", "sigmoid", "dropout", "selu", "softplus"):
        N[F + nm] = lambda I, a, k: pointwise(I, None, a[0])

    def fce(I, a, k):
        return cross_entropy(I, a[0] if a else k["input"], m_kw(a, k, 1, "target"), m_kw(a, k, 2, "weight"),
                             k.get("ignore_index", -100), k.get("reduction", "mean"),
                             k.get("label_smoothing", 0.0))
    N[F + "cross_entropy"] = fce

    def nll(I, a, k):
        raise Unsupported("nll_loss")
    N[F + "nll_loss"] = nll

    def flin(I, a, k):
        x, w = a[0], a[1]
        m = OInst(I.nn_module, {"in_features": w.shape[1], "out_features": w.shape[0]})
        return linear(I, m, x)
    N[F + "linear"] = flin

    def one_hot(I, a, k):
        x, n = a[0], m_kw(a, k, 1, "num_classes")
        r = freeze(x)

        def f(idx):
            c = C.mk_eq(add(r(tuple(idx[:-1])), idx[-1], -1))
            return I.cond_num(c) if isinstance(c, Cond) else int(bool(c))
        return fn(f, list(x.shape) + [n], "torch", "int64", x.bmix)
    N[F + "one_hot"] = one_hot

    def sdpa(I, a, k):
        q, kk, v = a[:3]
        w = matmul(I, q, METHODS["transpose"](I, [kk, -2, -1], {}))
        return matmul(I, softmax(I, w, -1), v)
    N[F + "scaled_dot_product_attention"] = sdpa
    for nm in ("normal_", "zeros_", "ones_", "xavier_uniform_", "xavier_normal_", "kaiming_uniform_",
               "kaiming_normal_", "constant_", "uniform_", "trunc_normal_"):
        N["torch.nn.init." + nm] = lambda I, a, k: a[0]

    N["torch.device"] = lambda I, a, k: Term("device")
    N["torch.cuda.is_available"] = lambda I, a, k: False
    N["torch.backends.mps.is_available"] = lambda I, a, k: False
    N["torch.manual_seed"] = lambda I, a, k: None
    N["torch.is_grad_enabled"] = lambda I, a, k: True
    N["torch.cuda.empty_cache"] = lambda I, a, k: None
    N["torch.LongTensor"] = lambda I, a, k: from_nested(I, a[0], "torch", Ext("torch.int64"))
    N["torch.FloatTensor"] = lambda I, a, k: from_nested(I, a[0], "torch", Ext("torch.float32"))

    def roll(I, a, k):
        x = a[0] if isinstance(a[0], OArr) else from_nested(I, a[0], "np")
        sh = C.norm(m_kw(a, k, 1, "shift" if "shift" in k else "shifts"))
        ax = m_kw(a, k, 2, "axis" if "axis" in k else "dims")
        if isinstance(sh, (tuple, OList)) or isinstance(ax, (tuple, OList)):
            raise Unsupported("roll over several axes")
        if ax is None:
            if len(x.shape) != 1:
                raise Unsupported("roll of a flattened array")
            ax = 0
        ax %= len(x.shape)
        n = C.norm(x.shape[ax])
        r = freeze(x)

        def f(idx):
            j = C.mod(add(idx[ax], sh, -1), n)
            return r(tuple(idx[:ax]) + (j,) + tuple(idx[ax + 1:]))
        return fn(f, x.shape, x.lib, x.dtype, x.bmix)
    N["numpy.roll"] = N["torch.roll"] = roll

    class _FI:
        pass
    X["torch.pi"] = 3.141592653589793

    def finfo(I, a, k):
        return OInst(ClassVal("finfo", [], {}), {"min": -3.4028234663852886e+38, "max": 3.4028234663852886e+38,
                                                 "eps": 1.1920928955078125e-07})
    N["torch.finfo"] = N["numpy.finfo"] = finfo

    I.nn_module = None
    m = I.load("satorch.nn")
    I.nn_module = m.vars["Module"]
    top = I.load("satorch")
    for k, v in m.vars.items():
        if isinstance(v, ClassVal) and k != "Parameter":
            X["torch.nn." + k] = v
            X["torch.nn.modules." + k] = v
    for k in ("no_grad", "inference_mode", "enable_grad", "set_grad_enabled"):
        X["torch." + k] = top.vars[k]
    X["torch.autograd.no_grad"] = top.vars["no_grad"]
    for k in ("Adam", "AdamW", "SGD", "RMSprop", "Adagrad", "NAdam", "RAdam"):
        X["torch.optim." + k] = top.vars["Optimizer"]
    for k in ("LambdaLR",):
        X["torch.optim.lr_scheduler." + k] = top.vars["LambdaLR"]
    I.analysed_funcs.clear()
