"""torch.nn as the analyser sees it: containers and call protocol, layers by their shape contract."""
import sat


class Module:
    def __init__(self, *a, **k):
        self.training = True

    def __call__(self, *a, **k):
        sat.enter(self, a, k)
        r = self.forward(*a, **k)
        sat.leave(self, r)
        return r

    def children(self):
        return sat.children(self)

    def modules(self):
        return sat.modules(self)

    def parameters(self, recurse=True):
        return sat.parameters(self)

    def named_parameters(self, prefix="", recurse=True):
        return [("p", p) for p in sat.parameters(self)]

    def state_dict(self):
        return sat.state_dict(self)

    def load_state_dict(self, d, strict=True):
        return sat.load_state_dict(self, d)

    def apply(self, fn):
        for m in sat.modules(self):
            fn(m)
        return self

    def to(self, *a, **k):
        return self

    def cuda(self, *a):
        return self

    def cpu(self):
        return self

    def float(self):
        return self

    def train(self, mode=True):
        for m in sat.modules(self):
            m.training = mode
        sat.mode(self, mode)
        return self

    def eval(self):
        return self.train(False)

    def requires_grad_(self, flag=True):
        return self

    def zero_grad(self, set_to_none=True):
        sat.zero_grad(self)

    def register_buffer(self, name, value, persistent=True):
        setattr(self, name, value)

    def register_parameter(self, name, value):
        setattr(self, name, value)

    def add_module(self, name, value):
        setattr(self, name, value)


class Linear(Module):
    def __init__(self, in_features, out_features, bias=True, device=None, dtype=None):
        super().__init__()
        self.in_features = in_features
        self.out_features = out_features
        self.weight = sat.param(out_features, in_features)
        self.bias = sat.param(out_features) if bias else None

    def forward(self, input):
        return sat.linear(self, input)


class Embedding(Module):
    def __init__(self, num_embeddings, embedding_dim, padding_idx=None, device=None, dtype=None):
        super().__init__()
        self.num_embeddings = num_embeddings
        self.embedding_dim = embedding_dim
        self.padding_idx = padding_idx
        self.weight = sat.param(num_embeddings, embedding_dim)

    def forward(self, input):
        return sat.embedding(self, input)


class _Conv(Module):
    def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0, dilation=1, groups=1,
                 bias=True, padding_mode="zeros", device=None, dtype=None):
        super().__init__()
        self.in_channels = in_channels
        self.out_channels = out_channels
        self.kernel_size = kernel_size
        self.stride = stride
        self.padding = padding
        self.dilation = dilation
        self.weight = sat.param(out_channels, in_channels)
        self.bias = sat.param(out_channels) if bias else None

    def forward(self, input):
        return sat.conv(self, input, self.nd)


class Conv1d(_Conv):
    nd = 1


class Conv2d(_Conv):
    nd = 2


class LayerNorm(Module):
    def __init__(self, normalized_shape, eps=1e-5, elementwise_affine=True, bias=True, device=None, dtype=None):
        super().__init__()
        self.normalized_shape = normalized_shape
        self.weight = sat.param(1)
        self.bias = sat.param(1)

    def forward(self, input):
        return sat.layernorm(self, input)


class _BatchNorm(Module):
    def __init__(self, num_features, *a, **k):
        super().__init__()
        self.num_features = num_features
        self.weight = sat.param(num_features)
        self.bias = sat.param(num_features)

    def forward(self, input):
        return sat.batchnorm(self, input)


class BatchNorm1d(_BatchNorm):
    pass


class BatchNorm2d(_BatchNorm):
    pass


class _Pointwise(Module):
    def __init__(self, *a, **k):
        super().__init__()

    def forward(self, input):
        return sat.pointwise(self, input)


class ReLU(_Pointwise):
    pass


class GELU(_Pointwise):
    pass


class SiLU(_Pointwise):
    pass


class ELU(_Pointwise):
    pass


class LeakyReLU(_Pointwise):
    pass


class Tanh(_Pointwise):
    pass


class Sigmoid(_Pointwise):
    pass


class Identity(_Pointwise):
    def forward(self, input):
        return input


class Dropout(_Pointwise):
    pass


class Softmax(Module):
    def __init__(self, dim=None):
        super().__init__()
        self.dim = dim

    def forward(self, input):
        return sat.softmax(input, self.dim)


class Flatten(Module):
    def __init__(self, start_dim=1, end_dim=-1):
        super().__init__()
        self.start_dim = start_dim
        self.end_dim = end_dim

    def forward(self, input):
        return input.flatten(self.start_dim, self.end_dim)


class ModuleList(Module):
    def __init__(self, modules=()):
        super().__init__()
        self.items_ = list(modules)

    def append(self, m):
        self.items_.append(m)
        return self

    def extend(self, ms):
        self.items_.extend(ms)
        return self

    def __iter__(self):
        return iter(self.items_)

    def __len__(self):
        return len(self.items_)

    def __getitem__(self, i):
        return self.items_[i]


class Sequential(ModuleList):
    def __init__(self, *modules):
        super().__init__(modules)

    def forward(self, x):
        for m in self.items_:
            x = m(x)
        return x


class ModuleDict(Module):
    def __init__(self, modules=None):
        super().__init__()
        self.dict_ = dict(modules or {})

    def __getitem__(self, k):
        return self.dict_[k]

    def __setitem__(self, k, v):
        self.dict_[k] = v

    def __contains__(self, k):
        return k in self.dict_

    def keys(self):
        return self.dict_.keys()

    def items(self):
        return self.dict_.items()

    def values(self):
        return self.dict_.values()

    def __len__(self):
        return len(self.dict_)

    def __iter__(self):
        return iter(self.dict_)


class CrossEntropyLoss(Module):
    def __init__(self, weight=None, size_average=None, ignore_index=-100, reduce=None, reduction="mean",
                 label_smoothing=0.0):
        super().__init__()
        self.weight = weight
        self.ignore_index = ignore_index
        self.reduction = reduction
        self.label_smoothing = label_smoothing

    def forward(self, input, target):
        return sat.cross_entropy(input, target, self.weight, self.ignore_index, self.reduction,
                                 self.label_smoothing)


class Parameter:
    pass
