import numpy as np

from .. import Tensor, tensor, _missing


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    return _missing(name)


class Parameter(Tensor):
    def __new__(cls, a, requires_grad=True):
        return np.array(a).view(cls)


class Module(object):
    def __init__(self):
        self.training = True

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def children(self):
        return [v for v in self.__dict__.values() if isinstance(v, Module)]

    def train(self, mode=True):
        self.training = mode
        for c in self.children():
            c.train(mode)
        return self

    def eval(self):
        return self.train(False)

    def to(self, *a, **k):
        return self

    cpu = cuda = float = to

    def named_parameters(self, prefix=''):
        for k, v in self.__dict__.items():
            if isinstance(v, Parameter):
                yield prefix + k, v
            elif isinstance(v, Module):
                for x in v.named_parameters(prefix + k + '.'):
                    yield x

    def parameters(self):
        return [v for _, v in self.named_parameters()]

    def zero_grad(self):
        pass

    def state_dict(self):
        return dict(self.named_parameters())       # references, like PyTorch

    def load_state_dict(self, d, strict=True):
        own = dict(self.named_parameters())
        if strict and set(own) != set(d):
            raise RuntimeError('unexpected or missing keys in state_dict')
        for k, v in own.items():
            if k in d:
                v[...] = d[k]

    def add_module(self, name, m):
        setattr(self, name, m)


class ModuleList(Module):
    def __init__(self, modules=None):
        super(ModuleList, self).__init__()
        self._list = list(modules or [])

    def children(self):
        return list(self._list)

    def named_parameters(self, prefix=''):
        for i, m in enumerate(self._list):
            for x in m.named_parameters('%s%d.' % (prefix, i)):
                yield x

    def __getitem__(self, i):
        return ModuleList(self._list[i]) if isinstance(i, slice) else self._list[i]

    def __len__(self):
        return len(self._list)

    def __iter__(self):
        return iter(self._list)

    def append(self, m):
        self._list.append(m)
        return self

    def extend(self, ms):
        self._list.extend(ms)
        return self


class Sequential(ModuleList):
    def __init__(self, *ms):
        super(Sequential, self).__init__(ms)

    def forward(self, x):
        for m in self._list:
            x = m(x)
        return x


class Linear(Module):
    def __init__(self, in_features, out_features, bias=True):
        super(Linear, self).__init__()
        self.in_features, self.out_features = in_features, out_features
        self.weight = Parameter(np.random.randn(out_features, in_features))
        self.bias = Parameter(np.random.randn(out_features)) if bias else None

    def forward(self, x):
        a = np.asarray(x)
        if a.shape[-1] != self.in_features:
            raise RuntimeError('size mismatch %s, %s' % (a.shape, self.weight.shape))
        y = a.dot(np.asarray(self.weight).T)
        return tensor(y if self.bias is None else y + np.asarray(self.bias))


class BatchNorm1d(Module):
    def __init__(self, num_features, eps=1e-5, momentum=0.1, affine=True, track_running_stats=True):
        super(BatchNorm1d, self).__init__()
        self.num_features, self.eps, self.momentum = num_features, eps, momentum
        self.weight = Parameter(np.random.rand(num_features) + 0.5)
        self.bias = Parameter(np.random.randn(num_features))
        self.running_mean = Parameter(np.random.randn(num_features))
        self.running_var = Parameter(np.random.rand(num_features) + 0.5)

    def forward(self, x):
        a = np.asarray(x)
        if a.shape[1] != self.num_features:
            raise RuntimeError('running_mean should contain %d elements not %d' % (a.shape[1], self.num_features))
        m, v = np.asarray(self.running_mean), np.asarray(self.running_var)
        if self.training:
            m, v = a.mean(axis=0), a.var(axis=0)
            self.running_mean[...] = (1 - self.momentum) * self.running_mean + self.momentum * m
            self.running_var[...] = (1 - self.momentum) * self.running_var + self.momentum * v
        return tensor((a - m) / np.sqrt(v + self.eps) * np.asarray(self.weight) + np.asarray(self.bias))


class Dropout(Module):
    def __init__(self, p=0.5, inplace=False):
        super(Dropout, self).__init__()
        self.p, self.inplace = p, inplace

    def forward(self, x):
        if not self.training or self.p == 0:
            return x
        a = np.asarray(x)
        return tensor(a * (np.random.rand(*a.shape) >= self.p) / (1 - self.p))


class Dropout2d(Dropout):
    pass


class Conv1d(Module):
    def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0, dilation=1, groups=1, bias=True):
        super(Conv1d, self).__init__()
        self.kernel_size, self.dilation = kernel_size, dilation
        self.weight = Parameter(np.random.randn(out_channels, in_channels, kernel_size))
        self.bias = Parameter(np.random.randn(out_channels))

    def forward(self, x):
        a, w = np.asarray(x), np.asarray(self.weight)
        T = a.shape[2] - self.dilation * (self.kernel_size - 1)
        y = sum(np.einsum('oi,nit->not', w[:, :, k], a[:, :, k * self.dilation:k * self.dilation + T]) for k in range(self.kernel_size))
        return tensor(y + np.asarray(self.bias)[:, None])


class _Loss(Module):
    def __init__(self, weight=None, reduction='mean'):
        super(_Loss, self).__init__()
        self.weight, self.reduction = weight, reduction


class MSELoss(_Loss):
    def forward(self, i, t):
        return ((i - t) ** 2).mean()


class CrossEntropyLoss(_Loss):
    pass


class BCELoss(_Loss):
    pass


class DataParallel(Module):
    def __init__(self, module, *a, **k):
        super(DataParallel, self).__init__()
        self.module = module

    def forward(self, *a):
        return self.module(*a)


# ------------------------------------------------------------------ activations
def _act(name, args, fn, base=Module):
    names = [a for a, _ in args]

    def __init__(self, *a, **k):
        Module.__init__(self)
        if len(a) > len(args) or set(k) - set(names):
            raise TypeError('%s: unexpected argument %s %s' % (name, a, k))
        v = dict(zip(names, a))
        if set(v) & set(k):
            raise TypeError('%s: repeated argument' % name)
        v.update(k)
        for n, d in args:
            if n not in v and d is _req:
                raise TypeError('%s: missing argument %s' % (name, n))
            setattr(self, n, v.get(n, d))
        if name == 'PReLU':
            self.weight = Parameter(np.full(self.num_parameters, self.init))

    def forward(self, x):
        return tensor(fn(self, np.asarray(x, dtype=float)))
    return type(name, (base,), {'__init__': __init__, 'forward': forward})


_req = object()
_ip = ('inplace', False)


def _lse(x, d):
    m = x.max(axis=d, keepdims=True)
    return m + np.log(np.exp(x - m).sum(axis=d, keepdims=True))


def _sm(x, d):
    return np.exp(x - _lse(x, d))


def _dim(s, x):
    return s.dim if s.dim is not None else (0 if x.ndim in (0, 1, 3) else 1)


ELU = _act('ELU', [('alpha', 1.0), _ip], lambda s, x: np.where(x > 0, x, s.alpha * np.expm1(np.minimum(x, 0))))
Hardshrink = _act('Hardshrink', [('lambd', 0.5)], lambda s, x: np.where(np.abs(x) > s.lambd, x, 0))
Hardtanh = _act('Hardtanh', [('min_val', -1.0), ('max_val', 1.0), _ip], lambda s, x: np.clip(x, s.min_val, s.max_val))
LeakyReLU = _act('LeakyReLU', [('negative_slope', 0.01), _ip], lambda s, x: np.where(x > 0, x, s.negative_slope * x))
LogSigmoid = _act('LogSigmoid', [], lambda s, x: -np.logaddexp(0, -x))
PReLU = _act('PReLU', [('num_parameters', 1), ('init', 0.25)], lambda s, x: np.where(x > 0, x, np.asarray(s.weight) * x))
ReLU = _act('ReLU', [_ip], lambda s, x: np.maximum(x, 0))
RReLU = _act('RReLU', [('lower', 1. / 8), ('upper', 1. / 3), _ip], lambda s, x: np.where(x > 0, x, (s.lower + s.upper) / 2 * x))
SELU = _act('SELU', [_ip], lambda s, x: 1.0507009873554805 * np.where(x > 0, x, 1.6732632423543772 * np.expm1(np.minimum(x, 0))))
CELU = _act('CELU', [('alpha', 1.0), _ip], lambda s, x: np.maximum(x, 0) + np.minimum(0, s.alpha * np.expm1(np.minimum(x, 0) / s.alpha)))
Sigmoid = _act('Sigmoid', [], lambda s, x: 1 / (1 + np.exp(-x)))
Softplus = _act('Softplus', [('beta', 1), ('threshold', 20)], lambda s, x: np.where(s.beta * x > s.threshold, x, np.logaddexp(0, s.beta * x) / s.beta))
Softshrink = _act('Softshrink', [('lambd', 0.5)], lambda s, x: np.where(np.abs(x) > s.lambd, x - np.sign(x) * s.lambd, 0))
Softsign = _act('Softsign', [], lambda s, x: x / (1 + np.abs(x)))
Tanh = _act('Tanh', [], lambda s, x: np.tanh(x))
Tanhshrink = _act('Tanhshrink', [], lambda s, x: x - np.tanh(x))
Threshold = _act('Threshold', [('threshold', _req), ('value', _req), _ip], lambda s, x: np.where(x > s.threshold, x, s.value))
Softmin = _act('Softmin', [('dim', None)], lambda s, x: _sm(-x, _dim(s, x)))
Softmax = _act('Softmax', [('dim', None)], lambda s, x: _sm(x, _dim(s, x)))
Softmax2d = _act('Softmax2d', [], lambda s, x: _sm(x, 1))
LogSoftmax = _act('LogSoftmax', [('dim', None)], lambda s, x: x - _lse(x, _dim(s, x)))


class ReLU6(Hardtanh):
    def __init__(self, inplace=False):
        Hardtanh.__init__(self, 0., 6., inplace)


class AdaptiveLogSoftmaxWithLoss(Module):
    pass


from . import functional   # noqa: E402,F401
