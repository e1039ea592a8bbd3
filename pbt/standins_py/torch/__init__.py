"""Stand-in for the part of PyTorch that hyperion/torch needs to run on numpy arrays (no gradients).

PyTorch is not installed in the sandbox.  Names, arguments and attributes are those of PyTorch 1.x.
"""
import pickle

import numpy as np

float32, float64, int64, uint8 = np.float32, np.float64, np.int64, np.uint8
float, double, long = np.float32, np.float64, np.int64     # noqa: A001
_float = np.float32


class NotInStandIn(AttributeError):
    """something of PyTorch that the stand-in lacks: the case decides nothing"""


def _numpy(name, fn):
    """function or method of numpy with the names of the arguments of PyTorch"""
    def f(*a, **k):
        k = dict([(dict(dim='axis', keepdim='keepdims').get(n, n), v) for n, v in k.items()])
        return tensor(fn(*[np.asarray(x) if isinstance(x, Tensor) else x for x in a], **k))
    f.__name__ = name
    return f


_alias = dict(pow='power', sub='subtract', add='add', mul='multiply', div='divide', neg='negative', le='less_equal', lt='less',
              ge='greater_equal', ne='not_equal', cat='concatenate', clamp='clip', ceil='ceil', acos='arccos', asin='arcsin', atan='arctan', 
              mm='matmul', movedim='moveaxis', flip='flip')


def _fallback(name):
    fn = getattr(np, _alias.get(name, name), None) if not name.startswith('_') else None
    return _numpy(name, fn) if callable(fn) and not isinstance(fn, type) else None


def _missing(name):
    def __init__(self, *a, **k):
        raise NotInStandIn(name)
    return type(name, (object,), {'__init__': __init__})


def __getattr__(name):
    if name.startswith('__') or name in ('nn', 'optim', 'functional', '_six', 'utils'):
        raise AttributeError(name)
    return _fallback(name) or _missing(name)


class Tensor(np.ndarray):
    """numpy array with the methods of torch.Tensor"""

    def __getattr__(self, name):
        if name.startswith('__') or name in ('grad', 'data_ptr'):
            raise AttributeError(name)
        fn = _fallback(name)
        if fn is None:
            raise NotInStandIn(name)
        return lambda *a, **k: fn(self, *a, **k)

    def __repr__(self):
        return 'tensor(%r)' % np.asarray(self)

    __str__ = __repr__

    @property
    def device(self):
        return device('cpu')

    def dim(self):
        return self.ndim

    def ndimension(self):
        return self.ndim

    def size(self, dim=None):
        return tuple(self.shape) if dim is None else self.shape[dim]

    def numel(self):
        return int(np.prod(self.shape))

    nelement = numel

    def eq(self, o):
        return tensor(np.asarray(self) == np.asarray(o))

    def ne(self, o):
        return tensor(np.asarray(self) != np.asarray(o))

    def gt(self, o):
        return tensor(np.asarray(self) > np.asarray(o))

    def ge(self, o):
        return tensor(np.asarray(self) >= np.asarray(o))

    def lt(self, o):
        return tensor(np.asarray(self) < np.asarray(o))

    def le(self, o):
        return tensor(np.asarray(self) <= np.asarray(o))

    def float(self):
        return self.astype(np.float32)

    def double(self):
        return self.astype(np.float64)

    def long(self):
        return self.astype(np.int64)

    int = long

    def bool(self):
        return self.astype(bool)

    def byte(self):
        return self.astype(np.uint8)

    def type_as(self, o):
        return self.astype(o.dtype)

    def squeeze(self, dim=None, axis=None):
        return squeeze(self, dim if axis is None else axis)

    def permute(self, *d):
        return tensor(np.transpose(np.asarray(self), d[0] if len(d) == 1 else d))

    def unsqueeze(self, dim):
        return np.expand_dims(self, dim if dim >= 0 else dim + self.ndim + 1)

    def view(self, *s):
        if len(s) == 1 and isinstance(s[0], type):
            return np.ndarray.view(self, *s)
        return self.reshape(*s)

    def expand_as(self, o):
        return tensor(np.broadcast_to(np.asarray(self), o.shape))

    def clone(self):
        return self.copy()

    def detach(self):
        return self

    cpu = cuda = contiguous = detach

    def numpy(self):
        return np.array(self)

    def to(self, *a, **k):
        return self

    def t(self):
        return self.T

    def mul(self, o):
        return self * o

    def mul_(self, o):
        self *= o
        return self

    def div(self, o):
        return self / o

    def div_(self, o):
        self /= o
        return self

    def add_(self, o):
        self += o
        return self

    def sum(self, dim=None, keepdim=False, axis=None, **k):
        return tensor(np.asarray(self).sum(axis=axis if dim is None else dim, keepdims=keepdim))

    def mean(self, dim=None, keepdim=False, axis=None, **k):
        return tensor(np.asarray(self).mean(axis=axis if dim is None else dim, keepdims=keepdim))

    def max(self, dim=None, keepdim=False, axis=None, **k):
        return max(self, dim, keepdim) if axis is None else tensor(np.asarray(self).max(axis=axis))

    def argmax(self, dim=None, keepdim=False, axis=None, **k):
        return argmax(self, dim if axis is None else axis)


def tensor(a, dtype=None, device=None):
    a = np.asarray(a, dtype=dtype)
    return a.copy().view(Tensor) if not isinstance(a, Tensor) else a.copy()


as_tensor = from_numpy = tensor


def is_tensor(x):
    return isinstance(x, Tensor)


def max(input, dim=None, keepdim=False):     # noqa: A001
    a = np.asarray(input)
    if dim is None:
        return tensor(a.max())
    i = a.argmax(axis=dim)
    v = np.take_along_axis(a, np.expand_dims(i, dim), dim)
    if not keepdim:
        v = v.squeeze(dim)
    else:
        i = np.expand_dims(i, dim)
    return tensor(v), tensor(i)


def argmax(input, dim=None, keepdim=False):
    return tensor(np.asarray(input).argmax(axis=dim))


def sum(input, dim=None, keepdim=False):     # noqa: A001
    return input.sum(dim=dim, keepdim=keepdim)


def mean(input, dim=None, keepdim=False):
    return input.mean(dim=dim, keepdim=keepdim)


def eq(input, other):
    return input.eq(other)


def gt(input, other):
    return input.gt(other)


def reshape(input, shape):
    return input.reshape(shape)


def unsqueeze(input, dim):
    return input.unsqueeze(dim)


def squeeze(input, dim=None):
    a = np.asarray(input)
    return tensor(a.squeeze() if dim is None else (a.squeeze(dim) if a.shape[dim] == 1 else a))


def sigmoid(x):
    return tensor(1 / (1 + np.exp(-np.asarray(x))))


def exp(x):
    return tensor(np.exp(np.asarray(x)))


def log(x):
    return tensor(np.log(np.asarray(x)))


def zeros(*s, **k):
    return tensor(np.zeros(s[0] if len(s) == 1 and not np.isscalar(s[0]) else s, dtype=_float))


def ones(*s, **k):
    return tensor(np.ones(s[0] if len(s) == 1 and not np.isscalar(s[0]) else s, dtype=_float))


def manual_seed(s):
    np.random.seed(s)


_grad = [True]


def is_grad_enabled():
    return _grad[0]


class no_grad(object):
    def __enter__(self):
        self.old, _grad[0] = _grad[0], False

    def __exit__(self, *a):
        _grad[0] = self.old
        return False

    def __call__(self, fn):
        def w(*a, **k):
            with no_grad():
                return fn(*a, **k)
        return w


class device(object):
    def __init__(self, name, index=None):
        if isinstance(name, device):
            name = name.name
        self.name = name
        self.type = name.split(':')[0]

    def __eq__(self, o):
        return isinstance(o, device) and o.name == self.name

    def __repr__(self):
        return 'device(%r)' % self.name


class cuda(object):
    @staticmethod
    def is_available():
        return False

    @staticmethod
    def device_count():
        return 0


def save(obj, f, **k):
    if hasattr(f, 'write'):
        return pickle.dump(obj, f)
    with open(f, 'wb') as g:
        pickle.dump(obj, g)


def load(f, map_location=None, **k):
    if hasattr(f, 'read'):
        return pickle.load(f)
    with open(f, 'rb') as g:
        return pickle.load(g)


from . import nn, optim, functional     # noqa: E402,F401
