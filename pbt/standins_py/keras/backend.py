import numpy as _np

from . import missing

_eps = 1e-7
_backend = 'theano'
_shape_type = tuple


def backend():
    return _backend


def epsilon():
    return _eps


def floatx():
    return 'float32'


def image_data_format():
    return 'channels_last'


def cast_to_floatx(x):
    return _np.asarray(x, dtype=float)


def _dt(dtype):
    # floats are kept in double precision
    d = _np.dtype(dtype or 'float32')
    return _np.dtype(float) if d.kind == 'f' else d


def variable(value, dtype=None, name=None, constraint=None):
    return _np.array(value, dtype=_dt(dtype))


def constant(value, dtype=None, shape=None, name=None):
    x = _np.array(value, dtype=_dt(dtype))
    return x if shape is None else x * _np.ones(shape)


def get_value(x):
    return _np.array(x) if _np.ndim(x) else x[()]


def set_value(x, value):
    x[...] = value


def cast(x, dtype):
    return _np.asarray(x).astype(_dt(dtype))


def shape(x):
    return tuple(_np.shape(x))


def int_shape(x):
    return getattr(x, '_keras_shape', None) or tuple(_np.shape(x))


def ndim(x):
    return len(x._keras_shape) if hasattr(x, '_keras_shape') else _np.ndim(x)


def dtype(x):
    return str(x.dtype)


def eye(size, dtype=None, name=None):
    return _np.eye(size, dtype=_dt(dtype))


def zeros(shape, dtype=None, name=None):
    return _np.zeros(shape, dtype=_dt(dtype))


def ones(shape, dtype=None, name=None):
    return _np.ones(shape, dtype=_dt(dtype))


def zeros_like(x, dtype=None, name=None):
    return _np.zeros_like(x)


def ones_like(x, dtype=None, name=None):
    return _np.ones_like(x)


def dot(x, y):
    return _np.dot(x, y)


def batch_dot(x, y, axes=None):
    """Theano: batched_tensordot over one axis of each"""
    if isinstance(axes, int):
        axes = (axes, axes)
    if axes is None:
        axes = (_np.ndim(x) - 1, _np.ndim(y) - 2)
    a, b = axes
    if a == 0 or b == 0:
        raise ValueError('the batch axis cannot be reduced')
    out = _np.stack([_np.tensordot(x[i], y[i], axes=((a - 1,), (b - 1,))) for i in range(_range(x, y))]) if len(x) else _np.zeros((0,))
    return out[:, None] if out.ndim == 1 else out


def _range(x, y):
    if len(x) != len(y):
        raise ValueError('batches of %d and %d' % (len(x), len(y)))
    return len(x)


def transpose(x):
    return _np.transpose(x)


def _ax(axis):
    return tuple(axis) if isinstance(axis, list) else axis


def max(x, axis=None, keepdims=False):
    return _np.max(x, axis=_ax(axis), keepdims=keepdims)


def min(x, axis=None, keepdims=False):
    return _np.min(x, axis=_ax(axis), keepdims=keepdims)


def sum(x, axis=None, keepdims=False):
    return _np.sum(x, axis=_ax(axis), keepdims=keepdims)


def prod(x, axis=None, keepdims=False):
    return _np.prod(x, axis=_ax(axis), keepdims=keepdims)


def mean(x, axis=None, keepdims=False):
    return _np.mean(x, axis=_ax(axis), keepdims=keepdims)


def var(x, axis=None, keepdims=False):
    return _np.var(x, axis=_ax(axis), keepdims=keepdims)


def std(x, axis=None, keepdims=False):
    return _np.std(x, axis=_ax(axis), keepdims=keepdims)


def any(x, axis=None, keepdims=False):
    return 1.0 * _np.any(x, axis=_ax(axis), keepdims=keepdims)     # symbolic: its products with numbers are new tensors


def all(x, axis=None, keepdims=False):
    return _np.all(x, axis=_ax(axis), keepdims=keepdims)


def argmax(x, axis=-1):
    return _np.argmax(x, axis=axis)


def argmin(x, axis=-1):
    return _np.argmin(x, axis=axis)


square, abs, exp, log, round, sign, sin, cos, tanh = _np.square, _np.abs, _np.exp, _np.log, _np.round, _np.sign, _np.sin, _np.cos, _np.tanh
equal, not_equal, greater, greater_equal, less, less_equal = _np.equal, _np.not_equal, _np.greater, _np.greater_equal, _np.less, _np.less_equal
maximum, minimum = _np.maximum, _np.minimum


def sqrt(x):
    return _np.sqrt(_np.maximum(x, 0))


def pow(x, a):
    return _np.power(x, a)


def clip(x, min_value, max_value):
    if max_value is not None and _np.all(max_value < min_value):
        max_value = min_value
    return _np.clip(x, min_value, _np.inf if max_value is None else max_value)


def relu(x, alpha=0., max_value=None, threshold=0.):
    y = _np.where(x > threshold, x, alpha * (x - threshold))
    return y if max_value is None else _np.minimum(y, max_value)


def sigmoid(x):
    return 1 / (1 + _np.exp(-x))


def hard_sigmoid(x):
    return _np.clip(0.2 * x + 0.5, 0, 1)


def softplus(x):
    return _np.logaddexp(0, x)


def softsign(x):
    return x / (1 + _np.abs(x))


def softmax(x, axis=-1):
    e = _np.exp(x - _np.max(x, axis=axis, keepdims=True))
    return e / _np.sum(e, axis=axis, keepdims=True)


def concatenate(tensors, axis=-1):
    return _np.concatenate(tensors, axis=axis)


def reshape(x, shape):
    return _np.reshape(x, shape)


def permute_dimensions(x, pattern):
    return _np.transpose(x, pattern)


def repeat_elements(x, rep, axis):
    return _np.repeat(x, rep, axis=axis)


def repeat(x, n):
    return _np.repeat(x[:, None], n, axis=1)


def tile(x, n):
    return _np.tile(x, n)


def flatten(x):
    return _np.ravel(x)


def batch_flatten(x):
    return _np.reshape(x, (len(x), -1))


def expand_dims(x, axis=-1):
    return _np.expand_dims(x, axis)


def squeeze(x, axis):
    return _np.squeeze(x, axis=axis)


def stack(x, axis=0):
    return _np.stack(x, axis=axis)


def bias_add(x, bias, data_format=None):
    bias = _np.asarray(bias)
    if bias.ndim != 1 and bias.ndim != _np.ndim(x) - 1:
        raise ValueError('bias with %d dimensions' % bias.ndim)
    return x + bias


def map_fn(fn, elems, name=None, dtype=None):
    return _np.stack([fn(e) for e in elems])


def categorical_crossentropy(target, output, from_logits=False, axis=-1):
    if from_logits:
        output = softmax(output)
    else:
        output = output / _np.sum(output, axis=-1, keepdims=True)
    output = _np.clip(output, _eps, 1 - _eps)
    return -_np.sum(target * _np.log(output), axis=-1)


def binary_crossentropy(target, output, from_logits=False):
    if from_logits:
        output = sigmoid(output)
    output = _np.clip(output, _eps, 1 - _eps)
    return -(target * _np.log(output) + (1 - target) * _np.log(1 - output))


def in_train_phase(x, alt, training=None):
    y = x if training else alt
    return y() if callable(y) else y


def learning_phase():
    return 0


# the checks replace these two to give the noise
def _random_normal(shape):
    return _np.random.randn(*shape)


def _random_uniform(shape):
    return _np.random.rand(*shape)


def random_normal(shape, mean=0., stddev=1., dtype=None, seed=None):
    return mean + stddev * _random_normal(tuple(int(n) for n in shape))


def random_uniform(shape, minval=0., maxval=1., dtype=None, seed=None):
    return minval + (maxval - minval) * _random_uniform(tuple(int(n) for n in shape))


__getattr__ = missing('keras.backend')
