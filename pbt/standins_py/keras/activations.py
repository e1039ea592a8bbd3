from . import backend as K
from . import missing


def linear(x):
    return x


relu, sigmoid, hard_sigmoid, softplus, softsign, tanh, exponential = K.relu, K.sigmoid, K.hard_sigmoid, K.softplus, K.softsign, K.tanh, K.exp


def softmax(x, axis=-1):
    return K.softmax(x, axis)


_all = dict(linear=linear, relu=relu, sigmoid=sigmoid, hard_sigmoid=hard_sigmoid, softplus=softplus, softsign=softsign, tanh=tanh, softmax=softmax, exponential=exponential)


def get(x):
    if x is None:
        return linear
    if isinstance(x, str):
        if x not in _all:
            raise ValueError('Unknown activation function:' + x)
        return _all[x]
    if callable(x):
        return x
    raise ValueError('Could not interpret activation function identifier: %r' % (x,))


def serialize(f):
    for k, v in _all.items():
        if v is f:
            return k
    return f.__name__


__getattr__ = missing('keras.activations')
