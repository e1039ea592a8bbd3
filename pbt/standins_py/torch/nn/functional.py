import numpy as np

from .. import tensor, NotInStandIn
from .. import nn


def __getattr__(name):
    """functions of the activations; the others are not in the stand-in"""
    if name.startswith('__'):
        raise AttributeError(name)
    for k in vars(nn):
        if k.lower() == name.replace('_', '') and isinstance(getattr(nn, k), type):
            cls = getattr(nn, k)
            return lambda x, *a, **kw: cls(*a, **kw)(x)

    def missing(*a, **k):
        raise NotInStandIn(name)
    return missing


def dropout(x, p=0.5, training=True, inplace=False):
    m = nn.Dropout(p)
    return m.train(training)(x)


def dropout2d(x, p=0.5, training=False, inplace=False):
    if not training or p == 0:
        return x
    a = np.asarray(x)
    m = np.random.rand(*(a.shape[:2] + (1,) * (a.ndim - 2))) >= p
    return tensor(a * m / (1 - p))
