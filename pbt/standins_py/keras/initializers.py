import numpy as _np

from . import missing
from ._objs import getter, serialize    # noqa: F401


class Initializer(object):
    def get_config(self):
        return dict(self.__dict__)

    @classmethod
    def from_config(cls, config):
        return cls(**config)


class Zeros(Initializer):
    def __call__(self, shape, dtype=None):
        return _np.zeros(shape)


class Ones(Initializer):
    def __call__(self, shape, dtype=None):
        return _np.ones(shape)


class Constant(Initializer):
    def __init__(self, value=0):
        self.value = value

    def __call__(self, shape, dtype=None):
        return self.value * _np.ones(shape)


class RandomNormal(Initializer):
    def __init__(self, mean=0., stddev=0.05, seed=None):
        self.mean, self.stddev, self.seed = mean, stddev, seed

    def __call__(self, shape, dtype=None):
        return self.mean + self.stddev * _np.random.randn(*shape)


class TruncatedNormal(RandomNormal):
    def __call__(self, shape, dtype=None):
        return self.mean + self.stddev * _np.clip(_np.random.randn(*shape), -2, 2)


class RandomUniform(Initializer):
    def __init__(self, minval=-0.05, maxval=0.05, seed=None):
        self.minval, self.maxval, self.seed = minval, maxval, seed

    def __call__(self, shape, dtype=None):
        return self.minval + (self.maxval - self.minval) * _np.random.rand(*shape)


class VarianceScaling(Initializer):
    def __init__(self, scale=1.0, mode='fan_in', distribution='normal', seed=None):
        self.scale, self.mode, self.distribution, self.seed = scale, mode, distribution, seed

    def __call__(self, shape, dtype=None):
        n = max(1, _np.prod(shape[:-1]) + shape[-1])
        return _np.sqrt(6.0 / n) * (2 * _np.random.rand(*shape) - 1)


class Identity(Initializer):
    def __init__(self, gain=1.):
        self.gain = gain

    def __call__(self, shape, dtype=None):
        if len(shape) != 2 or shape[0] != shape[1]:
            raise ValueError('Identity matrix initializer can only be used for 2D square matrices.')
        return self.gain * _np.eye(shape[0])


_al = dict(zero='Zeros', zeros='Zeros', one='Ones', ones='Ones', constant='Constant', normal='RandomNormal', random_normal='RandomNormal', uniform='RandomUniform', random_uniform='RandomUniform',
           truncated_normal='TruncatedNormal', identity='Identity', glorot_uniform='VarianceScaling', glorot_normal='VarianceScaling', he_normal='VarianceScaling', he_uniform='VarianceScaling',
           lecun_uniform='VarianceScaling', lecun_normal='VarianceScaling')
get = getter({c.__name__: c for c in (Zeros, Ones, Constant, RandomNormal, TruncatedNormal, RandomUniform, VarianceScaling, Identity)}, _al)
__getattr__ = missing('keras.initializers')
