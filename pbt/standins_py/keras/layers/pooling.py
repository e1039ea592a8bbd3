import numpy as _np

from .. import missing
from ..engine import InputSpec, Layer


class _GlobalPooling1D(Layer):
    def __init__(self, **kwargs):
        super(_GlobalPooling1D, self).__init__(**kwargs)
        self.input_spec = InputSpec(ndim=3)

    def compute_output_shape(self, input_shape):
        return (input_shape[0], input_shape[2])


class MaxPooling1D(Layer):
    def __init__(self, pool_size=2, strides=None, padding='valid', **kwargs):
        super(MaxPooling1D, self).__init__(**kwargs)
        self.pool_size, self.strides, self.padding = pool_size, strides or pool_size, padding
        self.input_spec = InputSpec(ndim=3)

    def compute_output_shape(self, s):
        n = None if s[1] is None else -(-s[1] // self.strides) if self.padding == 'same' else (s[1] - self.pool_size) // self.strides + 1
        return (s[0], n, s[2])

    def call(self, x):
        n = self.compute_output_shape(x.shape)[1]
        pad = max(0, (n - 1) * self.strides + self.pool_size - x.shape[1])
        p = _np.pad(x, ((0, 0), (pad // 2, pad - pad // 2), (0, 0)), mode='constant', constant_values=-_np.inf)
        return _np.stack([p[:, i * self.strides:i * self.strides + self.pool_size].max(axis=1) for i in range(n)], axis=1)

    def get_config(self):
        return dict(Layer.get_config(self), pool_size=self.pool_size, strides=self.strides, padding=self.padding)


__getattr__ = missing('keras.layers.pooling')
