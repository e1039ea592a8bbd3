import numpy as _np

from .. import activations, constraints, initializers, regularizers
from .. import missing as _missing
from ..engine import InputSpec, Layer, Node as _Node
from .pooling import MaxPooling1D       # noqa: F401


class InputLayer(Layer):
    def __init__(self, batch_input_shape=None, name=None, **kwargs):
        kwargs.pop('sparse', None)
        Layer.__init__(self, name=name, batch_input_shape=batch_input_shape, **kwargs)
        self.built = True
        node = _Node(self, [], [self.batch_input_shape])
        node.inputs = node.outputs
        node.islist = False
        self._inbound_nodes.append(node)


def Input(shape=None, batch_shape=None, name=None, dtype=None, sparse=False, tensor=None):
    return InputLayer(batch_shape or (None,) + tuple(shape), name=name)._inbound_nodes[0].outputs[0]


class Dense(Layer):
    def __init__(self, units, activation=None, use_bias=True, kernel_initializer='glorot_uniform', bias_initializer='zeros', kernel_regularizer=None, bias_regularizer=None,
                 activity_regularizer=None, kernel_constraint=None, bias_constraint=None, **kwargs):
        if 'input_shape' not in kwargs and 'input_dim' in kwargs:
            kwargs['input_shape'] = (kwargs.pop('input_dim'),)
        super(Dense, self).__init__(**kwargs)
        self.units, self.use_bias = units, use_bias
        self.activation = activations.get(activation)
        self.kernel_initializer, self.bias_initializer = initializers.get(kernel_initializer), initializers.get(bias_initializer)
        self.kernel_regularizer, self.bias_regularizer, self.activity_regularizer = [regularizers.get(r) for r in (kernel_regularizer, bias_regularizer, activity_regularizer)]
        self.kernel_constraint, self.bias_constraint = constraints.get(kernel_constraint), constraints.get(bias_constraint)
        self.input_spec = InputSpec(min_ndim=2)
        self.supports_masking = True
        self.bias = None

    def build(self, s):
        self.kernel = self.add_weight(shape=(s[-1], self.units), initializer=self.kernel_initializer, name='kernel', constraint=self.kernel_constraint)
        if self.use_bias:
            self.bias = self.add_weight(shape=(self.units,), initializer=self.bias_initializer, name='bias', constraint=self.bias_constraint)
        self.input_spec = InputSpec(min_ndim=2, axes={-1: s[-1]})
        self.built = True

    def call(self, x):
        y = _np.dot(x, self.kernel)
        return self.activation(y + self.bias if self.use_bias else y)

    def compute_output_shape(self, s):
        return tuple(s[:-1]) + (self.units,)

    def get_config(self):
        c = dict(units=self.units, activation=activations.serialize(self.activation), use_bias=self.use_bias)
        for k, m in (('kernel_initializer', initializers), ('bias_initializer', initializers), ('kernel_regularizer', regularizers), ('bias_regularizer', regularizers),
                     ('activity_regularizer', regularizers), ('kernel_constraint', constraints), ('bias_constraint', constraints)):
            c[k] = m.serialize(getattr(self, k))
        return dict(Layer.get_config(self), **c)


class Activation(Layer):
    def __init__(self, activation, **kwargs):
        super(Activation, self).__init__(**kwargs)
        self.activation = activations.get(activation)

    def call(self, x):
        return self.activation(x)

    def get_config(self):
        return dict(Layer.get_config(self), activation=activations.serialize(self.activation))


class Dropout(Layer):
    """as in the test phase"""

    def __init__(self, rate, **kwargs):
        super(Dropout, self).__init__(**kwargs)
        self.rate = rate

    def get_config(self):
        return dict(Layer.get_config(self), rate=self.rate)


class SpatialDropout1D(Dropout):
    pass


class BatchNormalization(Layer):
    """as in the test phase"""

    def build(self, s):
        n = (s[-1],)
        self.gamma, self.beta, self.mean, self.var = [self.add_weight(shape=n, initializer=i, name=k) for k, i in (('gamma', 'ones'), ('beta', 'zeros'), ('moving_mean', 'zeros'), ('moving_variance', 'ones'))]
        self.built = True

    def call(self, x):
        return (x - self.mean) / _np.sqrt(self.var + 1e-3) * self.gamma + self.beta


class Conv1D(Layer):
    def __init__(self, filters, kernel_size, strides=1, padding='valid', dilation_rate=1, activation=None, use_bias=True, **kwargs):
        keep = ('kernel_initializer', 'bias_initializer', 'kernel_regularizer', 'bias_regularizer', 'kernel_constraint', 'bias_constraint')
        self._rest = {k: kwargs.pop(k) for k in keep if k in kwargs}
        super(Conv1D, self).__init__(**kwargs)
        self.filters, self.padding, self.use_bias = filters, padding, use_bias
        self.kernel_size, self.strides, self.dilation_rate = [a if isinstance(a, int) else int(a[0]) for a in (kernel_size, strides, dilation_rate)]
        self.activation = activations.get(activation)
        self.input_spec = InputSpec(ndim=3)

    def build(self, s):
        self.kernel = self.add_weight(shape=(self.kernel_size, s[-1], self.filters), initializer=self._rest.get('kernel_initializer', 'glorot_uniform'), name='kernel')
        if self.use_bias:
            self.bias = self.add_weight(shape=(self.filters,), initializer=self._rest.get('bias_initializer', 'zeros'), name='bias')
        self.built = True

    def _len(self, n):
        if n is None:
            return None
        e = (self.kernel_size - 1) * self.dilation_rate + 1
        return -(-n // self.strides) if self.padding == 'same' else -(-(n - e + 1) // self.strides)

    def compute_output_shape(self, s):
        return (s[0], self._len(s[1]), self.filters)

    def call(self, x):
        n = self._len(x.shape[1])
        e = (self.kernel_size - 1) * self.dilation_rate + 1
        if self.padding == 'same':
            pad = max(0, (n - 1) * self.strides + e - x.shape[1])
            x = _np.pad(x, ((0, 0), (pad // 2, pad - pad // 2), (0, 0)), mode='constant')
        y = sum(_np.dot(x[:, k * self.dilation_rate:][:, :(n - 1) * self.strides + 1:self.strides], self.kernel[k]) for k in range(self.kernel_size))
        return self.activation(y + self.bias if self.use_bias else y)

    def get_config(self):
        return dict(Layer.get_config(self), filters=self.filters, kernel_size=self.kernel_size, strides=self.strides, padding=self.padding, dilation_rate=self.dilation_rate,
                    activation=activations.serialize(self.activation), use_bias=self.use_bias)


class Concatenate(Layer):
    def __init__(self, axis=-1, **kwargs):
        super(Concatenate, self).__init__(**kwargs)
        self.axis = axis

    def call(self, x):
        return _np.concatenate(x, axis=self.axis)

    def compute_output_shape(self, s):
        o = list(s[0])
        o[self.axis] = None if any(a[self.axis] is None for a in s) else sum(a[self.axis] for a in s)
        return tuple(o)

    def get_config(self):
        return dict(Layer.get_config(self), axis=self.axis)


class _Merge(Layer):
    def compute_output_shape(self, s):
        if not isinstance(s, list) or len(s) < 2:
            raise ValueError('A merge layer should be called on a list of at least 2 inputs')
        for a in zip(*[t[1:] for t in s]):
            if len(set(n for n in a if n not in (1, None))) > 1:
                raise ValueError('Operands could not be broadcast together with shapes %s' % s)
        return tuple(s[0])


class Add(_Merge):
    def call(self, x):
        return sum(x[1:], x[0])


class Multiply(_Merge):
    def call(self, x):
        y = x[0]
        for a in x[1:]:
            y = y * a
        return y


class Reshape(Layer):
    def __init__(self, target_shape, **kwargs):
        super(Reshape, self).__init__(**kwargs)
        self.target_shape = tuple(target_shape)

    def call(self, x):
        if None in self.target_shape:
            raise ValueError('Reshape to %s' % (self.target_shape,))
        return _np.reshape(x, (len(x),) + self.target_shape)

    def compute_output_shape(self, s):
        if None in self.target_shape:
            raise ValueError('Reshape to %s' % (self.target_shape,))
        t = self.target_shape
        if None in s[1:]:
            return (s[0],) + tuple(None if a == -1 else a for a in t)
        n, k = int(_np.prod(s[1:])), int(_np.prod([a for a in t if a != -1]))
        if t.count(-1) > 1 or (n % k if -1 in t else n != k):
            raise ValueError('total size of new array must be unchanged')
        return (s[0],) + tuple(n // k if a == -1 else a for a in t)

    def get_config(self):
        return dict(Layer.get_config(self), target_shape=self.target_shape)


class TimeDistributed(Layer):
    def __init__(self, layer, **kwargs):
        super(TimeDistributed, self).__init__(**kwargs)
        self.layer = layer

    def build(self, s):
        self.layer._prepare([(s[0],) + tuple(s[2:])], False)
        self._w = self.layer._w
        self.built = True

    def call(self, x):
        return _np.stack([self.layer.call(x[:, t]) for t in range(x.shape[1])], axis=1)

    def compute_output_shape(self, s):
        o = self.layer.compute_output_shape((s[0],) + tuple(s[2:]))
        return (s[0], s[1]) + tuple(o[1:])

    def get_config(self):
        return dict(Layer.get_config(self), layer={'class_name': type(self.layer).__name__, 'config': self.layer.get_config()})

    @classmethod
    def from_config(cls, config, custom=None):
        from ..models import _class
        l = config.pop('layer')
        return cls(_class(l['class_name'], custom or {}).from_config(l['config']), **config)


def _pair(a):
    return (a, a) if isinstance(a, int) else tuple(int(v) for v in a)


def _cut(n, k, s, d, padding):
    """length of the output and padding at both ends"""
    e = (k - 1) * d + 1
    if padding == 'valid':
        return (None if n is None else -(-(n - e + 1) // s)), 0, 0
    if padding != 'same':
        raise ValueError('padding %r' % (padding,))
    if n is None:
        return None, 0, 0
    m = -(-n // s)
    p = max(0, (m - 1) * s + e - n)
    return m, p // 2, p - p // 2


def _windows(x, k, s, d, padding, value):
    """parts of an image (items, rows, columns, channels) below each place of a kernel"""
    (n1, a1, b1), (n2, a2, b2) = [_cut(x.shape[i + 1], k[i], s[i], d[i], padding) for i in (0, 1)]
    x = _np.pad(x, ((0, 0), (a1, b1), (a2, b2), (0, 0)), mode='constant', constant_values=value)
    for i in range(k[0]):
        for j in range(k[1]):
            yield i, j, x[:, i * d[0]:][:, :(n1 - 1) * s[0] + 1:s[0], j * d[1]:][:, :, :(n2 - 1) * s[1] + 1:s[1]]


class Conv2D(Layer):
    def __init__(self, filters, kernel_size, strides=(1, 1), padding='valid', data_format=None, dilation_rate=(1, 1), activation=None, use_bias=True, **kwargs):
        keep = ('kernel_initializer', 'bias_initializer', 'kernel_regularizer', 'bias_regularizer', 'kernel_constraint', 'bias_constraint')
        self._rest = {k: kwargs.pop(k) for k in keep if k in kwargs}
        super(Conv2D, self).__init__(**kwargs)
        self.filters, self.padding, self.use_bias = filters, padding, use_bias
        self.kernel_size, self.strides, self.dilation_rate = _pair(kernel_size), _pair(strides), _pair(dilation_rate)
        self.activation = activations.get(activation)
        self.input_spec = InputSpec(ndim=4)

    def _kshape(self, s):
        return self.kernel_size + (s[-1], self.filters)

    def build(self, s):
        self.kernel = self.add_weight(shape=self._kshape(s), initializer=self._rest.get('kernel_initializer', 'glorot_uniform'), name='kernel')
        if self.use_bias:
            self.bias = self.add_weight(shape=(self.filters,), initializer=self._rest.get('bias_initializer', 'zeros'), name='bias')
        self.built = True

    def compute_output_shape(self, s):
        return (s[0],) + tuple(_cut(s[i + 1], self.kernel_size[i], self.strides[i], self.dilation_rate[i], self.padding)[0] for i in (0, 1)) + (self.filters,)

    def _conv(self, x):
        return sum(_np.dot(w, self.kernel[i, j]) for i, j, w in _windows(x, self.kernel_size, self.strides, self.dilation_rate, self.padding, 0))

    def call(self, x):
        y = self._conv(x)
        return self.activation(y + self.bias if self.use_bias else y)

    def get_config(self):
        return dict(Layer.get_config(self), filters=self.filters, kernel_size=self.kernel_size, strides=self.strides, padding=self.padding, dilation_rate=self.dilation_rate,
                    activation=activations.serialize(self.activation), use_bias=self.use_bias)


class Conv2DTranspose(Conv2D):
    """without strides"""

    def _kshape(self, s):
        return self.kernel_size + (self.filters, s[-1])

    def compute_output_shape(self, s):
        if self.strides != (1, 1):
            from .. import NotInStandIn
            raise NotInStandIn('strides of keras.layers.Conv2DTranspose')
        return (s[0],) + tuple(n if self.padding == 'same' or n is None else n + (k - 1) * d for n, k, d in zip(s[1:3], self.kernel_size, self.dilation_rate)) + (self.filters,)

    def _conv(self, x):
        """every input is added, times the kernel, to the outputs that it would have been computed from"""
        o = self.compute_output_shape(x.shape)
        pads = [_cut(o[i + 1], self.kernel_size[i], 1, self.dilation_rate[i], self.padding)[1:] for i in (0, 1)]
        y = _np.zeros((o[0], o[1] + sum(pads[0]), o[2] + sum(pads[1]), o[3]))
        for i in range(self.kernel_size[0]):
            for j in range(self.kernel_size[1]):
                a, b = i * self.dilation_rate[0], j * self.dilation_rate[1]
                y[:, a:a + x.shape[1], b:b + x.shape[2]] += _np.dot(x, self.kernel[i, j].T)
        return y[:, pads[0][0]:pads[0][0] + o[1], pads[1][0]:pads[1][0] + o[2]]


class MaxPooling2D(Layer):
    def __init__(self, pool_size=(2, 2), strides=None, padding='valid', data_format=None, **kwargs):
        super(MaxPooling2D, self).__init__(**kwargs)
        self.pool_size, self.padding = _pair(pool_size), padding
        self.strides = self.pool_size if strides is None else _pair(strides)
        self.input_spec = InputSpec(ndim=4)

    def compute_output_shape(self, s):
        return (s[0],) + tuple(_cut(s[i + 1], self.pool_size[i], self.strides[i], 1, self.padding)[0] for i in (0, 1)) + (s[3],)

    def call(self, x):
        y = None
        for i, j, w in _windows(x, self.pool_size, self.strides, (1, 1), self.padding, -_np.inf):
            y = w if y is None else _np.maximum(y, w)
        return y

    def get_config(self):
        return dict(Layer.get_config(self), pool_size=self.pool_size, strides=self.strides, padding=self.padding)


class GlobalAveragePooling2D(Layer):
    def call(self, x):
        return x.mean(axis=(1, 2))

    def compute_output_shape(self, s):
        return (s[0], s[3])


class Flatten(Layer):
    def __init__(self, data_format=None, **kwargs):
        super(Flatten, self).__init__(**kwargs)
        self.input_spec = InputSpec(min_ndim=3)

    def call(self, x):
        return x.reshape(len(x), -1)

    def compute_output_shape(self, s):
        if None in s[1:]:
            raise ValueError('The shape of the input to "Flatten" is not fully defined (got %s)' % (s[1:],))
        return (s[0], int(_np.prod(s[1:])))


class Lambda(Layer):
    """the shape of the output is found by running the function, as with TensorFlow"""

    def __init__(self, function, output_shape=None, mask=None, arguments=None, **kwargs):
        super(Lambda, self).__init__(**kwargs)
        self.function, self.arguments = function, arguments or {}

    def call(self, x):
        return self.function(x, **self.arguments)

    def compute_output_shape(self, s):
        odd = 97
        o = self.call(_np.zeros([odd if n is None else n for n in s])).shape
        return tuple(None if n == odd else n for n in o)

    def get_config(self):
        import marshal      # as Keras does
        f = self.function
        return dict(Layer.get_config(self), function=(marshal.dumps(f.__code__), f.__defaults__), arguments=self.arguments)

    @classmethod
    def from_config(cls, config):
        import marshal
        import types
        from .. import backend
        code, defs = config.pop('function')
        return cls(types.FunctionType(marshal.loads(code), {'K': backend}, 'lambda', defs), **config)


def _absent(name):
    class C(Layer):
        def __init__(self, *args, **kwargs):
            from .. import NotInStandIn
            raise NotInStandIn('keras.layers.' + name)
    C.__name__ = name
    return C


for _n in ('Embedding', 'LSTM', 'GRU'):
    globals()[_n] = _absent(_n)
__getattr__ = _missing('keras.layers')
