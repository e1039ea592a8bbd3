import re as _re

import numpy as _np

from . import backend as K
from . import missing

_uids = {}


def _name(cls):
    s = _re.sub('([a-z])([A-Z])', r'\1_\2', _re.sub('(.)([A-Z][a-z0-9]+)', r'\1_\2', cls)).lower()
    _uids[s] = _uids.get(s, 0) + 1
    return '%s_%d' % (s, _uids[s])


class InputSpec(object):
    def __init__(self, dtype=None, shape=None, ndim=None, max_ndim=None, min_ndim=None, axes=None):
        self.dtype, self.shape, self.max_ndim, self.min_ndim, self.axes = dtype, shape, max_ndim, min_ndim, axes or {}
        self.ndim = len(shape) if shape is not None else ndim

    def check(self, shape, name):
        n = len(shape)
        if self.ndim is not None and n != self.ndim or self.max_ndim is not None and n > self.max_ndim or self.min_ndim is not None and n < self.min_ndim:
            raise ValueError('Input 0 is incompatible with layer %s: found ndim=%d' % (name, n))
        for a, v in list(self.axes.items()) + list(enumerate(self.shape or ())):
            if v is not None and shape[a] not in (v, None):
                raise ValueError('Input 0 is incompatible with layer %s: axis %d is %s, not %s' % (name, a, shape[a], v))


class Sym(object):
    """output of a node of a symbolic graph"""

    def __init__(self, shape, node=None, idx=0):
        self._keras_shape, self.node, self.idx = tuple(shape), node, idx

    @property
    def shape(self):
        raise AttributeError('static shape of a symbolic tensor')


class Node(object):
    def __init__(self, layer, inputs, shapes):
        self.layer, self.inputs = layer, inputs
        self.outputs = [Sym(s, self, i) for i, s in enumerate(shapes)]


def _list(x):
    return list(x) if isinstance(x, (list, tuple)) else [x]


def _shapes(s):
    """list of shapes from a shape or a list of shapes"""
    return [tuple(a) for a in s] if isinstance(s, list) or (len(s) and isinstance(s[0], (tuple, list))) else [tuple(s)]


class Layer(object):
    def __init__(self, **kwargs):
        ok = {'input_shape', 'batch_input_shape', 'batch_size', 'dtype', 'name', 'trainable', 'weights', 'input_dtype'}
        for k in kwargs:
            if k not in ok:
                raise TypeError('Keyword argument not understood: %s' % k)
        self.input_spec = None
        self.supports_masking = False
        self.name = kwargs.get('name') or _name(type(self).__name__)
        self.trainable = kwargs.get('trainable', True)
        if kwargs.get('batch_input_shape'):
            self.batch_input_shape = tuple(kwargs['batch_input_shape'])
        elif kwargs.get('input_shape'):
            self.batch_input_shape = (kwargs.get('batch_size'),) + tuple(kwargs['input_shape'])
        self.dtype = kwargs.get('dtype') or K.floatx()
        self._initial_weights = kwargs.get('weights')
        self._inbound_nodes = []
        self.built = False
        self._w = []
        self._constraints = []

    def add_weight(self, *args, **kw):
        names = ['name', 'shape', 'dtype', 'initializer', 'regularizer', 'trainable', 'constraint']
        if args and isinstance(args[0], (tuple, list)):     # the old order of the arguments
            names[0:2] = ['shape', 'initializer']
            names = ['shape', 'initializer', 'regularizer', 'trainable', 'constraint']
        for n, a in zip(names, args):
            if n in kw:
                raise TypeError('add_weight() got multiple values for argument %r' % n)
            kw[n] = a
        from . import initializers
        init = initializers.get(kw.get('initializer', 'glorot_uniform'))
        w = K.variable(init(tuple(kw['shape'])), name=kw.get('name'))
        self._w.append(w)
        self._constraints.append(kw.get('constraint'))
        return w

    def constrain(self):
        """what the optimizer does after every update"""
        for w, c in zip(self._w, self._constraints):
            if c is not None:
                w[...] = c(w)

    @property
    def weights(self):
        return list(self._w)

    def get_weights(self):
        return [_np.array(w) for w in self.weights]

    def set_weights(self, ws):
        if len(ws) != len(self.weights):
            raise ValueError('%d weights for the %d of layer %s' % (len(ws), len(self.weights), self.name))
        for w, v in zip(self.weights, ws):
            if w.shape != _np.shape(v):
                raise ValueError('Layer weight shape %s not compatible with provided weight shape %s' % (w.shape, _np.shape(v)))
            w[...] = v

    def build(self, input_shape):
        self.built = True

    def call(self, inputs, **kwargs):
        return inputs

    def compute_output_shape(self, input_shape):
        return input_shape

    def compute_mask(self, inputs, mask=None):
        return mask

    def _prepare(self, shapes, islist):
        if self.input_spec is not None:
            self._check(shapes)
        if not self.built:
            self.build([tuple(s) for s in shapes] if islist else tuple(shapes[0]))
            self.built = True
            if self._initial_weights is not None:
                self.set_weights(self._initial_weights)
                self._initial_weights = None

    def _check(self, shapes):
        spec = self.input_spec if isinstance(self.input_spec, list) else [self.input_spec]
        if len(spec) != len(shapes):
            raise ValueError('Layer %s expects %d inputs, but it received %d input tensors' % (self.name, len(spec), len(shapes)))
        for a, s in zip(spec, shapes):
            if a is not None:
                a.check(s, self.name)

    def __call__(self, inputs, **kwargs):
        islist = isinstance(inputs, (list, tuple))
        ins = _list(inputs)
        if any(isinstance(x, Sym) for x in ins):
            if not all(isinstance(x, Sym) for x in ins):
                raise ValueError('Layer %s was called with an input that is not a symbolic tensor' % self.name)
            shapes = [x._keras_shape for x in ins]
            self._prepare(shapes, islist)
            out = self.compute_output_shape(shapes if islist else shapes[0])
            node = Node(self, ins, _shapes(out))
            node.islist = islist
            self._inbound_nodes.append(node)
            return node.outputs if isinstance(out, list) else node.outputs[0]
        ins = [_np.asarray(x) for x in ins]
        self._prepare([x.shape for x in ins], islist)
        return self.call(ins if islist else ins[0], **kwargs)

    def _io(self, i, what):
        n = self._inbound_nodes[i]
        x = getattr(n, what)
        return x[0] if len(x) == 1 else list(x)

    def get_input_at(self, i):
        return self._io(i, 'inputs')

    def get_output_at(self, i):
        return self._io(i, 'outputs')

    def _sh(self, x):
        return [a._keras_shape for a in x] if isinstance(x, list) else x._keras_shape

    def get_input_shape_at(self, i):
        return self._sh(self.get_input_at(i))

    def get_output_shape_at(self, i):
        return self._sh(self.get_output_at(i))

    @property
    def input(self):
        return self.get_input_at(0)

    @property
    def output(self):
        return self.get_output_at(0)

    @property
    def input_shape(self):
        return self.get_input_shape_at(0)

    @property
    def output_shape(self):
        return self.get_output_shape_at(0)

    def count_params(self):
        return sum(w.size for w in self.weights)

    def get_config(self):
        c = dict(name=self.name, trainable=self.trainable)
        if hasattr(self, 'batch_input_shape'):
            c['batch_input_shape'] = self.batch_input_shape
        if self.dtype:
            c['dtype'] = self.dtype
        return c

    @classmethod
    def from_config(cls, config):
        return cls(**config)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise AttributeError('%r object has no attribute %r' % (type(self).__name__, name))


__getattr__ = missing('keras.engine')
