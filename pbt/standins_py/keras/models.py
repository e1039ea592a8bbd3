import copy as _copy
import json as _json
import pickle as _pickle

import numpy as _np

from . import missing
from .engine import Layer, Node, Sym, _list


def _class(name, custom):
    from . import layers
    if name in custom:
        return custom[name]
    if name == 'Model':
        return Model
    c = layers.__dict__.get(name)
    if c is None:
        raise ValueError('Unknown layer: ' + name)
    return c


class Model(Layer):
    def __init__(self, inputs=None, outputs=None, name=None, **kwargs):
        if 'input' in kwargs and inputs is None:        # names of Keras 1, still accepted
            inputs = kwargs.pop('input')
        if 'output' in kwargs and outputs is None:
            outputs = kwargs.pop('output')
        super(Model, self).__init__(name=name, **kwargs)
        self._in_list, self._out_list = isinstance(inputs, (list, tuple)), isinstance(outputs, (list, tuple))
        self.inputs, self.outputs = _list(inputs), _list(outputs)
        for x in self.inputs + self.outputs:
            if not isinstance(x, Sym):
                raise TypeError('inputs and outputs of a Model have to be tensors of layers')
        self.built = True
        node = Node(self, self.inputs, [])
        node.outputs, node.islist = self.outputs, self._in_list
        self._inbound_nodes = [node]
        self.layers, self._nodes = [], []
        self._walk()
        self.calls = []     # what compile and fit were given

    def _walk(self):
        """the nodes between the inputs and the outputs, in order of computation"""
        done = []
        ins = set(id(x) for x in self.inputs)

        def visit(x):
            if id(x) in ins:
                n = x.node
                if n.layer not in self.layers and not n.inputs[0:1] != n.outputs[0:1]:
                    self.layers.append(n.layer)
                return
            n = x.node
            if n in done:
                return
            if n.inputs is n.outputs:
                raise ValueError('Graph disconnected: layer %s' % n.layer.name)
            for y in n.inputs:
                visit(y)
            if n not in done:
                done.append(n)
                if n.layer not in self.layers:
                    self.layers.append(n.layer)
        for x in self.inputs:
            if x.node.inputs is x.node.outputs and x.node.layer not in self.layers:
                self.layers.append(x.node.layer)
        for x in self.outputs:
            visit(x)
        self._nodes = done
        names = [l.name for l in self.layers]
        if len(set(names)) != len(names):
            raise ValueError('The name is used more than once in the model: %s' % sorted(names))

    def _run(self, values, shapes=False):
        val = {id(s): v for s, v in zip(self.inputs, values)}
        for n in self._nodes:
            a = [val[id(x)] for x in n.inputs]
            if shapes:
                o = n.layer.compute_output_shape(a if n.islist else a[0])
                o = o if isinstance(o, list) else [o]
            elif isinstance(n.layer, Model):
                o = n.layer._run(a)
            else:
                if n.layer.input_spec is not None:
                    n.layer._check([x.shape for x in a])
                o = n.layer.call(a if n.islist else a[0])
                o = o if isinstance(o, list) else [o]
            for s, v in zip(n.outputs, o):
                val[id(s)] = v
        return [val[id(s)] for s in self.outputs]

    def call(self, inputs, mask=None):
        o = self._run(_list(inputs))
        return o[0] if len(o) == 1 else o

    def compute_output_shape(self, s):
        o = [tuple(a) for a in self._run([tuple(a) for a in s] if isinstance(s, list) else [tuple(s)], shapes=True)]
        return o[0] if len(o) == 1 else o

    def predict(self, x, batch_size=None, verbose=0, steps=None):
        xs = [_np.asarray(a, dtype=float) for a in _list(x)]
        if len(xs) != len(self.inputs):
            raise ValueError('%d arrays for a model with %d inputs' % (len(xs), len(self.inputs)))
        for a, s in zip(xs, self.inputs):
            if a.ndim != len(s._keras_shape) or any(m is not None and n != m for n, m in zip(a.shape, s._keras_shape)):
                raise ValueError('expected an input of shape %s but got an array of shape %s' % (s._keras_shape, a.shape))
        return self.call(xs)

    @property
    def weights(self):
        return [w for l in self.layers for w in l.weights]

    def get_layer(self, name=None, index=None):
        if index is not None:
            return self.layers[index]
        for l in self.layers:
            if l.name == name:
                return l
        raise ValueError('No such layer: ' + str(name))

    def summary(self, *a, **k):
        pass

    def compile(self, *a, **k):
        self.calls.append(('compile', a, k))

    def fit(self, *a, **k):
        self.calls.append(('fit', a, k))

    def fit_generator(self, *a, **k):
        self.calls.append(('fit_generator', a, k))

    def get_config(self):
        index = {id(l): i for i, l in enumerate(self.layers)}
        where, nodes = {}, []
        for x in self.inputs:
            where[id(x)] = ('in', [i for i, y in enumerate(self.inputs) if y is x][0])
        for k, n in enumerate(self._nodes):
            nodes.append((index[id(n.layer)], [where[id(x)] for x in n.inputs], n.islist))
            for j, y in enumerate(n.outputs):
                where[id(y)] = (k, j)
        return dict(name=self.name, trainable=self.trainable, layers=[(type(l).__name__, _copy.deepcopy(l.get_config())) for l in self.layers], nodes=nodes,
                    inputs=[x._keras_shape for x in self.inputs], input_layers=[index.get(id(x.node.layer)) for x in self.inputs],
                    outputs=[where[id(y)] for y in self.outputs], lists=(self._in_list, self._out_list))

    @classmethod
    def from_config(cls, c, custom=None):
        from .layers import InputLayer, TimeDistributed
        custom = custom or {}
        ls = []
        for n, k in c['layers']:
            k = _copy.deepcopy(k)
            t = _class(n, custom)
            ls.append(t.from_config(k, custom) if t in (Model, TimeDistributed) else t.from_config(k))
        ins = []
        for s, i in zip(c['inputs'], c['input_layers']):
            ins.append((ls[i] if i is not None and isinstance(ls[i], InputLayer) else InputLayer(s))._inbound_nodes[0].outputs[0])
        outs = []

        def at(w):
            return ins[w[1]] if w[0] == 'in' else outs[w[0]][w[1]]
        for i, a, islist in c['nodes']:
            x = [at(w) for w in a]
            outs.append(_list(ls[i](x if islist else x[0])))
        o = [at(w) for w in c['outputs']]
        return cls(ins if c['lists'][0] else ins[0], o if c['lists'][1] else o[0], name=c['name'], trainable=c['trainable'])

    def to_json(self):
        return _json.dumps(dict(class_name='Model', config=self.get_config()), default=_plain)

    def save(self, filepath, overwrite=True, include_optimizer=True):
        with open(filepath, 'wb') as f:
            _pickle.dump((self.get_config(), self.get_weights()), f)


def load_model(filepath, custom_objects=None, compile=True):
    with open(filepath, 'rb') as f:
        c, w = _pickle.load(f)
    m = Model.from_config(c, custom_objects)
    m.set_weights(w)
    return m


def model_from_json(s, custom_objects=None):
    c = _json.loads(s)
    if c['class_name'] != 'Model':
        raise ValueError('Unknown layer: ' + c['class_name'])
    return Model.from_config(_tuples(c['config']), custom_objects)


def _tuples(c):
    return tuple(_tuples(a) for a in c) if isinstance(c, list) else {k: _tuples(v) for k, v in c.items()} if isinstance(c, dict) else c


def _plain(a):
    if isinstance(a, (_np.ndarray, _np.generic)):
        return a.tolist()
    raise TypeError('Not JSON Serializable: %s' % (a,))


class Sequential(object):
    def __init__(self, *a, **k):
        from . import NotInStandIn
        raise NotInStandIn('keras.models.Sequential')


__getattr__ = missing('keras.models')
