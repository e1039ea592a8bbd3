"""Optimizers: the arguments of PyTorch; only SGD and Adam do steps (from p.grad, kept by the caller in `grads`)."""
import copy
import inspect

import numpy as np

from .. import _missing


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    return _missing(name)


class Optimizer(object):
    def __init__(self, params, defaults):
        self.defaults = defaults
        params = list(params)
        if not params:
            raise ValueError('optimizer got an empty parameter list')
        groups = params if isinstance(params[0], dict) else [{'params': params}]
        self.param_groups = []
        for g in groups:
            g = dict(g)
            g['params'] = list(g['params']) if not isinstance(g['params'], np.ndarray) else [g['params']]
            for k, v in defaults.items():
                g.setdefault(k, v)
            self.param_groups.append(g)
        self.state = {}
        self.grads = {}

    def zero_grad(self):
        self.grads.clear()

    def state_dict(self):
        groups = [dict([(k, v) for k, v in g.items() if k != 'params']) for g in self.param_groups]
        return {'state': copy.deepcopy(self.state), 'param_groups': groups}

    def load_state_dict(self, d):
        d = copy.deepcopy(d)
        if len(d['param_groups']) != len(self.param_groups):
            raise ValueError('loaded state dict has a different number of parameter groups')
        for g, n in zip(self.param_groups, d['param_groups']):
            g.update(n)
        self.state = d['state']

    def step(self):
        raise NotImplementedError()

    def _params(self):
        for i, g in enumerate(self.param_groups):
            for j, p in enumerate(g['params']):
                if (i, j) in self.grads:
                    yield (i, j), g, p, self.grads[(i, j)]


def _mk(name, sig):
    fn = eval('lambda %s: locals()' % sig)

    class C(Optimizer):
        def __init__(self, *a, **k):
            d = inspect.signature(fn).bind(*a, **k)
            d.apply_defaults()
            d = dict(d.arguments)
            params = d.pop('params')
            Optimizer.__init__(self, params, d)
    C.__name__ = name
    return C


Adadelta = _mk('Adadelta', 'params, lr=1.0, rho=0.9, eps=1e-6, weight_decay=0')
Adagrad = _mk('Adagrad', 'params, lr=1e-2, lr_decay=0, weight_decay=0, initial_accumulator_value=0')
SparseAdam = _mk('SparseAdam', 'params, lr=1e-3, betas=(0.9, 0.999), eps=1e-8')
Adamax = _mk('Adamax', 'params, lr=2e-3, betas=(0.9, 0.999), eps=1e-8, weight_decay=0')
ASGD = _mk('ASGD', 'params, lr=1e-2, lambd=1e-4, alpha=0.75, t0=1e6, weight_decay=0')
LBFGS = _mk('LBFGS', 'params, lr=1, max_iter=20, max_eval=None, tolerance_grad=1e-5, tolerance_change=1e-9, history_size=100, line_search_fn=None')
RMSprop = _mk('RMSprop', 'params, lr=1e-2, alpha=0.99, eps=1e-8, weight_decay=0, momentum=0, centered=False')
Rprop = _mk('Rprop', 'params, lr=1e-2, etas=(0.5, 1.2), step_sizes=(1e-6, 50)')


class SGD(_mk('SGD', 'params, lr, momentum=0, dampening=0, weight_decay=0, nesterov=False')):
    def step(self):
        for k, g, p, d in self._params():
            d = d + g['weight_decay'] * np.asarray(p)
            if g['momentum']:
                if k not in self.state:
                    self.state[k] = np.array(d)
                else:
                    self.state[k] = g['momentum'] * self.state[k] + (1 - g['dampening']) * d
                d = d + g['momentum'] * self.state[k] if g['nesterov'] else self.state[k]
            p -= g['lr'] * d


class Adam(_mk('Adam', 'params, lr=1e-3, betas=(0.9, 0.999), eps=1e-8, weight_decay=0, amsgrad=False')):
    def step(self):
        for k, g, p, d in self._params():
            d = d + g['weight_decay'] * np.asarray(p)
            n, m, v = self.state.get(k, (0, 0 * d, 0 * d))
            b1, b2 = g['betas']
            n, m, v = n + 1, b1 * m + (1 - b1) * d, b2 * v + (1 - b2) * d * d
            self.state[k] = (n, m, v)
            p -= g['lr'] / (1 - b1 ** n) * m / (np.sqrt(v / (1 - b2 ** n)) + g['eps'])
