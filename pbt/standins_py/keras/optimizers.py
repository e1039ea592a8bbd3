"""the arguments of the optimizers of Keras 2.2; they only keep them"""
from . import backend as K
from . import missing


class Optimizer(object):
    defaults = {}

    def __init__(self, *args, **kwargs):
        d = dict(self.defaults)
        names = list(d)
        if len(args) > len(names):
            raise TypeError('too many arguments')
        for n, a in zip(names, args):
            d[n] = a
        for k, v in kwargs.items():
            if k not in d and k not in ('clipnorm', 'clipvalue'):
                raise TypeError('Unexpected keyword argument passed to optimizer: ' + str(k))
            d[k] = v
        for k, v in d.items():
            setattr(self, k, K.variable(v) if k == 'lr' else v)

    def get_config(self):
        return {k: float(v) if k == 'lr' else v for k, v in self.__dict__.items()}


def _make(name, **defaults):
    return type(name, (Optimizer,), dict(defaults=defaults))


SGD = _make('SGD', lr=0.01, momentum=0., decay=0., nesterov=False)
RMSprop = _make('RMSprop', lr=0.001, rho=0.9, epsilon=None, decay=0.)
Adam = _make('Adam', lr=0.001, beta_1=0.9, beta_2=0.999, epsilon=None, decay=0., amsgrad=False)
Adamax = _make('Adamax', lr=0.002, beta_1=0.9, beta_2=0.999, epsilon=None, decay=0.)
Nadam = _make('Nadam', lr=0.002, beta_1=0.9, beta_2=0.999, epsilon=None, schedule_decay=0.004)
__getattr__ = missing('keras.optimizers')
