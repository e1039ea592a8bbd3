from . import backend as _K
from . import missing
from ._objs import getter, serialize    # noqa: F401


class Constraint(object):
    def __call__(self, w):
        return w

    def get_config(self):
        return {}


class NonNeg(Constraint):
    def __call__(self, w):
        return w * _K.cast(_K.greater_equal(w, 0.), 'float32')


non_neg = NonNeg
get = getter(dict(NonNeg=NonNeg), dict(non_neg='NonNeg', nonneg='NonNeg'))
__getattr__ = missing('keras.constraints')
