from . import missing
from ._objs import getter, serialize    # noqa: F401


class L1L2(object):
    def __init__(self, l1=0., l2=0.):
        self.l1, self.l2 = l1, l2

    def get_config(self):
        return dict(self.__dict__)


def l1(l=0.01):
    return L1L2(l1=l)


def l2(l=0.01):
    return L1L2(l2=l)


get = getter(dict(L1L2=L1L2, l1=l1, l2=l2), {})
__getattr__ = missing('keras.regularizers')
