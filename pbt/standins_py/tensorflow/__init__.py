"""stand-in of the parts of TensorFlow 1 that hyperion/keras/backend_addons uses, on numpy arrays"""
import numpy as _np


class Tensor(_np.ndarray):
    """arrays without a transpose attribute"""
    @property
    def T(self):
        raise AttributeError("'Tensor' object has no attribute 'T'")


def _t(x):
    return _np.array(x).view(Tensor)


def diag(x):
    """a diagonal matrix from a vector"""
    x = _np.asarray(x)
    return _t(_np.diag(x)) if x.ndim == 1 else _fail()


def _fail():
    from keras import NotInStandIn
    raise NotInStandIn('tf.diag of a matrix')


def diag_part(x):
    return _t(_np.diagonal(x))


def matrix_diag_part(x):
    return _t(_np.diagonal(x, axis1=-2, axis2=-1))


def matrix_inverse(x):
    return _t(_np.linalg.inv(x))


def cholesky(x):
    return _t(_np.linalg.cholesky(x))


def transpose(x, perm=None):
    return _t(_np.transpose(x, perm))


def matrix_transpose(x):
    return _t(_np.swapaxes(x, -1, -2))


def tile(x, n):
    if len(n) != _np.ndim(x):
        raise ValueError('tile of %d axes in %d ways' % (_np.ndim(x), len(n)))
    return _t(_np.tile(x, n))


def reduce_max(x, axis=None, keepdims=False):
    return _t(_np.max(x, axis=axis, keepdims=keepdims))


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    from keras import NotInStandIn
    raise NotInStandIn('tensorflow.' + name)
