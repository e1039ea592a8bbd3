import numpy as _np


def diag(x):
    return _np.diag(x)


def matrix_inverse(x):
    return _np.linalg.inv(x)
