import scipy.linalg as _sla


class Cholesky(object):
    def __init__(self, lower=True):
        self.lower = lower

    def __call__(self, x):
        return _sla.cholesky(x, lower=self.lower)
