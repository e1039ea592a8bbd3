"""Reference PLDA: explicit joint Gaussians of all the vectors of a speaker."""
import numpy as np
from pbt.core import *
from hyperion.pdfs.plda import FRPLDA, SPLDA, PLDA

CLS = {'fr': FRPLDA, 's': SPLDA, 'full': PLDA}


def model_st(min_d=1):
    return fd(kind=st.sampled_from(['fr', 's', 'full']), d=st.integers(min_d, 4), y=st.integers(1, 3), z=st.integers(1, 2), seed=seeds, scale=st.sampled_from([0.1, 1., 10.]))


def gen_params(c, r):
    """constructor arguments"""
    d, s = c['d'], c['scale']
    mu = r.randn(d) * s * 2
    if c['kind'] == 'fr':
        return dict(mu=mu, B=np.linalg.inv(rand_pd(r, d) * s * s), W=np.linalg.inv(rand_pd(r, d) * s * s))
    V = r.randn(min(c['y'], d), d) * s
    if c['kind'] == 's':
        return dict(mu=mu, V=V, W=np.linalg.inv(rand_pd(r, d) * s * s))
    return dict(mu=mu, V=V, U=r.randn(min(c['z'], d), d) * s, D=1 / ((0.2 + r.rand(d)) * s * s))


def build(c, p, **kw):
    q = dict((k, v.copy()) for k, v in p.items())
    q.update(kw)
    return CLS[c['kind']](**q)


def read(c, m):
    """(mu, Sb, Sw) of a model"""
    if c['kind'] == 'fr':
        return m.mu, np.linalg.inv(m.B), np.linalg.inv(m.W)
    if c['kind'] == 's':
        return m.mu, m.V.T.dot(m.V), np.linalg.inv(m.W)
    return m.mu, m.V.T.dot(m.V), m.U.T.dot(m.U) + np.diag(1 / m.D)


class Ref(object):
    def __init__(self, mu, Sb, Sw):
        self.mu, self.Sb, self.Sw = np.array(mu), np.array(Sb), np.array(Sw)
        self.cache = {}

    def joint(self, n):
        if n not in self.cache:
            C = np.kron(np.eye(n), self.Sw) + np.kron(np.ones((n, n)), self.Sb)
            self.cache[n] = (np.linalg.inv(C), np.linalg.slogdet(C)[1])
        return self.cache[n]

    def logp(self, X):
        """log-density of the vectors of a speaker"""
        if len(X) == 0:
            return 0.
        iC, ld = self.joint(len(X))
        v = (X - self.mu).ravel()
        return -0.5 * (len(v) * np.log(2 * np.pi) + ld + v.dot(iC).dot(v))

    def llr(self, X1, X2):
        return self.logp(np.vstack([X1, X2])) - self.logp(X1) - self.logp(X2)

    def marginal(self, x, ids):
        return sum(self.logp(x[ids == i]) for i in np.unique(ids))


def draw(ref, r, ids):
    """vectors of speakers ids"""
    d = len(ref.mu)
    w, q = np.linalg.eigh(ref.Sb)
    y = r.randn(int(np.max(ids)) + 1, d).dot((q * np.sqrt(np.maximum(w, 0))).T)
    return ref.mu + y[ids] + r.randn(len(ids), d).dot(np.linalg.cholesky(ref.Sw).T)


def gen_ids(r, C, maxn, shuffle=True):
    """labels 0..C-1, every one present"""
    n = r.randint(1, maxn + 1, size=C)
    ids = np.repeat(np.arange(C), n)
    return ids[r.permutation(len(ids))] if shuffle else ids
