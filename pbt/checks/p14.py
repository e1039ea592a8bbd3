"""P14: matrix and log-domain helpers against dense linear algebra and extended-precision evaluation."""
import scipy.linalg as sla
from pbt.core import *
from hyperion.utils import math as M

RULE = 'dimension at least 2 (matrices), at least one pair of unequal entries (vectors), a direction under and a direction over the floor (flooring)'

mat_st = fd(n=st.sampled_from([1, 2, 3, 4, 6, 9]), seed=seeds, scale=st.sampled_from([1e-3, 1., 1e3]), k=st.integers(1, 4))


def tri(r, n, lower):
    A = r.randn(n, n)
    A[np.diag_indices(n)] = (0.5 + r.rand(n))
    return np.tril(A) if lower else np.triu(A)


@sub('P14', mat_st, quick=200, nontrivial=lambda c: c['n'] > 1)
def pd_inverse(c, ctx):
    """inverse operators, factor, log-determinant and inverse of a positive definite matrix"""
    r = rng(c['seed'])
    n = c['n']
    A = rand_pd(r, n) * c['scale']
    iA = np.linalg.inv(A)
    ld = np.linalg.slogdet(A)[1]
    X, Y = r.randn(n, c['k']), r.randn(c['k'], n)
    v = r.randn(n)
    with unchanged('invert_pdmat', A, X, Y, v):
        o = M.invert_pdmat(A, return_logdet=True, return_inv=True)
        eq(len(o), 4, 'outputs')
        f, R, l, i = o
        tol = dict(rtol=1e-8, atol=1e-9 / c['scale'])
        same(f(X), iA.dot(X), 'left inverse', **tol)
        same(f(v), iA.dot(v), 'left inverse of a vector', **tol)
        same(R, np.triu(R), 'factor is upper triangular')
        same(R.T.dot(R), A, 'factor', rtol=1e-9, atol=1e-9 * c['scale'])
        same(l, ld, 'log-determinant', rtol=1e-9, atol=1e-9)
        same(i, iA, 'inverse', **tol)
        o = M.invert_pdmat(A, right_inv=True, return_inv=True)
        eq(len(o), 3, 'outputs without the log-determinant')
        same(o[0](Y), Y.dot(iA), 'right inverse', **tol)
        same(o[0](v), v.dot(iA), 'right inverse of a vector', **tol)
        same(o[2], iA, 'inverse', **tol)
        o = M.invert_pdmat(A, right_inv=True, return_logdet=True)
        eq(len(o), 3, 'outputs without the inverse')
        same(o[2], ld, 'log-determinant', rtol=1e-9, atol=1e-9)
        eq(len(M.invert_pdmat(A)), 2, 'outputs by default')
        same(M.logdet_pdmat(A), ld, 'logdet_pdmat', rtol=1e-9, atol=1e-9)


@sub('P14', fd(n=st.sampled_from([1, 2, 3, 5, 8]), seed=seeds, lower=st.booleans(), k=st.integers(1, 4)), quick=200, nontrivial=lambda c: c['n'] > 1)
def tri_inverse(c, ctx):
    """inverse operators, log-determinant and inverse of upper and lower triangular matrices"""
    r = rng(c['seed'])
    n, low = c['n'], c['lower']
    A = tri(r, n, low)
    iA = np.linalg.inv(A)
    ld = np.linalg.slogdet(A)[1]
    X, Y = r.randn(n, c['k']), r.randn(c['k'], n)
    sc = dict(rtol=1e-7, atol=1e-9 * max(1, np.max(np.abs(iA))))
    with unchanged('invert_trimat', A, X, Y):
        f = M.invert_trimat(A, lower=low)
        same(f(X), iA.dot(X), 'left inverse', **sc)
        f = M.invert_trimat(A, lower=low, right_inv=True)
        same(f(Y), Y.dot(iA), 'right inverse', **sc)
        f, l, i = M.invert_trimat(A, lower=low, return_logdet=True, return_inv=True)
        same(f(X), iA.dot(X), 'left inverse', **sc)
        same(l, ld, 'log-determinant', rtol=1e-9, atol=1e-9)
        same(i, iA, 'inverse', **sc)
        f, i = M.invert_trimat(A, lower=low, right_inv=True, return_inv=True)
        same(f(Y), Y.dot(iA), 'right inverse', **sc)
        same(i, iA, 'inverse with right_inv', **sc)
        f, l = M.invert_trimat(A, lower=low, return_logdet=True)
        same(l, ld, 'log-determinant', rtol=1e-9, atol=1e-9)


@sub('P14', fd(n=st.integers(1, 9), seed=seeds, lower=st.booleans(), factor=st.sampled_from([None, 0.5, 2.0, 1.0])), quick=200, nontrivial=lambda c: c['n'] > 1)
def packing(c, ctx):
    """packing and unpacking symmetric and triangular matrices"""
    r = rng(c['seed'])
    n, low = c['n'], c['lower']
    A = r.randn(n, n)
    S = A + A.T
    idx = [(i, j) for i in range(n) for j in (range(i + 1) if low else range(i, n))]
    fac = c['factor']
    with unchanged('packing', S):
        v = M.symmat2vec(S, lower=low, diag_factor=fac)
    same(v, [S[i, j] * (fac if fac is not None and i == j else 1.) for i, j in idx], 'packed symmetric matrix')
    with unchanged('unpacking', v):
        B = M.vec2symmat(v, lower=low, diag_factor=None if fac is None else 1. / fac)
    same(B, S, 'unpacked symmetric matrix', rtol=1e-15)
    w = r.randn(len(idx))
    B = M.vec2symmat(w, lower=low, diag_factor=fac)
    want = np.zeros((n, n))
    for (i, j), x in zip(idx, w):
        want[i, j] = want[j, i] = x * (fac if fac is not None and i == j else 1.)
    same(B, want, 'matrix from a vector')
    T = np.tril(A) if low else np.triu(A)
    with unchanged('packing', T):
        v = M.trimat2vec(T, lower=low)
    same(v, [T[i, j] for i, j in idx], 'packed triangular matrix')
    same(M.vec2trimat(v, lower=low), T, 'unpacked triangular matrix')
    if not low:     # the upper triangle is the default
        if fac is None:
            same(M.symmat2vec(S), M.symmat2vec(S, lower=False), 'packed symmetric matrix, default')
            same(M.vec2symmat(w), want, 'matrix from a vector, default')
        same(M.trimat2vec(T), v, 'packed triangular matrix, default')
        same(M.vec2trimat(v), T, 'unpacked triangular matrix, default')


@sub('P14', fd(n=st.sampled_from([1, 2, 3, 4, 6]), seed=seeds, lower=st.booleans(), form=st.sampled_from(['cov', 'chol', 'scalar', 'fromchol', 'fromchol-scalar']),
               under=st.integers(0, 6)), quick=400, nontrivial=lambda c: 0 < c['under'] < c['n'])
def floor(c, ctx):
    """flooring a covariance raises the generalised eigenvalues under one to one and keeps the others"""
    r = rng(c['seed'])
    n = c['n']
    scalar = c['form'].endswith('scalar')
    f = np.exp(r.randn())
    F = f ** 2 * np.eye(n) if c['form'] == 'fromchol-scalar' else f * np.eye(n) if scalar else rand_pd(r, n)
    L = np.linalg.cholesky(F)           # F = L L'
    Q = np.linalg.qr(r.randn(n, n))[0]
    k = min(c['under'], n)
    d = np.concatenate([0.05 + 0.8 * r.rand(k), 1.2 + 5 * r.rand(n - k)])
    S = L.dot(Q * d).dot(Q.T).dot(L.T)
    S = (S + S.T) / 2
    want = L.dot(Q * np.maximum(d, 1)).dot(Q.T).dot(L.T)
    if c['form'].startswith('fromchol'):
        low = c['lower']
        cS, cF = np.linalg.cholesky(S), L
        if not low:
            cS, cF = cS.T.copy(), cF.T.copy()
        args = (cS, f if scalar else cF)
        with unchanged('fullcov_varfloor_from_cholS', cS, cF):
            R = M.fullcov_varfloor_from_cholS(*args, lower=low)
        same(R, np.tril(R) if low else np.triu(R), 'factor is triangular')
        got = R.dot(R.T) if low else R.T.dot(R)
    elif scalar:
        with unchanged('fullcov_varfloor', S):
            got = M.fullcov_varfloor(S, f)
    elif c['form'] == 'chol':
        cF = L.copy() if c['lower'] else L.T.copy()
        with unchanged('fullcov_varfloor', S, cF):
            got = M.fullcov_varfloor(S, cF, F_is_chol=True, lower=c['lower'])
    else:
        with unchanged('fullcov_varfloor', S, F):
            got = M.fullcov_varfloor(S, F)
    same(got, want, 'floored covariance', rtol=1e-6, atol=1e-8 * np.max(np.abs(want)))
    if k == 0:
        ctx.label('nothing to floor')
        same(got, S, 'covariance over the floor', rtol=1e-6, atol=1e-8 * np.max(np.abs(want)))
    e = sla.eigvalsh(got, F)
    require(np.min(e) > 1 - 1e-6, 'a direction is under the floor: %s', e)


big = st.one_of(st.floats(-1e3, 1e3), st.floats(-1e-3, 1e-3), st.sampled_from([0., -1e8, 1e8, 700., -700., 745.5, -745.5, 1e300, -1e300, 88.8, -101., -99.9, 36.5, -37.]))
lse_st = fd(rows=st.lists(st.lists(st.one_of(big, st.just('-inf')), min_size=1, max_size=6), min_size=1, max_size=4), axis=st.sampled_from([-1, 0, 1, 'vec']))


def lse_ref(v):
    v = np.asarray(v, dtype=np.longdouble)
    m = np.max(v)
    return m + np.log(np.sum(np.exp(v - m)))


@sub('P14', lse_st, quick=500, nontrivial=lambda c: any(len(set(r)) > 1 for r in c['rows']))
def log_sum_exp(c, ctx):
    """log-sum-exp and softmax along any axis"""
    n = min(len(r) for r in c['rows'])
    X = np.array([[-np.inf if x == '-inf' else x for x in r[:n]] for r in c['rows']], dtype=float)
    ax = c['axis']
    if ax == 'vec':
        X, ax = X[0], -1
    m = np.max(X, axis=ax)
    if not np.all(np.isfinite(m)):
        ctx.nontrivial = False
        return ctx.label('all minus infinity')
    want = np.apply_along_axis(lambda v: float(lse_ref(v)), ax, X)
    with unchanged('logsumexp', X):
        g = M.logsumexp(X, axis=ax)
    same(g, want, 'logsumexp', rtol=1e-13, atol=1e-13)
    p = np.apply_along_axis(lambda v: np.array(np.exp(np.asarray(v, dtype=np.longdouble) - np.max(v)), dtype=np.longdouble), ax, X)
    p = p / np.sum(p, axis=ax, keepdims=True)
    with unchanged('softmax', X):
        g = M.softmax(X, axis=ax)
    same(g, np.asarray(p, dtype=float), 'softmax', rtol=1e-12, atol=1e-300)
    same(np.sum(g, axis=ax), np.ones(np.shape(m)), 'softmax total', rtol=1e-12)
    if ax in (-1, X.ndim - 1):
        same(M.logsumexp(X), want, 'logsumexp along the default axis', rtol=1e-13, atol=1e-13)
        same(M.softmax(X), g, 'softmax along the default axis')


@sub('P14', fd(x=st.lists(big, min_size=1, max_size=8)), quick=500, nontrivial=lambda c: len(set(c['x'])) > 1)
def sigmoids(c, ctx):
    """sigmoid and log-sigmoids over the whole range"""
    x = np.array(c['x'], dtype=float)
    ld = np.logaddexp(np.longdouble(0), -x.astype(np.longdouble)).astype(float)
    s = (1 / (1 + np.exp(-x.astype(np.longdouble)))).astype(float)
    with unchanged('sigmoids', x):
        same(M.logsigmoid(x), -ld, 'logsigmoid', rtol=1e-12, atol=3e-16)
        same(M.neglogsigmoid(x), ld, 'neglogsigmoid', rtol=1e-12, atol=3e-16)
        same(M.sigmoid(x), s, 'sigmoid', rtol=1e-12, atol=1e-40)


@sub('P14', fd(ids=st.lists(st.integers(0, 6), min_size=1, max_size=10), extra=st.sampled_from([None, 0, 1, 3])), quick=150, nontrivial=lambda c: len(set(c['ids'])) > 1)
def onehot(c, ctx):
    """integer labels to one-hot rows"""
    ids = np.array(c['ids'])
    n = max(c['ids']) + 1
    num = None if c['extra'] is None else n + c['extra']
    with unchanged('int2onehot', ids):
        p = M.int2onehot(ids, num)
    want = [[1. if j == i else 0. for j in range(num or n)] for i in c['ids']]
    same(p, want, 'one-hot rows')


@sub('P14', mat_st, quick=100, nontrivial=lambda c: c['n'] > 1)
def fisher(c, ctx):
    """Fisher ratio from covariances and from precisions"""
    r = rng(c['seed'])
    n = c['n']
    S1, S2 = rand_pd(r, n) * c['scale'], rand_pd(r, n) * c['scale']
    a, b = r.randn(n), r.randn(n)
    want = (a - b).dot(np.linalg.solve(S1 + S2, a - b))
    with unchanged('fisher_ratio', S1, S2, a, b):
        same(M.fisher_ratio(a, S1, b, S2), want, 'Fisher ratio', rtol=1e-8)
        same(M.fisher_ratio_with_precs(a, np.linalg.inv(S1), b, np.linalg.inv(S2)), want, 'Fisher ratio from precisions', rtol=1e-7)
