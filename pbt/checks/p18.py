"""P18: Gaussian models against dense linear algebra, direct sums and sample moments."""
from scipy import stats as sstats
from pbt.core import *
from hyperion.pdfs.core import Normal, NormalDiagCov
from hyperion.utils.math import symmat2vec, vec2symmat

RULE = 'at least two dimensions and (where there are data) at least three vectors'

model_st = fd(kind=st.sampled_from(['full', 'diag']), d=st.integers(1, 5), seed=seeds, frm=st.sampled_from(['std', 'eta']), scale=st.sampled_from([0.1, 1., 30.]))
big = lambda c: c['d'] > 1


def params(c, r):
    d = c['d']
    mu = 3 * r.randn(d) * c['scale']
    S = rand_pd(r, d) * c['scale'] ** 2 if c['kind'] == 'full' else np.diag(0.1 + 3 * r.rand(d)) * c['scale'] ** 2
    return mu, S


def cls(c):
    return Normal if c['kind'] == 'full' else NormalDiagCov


def build(c, mu, S, **kw):
    """model from the standard or from the natural parameters"""
    L = np.linalg.inv(S)
    if c['kind'] == 'diag':
        L = np.diag(L).copy()
    if c.get('frm', 'std') == 'std':
        return cls(c)(x_dim=len(mu), mu=mu.copy(), Lambda=L.copy(), **kw)
    return cls(c)(x_dim=len(mu), eta=eta_ref(c, mu, S), **kw)


def eta_ref(c, mu, S):
    L = np.linalg.inv(S)
    d = len(mu)
    if c['kind'] == 'diag':
        return np.concatenate([np.diag(L) * mu, -0.5 * np.diag(L)])
    return np.concatenate([L.dot(mu), [-L[i, j] * (0.5 if i == j else 1.) for i in range(d) for j in range(i, d)]])


def check_model(c, m, mu, S, what='', rtol=1e-7):
    """every attribute describes N(mu, S)"""
    d = len(mu)
    L = np.linalg.inv(S)
    ml, ms = np.max(np.abs(L)), np.max(np.abs(S))
    same(m.mu, mu, what + ' mu', rtol=rtol, atol=1e-8 * np.sqrt(ms))
    diag = c['kind'] == 'diag'
    v = np.diag if diag else (lambda x: x)
    same(m.Lambda, v(L), what + ' Lambda', rtol=rtol, atol=1e-8 * ml)
    same(m.Sigma, v(S), what + ' Sigma', rtol=rtol, atol=1e-8 * ms)
    same(m.logLambda, np.linalg.slogdet(L)[1], what + ' logLambda', rtol=rtol, atol=1e-7)
    K = np.diag(m.cholLambda) if diag else m.cholLambda
    same(K, np.tril(K), what + ' factor is lower triangular')
    same(K.dot(K.T), L, what + ' factor', rtol=rtol, atol=1e-8 * ml)
    same(m.eta, eta_ref(c, mu, S), what + ' eta', rtol=rtol, atol=1e-7 * ml * max(1e-12, np.max(np.abs(mu)), 1))
    A = 0.5 * d * np.log(2 * np.pi) + 0.5 * np.linalg.slogdet(S)[1] + 0.5 * mu.dot(L).dot(mu)
    same(m.A, A, what + ' A', rtol=1e-6, atol=1e-6)
    require(m.is_init, what + ' not initialised')


def ref_logp(x, mu, S):
    L = np.linalg.inv(S)
    d = x - mu
    return -0.5 * len(mu) * np.log(2 * np.pi) - 0.5 * np.linalg.slogdet(S)[1] - 0.5 * np.sum(d.dot(L) * d, axis=1)


@sub('P18', model_st, quick=300, nontrivial=big)
def parameters(c, ctx):
    """every parameterisation describes the same distribution"""
    r = rng(c['seed'])
    mu, S = params(c, r)
    m = build(c, mu, S)
    check_model(c, m, mu, S)
    m2 = build(c, mu, S)
    m2.initialize()
    check_model(c, m2, mu, S, 'initialised')
    C = cls(c)
    mu2, L2 = C.compute_std(m.eta)
    v = (lambda x: x) if c['kind'] == 'full' else np.diag
    same(mu2, mu, 'compute_std', rtol=1e-6, atol=1e-8)
    same(L2, v(np.linalg.inv(S)), 'compute_std', rtol=1e-6, atol=1e-8 / c['scale'] ** 2)
    same(C.compute_eta(mu, L2), m.eta, 'compute_eta', rtol=1e-6, atol=1e-7 * np.max(np.abs(m.eta)))
    same(C.compute_A_nat(m.eta), m.A, 'compute_A_nat', rtol=1e-6, atol=1e-6)
    same(C.compute_A_std(mu, L2), m.A, 'compute_A_std', rtol=1e-6, atol=1e-6)


@sub('P18', fd(m=model_st, n=st.integers(1, 8)), quick=300, nontrivial=lambda c: big(c['m']) and c['n'] > 2)
def density(k, ctx):
    """log-densities by both methods, cumulative log-probabilities"""
    c = k['m']
    r = rng(c['seed'])
    mu, S = params(c, r)
    m = build(c, mu, S)
    x = mu + r.randn(k['n'], c['d']).dot(np.linalg.cholesky(S).T) * r.choice([0.5, 3.])
    want = ref_logp(x, mu, S)
    with unchanged('log_prob', x):
        tol = dict(rtol=1e-6, atol=1e-6)
        same(m.log_prob(x), want, 'log_prob', **tol)
        same(m.log_prob(x, method='nat'), want, 'log_prob nat', **tol)
        same(m.log_prob(x, method='std'), want, 'log_prob std', **tol)
        same(m.eval_llk(x), want, 'eval_llk', **tol)
        u = m.compute_suff_stats(x)
        same(m.log_prob(x, u_x=u), want, 'log_prob from statistics', **tol)
        same(m.elbo(x), np.sum(want), 'elbo', rtol=1e-6, atol=1e-5)
        w = 0.2 + r.rand(k['n'])
        same(m.elbo(x, sample_weight=w), np.sum(w * want), 'weighted elbo', rtol=1e-6, atol=1e-5)
        if c['kind'] == 'diag':
            z = (x - mu) / np.sqrt(np.diag(S))
            want = np.sum(np.log(sstats.norm.cdf(z) + 1e-10), axis=1)
            same(m.log_cdf(x), want, 'log_cdf', rtol=1e-7, atol=1e-7)


data_st = fd(m=model_st, n=st.integers(2, 25), weights=st.booleans(), batch=st.one_of(st.none(), st.integers(1, 12)), um=st.booleans(), ul=st.booleans())


def suff(c, x, w):
    w = np.ones(len(x)) if w is None else w
    F = w.dot(x)
    if c['kind'] == 'diag':
        return np.sum(w), np.concatenate([F, w.dot(x * x)])
    d = x.shape[1]
    S = (x * w[:, None]).T.dot(x)
    return np.sum(w), np.concatenate([F, [S[i, j] for i in range(d) for j in range(i, d)]])


@sub('P18', data_st, quick=300, nontrivial=lambda k: big(k['m']) and k['n'] > 2)
def statistics(k, ctx):
    """sufficient statistics are sums over samples, whatever the batches and the order, and normalise to those of the whitened data"""
    c = k['m']
    r = rng(c['seed'])
    mu, S = params(c, r)
    m = build(c, mu, S)
    n = k['n']
    x = mu + r.randn(n, c['d']) * c['scale']
    w = 0.1 + r.rand(n) if k['weights'] else None
    N0, u0 = suff(c, x, w)
    tol = dict(rtol=1e-9, atol=1e-9 * np.max(np.abs(u0)))
    with unchanged('statistics', x, w):
        for b in (None, k['batch']):
            N, u = m.accum_suff_stats(x, sample_weight=w, batch_size=b)
            same(N, N0, 'N', rtol=1e-12)
            same(u, u0, 'statistics with batch size %s' % b, **tol)
            N, u = m.Estep(x, sample_weight=w, batch_size=b)
            same(u, u0, 'E-step statistics', **tol)
        ux = m.compute_suff_stats(x)
        cp = ux.copy()
        N, u = m.accum_suff_stats(x, u_x=ux, sample_weight=w)
        same(u, u0, 'accumulated precomputed statistics', **tol)
        same(ux, cp, 'precomputed statistics modified')
        same(N, N0, 'N', rtol=1e-12)
        p = r.permutation(n)
        N, u = m.accum_suff_stats(x[p], sample_weight=None if w is None else w[p])
        same(u, u0, 'statistics of shuffled data', **tol)
        h = n // 2
        parts = [m.accum_suff_stats(x[a:b], sample_weight=None if w is None else w[a:b]) for a, b in ((0, h), (h, n - 1), (n - 1, n)) if b > a]
        N, u = m.add_suff_stats([q[0] for q in parts], [q[1] for q in parts])
        same(N, N0, 'sum of N', rtol=1e-9)
        same(u, u0, 'sum of the statistics of the parts', **tol)
    # normalised statistics
    K = np.diag(m.cholLambda) if c['kind'] == 'diag' else m.cholLambda
    y = (x - mu).dot(K)
    Ny, uy = suff(c, y, w)
    cp = u0.copy()
    N, F = m.norm_suff_stats(N0, u0)
    t = dict(rtol=1e-6, atol=1e-6 * np.max(np.abs(np.concatenate([uy, [1.]]))))
    same(N, Ny, 'N')
    same(F, uy[:c['d']], 'normalised first order statistics', **t)
    N, F = m.norm_suff_stats(N0, u0, return_order2=True)
    same(F, uy, 'normalised statistics', **t)
    same(u0, cp, 'statistics modified')


@sub('P18', data_st, quick=300, nontrivial=lambda k: big(k['m']) and k['n'] > 2)
def fitting(k, ctx):
    """fitting gives the weighted sample mean and covariance; frozen parameters stay"""
    c = k['m']
    r = rng(c['seed'])
    mu, S = params(c, r)
    n = k['n'] + 2 * c['d'] + 2
    x = (r.randn(n, c['d']).dot(r.randn(c['d'], c['d'])) + 2 * r.randn(c['d'])) * c['scale']
    x += 0.3 * c['scale'] * r.randn(n, c['d'])
    w = 0.1 + r.rand(n) if k['weights'] else None
    um, ul = k['um'] or not k['ul'], k['ul']
    m = build(c, mu, S, update_mu=um, update_Lambda=ul, var_floor=1e-12)
    m.Sigma, m.logLambda, m.cholLambda         # fill the caches
    v = np.ones(n) / n if w is None else w / np.sum(w)
    wmu = v.dot(x) if um else mu
    d = x - wmu
    wS = (d * v[:, None]).T.dot(d) if ul else S
    if c['kind'] == 'diag':
        wS = np.diag(np.diag(wS))
    xv = mu + r.randn(5, c['d']) * c['scale']
    wv = 0.1 + r.rand(5)
    with unchanged('fit', x, w, xv, wv):
        e = m.fit(x, sample_weight=w, x_val=xv, sample_weight_val=wv, batch_size=k['batch'])
    check_model(c, m, wmu, wS, 'fitted', rtol=1e-6)
    W = n if w is None else np.sum(w)
    want = W * v.dot(ref_logp(x, wmu, wS))
    wantv = wv.dot(ref_logp(xv, wmu, wS))
    same(np.asarray(e, dtype=float), [want, want / W, wantv, wantv / np.sum(wv)], 'log-likelihoods returned by fit', rtol=1e-5, atol=1e-4)
    same(m.log_prob(xv, method='std'), ref_logp(xv, wmu, wS), 'log-density after fitting', rtol=1e-5, atol=1e-4)
    same(m.log_prob(xv, method='nat'), ref_logp(xv, wmu, wS), 'log-density after fitting', rtol=1e-5, atol=1e-4)
    m2 = build(c, mu, S, update_mu=um, update_Lambda=ul, var_floor=1e-12)
    e2 = m2.fit(x, sample_weight=w)
    eq(len(e2), 2, 'values without validation data')
    p = r.permutation(n)
    m3 = build(c, mu, S, update_mu=um, update_Lambda=ul, var_floor=1e-12)
    m3.fit(x[p], sample_weight=None if w is None else w[p], batch_size=3)
    same(m3.mu, m2.mu, 'mean after shuffling', rtol=1e-7, atol=1e-8 * c['scale'])
    same(m3.Sigma, m2.Sigma, 'covariance after shuffling', rtol=1e-6, atol=1e-7 * c['scale'] ** 2)


@sub('P18', fd(d=st.integers(1, 4), seed=seeds, n=st.integers(2, 6), floor=st.sampled_from([1e-5, 0.1, 3.])), quick=100, nontrivial=lambda c: c['d'] > 1)
def variance_floor(c, ctx):
    """diagonal variances are floored, and only those under the floor"""
    r = rng(c['seed'])
    x = r.randn(c['n'], c['d']) * np.exp(2 * r.randn(c['d']))
    x[:, 0] = 2.
    m = NormalDiagCov(x_dim=c['d'], mu=np.zeros(c['d']), Lambda=np.ones(c['d']), var_floor=c['floor'])
    m.fit(x)
    want = np.maximum(np.var(x, axis=0), c['floor'])
    same(m.Sigma, want, 'Sigma', rtol=1e-7, atol=1e-10)
    same(m.Lambda, 1 / want, 'Lambda', rtol=1e-7)


@sub('P18', model_st, quick=60, nontrivial=big)
def sampling(c, ctx):
    """samples are reproducible from a seed and have the moments of the model"""
    r = rng(c['seed'])
    mu, S = params(c, r)
    m = build(c, mu, S)
    n = 4000
    s = c['seed'] % 1000
    x = m.sample(n, seed=s)
    eq(x.shape, (n, c['d']), 'shape')
    same(m.sample(n, seed=s), x, 'samples with the same seed')
    same(m.generate(n, seed=s), x, 'generated samples')
    same(m.sample(n, rng=np.random.RandomState(s)), x, 'samples from a generator in the same state')
    require(not np.array_equal(m.sample(n, seed=s + 1), x), 'another seed gives the same samples')
    R = np.random.RandomState(s)
    a, b = m.sample(5, rng=R), m.sample(5, rng=R)
    require(not np.array_equal(a, b), 'the generator does not advance')
    L = np.linalg.cholesky(S)
    y = np.linalg.solve(L, (x - mu).T).T            # standard normal
    require(np.all(np.abs(np.mean(y, axis=0)) < 7 / np.sqrt(n)), 'sample mean %s of the whitened samples', np.mean(y, axis=0))
    C = y.T.dot(y) / n - np.eye(c['d'])
    require(np.all(np.abs(C) < 7 * np.sqrt(2. / n)), 'sample covariance of the whitened samples is off the identity by %s', C)
    require(np.all(np.abs(np.mean(y ** 4, axis=0) - 3) < 7 * np.sqrt(96. / n)), 'fourth moments %s', np.mean(y ** 4, axis=0))
