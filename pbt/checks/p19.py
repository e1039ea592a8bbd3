"""P19: Gaussian mixtures against brute-force Bayes' rule and EM over long histories of iterations."""
from scipy import stats as sstats
from scipy.special import logsumexp
from pbt.core import *
from hyperion.pdfs.mixtures import GMM, GMMDiagCov, GMMTiedDiagCov

RULE = 'at least two components and two dimensions'
CLS = {'full': GMM, 'diag': GMMDiagCov, 'tied': GMMTiedDiagCov}

model_st = fd(kind=st.sampled_from(['full', 'diag', 'tied']), d=st.integers(1, 4), K=st.integers(1, 5), seed=seeds,
              frm=st.sampled_from(['std', 'eta']), scale=st.sampled_from([0.1, 1., 20.]), zero=st.booleans(), spread=st.sampled_from([0.5, 3.]))
big = lambda c: c['d'] > 1 and c['K'] > 1


class P(object):
    """reference mixture: pi (K), mu (K,d), S (K,d,d)"""

    def __init__(self, pi, mu, S):
        self.pi, self.mu, self.S = pi, mu, S

    def comp(self, x):
        """weighted log-densities of the components"""
        x = np.atleast_2d(x)
        out = np.zeros((len(x), len(self.pi)))
        for k in range(len(self.pi)):
            L = np.linalg.inv(self.S[k])
            dl = x - self.mu[k]
            out[:, k] = -0.5 * x.shape[1] * np.log(2 * np.pi) - 0.5 * np.linalg.slogdet(self.S[k])[1] - 0.5 * np.sum(dl.dot(L) * dl, axis=1)
        with np.errstate(divide='ignore'):
            return out + np.log(self.pi)

    def logp(self, x):
        return logsumexp(self.comp(x), axis=1)

    def post(self, x):
        c = self.comp(x)
        return np.exp(c - logsumexp(c, axis=1)[:, None])

    def draw(self, r, n):
        k = r.choice(len(self.pi), size=n, p=self.pi / self.pi.sum())
        return np.stack([self.mu[i] + np.linalg.cholesky(self.S[i]).dot(r.randn(self.mu.shape[1])) for i in k])


def params(c, r, zero=None):
    d, K = c['d'], c['K']
    pi = 0.2 + r.rand(K)
    if (c.get('zero') if zero is None else zero) and K > 1:
        pi[r.randint(K)] = 0
    pi /= pi.sum()
    mu = c['spread'] * r.randn(K, d) * c['scale'] + r.randn(d) * c['scale']
    if c['kind'] == 'full':
        S = np.stack([rand_pd(r, d) for _ in range(K)])
    elif c['kind'] == 'diag':
        S = np.stack([np.diag(0.2 + 2 * r.rand(d)) for _ in range(K)])
    else:
        S = np.stack([np.diag(0.2 + 2 * r.rand(d))] * K)
    return P(pi, mu, S * c['scale'] ** 2)


def lam(c, S):
    L = np.linalg.inv(S)
    return {'full': lambda: L, 'diag': lambda: np.stack([np.diag(x) for x in L]), 'tied': lambda: np.diag(L[0]).copy()}[c['kind']]()


def eta_ref(c, p):
    out = []
    for k in range(len(p.pi)):
        L = np.linalg.inv(p.S[k])
        d = len(L)
        if c['kind'] == 'full':
            out.append(np.concatenate([L.dot(p.mu[k]), [-L[i, j] * (0.5 if i == j else 1.) for i in range(d) for j in range(i, d)]]))
        else:
            out.append(np.concatenate([np.diag(L) * p.mu[k], -0.5 * np.diag(L)]))
    return np.stack(out)


def build(c, p, **kw):
    if c.get('frm', 'std') == 'std':
        return CLS[c['kind']](x_dim=c['d'], pi=p.pi.copy(), mu=p.mu.copy(), Lambda=lam(c, p.S), **kw)
    return CLS[c['kind']](x_dim=c['d'], pi=p.pi.copy(), eta=eta_ref(c, p), **kw)


def read(c, m):
    """reference mixture holding the standard parameters of the model"""
    K, d = m.mu.shape
    L = np.asarray(m.Lambda, dtype=float)
    S = {'full': lambda: np.stack([np.linalg.inv(x) for x in L]), 'diag': lambda: np.stack([np.diag(1 / x) for x in L]),
         'tied': lambda: np.stack([np.diag(1 / L)] * K)}[c['kind']]()
    return P(np.array(m.pi, dtype=float), np.array(m.mu, dtype=float), S)


def check_model(c, m, p, what='', rtol=1e-6, pts=None):
    """every attribute of m describes p"""
    K, d = p.mu.shape
    eq(m.num_comp, K, what + ' number of components')
    sc = np.sqrt(np.max(np.abs(p.S)))
    L = np.stack([np.linalg.inv(x) for x in p.S])
    ml = np.max(np.abs(L))
    same(m.pi, p.pi, what + ' weights', rtol=rtol, atol=1e-10)
    same(np.exp(m.log_pi), p.pi, what + ' log weights', rtol=rtol, atol=1e-10)
    same(m.mu, p.mu, what + ' means', rtol=rtol, atol=1e-7 * sc)
    same(m.Lambda, lam(c, p.S), what + ' precisions', rtol=rtol, atol=1e-7 * ml)
    if c['kind'] == 'full':
        same(m.Sigma, p.S, what + ' covariances', rtol=rtol, atol=1e-7 * sc ** 2)
        for k in range(K):
            same(m.cholLambda[k].dot(m.cholLambda[k].T), L[k], what + ' factor', rtol=rtol, atol=1e-7 * ml)
    else:
        v = lambda X: np.stack([np.diag(x) for x in X]) if c['kind'] == 'diag' else np.diag(X[0])
        same(m.Sigma, v(p.S), what + ' covariances', rtol=rtol, atol=1e-7 * sc ** 2)
        same(m.cholLambda, np.sqrt(v(L)), what + ' factor', rtol=rtol)
    ld = np.array([np.linalg.slogdet(x)[1] for x in L])
    same(m.logLambda, ld[0] if c['kind'] == 'tied' else ld, what + ' log-determinants', rtol=rtol, atol=1e-6)
    e = eta_ref(c, p)
    same(m.eta, e, what + ' natural parameters', rtol=rtol, atol=1e-7 * np.max(np.abs(e)))
    require(m.is_init, what + ': not initialised')


def tol_for(p, x):
    """tolerance for log densities evaluated through x**2 statistics"""
    L = max(np.max(np.abs(np.linalg.inv(s))) for s in p.S)
    return 1e-6 + 1e-11 * L * max(np.max(np.abs(x)), np.max(np.abs(p.mu))) ** 2


def check_eval(c, m, p, x, what='', rtol=1e-6):
    """all the evaluations are those of p"""
    t = tol_for(p, x)
    want = p.logp(x)
    with unchanged(what + ' evaluation', x):
        for nm, got in (('log_prob', m.log_prob(x)), ('nat', m.log_prob(x, mode='nat')), ('std', m.log_prob(x, mode='std')),
                        ('eval_llk', m.eval_llk(x)), ('from statistics', m.log_prob(x, u_x=m.compute_suff_stats(x)))):
            same(got, want, '%s log-density %s' % (what, nm), rtol=rtol, atol=t)
        z = p.post(x)
        for nm, got in (('nat', m.compute_pz(x)), ('std', m.compute_pz(x, mode='std')), ('from statistics', m.compute_pz(x, m.compute_suff_stats(x)))):
            same(got, z, '%s responsibilities %s' % (what, nm), rtol=rtol, atol=10 * t)
            same(np.sum(got, axis=1), np.ones(len(x)), what + ' sum of the responsibilities', rtol=1e-9)


@sub('P19', fd(m=model_st, n=st.integers(1, 10)), quick=300, nontrivial=lambda k: big(k['m']))
def evaluation(k, ctx):
    """densities and responsibilities under every method and parameterisation equal Bayes' rule"""
    c = k['m']
    r = rng(c['seed'])
    p = params(c, r)
    m = build(c, p)
    x = p.draw(r, k['n'])
    check_model(c, m, p)
    check_eval(c, m, p, x)
    m2 = build(c, p)
    m2.initialize()
    check_model(c, m2, p, 'initialised')
    check_eval(c, m2, p, x, 'initialised')
    C = CLS[c['kind']]
    mu, L = C.compute_std(eta_ref(c, p))
    same(mu, p.mu, 'compute_std', rtol=1e-6, atol=1e-7 * c['scale'])
    same(L, lam(c, p.S), 'compute_std', rtol=1e-6, atol=1e-7 / c['scale'] ** 2)
    same(C.compute_eta(mu, L), eta_ref(c, p), 'compute_eta', rtol=1e-6, atol=1e-7 * np.max(np.abs(eta_ref(c, p))))
    A = [0.5 * c['d'] * np.log(2 * np.pi) + 0.5 * np.linalg.slogdet(s)[1] + 0.5 * v.dot(np.linalg.solve(s, v)) for s, v in zip(p.S, p.mu)]
    same(C.compute_A_nat(eta_ref(c, p)), A, 'compute_A_nat', rtol=1e-6, atol=1e-6)
    if c['kind'] != 'tied':
        same(C.compute_A_std(mu, L), A, 'compute_A_std', rtol=1e-6, atol=1e-6)


@sub('P19', fd(m=model_st, n=st.integers(1, 8), nb=st.integers(1, 5)), quick=200, nontrivial=lambda k: big(k['m']) and k['nb'] < k['m']['K'])
def best_components(k, ctx):
    """log-densities over the best (or over the given) components; cumulative log-probabilities"""
    c = k['m']
    r = rng(c['seed'])
    p = params(c, r, zero=False)
    m = build(c, p)
    x = p.draw(r, k['n'])
    nb = min(k['nb'], c['K'])
    lc = p.comp(x)
    t = tol_for(p, x)
    same(m.log_prob_nbest(x, nbest=nb), logsumexp(np.sort(lc, axis=1)[:, ::-1][:, :nb], axis=1), '%d best components' % nb, rtol=1e-6, atol=t)
    same(m.log_prob_nbest(x, u_x=m.compute_suff_stats(x), nbest=c['K']), p.logp(x), 'all the components', rtol=1e-6, atol=t)
    idx = sorted(r.choice(c['K'], size=nb, replace=False).tolist())
    same(m.log_prob_nbest(x, nbest_mode='ubm', nbest=idx), logsumexp(lc[:, idx], axis=1), 'components %s' % idx, rtol=1e-6, atol=t)
    if c['kind'] != 'full':
        cd = np.zeros_like(lc)
        for j in range(c['K']):
            cd[:, j] = np.log(p.pi[j]) + np.sum(np.log(sstats.norm.cdf((x - p.mu[j]) / np.sqrt(np.diag(p.S[j]))) + 1e-20), axis=1)
        same(m.log_cdf(x), logsumexp(cd, axis=1), 'log_cdf', rtol=1e-6, atol=1e-6)


def suff(c, z, x):
    """(N (K), u (K, .))"""
    d = x.shape[1]
    F = z.T.dot(x)
    if c['kind'] == 'full':
        q = np.stack([x[:, i] * x[:, j] for i in range(d) for j in range(i, d)], axis=1) if len(x) else np.zeros((0, d * (d + 1) // 2))
    else:
        q = x * x
    return np.sum(z, axis=0), np.hstack([F, z.T.dot(q)])


stat_st = fd(m=model_st, n=st.integers(1, 30), weights=st.booleans(), batch=st.one_of(st.none(), st.integers(1, 12)), segs=st.integers(1, 4))


@sub('P19', stat_st, quick=250, nontrivial=lambda k: big(k['m']) and k['n'] > 2)
def statistics(k, ctx):
    """statistics are posterior weighted sums, whatever the batches, the order, the segments and the weights"""
    c = k['m']
    r = rng(c['seed'])
    p = params(c, r)
    m = build(c, p)
    n = k['n']
    x = p.draw(r, n)
    w = 0.1 + r.rand(n) if k['weights'] else None
    W = np.ones(n) if w is None else w
    z = p.post(x) * W[:, None]
    N0, u0 = suff(c, z, x)
    S = np.max(np.abs(suff(c, np.ones((n, 1)), np.abs(x))[1]))
    tN, tu = 20 * n * tol_for(p, x), 20 * max(S, 1e-3) * tol_for(p, x)
    ux = m.compute_suff_stats(x)

    def chk(got, want, what):
        same(got[0], want[0], what + ' N', rtol=1e-6, atol=tN)
        same(got[1], want[1], what + ' statistics', rtol=1e-6, atol=tu)
    uc = ux.copy()
    with unchanged('statistics', x, w):
        for b in (None, k['batch']):
            chk(m.accum_suff_stats(x, sample_weight=w, batch_size=b), (N0, u0), 'batch size %s:' % b)
            chk(m.Estep(x, sample_weight=w, batch_size=b), (N0, u0), 'E-step, batch size %s:' % b)
        chk(m.accum_suff_stats(x, u_x=ux, sample_weight=w), (N0, u0), 'precomputed:')
        same(m.accum_suff_stats(x, sample_weight=w)[0].sum(), W.sum(), 'total occupancy', rtol=1e-9)
        q = r.permutation(n)
        chk(m.accum_suff_stats(x[q], sample_weight=None if w is None else w[q], batch_size=k['batch']), (N0, u0), 'shuffled:')
        cuts = sorted(set([0, n] + r.randint(0, n + 1, size=k['segs'] - 1).tolist()))
        parts = [m.accum_suff_stats(x[a:b], sample_weight=None if w is None else w[a:b]) for a, b in zip(cuts[:-1], cuts[1:])]
        cp = [(a.copy(), b.copy()) for a, b in parts]
        chk(m.sum_suff_stats([a for a, b in parts], [b for a, b in parts]), (N0, u0), 'sum over parts:')
        for a, b in zip(parts, cp):
            same(a[0], b[0], 'parts modified by their sum')
            same(a[1], b[1], 'parts modified by their sum')
        # segments given by their first and last frames
        segs = []
        for _ in range(k['segs']):
            a, b = sorted(r.randint(0, n, size=2).tolist())
            segs.append([a, b])
        want = [suff(c, z[a:b + 1], x[a:b + 1]) for a, b in segs]
        want = np.stack([v[0] for v in want]), np.stack([v[1] for v in want])
        for kw in ({}, {'batch_size': k['batch']}, {'u_x': ux}):
            chk(m.accum_suff_stats_segments(x, np.array(segs), sample_weight=w, **kw), want, 'segments %s:' % sorted(kw))
        # soft segments
        prob = r.rand(n, k['segs'])
        prob /= prob.sum(axis=1, keepdims=True)
        want = [suff(c, z * prob[:, [i]], x) for i in range(k['segs'])]
        want = np.stack([v[0] for v in want]), np.stack([v[1] for v in want])
        for kw in ({}, {'batch_size': k['batch']}, {'u_x': ux}):
            chk(m.accum_suff_stats_segments_prob(x, prob, sample_weight=w, **kw), want, 'soft segments %s:' % sorted(kw))
        # sliding windows
        fl = int(r.randint(1, n + 1))
        fs = int(r.randint(1, fl + 1)) if r.rand() < 0.7 else int(r.randint(1, n + 1))
        st0 = list(range(0, n - fl + 1, fs))
        want = [suff(c, z[a:a + fl], x[a:a + fl]) for a in st0]
        want = np.stack([v[0] for v in want]), np.stack([v[1] for v in want])
        for kw in ({}, {'batch_size': k['batch']}, {'u_x': ux}):
            chk(m.accum_suff_stats_sorttime(x, fl, fs, sample_weight=w, **kw), want, 'windows %d %d of %d %s:' % (fl, fs, n, sorted(kw)))
    same(ux, uc, 'precomputed statistics modified')
    # normalised by the means and precisions of the components
    chol = [np.diag(m.cholLambda[j]) if c['kind'] == 'diag' else (np.diag(m.cholLambda) if c['kind'] == 'tied' else m.cholLambda[j]) for j in range(c['K'])]
    want = []
    for j in range(c['K']):
        y = (x - p.mu[j]).dot(chol[j])
        want.append(suff(c, z[:, [j]], y)[1][0])
    want = np.stack(want)
    uc, Nc = u0.copy(), N0.copy()
    t = 1e-7 * (1 + np.max(np.abs(want))) + 1e-10 * np.max(np.abs(u0)) * np.max([np.max(np.abs(q)) for q in chol]) ** 2
    N, F = m.norm_suff_stats(N0, u0)
    same(N, N0, 'N')
    same(F, want[:, :c['d']], 'normalised first order statistics', rtol=1e-6, atol=t)
    N, F = m.norm_suff_stats(N0, u0, return_order2=True)
    same(F, want, 'normalised statistics', rtol=1e-6, atol=t)
    same(u0, uc, 'statistics modified')
    same(N0, Nc, 'N modified')


def em_ref(c, p, x, w, um, ul, up):
    """one EM iteration without floors"""
    z = p.post(x) * w[:, None]
    N = z.sum(axis=0)
    mu = z.T.dot(x) / N[:, None] if um else p.mu
    S = p.S
    if ul:
        S = np.stack([((x - mu[k]) * z[:, [k]]).T.dot(x - mu[k]) / N[k] for k in range(len(N))])
        if c['kind'] != 'full':
            S = np.stack([np.diag(np.diag(s)) for s in S])
        if c['kind'] == 'tied':
            S = np.stack([np.sum(N[:, None, None] * S, axis=0) / N.sum()] * len(N))
    return P(N / N.sum() if up else p.pi, mu, S)


def degenerate(c, p, x, w):
    z = p.post(x) * w[:, None]
    N = z.sum(axis=0) / np.mean(w)
    g = np.min(np.var(x, axis=0))
    return np.min(N) < c['d'] + 2 or min(np.linalg.eigvalsh(s)[0] for s in p.S) < 1e-4 * g


em_st = fd(m=model_st, n=st.integers(0, 60), weights=st.booleans(), batch=st.one_of(st.none(), st.integers(5, 40)), um=st.booleans(), ul=st.booleans(), up=st.booleans(),
           iters=st.integers(1, 12), drive=st.sampled_from(['steps', 'fit']))


@sub('P19', em_st, quick=250, nontrivial=lambda k: big(k['m']) and k['iters'] > 1,
     examples=[dict(m=dict(kind=kd, d=2, K=3, seed=5, frm='std', scale=1., zero=False, spread=0.5), n=60, weights=False, batch=None, um=True, ul=True, up=True, iters=10, drive=dr)
               for kd in ('full', 'diag', 'tied') for dr in ('steps', 'fit')])
def em(k, ctx):
    """every EM iteration is the textbook update, never lowers the likelihood, and all evaluations follow it"""
    c = k['m']
    r = rng(c['seed'])
    um, ul, up = k['um'], k['ul'], k['up']
    if not (um or ul or up):
        um = ul = up = True
    truth = params(c, r, zero=False)
    start = params(c, r, zero=False)
    n = k['n'] + 15 * c['K'] * (c['d'] + 1)
    x = truth.draw(r, n)
    start.mu = x[r.choice(n, size=c['K'], replace=False)].copy()
    start.S = np.stack([np.diag(np.var(x, axis=0))] * c['K']) * (0.3 + r.rand())
    w = 0.1 + r.rand(n) if k['weights'] else None
    W = np.ones(n) if w is None else w
    m = build(c, start, var_floor=1e-12, update_mu=um, update_Lambda=ul, update_pi=up)
    probe = truth.draw(r, 6)
    m.Sigma, m.logLambda, m.cholLambda, m.log_pi      # fill the caches
    m.log_prob(probe)
    if k['drive'] == 'fit':
        p = start
        for _ in range(k['iters']):
            p = em_ref(c, p, x, W, um, ul, up)
            if degenerate(c, p, x, W):
                ctx.label('degenerate')
                return
        with unchanged('fit', x, w, probe):
            val = r.rand() < .5
            el = m.fit(x, sample_weight=w, x_val=probe if val else None, epochs=k['iters'], batch_size=k['batch'])
        # expectation of the joint log-density of samples and components: training data before each update, held-out data after it
        eq(len(el), 4 if val else 2, 'tables returned')
        q, a = start, [[], []]
        joint = lambda g, y, v: v.dot(np.sum(g.post(y) * g.comp(y), axis=1))
        for _ in range(k['iters']):
            a[0].append(joint(q, x, W))
            q = em_ref(c, q, x, W, um, ul, up)
            a[1].append(joint(q, probe, np.ones(6)))
        for i in range(2 if val else 1):
            t = 1e-4 * n * (1 + np.abs(a[i]).max() / n)
            same(el[2 * i], a[i], 'lower bounds' + ('', ' of the held-out data')[i], rtol=1e-4, atol=t)
            same(el[2 * i + 1], np.array(a[i]) / (n, 6)[i], 'lower bounds per sample', rtol=1e-4, atol=t / (n, 6)[i])
        check_model(c, m, p, 'fitted', rtol=1e-4)
        check_eval(c, m, read(c, m), probe, 'fitted')
        require(W.dot(m.log_prob(x)) >= W.dot(start.logp(x)) - 1e-6 * n, 'fit lowered the likelihood')
        return
    p = start
    last = W.dot(p.logp(x)) / W.sum()
    for i in range(k['iters']):
        ref = em_ref(c, p, x, W, um, ul, up)
        if degenerate(c, ref, x, W):
            ctx.label('degenerate')
            return
        with unchanged('EM', x, w):
            N, u = m.Estep(x, sample_weight=w, batch_size=k['batch'])
            Nc, ucp = N.copy(), u.copy()
            m.Mstep(N, u)
        same(N, Nc, 'M-step modified N')
        same(u, ucp, 'M-step modified the statistics')
        what = 'iteration %d:' % i
        check_model(c, m, ref, what, rtol=1e-5)
        p = read(c, m)
        require(np.all(p.pi >= 0) and abs(p.pi.sum() - 1) < 1e-9, '%s weights %s', what, p.pi)
        check_eval(c, m, p, probe, what)
        for mode in ('nat', 'std'):
            ll = W.dot(m.log_prob(x, mode=mode)) / W.sum()
            require(ll >= last - 1e-7 * (1 + abs(last)), '%s log-likelihood (%s) fell from %.12g to %.12g', what, mode, last, ll)
        last = W.dot(m.log_prob(x)) / W.sum()


@sub('P19', fd(m=model_st, n=st.integers(10, 60), iters=st.integers(1, 4), minN=st.sampled_from([0, 0, 3., 8.]), far=st.integers(0, 2)), quick=150, nontrivial=lambda k: big(k['m']))
def starved(k, ctx):
    """components with too few samples are switched off and the rest keep being a mixture"""
    c = dict(k['m'], frm='std', scale=1.)
    r = rng(c['seed'])
    p = params(c, r, zero=False)
    n = k['n'] + 12 * c['K'] * (c['d'] + 1)
    x = p.draw(r, n)
    far = min(k['far'], c['K'] - 1)
    p.mu[:far] = 1e4                  # no sample is near
    m = build(c, p, var_floor=1e-3, min_N=k['minN'])
    off = np.zeros(c['K'], dtype=bool)
    for i in range(k['iters']):
        N, u = m.Estep(x)
        same(N[:far], np.zeros(far), 'occupancy of the far components', atol=1e-12 if i == 0 else 1e-8)
        on = ~((N < k['minN']) | (N == 0))
        if not np.any(on) or (np.any((np.abs(N[on]) < c['d'] + 2))) or np.any(np.abs(N - k['minN']) < 1e-6) and k['minN'] > 0:
            ctx.label('undecided')
            return
        m.Mstep(N, u)
        want = np.where(on, N, 0) / np.sum(N[on])
        same(m.pi, want, 'weights', rtol=1e-9)
        q = read(c, m)
        require(np.all(np.isfinite(q.mu)) and np.all(np.isfinite(m.Lambda)) and np.all(np.isfinite(m.eta)), 'iteration %d: parameters are not finite', i)
        same(m.mu[on], (u[:, :c['d']] / np.where(N == 0, 1, N)[:, None])[on], 'means', rtol=1e-9, atol=1e-12)
        pr = x[:5]
        ref = P(q.pi[on], q.mu[on], q.S[on])
        want = ref.logp(pr)
        for mode in ('nat', 'std'):
            same(m.log_prob(pr, mode=mode), want, 'log-density without the components switched off', rtol=1e-5, atol=1e-5)
        z = m.compute_pz(pr)
        same(z[:, on], ref.post(pr), 'responsibilities', rtol=1e-5, atol=1e-6)
        if k['minN'] > 0:
            off |= ~on


@sub('P19', fd(m=model_st, K=st.integers(2, 4)), quick=150, nontrivial=lambda k: big(k['m']))
def splitting(k, ctx):
    """splitting keeps a mixture whose parts surround each component"""
    c = dict(k['m'])
    r = rng(c['seed'])
    p = params(c, r, zero=False)
    m = build(c, p)
    before = (m.pi.copy(), m.mu.copy(), m.Lambda.copy())
    Q = k['K']
    np.random.seed(c['seed'] % 1000)
    m2 = m.split_comp(Q)
    for a, b, nm in zip(before, (m.pi, m.mu, m.Lambda), ('weights', 'means', 'precisions')):
        same(b, a, 'splitting modified the ' + nm)
    require(type(m2) is CLS[c['kind']], 'class %s', type(m2))
    c2 = dict(c, K=c['K'] * Q)
    eq(m2.num_comp, c['K'] * Q, 'number of components')
    same(m2.pi, np.repeat(p.pi, Q) / Q, 'weights', rtol=1e-9)
    same(m2.Lambda, m.Lambda if c['kind'] == 'tied' else np.repeat(m.Lambda, Q, axis=0) * Q ** 2, 'precisions', rtol=1e-9)
    for j in range(c['K']):
        L = np.linalg.inv(p.S[j])
        for q in range(Q):
            dl = m2.mu[j * Q + q] - p.mu[j]
            same(dl.dot(L).dot(dl), c['d'], 'squared Mahalanobis distance of the parts to their component', rtol=1e-5)
        if Q == 2:
            same(m2.mu[2 * j] + m2.mu[2 * j + 1], 2 * p.mu[j], 'the two parts are opposite', rtol=1e-6, atol=1e-6 * c['scale'])
            require(np.max(np.abs(m2.mu[2 * j] - m2.mu[2 * j + 1])) > 1e-3 * c['scale'], 'the two parts coincide')
    x = p.draw(r, 5)
    check_eval(c2, m2, read(c2, m2), x, 'after splitting')


@sub('P19', fd(m=model_st), quick=50, nontrivial=lambda k: big(k['m']))
def sampling(k, ctx):
    """samples follow the mixture and are reproducible"""
    c = k['m']
    r = rng(c['seed'])
    p = params(c, r)
    m = build(c, p)
    n, s = 4000, c['seed'] % 1000
    x = m.sample(n, seed=s)
    eq(x.shape, (n, c['d']), 'shape')
    same(m.sample(n, seed=s), x, 'same seed')
    same(m.sample(n, rng=np.random.RandomState(s)), x, 'generator in the same state')
    same(m.generate(n, seed=s), x, 'generate')
    require(not np.array_equal(m.sample(n, seed=s + 1), x), 'another seed gives the same samples')
    mean = p.pi.dot(p.mu)
    C = sum(p.pi[j] * (p.S[j] + np.outer(p.mu[j] - mean, p.mu[j] - mean)) for j in range(c['K']))
    L = np.linalg.cholesky(C)
    y = np.linalg.solve(L, (x - mean).T).T
    require(np.all(np.abs(y.mean(axis=0)) < 7 / np.sqrt(n)), 'mean of the whitened samples %s', y.mean(axis=0))
    E = y.T.dot(y) / n - np.eye(c['d'])
    require(np.all(np.abs(E) < 0.35), 'covariance of the whitened samples is off the identity by %s', E)
    ll = p.logp(x)
    y2 = p.draw(r, n)
    l2 = p.logp(y2)
    require(abs(ll.mean() - l2.mean()) < 7 * np.sqrt((ll.var() + l2.var()) / n) + 1e-3, 'log-likelihood of samples %g, expected %g', ll.mean(), l2.mean())
    z = p.post(x).mean(axis=0)
    require(np.all(np.abs(z - p.pi) < 7 * np.sqrt(p.pi * (1 - p.pi) / n) + 1e-6), 'share of the components %s, weights %s', z, p.pi)


@sub('P19', fd(m=model_st, sep=st.booleans(), n=st.integers(0, 20)), quick=120, nontrivial=lambda k: big(k['m']))
def initialisation(k, ctx):
    """initialising from separated groups finds their means, covariances and shares; training from scratch works"""
    c = k['m']
    r = rng(c['seed'])
    K, d = c['K'], c['d']
    p = params(c, r, zero=False)
    nk = 8 * (d + 1) + r.randint(0, 5 + k['n'], size=K)
    ctr = np.zeros((K, d))
    ctr[:, 0] = 1000 * np.arange(K)
    ctr = ctr[r.permutation(K)] * c['scale']
    lab = np.repeat(np.arange(K), nk)
    x = ctr[lab] + c['scale'] * r.randn(len(lab), d)
    q = r.permutation(len(x))
    x, lab = x[q], lab[q]
    m = CLS[c['kind']](x_dim=d, num_comp=K, var_floor=1e-12)
    with unchanged('initialize', x):
        m.initialize(x)
    mu = np.stack([x[lab == j].mean(axis=0) for j in range(K)])
    S = np.stack([np.cov(x[lab == j].T, bias=True).reshape(d, d) for j in range(K)])
    pi = nk / float(len(x))
    if c['kind'] != 'full':
        S = np.stack([np.diag(np.diag(s)) for s in S])
    if c['kind'] == 'tied':
        S = np.stack([np.sum(pi[:, None, None] * S, axis=0)] * K)
    o = np.argsort(m.mu[:, 0])
    o2 = np.argsort(mu[:, 0])
    same(m.mu[o], mu[o2], 'means', rtol=1e-6, atol=1e-6 * c['scale'])
    same(m.pi[o], pi[o2], 'weights', rtol=1e-9)
    got = read(c, m)
    same(got.S[o], S[o2], 'covariances', rtol=1e-5, atol=1e-6 * c['scale'] ** 2)
    check_eval(dict(c), m, got, x[:5], 'initialised', rtol=1e-5)
    l0 = m.log_prob(x).mean()
    m.fit(x, epochs=2)
    require(m.log_prob(x).mean() >= l0 - 1e-6 * (1 + abs(l0)), 'training lowers the likelihood')
    m3 = CLS[c['kind']](x_dim=d, num_comp=K, var_floor=1e-12)
    m3.fit(x, epochs=2)
    same(m3.log_prob(x), m.log_prob(x), 'fit initialises by itself', rtol=1e-6, atol=1e-6)


@sub('P19', fd(m=model_st, n=st.integers(1, 6), vf=st.sampled_from([1e-3, 1e-2])), quick=80, nontrivial=lambda k: big(k['m']))
def small_groups(k, ctx):
    """initialising when some groups have a single vector"""
    c = dict(k['m'], K=max(2, k['m']['K']))
    r = rng(c['seed'])
    K, d = c['K'], c['d']
    nk = np.concatenate(([12 * (d + 1)], 1 + r.randint(0, k['n'], K - 1)))
    lab = np.repeat(np.arange(K), nk)
    x = c['scale'] * r.randn(len(lab), d)
    x[:, 0] += 1000 * lab * c['scale']
    q = r.permutation(len(x))
    x, lab = x[q], lab[q]
    m = CLS[c['kind']](x_dim=d, num_comp=K, var_floor=k['vf'])
    with unchanged('initialize', x):
        m.initialize(x)
    got = read(c, m)
    o = np.argsort(got.mu[:, 0])
    same(got.mu[o], np.stack([x[lab == j].mean(axis=0) for j in range(K)]), 'means', rtol=1e-6, atol=1e-6 * c['scale'])
    same(got.pi[o], nk / float(len(x)), 'weights', rtol=1e-9)
    S = np.stack([np.cov(x[lab == j].T, bias=True).reshape(d, d) for j in range(K)])
    if c['kind'] == 'diag':
        S = np.stack([np.diag(np.maximum(np.diag(s), k['vf'] * np.mean([np.diag(z) for z in S], axis=0))) for s in S])
        same(got.S[o], S, 'floored variances', rtol=1e-6, atol=1e-9 * c['scale'] ** 2)
    elif c['kind'] == 'full':
        F = k['vf'] * S.mean(axis=0)
        for g, s in zip(got.S[o], S):
            require(np.linalg.eigvalsh(g - (1 - 1e-5) * F)[0] >= -1e-9 * c['scale'] ** 2, 'covariance below the floor')
            require(np.linalg.eigvalsh(g - s)[0] >= -1e-6 * c['scale'] ** 2, 'covariance below that of the group')
    require(np.all(np.isfinite(m.log_prob(x))), 'log-density not finite')


@sub('P19', fd(d=st.integers(1, 4), K=st.integers(1, 4), seed=seeds, kind=st.sampled_from(['tied', 'diag', 'full'])), quick=90, nontrivial=big)
def kaldi_text(c, ctx):
    """mixtures written as text by Kaldi"""
    r = rng(c['seed'])
    p = params(dict(c, scale=1., spread=2.), r, zero=False)
    mat = lambda M: ' [\n' + '\n'.join('  ' + ' '.join('%.10g' % v for v in row) + ' ' for row in M) + ']\n'
    f = ctx.path('gmm.txt')
    nm = 'FullGMM' if c['kind'] == 'full' else 'DiagGMM'
    with open(f, 'w') as h:
        h.write('<%s> \n<GCONSTS>  [ ' % nm + ' '.join('%.10g' % v for v in r.randn(c['K'])) + ' ]\n')
        h.write('<WEIGHTS>  [ ' + ' '.join('%.10g' % v for v in p.pi) + ' ]\n')
        if c['kind'] == 'full':
            iS = np.stack([np.linalg.inv(s) for s in p.S])
            h.write('<MEANS_INVCOVARS> ' + mat(np.stack([s.dot(u) for s, u in zip(iS, p.mu)])) + '<INV_COVARS> ')
            for s in iS:
                h.write(' [\n' + '\n'.join(' '.join('%.10g' % v for v in s[i, :i + 1]) + ' ' for i in range(c['d'])) + ']\n')
        else:
            iv = np.stack([1 / np.diag(s) for s in p.S])
            h.write('<MEANS_INVVARS> ' + mat(iv * p.mu) + '<INV_VARS> ' + mat(iv))
        h.write('</%s> \n' % nm)
    m = {'tied': GMMTiedDiagCov, 'diag': GMMDiagCov, 'full': GMM}[c['kind']].load_from_kaldi(f)
    x = p.draw(r, 4)
    same(m.mu, p.mu, 'means', rtol=1e-6, atol=1e-6)
    same(m.pi, p.pi, 'weights', rtol=1e-6)
    same(m.log_prob(x), p.logp(x), 'log-density', rtol=1e-5, atol=1e-5)
