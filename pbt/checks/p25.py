"""P25: classifiers and calibrators against direct evaluation of their models."""
import scipy.linalg as la
from scipy.optimize import minimize
from scipy.special import logsumexp as lse
from scipy.stats import multivariate_normal as mvn, norm as snorm, multivariate_t as mvt

from pbt.core import *
from hyperion.classifiers import LinearGBE, LinearGBEUP, LogisticRegression, BinaryLogisticRegression, LinearSVMC, QScoringHomoGBE
from hyperion.calibration.gauss_calibration import GaussCalibration
from hyperion.calibration.unsup_gauss_calibration import UnsupGaussCalibration

RULE = 'more than one dimension or more than two classes'
T = dict(rtol=1e-6, atol=1e-7)

base_st = fd(seed=seeds, d=st.integers(1, 4), C=st.integers(2, 5), extra=st.integers(0, 12), sep=st.sampled_from([.5, 2.]), scale=st.sampled_from([.2, 1., 5.]), f32=st.sampled_from([False, False, True]))
nt = lambda k: k['base']['d'] > 1 or k['base']['C'] > 2


def data(k, r, nmin=None):
    d, C = k['d'], k['C']
    nmin = d + 2 if nmin is None else nmin
    n = nmin + r.randint(0, k['extra'] + 1, C)
    y = np.repeat(np.arange(C), n)
    r.shuffle(y)
    A = la.sqrtm(rand_pd(r, d, .3, 3.)).real
    x = (r.randn(C, d)[y] * k['sep'] + r.randn(len(y), d).dot(A)) * k['scale']
    return (x.astype('float32') if k['f32'] else x), y


def lsm(z):
    return z - lse(z, axis=1, keepdims=True)


def gbe_ref(x, P, balance, prior=None, update_mu=True, update_W=True, mu=None, W=None):
    """P: responsibilities.  returns mu, S, beta, nu"""
    x = x.astype(float)
    C = P.shape[1]
    N = P.sum(axis=0)
    xb = np.stack([P[:, c].dot(x) / N[c] for c in range(C)])
    if prior is None:
        m, beta, nu0 = xb, N, 0
    else:
        pm, pS, pb, nu0 = prior
        m = np.stack([(pb[c] * pm[c] + N[c] * xb[c]) / (pb[c] + N[c]) for c in range(C)])
        beta = pb + N
    if not update_mu:
        m, xb, beta = mu, mu, None
    if not update_W:
        return m, la.inv(W), beta, None
    Ss = []
    for c in range(C):
        z = x - xb[c]
        S = z.T.dot(z * P[:, c:c + 1])
        if prior is not None and update_mu:
            e = xb[c] - pm[c]
            S = S + pb[c] * N[c] / (pb[c] + N[c]) * np.outer(e, e)
        Ss.append(S)
    if balance:
        S = np.mean([(Ss[c] + (0 if prior is None else nu0 / C * pS)) / (N[c] + nu0 / C) for c in range(C)], axis=0)
    else:
        S = (np.sum(Ss, axis=0) + (0 if prior is None else nu0 * pS)) / (N.sum() + nu0)
    return m, S, beta, N.sum() + nu0


gbe_st = fd(base=base_st, balance=st.booleans(), labels=st.sampled_from(['hard', 'soft', 'weighted']), map=st.booleans(), pb=st.sampled_from([None, .5, 16.]), pn=st.sampled_from([None, 8., 16.]),
            pob=st.sampled_from([None, None, 3.]), pon=st.sampled_from([None, None, 20.]), mode=st.sampled_from(['both', 'both', 'both', 'mu', 'W']))


def gen_labels(k, r, y, C):
    if k['labels'] == 'soft':
        P = r.dirichlet(np.ones(C), len(y)) * .3 + .7 * np.eye(C)[y]
        return dict(p_theta=P), P
    if k['labels'] == 'weighted':
        w = r.uniform(.2, 2., len(y))
        return dict(class_ids=y, sample_weight=w), np.eye(C)[y] * w[:, None]
    return dict(class_ids=y), np.eye(C)[y]


@sub('P25', gbe_st, quick=300, nontrivial=nt)
def gaussian_backend(k, ctx):
    """fit and evaluation of the linear Gaussian back-end"""
    b = k['base']
    r = rng(b['seed'])
    C, d = b['C'], b['d']
    x, y = data(b, r)
    args, P = gen_labels(k, r, y, C)
    kw = dict(balance_class_weight=k['balance'], post_beta=k['pob'], post_nu=k['pon'])
    prior, ref_prior = None, None
    if k['map']:
        pm, pS = r.randn(C, d) * b['scale'], rand_pd(r, d, .3, 3.) * b['scale'] ** 2
        pb, pn = r.uniform(1, 10, C), float(r.uniform(5, 40))
        prior = LinearGBE(mu=pm.copy(), W=la.inv(pS), beta=pb.copy(), nu=pn)
        kw.update(prior=prior, prior_beta=k['pb'], prior_nu=k['pn'])
        ref_prior = (pm, pS, pb if k['pb'] is None else np.full(C, k['pb']), pn if k['pn'] is None else k['pn'] * C)
    um, uW = k['mode'] != 'W', k['mode'] != 'mu'
    m0, W0 = r.randn(C, d), rand_pd(r, d, .3, 3.)
    if k['mode'] == 'both':
        m = LinearGBE(**kw)
    else:
        m = LinearGBE(mu=m0.copy(), W=W0.copy(), update_mu=um, update_W=uW, **kw)
    with unchanged('fit', x, *args.values()):
        m.fit(x, **args)
    mu, S, beta, nu = gbe_ref(x, P, k['balance'], ref_prior, um, uW, m0, W0)
    if k['pob'] is not None:
        beta = np.full(C, k['pob'])
    if k['pon'] is not None:
        nu = k['pon'] * C
    F = dict(rtol=1e-3, atol=1e-3) if b['f32'] else T
    same(m.mu, mu, 'means', **F)
    same(m.W.dot(S), np.eye(d), 'precision times covariance', rtol=F['rtol'], atol=max(1e-5, F['atol']))
    if beta is not None:
        same(m.beta, beta, 'beta', **T)
    if nu is not None:
        same(m.nu, nu, 'nu', **T)
    check_gbe(k, r, m, x, C, d)
    # permuting the classes and the samples
    if k['mode'] == 'both' and not k['map'] and k['labels'] == 'hard':
        o, q = r.permutation(C), r.permutation(len(x))
        m2 = LinearGBE(**kw)
        m2.fit(x[q], class_ids=np.argsort(o)[y][q])
        same(m2.mu, m.mu[o], 'means of permuted classes', **F)
        same(m2.predict(x.astype(float)), m.predict(x.astype(float))[:, o], 'scores of permuted classes', rtol=1e-3, atol=1e-2 if b['f32'] else 1e-4)


def check_gbe(k, r, m, x, C, d):
    x = x.astype(float)
    mu, S = m.mu.astype(float), la.inv(m.W.astype(float))
    S = (S + S.T) / 2
    z = np.vstack((x[:4], r.randn(3, d) * 2, r.randn(1, d) * 300))
    llk = np.stack([np.atleast_1d(mvn(mu[c], S, allow_singular=True).logpdf(z)) for c in range(C)], axis=1)
    W = la.inv(S)
    lin = np.stack([z.dot(W).dot(mu[c]) - .5 * mu[c].dot(W).dot(mu[c]) for c in range(C)], axis=1)
    out = {'llk': llk, 'linear': lin}
    if m.beta is not None and m.nu is not None and m.nu + 1 > d + 1e-3:
        beta, nu = np.asarray(m.beta, dtype=float), float(m.nu)
        c = nu + 1 - d
        out['predictive'] = np.stack([np.atleast_1d(mvt(mu[i], shape=S * nu * (1 + beta[i]) / beta[i] / c, df=c).logpdf(z)) for i in range(C)], axis=1)
    with unchanged('evaluation', z, m.mu, m.W):
        for meth, want in out.items():
            tol = 1e-5 * max(1, np.abs(want).max(), np.abs(lin).max())
            got = m.predict(z, eval_method=meth)
            same(got, want, meth, rtol=1e-5, atol=tol)
            lp = m.predict(z, eval_method=meth, normalize=True)
            same(lp, lsm(want), 'log-posteriors from ' + meth, rtol=1e-5, atol=tol * 2)
            same(np.sum(np.exp(lp), axis=1), np.ones(len(z)), 'sum of posteriors from ' + meth, rtol=1e-8)
            same(m.predict(z[1:2], eval_method=meth), got[1:2], meth + ' of one vector', rtol=1e-8, atol=1e-8)
    same(m.predict(z), m.predict(z, 'linear'), 'default method')
    raises(lambda: m.predict(z, eval_method='nothing'), 'unknown method')


@sub('P25', fd(base=base_st, balance=st.booleans(), labels=st.sampled_from(['hard', 'soft', 'weighted']), big=st.booleans(), map=st.booleans()), quick=200, nontrivial=nt)
def uncertain_backend(k, ctx):
    """Gaussian back-end with uncertainty propagation"""
    b = dict(k['base'], f32=False)
    r = rng(b['seed'])
    C, d = b['C'], b['d']
    x, y = data(b, r)
    args, P = gen_labels(k, r, y, C)
    ref_prior = None
    kw = {}
    if k['map']:
        pm, pS = r.randn(C, d) * b['scale'], rand_pd(r, d, .3, 3.) * b['scale'] ** 2
        pb, pn = r.uniform(1, 10, C), float(r.uniform(5, 40))
        kw = dict(prior=LinearGBE(mu=pm.copy(), W=la.inv(pS), beta=pb.copy(), nu=pn))
        ref_prior = (pm, pS, pb, pn)
    mu, S, beta, nu = gbe_ref(x, P, k['balance'], ref_prior)
    lam = la.eigvalsh(S)[0]
    s2 = r.uniform(.5, 1.5, x.shape) * lam * (20. if k['big'] else .3)
    xs = np.hstack((x, s2))
    m = LinearGBEUP(balance_class_weight=k['balance'], **kw)
    with unchanged('fit', xs, *args.values()):
        m.fit(xs, **args)
    same(m.mu, mu, 'means', **T)
    ms = np.diag(s2.mean(axis=0))
    Sm = la.inv(m.W)
    require(la.eigvalsh(Sm)[0] > 0, 'covariance without the uncertainty is not positive definite')
    if not k['big']:
        same(Sm, S - ms, 'covariance without the mean uncertainty', rtol=1e-5, atol=1e-6 * np.abs(S).max())
    else:
        ctx.label('floored')
        # eigenvalues of the total covariance relative to the uncertainty are floored at 1.21
        a = la.sqrtm(la.inv(ms)).real
        l, V = la.eigh(a.dot(S).dot(a))
        ia = la.inv(a)
        want = ia.dot((V * np.maximum(l, 1.21)).dot(V.T)).dot(ia) - ms
        same(Sm, want, 'floored covariance', rtol=1e-5, atol=1e-6 * np.abs(want).max())
    z, zs = r.randn(5, d) * b['scale'], r.uniform(.1, 3., (5, d)) * b['scale'] ** 2
    zz = np.hstack((z, zs))
    with unchanged('evaluation', zz):
        got = m.predict(zz)
    llk = np.stack([[mvn(m.mu[c], Sm + np.diag(zs[i])).logpdf(z[i]) for c in range(C)] for i in range(5)])
    sc = 1e-6 * max(1, np.abs(llk).max(), np.abs(got).max())
    same(lsm(got), lsm(llk), 'log-posteriors', rtol=1e-5, atol=sc)
    lp = m.predict(zz, normalize=True)
    same(lp, lsm(llk), 'normalised log-posteriors', rtol=1e-5, atol=sc)
    same(got[:, :1] - got, (llk[:, :1] - llk), 'log-likelihood ratios', rtol=1e-5, atol=sc)


q_st = fd(base=base_st, balance=st.booleans(), labels=st.sampled_from(['hard', 'soft', 'weighted']), map=st.booleans(), pN=st.sampled_from([None, 2., 10.]), oN=st.sampled_from([None, None, 4.]))


@sub('P25', q_st, quick=150, nontrivial=nt)
def posterior_scoring(k, ctx):
    """scores between Gaussian posteriors"""
    b = k['base']
    r = rng(b['seed'])
    C, d = b['C'], b['d']
    y = data(dict(b, f32=False), r, 1)[1]
    n = len(y)
    mx, sx = r.randn(n, d), r.uniform(.1, .9, (n, d))
    x = np.hstack((mx, sx))
    args, P = gen_labels(k, r, y, C)
    kw = dict(balance_class_weight=k['balance'], post_N=k['oN'])
    N = P.sum(axis=0)
    eta, prec = P.T.dot(mx / sx), 1 + P.T.dot(1 / sx - 1)
    if k['map']:
        pm, pW, pN = r.randn(C, d), r.uniform(1.5, 5., d), r.uniform(2, 10, C)
        kw.update(prior=QScoringHomoGBE(mu=pm.copy(), W=pW.copy(), N=pN.copy()), prior_N=k['pN'])
        W = pW if k['pN'] is None else 1 + k['pN'] / pN.mean() * (pW - 1)
        N = N + (pN if k['pN'] is None else k['pN'])
        eta, prec = eta + W * pm, prec + W - 1
    m = QScoringHomoGBE(**kw)
    with unchanged('fit', x, *args.values()):
        m.fit(x, **args)
    same(m.mu, eta / prec, 'means', **T)
    if k['balance']:
        W = prec.mean(axis=0)
        if k['oN'] is not None:
            W, N = 1 + k['oN'] / N.mean() * (W - 1), np.full(C, k['oN'])
        same(m.W, W, 'precision', **T)
        same(m.N, N, 'counts', **T)
    z, zs = r.randn(4, d), r.uniform(.1, .9, (4, d))
    zz = np.hstack((z, zs))
    with unchanged('evaluation', zz):
        got = m.predict(zz)
    # log of int q_class(y) q_test(y) / N(y; 0, 1) dy, dimension by dimension
    W = m.W
    want = np.zeros((4, C))
    for i in range(4):
        for c in range(C):
            e1, e2, L1, L2 = m.mu[c] * W, z[i] / zs[i], W, 1 / zs[i]
            L = L1 + L2 - 1
            want[i, c] = .5 * np.sum(np.log(L1 * L2 / L) + (e1 + e2) ** 2 / L - e1 ** 2 / L1 - e2 ** 2 / L2)
    if np.any(W + 1 / zs.max() - 1 <= 0):
        ctx.label('undefined')
        return
    same(got, want, 'scores', rtol=1e-6, atol=1e-6 * max(1, np.abs(want).max()))
    lp = m.predict(zz, normalize=True)
    same(lp, lsm(want), 'log-posteriors', rtol=1e-6, atol=1e-6 * max(1, np.abs(want).max()))


def xent(x, y, w, A, b, lam, reg_b):
    """multinomial prior-weighted cross-entropy"""
    z = x.dot(A) + b
    return -np.sum(w * lsm(z)[np.arange(len(y)), y]) + .5 * lam * np.sum(A ** 2)


lr_st = fd(base=base_st, lam=st.sampled_from([1e-3, 1e-2, .1, 1.]), bias=st.booleans(), priors=st.sampled_from([None, 'dict', 'array', 'list']), sw=st.booleans(), bs=st.sampled_from([1., 1., 3.]))


@sub('P25', lr_st, quick=200, nontrivial=nt)
def multinomial(k, ctx):
    """multi-class logistic regression minimises the prior-weighted regularised cross-entropy"""
    b = dict(k['base'], C=max(3, k['base']['C']), f32=False, scale=1.)
    r = rng(b['seed'])
    C, d = b['C'], b['d']
    x, y = data(b, r, 2)
    p = r.dirichlet(5 * np.ones(C))
    if k['priors'] is None:
        p, arg = np.ones(C) / C, None
    else:
        arg = {'dict': dict(enumerate(p.tolist())), 'array': p.copy(), 'list': p.tolist()}[k['priors']]
    sw = r.uniform(.3, 2., len(y)) if k['sw'] else None
    m = LogisticRegression(lambda_reg=k['lam'], use_bias=k['bias'], bias_scaling=k['bs'], priors=arg, max_iter=2000, tol=1e-8)
    with unchanged('fit', x, y, *([sw] if k['sw'] else [])):
        m.fit(x, y, sample_weight=sw)
    w = (p / np.bincount(y))[y] * (1 if sw is None else sw)
    A, bb = m.A, m.b
    require(A.shape == (d, C), 'A has shape %s', A.shape)
    require(np.shape(bb) == (C,), 'b has shape %s', np.shape(bb))
    raw = bb + np.log(p)                     # bias before removing the priors
    if not k['bias']:
        same(raw - raw[0], np.zeros(C), 'bias when not trained', atol=1e-9)

    def obj(t):
        Am, bm = t[:d * C].reshape(d, C), (t[d * C:] if k['bias'] else np.zeros(C))
        z = x.dot(Am) + bm
        q = np.exp(lsm(z))
        q[np.arange(len(y)), y] -= 1
        g = q * w[:, None]
        G = np.concatenate(((x.T.dot(g) + k['lam'] * Am).ravel(), g.sum(axis=0) if k['bias'] else np.zeros(C)))
        return xent(x, y, w, Am, bm, k['lam'], False), G
    J = obj(np.concatenate((A.ravel(), raw)))[0]
    opt = minimize(obj, np.zeros(d * C + C), jac=True, method='L-BFGS-B', options=dict(maxiter=3000, ftol=1e-14, gtol=1e-9))
    require(J <= opt.fun + 1e-4 * max(1e-3, abs(opt.fun)), 'objective %g, minimum %g', J, opt.fun)
    check_lr(ctx, r, m, x, p, 'multinomial')
    for _ in range(5):
        t = np.concatenate((A.ravel(), raw)) + r.randn(d * C + C) * r.choice([.3, .1, .03])
        require(obj(t)[0] >= J - 1e-4 * max(1e-3, abs(J)), 'a perturbation reduces the objective from %g to %g', J, obj(t)[0])


def check_lr(ctx, r, m, x, p, what):
    z = np.vstack((x[:4], r.randn(3, x.shape[1])))
    with unchanged('evaluation', z):
        l = m.predict(z)
        same(l, z.dot(m.A) + m.b, 'log-likelihoods', **T)
        same(m.predict(z, 'logit'), l, 'logit')
        post = np.exp(lsm(l + np.log(p)))
        same(m.predict(z, 'post'), post, 'posteriors', **T)
        same(m.predict(z, 'log-post'), np.log(post + 1e-10), 'log-posteriors', rtol=1e-6, atol=1e-6)
        same(np.sum(m.predict(z, 'post'), axis=1), np.ones(len(z)), 'sum of posteriors', rtol=1e-9)
    same(m.predict(z[2:3]), l[2:3], 'one vector', rtol=1e-9, atol=1e-9)


bin_st = fd(base=base_st, lam=st.sampled_from([1e-3, 1e-2, .1]), bias=st.booleans(), prior=st.sampled_from([.5, .1, .01, .7]), bs=st.sampled_from([1., 1., 3.]), solver=st.sampled_from(['liblinear', 'lbfgs', 'newton-cg']), vec=st.booleans(), sw=st.booleans())


def bxent(x, y, w, a, b, lam, regb):
    z = x.dot(a) + b
    return np.sum(w * np.logaddexp(0, np.where(y == 1, -z, z))) + .5 * lam * (a.dot(a) + regb * b * b)


@sub('P25', bin_st, quick=200, nontrivial=lambda k: k['base']['d'] > 1 and k['prior'] != .5)
def binary(k, ctx):
    """binary logistic regression: optimality, likelihood ratios, posteriors, monotone calibration of scores"""
    b = dict(k['base'], C=2, f32=False, scale=1., d=1 if k['vec'] else k['base']['d'])
    r = rng(b['seed'])
    d = b['d']
    x, y = data(b, r, 3)
    sw = r.uniform(.3, 2., len(y)) if k['sw'] else None
    m = BinaryLogisticRegression(lambda_reg=k['lam'], use_bias=k['bias'], bias_scaling=k['bs'], prior=k['prior'], solver=k['solver'], max_iter=2000, tol=1e-7)
    xx = x[:, 0].copy() if k['vec'] else x
    with unchanged('fit', xx, y, *([sw] if k['sw'] else [])):
        m.fit(xx, y, sample_weight=sw)
    pr = np.array([1 - k['prior'], k['prior']])
    w = (pr / np.bincount(y))[y] * (1 if sw is None else sw)
    lo = np.log(k['prior'] / (1 - k['prior']))
    a, raw = np.ravel(m.A), float(np.ravel(m.b)[0]) + lo
    if not k['bias']:
        same(raw, 0., 'bias when not trained', atol=1e-9)
    regb = 1. / k['bs'] ** 2 if k['solver'] == 'liblinear' else 0.
    f = lambda t: bxent(x, y, w, t[:d], t[d] if k['bias'] else 0., k['lam'], regb)
    J = f(np.append(a, raw))

    def fg(t):
        bb = t[d] if k['bias'] else 0.
        q = w * (1 / (1 + np.exp(-(x.dot(t[:d]) + bb))) - (y == 1))
        return f(t), np.append(x.T.dot(q) + k['lam'] * t[:d], (q.sum() + k['lam'] * regb * bb) if k['bias'] else 0.)
    best = minimize(fg, np.zeros(d + 1), jac=True, method='L-BFGS-B', options=dict(gtol=1e-9, ftol=1e-14, maxiter=3000)).fun
    require(J <= best + 2e-4 * max(1e-3, abs(best)), 'objective %g, minimum %g', J, best)
    z = np.vstack((x[:4], r.randn(3, d)))
    zz = z[:, 0].copy() if k['vec'] else z
    with unchanged('evaluation', zz):
        l = m.predict(zz)
        same(l, z.dot(a) + raw - lo, 'log-likelihood ratios', rtol=1e-6, atol=1e-6)
        post = 1 / (1 + np.exp(-(l + lo)))
        same(m.predict(zz, 'post'), post, 'posteriors', **T)
        same(m.predict(zz, 'log-post'), np.log(post), 'log-posteriors', **T)
    eq(m.prior, k['prior'], 'prior')


@sub('P25', fd(base=base_st, C=st.sampled_from([.1, 1.]), bs=st.sampled_from([1., 5.]), balance=st.booleans()), quick=60, nontrivial=nt)
def svm(k, ctx):
    """linear support vector classifier"""
    b = dict(k['base'], f32=False, scale=1., C=max(3, k['base']['C']))
    r = rng(b['seed'])
    C, d = b['C'], b['d']
    x, y = data(b, r, 4)
    m = LinearSVMC(C=k['C'], bias_scaling=k['bs'], balance_class_weight=k['balance'], max_iter=20000, tol=1e-6)
    with unchanged('fit', x, y):
        m.fit(x, y)
    n = np.bincount(y)
    cw = len(y) / (C * n) if k['balance'] else np.ones(C)
    for c in range(C):
        t = np.where(y == c, 1., -1.)
        w = k['C'] * np.where(y == c, cw[c], 1.)     # one versus rest: the class weight acts on the positive samples
        f = lambda q: .5 * (q[:d].dot(q[:d]) + (q[d] / k['bs']) ** 2) + np.sum(w * np.maximum(0, 1 - t * (x.dot(q[:d]) + q[d])) ** 2)
        J = f(np.append(m.A[:, c], m.b[c]))
        best = minimize(f, np.zeros(d + 1), method='BFGS', options=dict(gtol=1e-7)).fun
        require(J <= best * (1 + 1e-2) + 1e-4, 'class %d: objective %g, minimum %g', c, J, best)
    z = np.vstack((x[:4], r.randn(3, d), 1e4 * r.randn(2, d)))
    with unchanged('evaluation', z):
        s = m.predict(z)
        same(s, z.dot(m.A) + m.b, 'scores', **T)
        same(m.predict(z, 'bin-post'), 1 / (1 + np.exp(-s)), 'binary posteriors', **T)
        same(m.predict(z, 'bin-logpost'), -np.logaddexp(0, -s), 'binary log-posteriors', **T)
        same(m.predict(z, 'cat-post'), np.exp(lsm(s)), 'posteriors', **T)
        same(m.predict(z, 'cat-logpost'), lsm(s), 'log-posteriors', **T)


@sub('P25', fd(seed=seeds, n=st.integers(3, 40), sep=st.sampled_from([1., 3., -1.]), scale=st.sampled_from([.1, 1., 30.]), w=st.booleans()), quick=150, nontrivial=lambda k: k['w'])
def gauss_calibration(k, ctx):
    """Gaussian calibration: maximum-likelihood parameters, likelihood ratio"""
    r = rng(k['seed'])
    n1, n0 = 2 + r.randint(k['n']), 2 + r.randint(3 * k['n'])
    y = r.permutation(np.repeat([1, 0], [n1, n0]))
    x = (r.randn(len(y)) + k['sep'] * y) * k['scale'] + 3
    w = r.uniform(.2, 2., len(y)) if k['w'] else None
    m = GaussCalibration()
    with unchanged('fit', x, y, *([w] if k['w'] else [])):
        m.fit(x, y, sample_weight=w)
    ww = np.ones(len(y)) if w is None else w
    m1, m0 = np.average(x[y == 1], weights=ww[y == 1]), np.average(x[y == 0], weights=ww[y == 0])
    s2 = np.sum(ww * (x - np.where(y == 1, m1, m0)) ** 2) / ww.sum()
    same(m.mu1, m1, 'target mean', **T)
    same(m.mu2, m0, 'non-target mean', **T)
    same(m.sigma2, s2, 'variance', **T)
    same(m.prior, ww[y == 1].sum() / ww.sum(), 'prior', **T)
    z = np.concatenate((x, r.randn(5) * k['scale']))
    with unchanged('evaluation', z):
        l = m.predict(z)
    want = snorm.logpdf(z, m1, np.sqrt(s2)) - snorm.logpdf(z, m0, np.sqrt(s2))
    same(l, want, 'log-likelihood ratio', rtol=1e-5, atol=1e-5 * max(1, np.abs(want).max()))
    if m1 > m0:
        o = np.argsort(z)
        require(np.all(np.diff(l[o]) >= -1e-9), 'calibration is not increasing')
    same(GaussCalibration(mu1=m1, mu2=m0, sigma2=s2).predict(z), l, 'given parameters', **T)


@sub('P25', fd(seed=seeds, n1=st.integers(10, 60), n0=st.integers(20, 150), sep=st.sampled_from([4., 7.])), quick=60, nontrivial=lambda k: True)
def unsup_calibration(k, ctx):
    """unsupervised Gaussian calibration: a stationary point of the mixture likelihood"""
    r = rng(k['seed'])
    x = r.permutation(np.concatenate((r.randn(k['n1']) + k['sep'], r.randn(k['n0']))))
    m = UnsupGaussCalibration()

    def llk(p, a, b, s):
        return np.sum(np.logaddexp(np.log(p + 1e-300) + snorm.logpdf(x, a, np.sqrt(s)), np.log(1 - p + 1e-300) + snorm.logpdf(x, b, np.sqrt(s))))
    start = llk(.5, x.max(), x.mean(), x.var())
    L = [start]
    for i in range(3):
        with unchanged('fit', x):
            m.fit(x)
        L.append(llk(m.prior, m.mu1, m.mu2, float(np.ravel(m.sigma2)[0])))
    require(np.all(np.diff(L) >= -1e-6 * abs(L[0])), 'likelihood decreases: %s', L)
    s = np.sqrt(np.ravel(m.sigma2)[0])
    same(np.ravel(m.predict(x)), snorm.logpdf(x, m.mu1, s) - snorm.logpdf(x, m.mu2, s), 'log-likelihood ratio', rtol=1e-5, atol=1e-5)
