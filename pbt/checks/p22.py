"""P22: vector transforms against the properties that define them, and their composition."""
import scipy.linalg as la
from scipy.stats import norm as snorm

from pbt.core import *
from hyperion.transforms import *
from hyperion.transforms.cent_whiten import CentWhiten
from hyperion.transforms.cent_whiten_up import CentWhitenUP
from hyperion.transforms.lnorm import LNorm
from hyperion.transforms.lnorm_up import LNormUP
from hyperion.transforms.mvn import MVN
from hyperion.transforms.pca import PCA
from hyperion.transforms.lda import LDA
from hyperion.transforms.nda import NDA
from hyperion.transforms.nap import NAP
from hyperion.transforms.sb_sw import SbSw, NSbSw
from hyperion.transforms.gaussianizer import Gaussianizer
from hyperion.transforms.transform_list import TransformList

RULE = 'more than one dimension, correlated data'
T = dict(rtol=1e-6, atol=1e-7)

data_st = fd(seed=seeds, d=st.integers(1, 5), extra=st.integers(1, 30), loc=st.sampled_from([0., 1., 30.]), scale=st.sampled_from([.1, 1., 20.]))
nt = lambda k: k['d'] > 1


def mixing(r, d):
    return la.sqrtm(rand_pd(r, d, .3, 3.)).real


def make(k, r, n=None):
    d = k['d']
    n = n or d + 2 + k['extra']
    return (r.randn(n, d).dot(mixing(r, d)) + k['loc'] * r.randn(d)) * k['scale']


def pointwise(t, x, r, what):
    """transforming does not depend on the rest of the batch nor modifies the input"""
    with unchanged(what, x):
        y = t.predict(x)
    q = r.permutation(len(x))
    same(t.predict(x[q]), y[q], what + ' of reordered vectors', rtol=1e-9, atol=1e-9)
    i = int(r.randint(len(x)))
    same(t.predict(x[i:i + 1]), y[i:i + 1], what + ' of one vector', rtol=1e-9, atol=1e-9)
    with unchanged(what, x):
        same(t.predict(x), y, what + ' again')
    return y


def cov(x, w=None):
    w = np.ones(len(x)) if w is None else w
    mu = w.dot(x) / w.sum()
    return mu, (x - mu).T.dot((x - mu) * w[:, None]) / w.sum()


@sub('P22', fd(base=data_st, weighted=st.booleans()), quick=200, nontrivial=lambda k: k['base']['d'] > 1)
def whiten(k, ctx):
    """centring and whitening"""
    r = rng(k['base']['seed'])
    d = k['base']['d']
    x = make(k['base'], r)
    w = r.uniform(.2, 3., len(x)) if k['weighted'] else None
    t = CentWhiten()
    with unchanged('fit', x, *([w] if k['weighted'] else [])):
        t.fit(x, sample_weight=w)
    y = pointwise(t, x, r, 'whitening')
    m, C = cov(y, w)
    same(m, np.zeros(d), 'mean of whitened data', atol=1e-6)
    same(C, np.eye(d), 'covariance of whitened data', rtol=1e-6, atol=1e-6)
    # affine: same map on new data
    z = make(k['base'], r, 3)
    mu0, C0 = cov(x, w)
    yz = t.predict(z)
    same(yz.dot(yz.T), (z - mu0).dot(la.solve(C0, (z - mu0).T)), 'Mahalanobis products of whitened data', rtol=1e-5, atol=1e-5)
    # whitening from statistics
    t2 = CentWhiten()
    with unchanged('fit', mu0, C0):
        t2.fit(mu=mu0, C=C0)
    same(t2.predict(z), yz, 'whitening from given statistics', rtol=1e-5, atol=1e-5)
    # the eigenvectors of larger variance come first
    v = np.sum(C0.dot(t.T) ** 2, axis=0)
    require(np.all(np.diff(v) <= 1e-6 * v[0]), 'whitened dimensions not sorted by variance: %s', v)


@sub('P22', fd(base=data_st, n=st.integers(1, 5), mode=st.sampled_from(['few', 'mu', 'T', 'none', 'diag', 'rank', 'mean_only'])), quick=200, nontrivial=lambda k: k['base']['d'] > 1)
def whiten_modes(k, ctx):
    """few vectors, frozen parameters, diagonal transforms, rank-deficient covariances"""
    r = rng(k['base']['seed'])
    d = k['base']['d']
    x = make(k['base'], r)
    m0, T0 = r.randn(d), r.randn(d, d)
    mode = k['mode']
    ctx.label(mode)
    if mode == 'few':
        n = min(k['n'], d)
        t = CentWhiten()
        t.fit(x[:n])
        y = t.predict(x)
        c = x - x[:n].mean(axis=0)
        same(np.sqrt(np.sum(y ** 2, axis=1)), np.sqrt(np.sum(c ** 2, axis=1)), 'norms after centring', **T)
        same(y.dot(y.T), c.dot(c.T), 'inner products after centring', rtol=1e-6, atol=1e-6 * np.abs(c).max() ** 2)
    elif mode in ('mu', 'T'):
        t = CentWhiten(mu=m0, T=T0, update_mu=mode == 'mu', update_T=mode == 'T')
        t.fit(x)
        full = CentWhiten()
        full.fit(x)
        same(t.mu, full.mu if mode == 'mu' else m0, 'mean', **T)
        same(t.T, full.T if mode == 'T' else T0, 'transform', **T)
    elif mode == 'none':
        same(CentWhiten().predict(x), x, 'no parameters')
        same(CentWhiten(T=T0).predict(x), x.dot(T0), 'transform only', **T)
    elif mode == 'mean_only':
        same(CentWhiten(mu=m0).predict(x), x - m0, 'mean only', **T)
        same(CentWhiten(mu=m0, T=T0).predict(x), (x - m0).dot(T0), 'both', **T)
    elif mode == 'diag':
        s = r.uniform(.5, 2., d)
        same(pointwise(CentWhiten(mu=m0, T=s), x, r, 'diagonal transform'), (x - m0) * s, 'diagonal transform', **T)
        s2 = r.uniform(.1, 2., x.shape)
        same(CentWhitenUP(mu=m0, T=s).predict(np.hstack((x, s2))), np.hstack(((x - m0) * s, s2 * s ** 2)), 'diagonal transform with variances', **T)
        same(CentWhitenUP(mu=m0).predict(np.hstack((x, s2))), np.hstack((x - m0, s2)), 'mean only with variances', **T)
    elif mode == 'rank':
        if d < 2:
            return
        C = np.diag(r.uniform(.5, 2., d))
        j = int(r.randint(d))
        C[j, j] = 0.
        t = CentWhiten()
        with np.errstate(all='ignore'):
            t.fit(mu=m0, C=C)
        require(t.T.shape == (d, d - 1), 'whitening of a singular covariance has shape %s', t.T.shape)
        same(t.T.T.dot(C).dot(t.T), np.eye(d - 1), 'whitened singular covariance', **T)
        s2 = r.uniform(.1, 2., x.shape)
        y = CentWhitenUP(mu=m0, T=t.T).predict(np.hstack((x, s2)))
        same(y, np.hstack(((x - m0).dot(t.T), s2.dot(t.T ** 2))), 'dimension-reducing transform with variances', **T)


@sub('P22', fd(base=data_st, given=st.booleans()), quick=150, nontrivial=lambda k: k['base']['d'] > 1)
def uncertainty(k, ctx):
    """whitening and length normalisation of means with variances"""
    r = rng(k['base']['seed'])
    d = k['base']['d']
    x = make(k['base'], r)
    s2 = r.uniform(.1, 2., x.shape) * k['base']['scale'] ** 2
    xs = np.hstack((x, s2))
    for cls in (CentWhitenUP, LNormUP):
        if k['given']:
            t = cls(mu=r.randn(d), T=r.randn(d, d) + 2 * np.eye(d))
        else:
            t = cls()
            with unchanged('fit', xs):
                t.fit(xs)
            same(t.mu, x.mean(axis=0), 'mean', **T)
            same(t.T.T.dot(cov(x)[1]).dot(t.T), np.eye(d), 'whitened covariance', rtol=1e-6, atol=1e-6)
        y = pointwise(t, xs, r, cls.__name__)
        m = (x - t.mu).dot(t.T)
        v = np.stack([np.diag(t.T.T.dot(np.diag(s)).dot(t.T)) for s in s2])
        if cls is LNormUP:
            n2 = np.sum(m ** 2, axis=1, keepdims=True)
            ok = n2[:, 0] > 1e-3
            require(y.shape == xs.shape, 'LNormUP shape %s', y.shape)
            same(y[ok], np.hstack((m / np.sqrt(n2), v / n2))[ok], 'LNormUP', rtol=1e-5, atol=1e-7)
        else:
            same(y, np.hstack((m, v)), 'CentWhitenUP', **T)


@sub('P22', fd(base=data_st, given=st.sampled_from(['fit', 'none', 'mu', 'both'])), quick=150, nontrivial=lambda k: k['base']['d'] > 1)
def length_norm(k, ctx):
    """length normalisation"""
    r = rng(k['base']['seed'])
    d = k['base']['d']
    x = make(k['base'], r)
    mu = r.randn(d) if k['given'] in ('mu', 'both') else None
    W = r.randn(d, d) + 2 * np.eye(d) if k['given'] == 'both' else None
    t = LNorm(mu=mu, T=W)
    if k['given'] == 'fit':
        with unchanged('fit', x):
            t.fit(x)
        mu, W = x.mean(axis=0), t.T
        same(W.T.dot(cov(x)[1]).dot(W), np.eye(d), 'whitened covariance', rtol=1e-6, atol=1e-6)
    y = pointwise(t, x, r, 'length normalisation')
    m = x - (0 if mu is None else mu)
    m = m if W is None else m.dot(W)
    n = np.sqrt(np.sum(m ** 2, axis=1, keepdims=True))
    ok = n[:, 0] > 1e-2
    same(np.sqrt(np.sum(y ** 2, axis=1))[ok], np.full(int(ok.sum()), np.sqrt(d)), 'norm', rtol=1e-6)
    same(y[ok], (m / n * np.sqrt(d))[ok], 'direction', rtol=1e-6, atol=1e-7)


@sub('P22', data_st, quick=100, nontrivial=nt)
def mean_variance(k, ctx):
    """mean and variance normalisation"""
    r = rng(k['seed'])
    x = make(k, r)
    t = MVN()
    with unchanged('fit', x):
        t.fit(x)
    y = pointwise(t, x, r, 'mean and variance normalisation')
    same(y.mean(axis=0), np.zeros(k['d']), 'mean', atol=1e-7)
    same(np.mean(y ** 2, axis=0), np.ones(k['d']), 'variance', rtol=1e-7)
    z = make(k, r, 4)
    same(t.predict(z), (z - x.mean(axis=0)) / x.std(axis=0), 'other data', rtol=1e-8, atol=1e-8)
    m, s = r.randn(k['d']), r.uniform(.5, 2, k['d'])
    same(MVN(mu=m).predict(x), x - m, 'mean only', **T)
    same(MVN(s=s).predict(x), x / s, 'variance only', **T)
    same(MVN(mu=m, s=s).predict(x), (x - m) / s, 'given', **T)


@sub('P22', fd(base=data_st, pd=st.integers(0, 5), stats=st.booleans(), flags=st.sampled_from([[1, 1], [1, 1], [1, 0], [0, 1]])), quick=200, nontrivial=lambda k: k['base']['d'] > 1)
def pca(k, ctx):
    """principal components"""
    r = rng(k['base']['seed'])
    d = k['base']['d']
    pd = min(k['pd'], d) or None
    x = make(k['base'], r)
    mu, C = cov(x)
    um, uT = k['flags']
    m0, T0 = r.randn(d), r.randn(d, d)
    t = PCA(pca_dim=pd, update_mu=bool(um), update_T=bool(uT), **({} if um and uT else dict(mu=m0, T=T0)))
    if k['stats']:
        with unchanged('fit', mu, C):
            t.fit(mu=mu, C=C)
    else:
        with unchanged('fit', x):
            t.fit(x)
    same(t.mu, mu if um else m0, 'mean', **T)
    if not uT:
        same(t.T, T0, 'frozen projection')
        same(t.predict(x), (x - mu).dot(T0), 'frozen projection applied', rtol=1e-6, atol=1e-6 * k['base']['scale'])
        return
    q = pd or d
    require(t.T.shape == (d, q), 'projection has shape %s', t.T.shape)
    same(t.T.T.dot(t.T), np.eye(q), 'orthonormal projection', atol=1e-7)
    ev = np.sort(la.eigvalsh(C))[::-1][:q]
    y = pointwise(t, x, r, 'PCA')
    same(cov(y)[1], np.diag(ev), 'covariance of projected data', rtol=1e-6, atol=1e-6 * ev[0])
    same(y.mean(axis=0), (mu - t.mu).dot(t.T), 'mean of projected data', atol=1e-5 * k['base']['scale'] * 10)
    if q == d:
        same(y.dot(t.T.T) + t.mu, x, 'reconstruction', rtol=1e-6, atol=1e-6 * k['base']['scale'])


class_st = fd(seed=seeds, d=st.integers(1, 4), C=st.integers(2, 5), nmin=st.integers(1, 4), extra=st.integers(0, 6),
              loc=st.sampled_from([0., 1., 30.]), scale=st.sampled_from([.1, 1., 20.]), gap=st.booleans())


def classes(k, r):
    d, C = k['d'], k['C']
    n = k['nmin'] + r.randint(0, k['extra'] + 1, C)
    n[0] = max(n[0], d + 2)
    ids = np.repeat(np.arange(C), n)
    r.shuffle(ids)
    W, B = mixing(r, d), mixing(r, d)
    x = (r.randn(C, d).dot(B)[ids] * 2 + r.randn(len(ids), d).dot(W) + k['loc']) * k['scale']
    if k['gap']:
        ids = ids * 3 + 1
    return x, ids


def scatters(x, ids):
    u = np.unique(ids)
    mus = np.stack([x[ids == i].mean(axis=0) for i in u])
    Sw = np.mean([cov(x[ids == i])[1] for i in u], axis=0)
    mu, Sb = cov(mus)
    return mu, Sb, Sw


@sub('P22', fd(base=class_st, cut=st.integers(1, 4)), quick=150, nontrivial=lambda k: k['base']['d'] > 1)
def scatter_stats(k, ctx):
    """between- and within-class statistics, whole and accumulated from parts"""
    r = rng(k['base']['seed'])
    x, ids = classes(k['base'], r)
    sc = (abs(k['base']['loc']) + 3) * k['base']['scale']
    mu, Sb, Sw = scatters(x, ids)
    s = SbSw()
    with unchanged('fit', x, ids):
        s.fit(x, ids)

    def check(s, what):
        same(s.mu, mu, what + ' mean', rtol=1e-7, atol=1e-8 * sc)
        same(s.Sb, Sb, what + ' between-class', rtol=1e-6, atol=1e-8 * sc ** 2)
        same(s.Sw, Sw, what + ' within-class', rtol=1e-6, atol=1e-8 * sc ** 2)
    check(s, 'whole')
    eq(int(s.num_classes), k['base']['C'], 'number of classes')
    u = np.unique(ids)
    c = min(k['cut'], len(u) - 1)
    parts = []
    for p in (u[:c], u[c:]):
        i = np.isin(ids, p)
        a = SbSw()
        a.fit(x[i], ids[i], normalize=False)
        parts.append(a)
    both = SbSw.accum_stats(parts)
    both.normalize()
    check(both, 'accumulated')
    both = SbSw.accum_stats(parts[::-1])
    both.normalize()
    check(both, 'accumulated in reverse')


def check_discriminant(M, d, q, mu, Sb, Sw, x, r, what):
    require(M.T.shape == (d, q), '%s: shape %s', what, M.T.shape)
    ev = la.eigvalsh(Sb, Sw)[::-1][:q]
    same(M.T.T.dot(Sw).dot(M.T), np.eye(q), what + ': within-class scatter', rtol=1e-5, atol=1e-5)
    same(M.T.T.dot(Sb).dot(M.T), np.diag(ev), what + ': between-class scatter', rtol=1e-5, atol=1e-5 * max(1, ev[0]))
    y = pointwise(M, x, r, what)
    same(y, (x - mu).dot(M.T), what + ': projected', rtol=1e-6, atol=1e-6)


@sub('P22', fd(base=class_st, ld=st.integers(0, 4), flags=st.sampled_from([[1, 1], [1, 1], [1, 0], [0, 1]]), stats=st.booleans()), quick=200, nontrivial=lambda k: k['base']['d'] > 1)
def lda(k, ctx):
    """linear discriminant analysis"""
    r = rng(k['base']['seed'])
    d = k['base']['d']
    x, ids = classes(k['base'], r)
    mu, Sb, Sw = scatters(x, ids)
    q = min(k['ld'], d) or d
    um, uT = k['flags']
    m0, T0 = r.randn(d), r.randn(d, q)
    t = LDA(lda_dim=q if k['ld'] else None, update_mu=bool(um), update_T=bool(uT), **({} if um and uT else dict(mu=m0, T=T0)))
    if k['stats']:
        with unchanged('fit', mu, Sb, Sw):
            t.fit(None, None, mu=mu, Sb=Sb, Sw=Sw)
    else:
        with unchanged('fit', x, ids):
            t.fit(x, ids)
    same(t.mu, mu if um else m0, 'mean', rtol=1e-7, atol=1e-7)
    if not uT:
        same(t.T, T0, 'frozen projection')
        return
    check_discriminant(t, d, q, t.mu, Sb, Sw, x, r, 'LDA')


def nn_scatters(x, ids, K, alpha):
    C = ids.max() + 1
    dist = lambda a, b: np.sqrt(np.sum((a - b) ** 2))
    D, delta = np.zeros((C, len(x))), np.zeros((C,) + x.shape)
    for i in range(C):
        xi = x[ids == i]
        for l in range(len(x)):
            ds = np.array([dist(x[l], z) for z in xi])
            o = np.argsort(ds, kind='stable')[:K]
            D[i, l] = ds[o[-1]] ** alpha
            delta[i, l] = x[l] - xi[o].mean(axis=0)
    Sw = np.mean([np.mean([np.outer(delta[i, l], delta[i, l]) for l in np.flatnonzero(ids == i)], axis=0) for i in range(C)], axis=0)
    Sb = []
    for i in range(C):
        num, den = 0, 0
        for j in range(C):
            if j == i:
                continue
            for l in np.flatnonzero(ids == i):
                w = min(D[i, l], D[j, l]) / (D[i, l] + D[j, l])
                num, den = num + w * np.outer(delta[j, l], delta[j, l]), den + w
        Sb.append(num / den)
    mu = np.mean([x[ids == i].mean(axis=0) for i in range(C)], axis=0)
    return mu, np.mean(Sb, axis=0), Sw


@sub('P22', fd(base=class_st, K=st.integers(2, 4), alpha=st.sampled_from([1, 1., 2., .5]), nd=st.integers(0, 4)), quick=100, nontrivial=lambda k: k['base']['d'] > 1)
def nda(k, ctx):
    """nearest-neighbour discriminant analysis"""
    r = rng(k['base']['seed'])
    c = dict(k['base'], gap=False, nmin=max(k['K'], k['base']['nmin']))
    d = c['d']
    x, ids = classes(c, r)
    sc = (abs(c['loc']) + 3) * c['scale']
    mu, Sb, Sw = nn_scatters(x, ids, k['K'], k['alpha'])
    s = NSbSw(K=k['K'], alpha=k['alpha'])
    with unchanged('fit', x, ids):
        s.fit(x, ids)
    same(s.mu, mu, 'mean', rtol=1e-7, atol=1e-8 * sc)
    same(s.Sb, Sb, 'nearest-neighbour between-class scatter', rtol=1e-6, atol=1e-8 * sc ** 2)
    same(s.Sw, Sw, 'nearest-neighbour within-class scatter', rtol=1e-6, atol=1e-8 * sc ** 2)
    if la.eigvalsh(Sw)[0] < 1e-4 * c['scale'] ** 2:
        ctx.label('degenerate')
        return
    q = min(k['nd'], d) or d
    t = NDA()
    with unchanged('fit', mu, Sb, Sw):
        t.fit(mu, Sb, Sw, nda_dim=q if k['nd'] else None)
    check_discriminant(t, d, q, mu, Sb, Sw, x, r, 'NDA')


@sub('P22', fd(base=class_st, ud=st.integers(1, 4)), quick=150, nontrivial=lambda k: k['base']['d'] > 1)
def nuisance(k, ctx):
    """nuisance attribute projection"""
    r = rng(k['base']['seed'])
    d = k['base']['d']
    x, ids = classes(k['base'], r)
    q = min(k['ud'], d)
    Sw = scatters(x, ids)[2]
    t = NAP()
    with unchanged('fit', x, ids):
        t.fit(x, q, ids)
    require(t.U.shape == (q, d), 'subspace has shape %s', t.U.shape)
    same(t.U.dot(t.U.T), np.eye(q), 'orthonormal subspace', atol=1e-7)
    ev = la.eigvalsh(Sw)[::-1]
    same(t.U.dot(Sw).dot(t.U.T), np.diag(ev[:q]), 'within-class variance of the subspace', rtol=1e-5, atol=1e-6 * ev[0])
    y = pointwise(t, x, r, 'NAP')
    sc = np.abs(x).max()
    same(y.dot(t.U.T), np.zeros((len(x), q)), 'removed subspace', atol=1e-7 * sc)
    same(t.predict(y), y, 'projecting twice', rtol=1e-7, atol=1e-8 * sc)
    keep = la.null_space(t.U) if q < d else np.zeros((d, 0))
    same(y.dot(keep), x.dot(keep), 'kept subspace', rtol=1e-7, atol=1e-7 * sc)


@sub('P22', fd(base=data_st, maxv=st.integers(0, 20), n=st.integers(1, 8), f32=st.booleans()), quick=150, nontrivial=lambda k: k['base']['d'] > 1)
def gaussianize(k, ctx):
    """rank mapping to normal quantiles"""
    r = rng(k['base']['seed'])
    x = make(k['base'], r)
    if k['f32']:
        x = x.astype('float32')
    mv = None if k['maxv'] < 2 else k['maxv']
    t = Gaussianizer(max_vectors=mv)
    with unchanged('fit', x):
        t.fit(x)
    n = len(x)
    y = pointwise(t, x, r, 'gaussianisation')
    z = np.vstack([make(k['base'], r, k['n']), x.min(axis=0) - 1, x.max(axis=0) + 1, x[:1]]).astype(x.dtype)
    yz = pointwise(t, z, r, 'gaussianisation of other data')
    ref = np.sort(x, axis=0).astype(float)
    if mv is not None and n > mv:
        ctx.label('subsampled')
        ref = ref[np.round(np.linspace(0, n - 1, mv)).astype(int)]
    m = len(ref)
    for src, out in ((x, y), (z, yz)):
        cnt = np.stack([(ref[:, i][None] < src[:, i][:, None]).sum(axis=1) for i in range(x.shape[1])], axis=1)
        same(out, snorm.ppf((cnt + 1.) / (m + 2)), 'normal quantiles', rtol=1e-5, atol=1e-6)
    a, b = z[:, 0], yz[:, 0]
    o = np.argsort(a)
    require(np.all(np.diff(b[o]) >= 0), 'ranks not preserved')


@sub('P22', fd(base=class_st, order=st.lists(st.sampled_from(['cw', 'ln', 'pca', 'lda', 'mvn', 'nap', 'nda']), min_size=1, max_size=4), cut=st.integers(0, 3), named=st.booleans()), quick=150,
     nontrivial=lambda k: k['base']['d'] > 1 and len(k['order']) > 1)
def lists(k, ctx):
    """lists of transforms"""
    r = rng(k['base']['seed'])
    d = k['base']['d']
    x, _ = classes(k['base'], r)
    P = lambda: r.randn(d, d) + 2 * np.eye(d)
    mk = {'cw': lambda n: CentWhiten(mu=r.randn(d), T=P(), name=n), 'ln': lambda n: LNorm(mu=r.randn(d), name=n), 'pca': lambda n: PCA(mu=r.randn(d), T=P(), name=n),
          'lda': lambda n: LDA(mu=r.randn(d), T=P(), name=n), 'mvn': lambda n: MVN(mu=r.randn(d), s=r.uniform(.5, 2, d), name=n), 'nda': lambda n: NDA(mu=r.randn(d), T=P(), name=n),
          'nap': lambda n: NAP(U=la.orth(r.randn(d, 1)).T, name=n)}
    ts = [mk[o]('%s%d' % (o, i)) for i, o in enumerate(k['order'])]
    want = x
    for t in ts:
        want = t.predict(want)
    c = min(k['cut'], len(ts) - 1)
    name = 'list' if k['named'] else None
    L = TransformList(ts[:len(ts) - c], name=name)
    for t in ts[len(ts) - c:]:
        L.append(t)
    eq([t.name for t in L.transforms], [('list/' if k['named'] else '') + '%s%d' % (o, i) for i, o in enumerate(k['order'])], 'names')
    y = pointwise(L, x, r, 'list')
    same(y, want, 'list of transforms')
    if len(ts) == 1:
        same(TransformList(ts[0]).predict(x), want, 'single transform')
    nest = TransformList([TransformList(ts[:1]), TransformList(ts[1:])]) if len(ts) > 1 else TransformList([TransformList(ts)])
    same(nest.predict(x), want, 'list of lists')
