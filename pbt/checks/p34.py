"""P34: plots draw the distributions and matrices they are given."""
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from mpl_toolkits.mplot3d import Axes3D
from scipy.stats import multivariate_normal as mvn

from pbt.core import *
from hyperion.utils import plotting as G
from hyperion.pdfs import Normal, NormalDiagCov, GMM, GMMDiagCov
from hyperion.pdfs.mixtures.gmm_tied_diag_cov import GMMTiedDiagCov
from hyperion.metrics.confusion_matrix import plot_confusion_matrix

RULE = 'more than one component, correlated dimensions or more than two classes'


class Record(object):
    """records what is given to the 3-D axes, in place of drawing it"""

    def __enter__(self):
        self.calls = []
        self.old = Axes3D.plot_surface, Axes3D.plot_wireframe
        Axes3D.plot_surface = lambda ax, X, Y, Z, **kw: self.calls.append(('surface', ax, X, Y, Z, kw))
        Axes3D.plot_wireframe = lambda ax, X, Y, Z, **kw: self.calls.append(('wire', ax, X, Y, Z, kw))
        plt.close('all')
        return self

    def __exit__(self, *a):
        Axes3D.plot_surface, Axes3D.plot_wireframe = self.old
        plt.close('all')


def check_1d(line, mu, var, ns, npts, w=1.):
    x, y = line.get_data()
    eq(len(x), npts, 'points')
    s = np.sqrt(var)
    same([x[0], x[-1]], [mu - ns * s, mu + ns * s], 'interval', rtol=1e-9, atol=1e-9)
    same(np.diff(x), np.full(npts - 1, 2 * ns * s / (npts - 1)), 'spacing', rtol=1e-6)
    same(y, w * np.exp(-.5 * (x - mu) ** 2 / var) / np.sqrt(2 * np.pi * var), 'density', rtol=1e-8, atol=1e-12)


def check_ellipse(line, mu, C, ns, npts):
    x = np.stack(line.get_data(), axis=1) - mu
    eq(len(x), npts, 'points')
    m = np.sqrt(np.sum(x.dot(np.linalg.inv(C)) * x, axis=1))
    same(m, np.full(npts, float(ns)), 'Mahalanobis distance of the ellipse', rtol=1e-6)
    same(x[0], x[-1], 'ends of the ellipse', atol=1e-9)
    if npts > 10:
        a = np.unwrap(np.arctan2(*np.linalg.solve(np.linalg.cholesky(C), x.T)))
        same(abs(a[-1] - a[0]), 2 * np.pi, 'turns of the ellipse', rtol=1e-6)


def check_surface(call, mu, C, ns, npts):
    eq(call[0], 'surface', 'plot')
    X, Y, Z = call[2:5]
    eq(X.shape, (npts, npts), 'grid')
    s = np.sqrt(np.diag(C))
    same([X.min(), X.max(), Y.min(), Y.max()], [mu[0] - ns * s[0], mu[0] + ns * s[0], mu[1] - ns * s[1], mu[1] + ns * s[1]], 'limits of the grid', rtol=1e-9, atol=1e-9)
    same(Z, mvn(mu, C).pdf(np.stack((X, Y), axis=-1)), 'density', rtol=1e-7, atol=1e-14)


def check_wire(call, mu, C, ns):
    eq(call[0], 'wire', 'plot')
    x = np.stack([a.ravel() for a in call[2:5]], axis=1) - mu
    m = np.sqrt(np.sum(x.dot(np.linalg.inv(C)) * x, axis=1))
    same(m, np.full(len(x), float(ns)), 'Mahalanobis distance of the ellipsoid', rtol=1e-6)
    if len(x) < 100:
        return
    z = np.linalg.solve(np.linalg.cholesky(C), x.T).T / ns
    require(np.all(z.max(axis=0) > .5) and np.all(z.min(axis=0) < -.5), 'ellipsoid not covered')


fn_st = fd(seed=seeds, npts=st.integers(5, 30), ns=st.sampled_from([.5, 1, 2, 3]), w=st.sampled_from([1., .3]), ax=st.booleans(), defaults=st.booleans())


@sub('P34', fn_st, quick=60, nontrivial=lambda k: k['ns'] != 1)
def gaussians(k, ctx):
    """densities and ellipsoids of single Gaussians"""
    r = rng(k['seed'])
    mu, C = r.randn(3), rand_pd(r, 3, .2, 4.)
    kw = {} if k['defaults'] else dict(num_sigmas=k['ns'], num_pts=k['npts'])
    ns = lambda d: d if k['defaults'] else k['ns']
    npts = 100 if k['defaults'] else k['npts']
    with Record() as rec, unchanged('plot', mu, C):
        plt.figure()
        G.plot_gaussian_1D(mu[0], C[0, 0], weight=k['w'], color='r', **kw)
        line, = plt.gca().lines
        check_1d(line, mu[0], C[0, 0], ns(3), npts, k['w'])
        eq(line.get_color(), 'r', 'colour')
        plt.figure()
        G.plot_gaussian_ellipsoid_2D(mu[:2], C[:2, :2], linestyle='--', **kw)
        line, = plt.gca().lines
        check_ellipse(line, mu[:2], C[:2, :2], ns(1), npts)
        eq(line.get_linestyle(), '--', 'line style')
        ax = plt.figure().add_subplot(111, projection='3d') if k['ax'] else None
        a = {} if ax is None else dict(ax=ax)
        G.plot_gaussian_3D(mu[:2], C[:2, :2], alpha=.5, **dict(kw, **a))
        G.plot_gaussian_ellipsoid_3D(mu, C, alpha=.5, **dict(kw, **a))
        eq(len(rec.calls), 2, 'plots')
        check_surface(rec.calls[0], mu[:2], C[:2, :2], ns(3), npts)
        check_wire(rec.calls[1], mu, C, ns(1))
        for c in rec.calls:
            eq(c[5], dict(alpha=.5), 'options')
            if ax is not None:
                require(c[1] is ax, 'drawn in other axes')


@sub('P34', fd(seed=seeds, kind=st.sampled_from(['normal', 'diag', 'gmm', 'diaggmm', 'tied']), d=st.integers(3, 5), K=st.integers(1, 3), f=st.permutations([0, 1, 2]),
               ns=st.sampled_from([1, 2, 3]), npts=st.integers(5, 20), defaults=st.booleans()), quick=80, nontrivial=lambda k: k['K'] > 1)
def models(k, ctx):
    """every component of a model is drawn with its own mean and covariance, for the requested features"""
    r = rng(k['seed'])
    d, K = k['d'], k['K'] if 'gmm' in k['kind'] or k['kind'] == 'tied' else 1
    mu = r.randn(K, d) * 2
    C = np.stack([rand_pd(r, d, .3, 3.) for _ in range(K)])
    if k['kind'] not in ('normal', 'gmm'):
        C = np.stack([np.diag(np.diag(c)) for c in C])
    if k['kind'] == 'tied':
        C = np.stack([C[0]] * K)
    L = np.stack([np.linalg.inv(c) for c in C])
    dg = np.stack([np.diag(l) for l in L])
    pi = r.uniform(.5, 1, K)
    pi /= pi.sum()
    m = dict(normal=lambda: Normal(x_dim=d, mu=mu[0], Lambda=L[0]), diag=lambda: NormalDiagCov(x_dim=d, mu=mu[0], Lambda=dg[0]), gmm=lambda: GMM(num_comp=K, x_dim=d, mu=mu, Lambda=L, pi=pi),
             diaggmm=lambda: GMMDiagCov(num_comp=K, x_dim=d, mu=mu, Lambda=dg, pi=pi), tied=lambda: GMMTiedDiagCov(num_comp=K, x_dim=d, mu=mu, Lambda=dg[0], pi=pi))[k['kind']]()
    require(m.is_init, 'model is not ready')
    f = list(k['f'])
    kw = {} if k['defaults'] else dict(num_sigmas=k['ns'], num_pts=k['npts'])
    ns = 2 if k['defaults'] else k['ns']
    npts = 100 if k['defaults'] else k['npts']
    g = lambda n: dict(kw) if k['defaults'] else dict(kw, feat_idx=f[0] if n == 0 else f[:n])
    ff = [0, 1, 2] if k['defaults'] else f
    with Record() as rec:
        plt.figure()
        m.plot1D(**g(0))
        eq(len(plt.gca().lines), K, 'lines')
        for i, line in enumerate(plt.gca().lines):
            check_1d(line, mu[i, ff[0]], C[i][ff[0], ff[0]], ns, npts)
        plt.figure()
        m.plot2D(**g(2))
        eq(len(plt.gca().lines), K, 'ellipses')
        for i, line in enumerate(plt.gca().lines):
            check_ellipse(line, mu[i, ff[:2]], C[i][np.ix_(ff[:2], ff[:2])], ns, npts)
        m.plot3D(**g(2))
        eq(len(rec.calls), K, 'surfaces')
        for i, c in enumerate(rec.calls):
            check_surface(c, mu[i, ff[:2]], C[i][np.ix_(ff[:2], ff[:2])], ns, npts)
        rec.calls[:] = []
        m.plot3D_ellipsoid(**g(3))
        eq(len(rec.calls), K, 'ellipsoids')
        for i, c in enumerate(rec.calls):
            check_wire(c, mu[i, ff], C[i][np.ix_(ff, ff)], ns)


@sub('P34', fd(seed=seeds, n=st.integers(1, 5), m=st.integers(1, 5), rect=st.booleans(), norm=st.booleans(), title=st.sampled_from([None, 'T'])), quick=60, nontrivial=lambda k: k['n'] > 2)
def confusion(k, ctx):
    """confusion matrices are drawn with their counts and labels"""
    r = rng(k['seed'])
    n, m = k['n'], k['m'] if k['rect'] else k['n']
    C = r.randint(0, 30, (n, m))
    C[:, 0] += 2
    if k['norm']:
        C = C / C.sum(axis=1, keepdims=True)
    rows, cols = ['r%d' % i for i in range(n)], ['c%d' % i for i in range(m)]
    plt.close('all')
    fig = plt.figure()
    kw = {} if k['title'] is None else dict(title=k['title'])
    with unchanged('plot', C):
        plot_confusion_matrix(C, rows, cols if k['rect'] else None, **kw)
    ax = fig.axes[0]
    same(np.asarray(ax.images[0].get_array()), C, 'image')
    eq(ax.get_title(), k['title'] or 'Confusion matrix', 'title')
    fig.canvas.draw()
    eqlist([t.get_text() for t in ax.get_yticklabels()], rows, 'row labels')
    eqlist([t.get_text() for t in ax.get_xticklabels()], cols if k['rect'] else rows, 'column labels')
    same(ax.get_xticks(), np.arange(m), 'column positions')
    same(ax.get_yticks(), np.arange(n), 'row positions')
    got = dict(((int(t.get_position()[1]), int(t.get_position()[0])), t.get_text()) for t in ax.texts)
    eq(len(got), n * m, 'printed entries')
    for (i, j), t in got.items():
        require(abs(float(t.strip().rstrip('%')) * (.01 if '%' in t else 1) - C[i, j]) <= (.006 if k['norm'] else 1e-9), 'entry %d,%d printed as %s, is %s', i, j, t, C[i, j])
    plt.close('all')
