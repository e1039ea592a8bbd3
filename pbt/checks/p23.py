"""P23: models and transforms survive saving and loading."""
import json

import h5py
import scipy.linalg as la

from pbt.core import *
from pbt import plda_ref
from hyperion.hyp_model import HypModel
from hyperion.model_loader import ModelLoader
from hyperion.transforms import *
from hyperion.transforms.sb_sw import NSbSw
from hyperion.pdfs.core import Normal, NormalDiagCov
from hyperion.pdfs.mixtures import GMM, GMMDiagCov, GMMTiedDiagCov
from hyperion.pdfs.plda import FRPLDA, SPLDA, PLDA
from hyperion.classifiers import LinearGBE, LinearGBEUP, LogisticRegression, BinaryLogisticRegression, LinearSVMC, QScoringHomoGBE
from hyperion.calibration.gauss_calibration import GaussCalibration

RULE = 'more than one dimension, and a name or non-default options'
TOL = dict(rtol=2e-4, atol=2e-4)
names = st.sampled_from([None, 'm', 'a/b', 'model-1'])


def flags(r, *keys):
    return dict((k, bool(r.randint(2))) for k in keys)


def P(r, d):
    return r.randn(d, d) + 2 * np.eye(d)


# each maker returns (object, function to evaluate it: obj, x -> array)
def pred(m, x):
    return m.predict(x)


def mk_transform(kind, r, d, name, partial):
    f = flags(r, 'update_mu', 'update_T')
    mu = None if partial and r.randint(2) else r.randn(d)
    q = int(r.randint(1, d + 1))
    if kind in ('CentWhiten', 'LNorm', 'CentWhitenUP', 'LNormUP'):
        cls = globals()[kind]
        T = None if partial and r.randint(2) else P(r, d)
        ev = (lambda m, x: m.predict(np.hstack((x, x ** 2 + .1)))) if kind.endswith('UP') else pred
        return cls(mu=mu, T=T, name=name, **f), ev
    if kind == 'PCA':
        return PCA(mu=mu, T=P(r, d)[:, :q], pca_dim=q, name=name, **f), pred
    if kind == 'LDA':
        return LDA(mu=mu, T=P(r, d)[:, :q], name=name, **f), pred
    if kind == 'NDA':
        return NDA(mu=mu, T=P(r, d)[:, :q], name=name), pred
    if kind == 'NAP':
        return NAP(U=la.orth(r.randn(d, q)).T, name=name), pred
    if kind == 'MVN':
        return MVN(mu=mu, s=r.uniform(.5, 2, d), name=name), pred
    if kind == 'Gaussianizer':
        g = Gaussianizer(max_vectors=[None, 12][r.randint(2)], name=name)
        # single precision training data: order relations survive the rounding of the saved file
        g.fit(r.randn(20, d).astype('float32'))
        return g, lambda m, x: m.predict(x.astype('float32').astype(float))
    raise HarnessError(kind)


TRANSFORMS = ['CentWhiten', 'LNorm', 'CentWhitenUP', 'LNormUP', 'PCA', 'LDA', 'NDA', 'NAP', 'MVN', 'Gaussianizer']
POINTWISE = ['CentWhiten', 'LNorm', 'NAP', 'MVN', 'LDA', 'PCA', 'NDA']


def mk_pdf(kind, r, d, name, partial):
    f = flags(r, 'update_mu', 'update_Lambda')
    ev = lambda m, x: m.log_prob(x)
    vf = float(r.choice([1e-5, 1e-2]))
    if kind == 'Normal':
        return Normal(mu=r.randn(d), Lambda=rand_pd(r, d, .5, 2.), x_dim=d, var_floor=vf, name=name, **f), ev
    if kind == 'NormalDiagCov':
        return NormalDiagCov(mu=r.randn(d), Lambda=r.uniform(.5, 2., d), x_dim=d, var_floor=vf, name=name, **f), ev
    K = int(r.randint(1, 4))
    Lam = {'GMM': lambda: np.stack([rand_pd(r, d, .5, 2.) for _ in range(K)]), 'GMMDiagCov': lambda: r.uniform(.5, 2., (K, d)), 'GMMTiedDiagCov': lambda: r.uniform(.5, 2., d)}[kind]()
    m = globals()[kind](pi=r.dirichlet(np.ones(K) * 5), mu=r.randn(K, d), Lambda=Lam, x_dim=d, var_floor=vf, min_N=float(r.randint(3)), name=name, **dict(f, update_pi=bool(r.randint(2))))
    return m, ev


def mk_plda(kind, r, d, name, partial):
    q, z = int(r.randint(1, d + 1)), int(r.randint(1, d + 1))
    mu = r.randn(d)
    ev = lambda m, x: m.llr_1vs1(x[:3], x[3:])
    f = flags(r, 'update_mu')
    if kind == 'FRPLDA':
        return FRPLDA(mu=mu, B=rand_pd(r, d, .5, 2.), W=rand_pd(r, d, .5, 2.), fullcov_W=bool(r.randint(2)), name=name, **dict(f, **flags(r, 'update_B', 'update_W'))), ev
    if kind == 'SPLDA':
        return SPLDA(mu=mu, V=r.randn(q, d), W=rand_pd(r, d, .5, 2.), fullcov_W=bool(r.randint(2)), name=name, **dict(f, **flags(r, 'update_V', 'update_W'))), ev
    return PLDA(mu=mu, V=r.randn(q, d), U=.5 * r.randn(z, d), D=r.uniform(.5, 2., d), floor_iD=float(r.choice([1e-5, 1e-3])), name=name, **dict(f, **flags(r, 'update_V', 'update_U', 'update_D'))), ev


def mk_classifier(kind, r, d, name, partial):
    C = int(r.randint(3, 5))
    if kind in ('LinearGBE', 'LinearGBEUP'):
        m = globals()[kind](mu=r.randn(C, d), W=rand_pd(r, d, .5, 2.), beta=None if partial else r.uniform(2, 9, C), nu=None if partial else float(r.uniform(d + 2, 30)), balance_class_weight=bool(r.randint(2)),
                            prior_beta=[None, 8.][r.randint(2)], post_nu=[None, 4.][r.randint(2)], name=name, **flags(r, 'update_mu', 'update_W'))
        if kind == 'LinearGBEUP':
            return m, lambda m, x: m.predict(np.hstack((x, x ** 2 + .1)))
        return m, lambda m, x: np.hstack([m.predict(x, e, normalize=n) for e in (['linear', 'llk'] + ([] if m.nu is None else ['predictive'])) for n in (False, True)])
    if kind == 'LogisticRegression':
        p = r.dirichlet(np.ones(C) * 5)
        y = np.arange(6 * C) % C
        m = LogisticRegression(priors=[None, dict(enumerate(p.tolist())), p.tolist()][r.randint(3)], use_bias=bool(r.randint(2)), bias_scaling=float(r.choice([1., 3.])), lambda_reg=.1, name=name)
        m.fit(r.randn(6 * C, d) + y[:, None], y)
        return m, lambda m, x: np.hstack([m.predict(x, e) for e in ('logit', 'post', 'log-post')])
    if kind == 'BinaryLogisticRegression':
        m = BinaryLogisticRegression(prior=float(r.choice([.5, .1, .01])), lambda_reg=.1, bias_scaling=float(r.choice([1., 3.])), name=name)
        y = np.arange(12) % 2
        m.fit(r.randn(12, d) + y[:, None], y)
        return m, lambda m, x: np.stack([m.predict(x, e) for e in ('logit', 'post', 'log-post')])
    if kind == 'LinearSVMC':
        m = LinearSVMC(bias_scaling=float(r.choice([1., 3.])), balance_class_weight=bool(r.randint(2)), name=name)
        y = np.arange(6 * C) % C
        m.fit(r.randn(6 * C, d) + y[:, None], y)
        return m, lambda m, x: np.hstack([m.predict(x, e) for e in ('logit', 'bin-post', 'cat-logpost')])
    if kind == 'QScoringHomoGBE':
        return QScoringHomoGBE(mu=r.randn(C, d), W=r.uniform(2., 5., d), N=r.uniform(2, 9, C), balance_class_weight=bool(r.randint(2)), prior_N=[None, 4.][r.randint(2)], name=name), lambda m, x: m.predict(np.hstack((x, x ** 2 * .01 + .1)))
    if kind == 'GaussCalibration':
        return GaussCalibration(mu1=float(r.randn()) + 2, mu2=float(r.randn()), sigma2=float(r.uniform(.5, 2)), prior=float(r.uniform(.1, .9)), name=name), lambda m, x: m.predict(x[:, 0])
    raise HarnessError(kind)


PDFS = ['Normal', 'NormalDiagCov', 'GMM', 'GMMDiagCov', 'GMMTiedDiagCov']
PLDAS = ['FRPLDA', 'SPLDA', 'PLDA']
CLASSIFIERS = ['LinearGBE', 'LinearGBEUP', 'LogisticRegression', 'BinaryLogisticRegression', 'LinearSVMC', 'QScoringHomoGBE', 'GaussCalibration']
LOADABLE = TRANSFORMS + PDFS + PLDAS


def mk(kind, r, d, name, partial):
    if kind in TRANSFORMS:
        return mk_transform(kind, r, d, name, partial)
    if kind in PDFS:
        return mk_pdf(kind, r, d, name, partial)
    if kind in PLDAS:
        return mk_plda(kind, r, d, name, partial)
    return mk_classifier(kind, r, d, name, partial)


def config(m):
    c = json.loads(m.to_json())

    def norm(v):
        return dict((str(a), norm(b)) for a, b in v.items()) if isinstance(v, dict) else v
    return norm(c)


def attrs(m):
    """options of the object, whether or not its configuration mentions them"""
    return dict((a, getattr(m, a)) for a in ('update_mu', 'update_T', 'update_Lambda', 'update_pi', 'update_B', 'update_W', 'update_V', 'update_U', 'update_D', 'fullcov_W', 'var_floor', 'min_N', 'floor_iD', 'pca_dim', 'lda_dim',
                                             'max_vectors', 'x_dim', 'y_dim', 'z_dim', 'num_classes', 'num_comp', 'prior_beta', 'prior_nu', 'post_beta', 'post_nu', 'balance_class_weight', 'use_bias', 'bias_scaling', 'prior_N', 'name',
                                             'K', 'alpha') if hasattr(m, a))


def check(got, m, ev, x, what):
    require(type(got) is type(m), '%s: class %s', what, type(got).__name__)
    eq(config(got), config(m), what + ': configuration')
    a, b = attrs(got), attrs(m)
    eq(sorted(a), sorted(b), what + ': options')
    for q in a:
        require(a[q] == b[q] or (isinstance(b[q], float) and abs(a[q] - b[q]) < 1e-5), '%s: option %s is %r, was %r', what, q, a[q], b[q])
    with np.errstate(all='ignore'):
        w = ev(m, x)
        same(ev(got, x), w, what + ': output', rtol=TOL['rtol'], atol=TOL['atol'] * max(1., float(np.abs(w[np.isfinite(w)]).max()) if np.any(np.isfinite(w)) else 1.))


one_st = fd(seed=seeds, d=st.integers(1, 4), name=names, partial=st.booleans())
nt = lambda k: k['d'] > 1 and k['name'] is not None


def roundtrip(k, ctx, kinds):
    r = rng(k['seed'])
    for kind in kinds:
        ctx.label(kind)
        m, ev = mk(kind, r, k['d'], k['name'], k['partial'])
        x = r.randn(6, k['d'])
        p = ctx.path(*(['%s.h5' % kind] if r.randint(2) else ['new', 'dir', '%s.h5' % kind]))
        m.save(p)
        got = type(m).load(p)
        check(got, m, ev, x, kind)
        got.save(p)
        check(type(m).load(p), m, ev, x, kind + ' saved twice')
        if kind in LOADABLE:
            check(ModelLoader.load(p), m, ev, x, kind + ' through the generic loader')
        eq(HypModel.load_config(p)['class_name'], kind, 'class name in the file')
        c = m.copy()
        check(c, m, ev, x, kind + ' copied')
        require(c is not m, 'copy is the same object')


@sub('P23', one_st, quick=60, nontrivial=nt)
def transforms(k, ctx):
    """every transform"""
    roundtrip(k, ctx, TRANSFORMS)


@sub('P23', one_st, quick=60, nontrivial=nt)
def pdfs(k, ctx):
    """every density model"""
    roundtrip(k, ctx, PDFS)


@sub('P23', one_st, quick=60, nontrivial=nt)
def pldas(k, ctx):
    """every PLDA model"""
    roundtrip(k, ctx, PLDAS)


@sub('P23', one_st, quick=60, nontrivial=nt)
def classifiers(k, ctx):
    """every classifier and calibrator"""
    roundtrip(k, ctx, CLASSIFIERS)


@sub('P23', fd(seed=seeds, d=st.integers(1, 4), C=st.integers(2, 4), name=names), quick=60, nontrivial=nt)
def trained(k, ctx):
    """trained models: training continues in the same way after a round trip"""
    r = rng(k['seed'])
    d, C = k['d'], k['C']
    y = np.repeat(np.arange(C), 6 + d)
    x = r.randn(len(y), d).dot(P(r, d)) + 2 * r.randn(C, d)[y]
    x = x.astype('float32').astype(float)
    z = r.randn(6, d)
    K = 1 + r.randint(2)
    runs = [
        (CentWhiten(name=k['name']), lambda m: m.fit(x), pred), (LNorm(name=k['name']), lambda m: m.fit(x), pred), (PCA(pca_dim=1, name=k['name']), lambda m: m.fit(x), pred), (LDA(lda_dim=1, name=k['name']), lambda m: m.fit(x, y), pred),
        (MVN(name=k['name']), lambda m: m.fit(x), pred), (NAP(name=k['name']), lambda m: m.fit(x, 1, y), pred),
        (Normal(x_dim=d, name=k['name']), lambda m: m.fit(x), lambda m, z: m.log_prob(z)), (NormalDiagCov(x_dim=d, name=k['name']), lambda m: m.fit(x), lambda m, z: m.log_prob(z)),
        (GMMDiagCov(num_comp=K, x_dim=d, name=k['name']), lambda m: m.fit(x, epochs=3), lambda m, z: m.log_prob(z)), (GMMTiedDiagCov(num_comp=K, x_dim=d, name=k['name']), lambda m: m.fit(x, epochs=3), lambda m, z: m.log_prob(z)),
        (SPLDA(y_dim=1, name=k['name']), lambda m: m.fit(x, class_ids=y, epochs=2), lambda m, z: m.llr_1vs1(z, z)), (FRPLDA(name=k['name']), lambda m: m.fit(x, class_ids=y, epochs=2), lambda m, z: m.llr_1vs1(z, z)) if C > d + 1 else None,
        (LinearGBE(name=k['name']), lambda m: m.fit(x, y), pred), (BinaryLogisticRegression(name=k['name'], lambda_reg=.1), lambda m: m.fit(x, (y > 0).astype(int)), pred),
        (GaussCalibration(name=k['name']), lambda m: m.fit(x[:, 0], (y > 0).astype(int)), lambda m, z: m.predict(z[:, 0]))]
    for i, t in enumerate(runs):
        if t is None:
            continue
        m, fit, ev = t
        what = 'trained ' + type(m).__name__
        fit(m)
        ctx.label(type(m).__name__)
        w = ev(m, z)
        p = ctx.path('t%d.h5' % i)
        m.save(p)
        got = type(m).load(p)
        scale = max(1., float(np.abs(w).max()))
        same(ev(got, z), w, what + ': output', rtol=1e-3, atol=1e-3 * scale)
        eq(config(got), config(m), what + ': configuration')


@sub('P23', fd(seed=seeds, d=st.integers(1, 4), name=names, K=st.sampled_from([2, 3])), quick=40, nontrivial=nt)
def statistics(k, ctx):
    """scatter statistics; options kept when mixtures are split; untrained models"""
    r = rng(k['seed'])
    d = k['d']
    y = np.repeat([0, 1, 2], 4)
    x = r.randn(12, d)
    for s in (SbSw(name=k['name']), NSbSw(K=3, alpha=2, name=k['name'])):
        s.fit(x, y, normalize=False)
        p = ctx.path('s.h5')
        s.save(p)
        g = type(s).load(p)
        require(type(g) is type(s), 'class %s', type(g).__name__)
        same(g.Sb, s.Sb, 'Sb', rtol=1e-5, atol=1e-5)
        same(g.Sw, s.Sw, 'Sw', rtol=1e-5, atol=1e-5)
        same(g.mu, s.mu, 'mu', rtol=1e-5, atol=1e-5)
        eq(int(g.num_classes), int(s.num_classes), 'number of classes')
        eq(config(g), config(s), 'configuration')
        g.normalize()
        s.normalize()
        same(g.Sb, s.Sb, 'normalised Sb', rtol=1e-4, atol=1e-4)
    for kind in ('GMM', 'GMMDiagCov', 'GMMTiedDiagCov'):
        m, ev = mk(kind, r, d, k['name'], False)
        m2 = m.split_comp(k['K'])
        require(type(m2) is type(m), 'splitting returned %s', type(m2).__name__)
        a, b = attrs(m), attrs(m2)
        b['num_comp'] = a['num_comp']
        eq(b, a, kind + ': options after splitting')
    for m in (CentWhiten(name=k['name'], update_T=False), PCA(pca_dim=1, name=k['name']), LDA(lda_dim=1, name=k['name']), SPLDA(y_dim=2, name=k['name'], update_V=False), PLDA(y_dim=2, z_dim=1, name=k['name']),
              FRPLDA(name=k['name'], update_B=False), MVN(name=k['name']), LinearGBE(name=k['name'], num_classes=3, x_dim=2), GaussCalibration(name=k['name'])):
        p = ctx.path('u.h5')
        m.save(p)
        g = type(m).load(p)
        require(type(g) is type(m), 'class %s', type(g).__name__)
        eq(attrs(g), attrs(m), 'options of an untrained %s' % type(m).__name__)
        eq(config(g), config(m), 'configuration of an untrained %s' % type(m).__name__)
        for a in ('mu', 'T', 'V', 'W', 'B'):
            if hasattr(m, a):
                require(getattr(g, a) is None, '%s of an untrained %s is %r', a, type(m).__name__, getattr(g, a))


@sub('P23', fd(seed=seeds, d=st.integers(1, 4), order=st.one_of(st.lists(st.sampled_from(POINTWISE), min_size=1, max_size=5), st.lists(st.sampled_from(POINTWISE), min_size=10, max_size=14)), name=names, others=st.booleans(), append=st.booleans()), quick=100,
     nontrivial=lambda k: k['d'] > 1 and len(k['order']) > 1)
def lists(k, ctx):
    """lists of transforms, models sharing a file under different names"""
    r = rng(k['seed'])
    d = k['d']
    ts = []
    for i, o in enumerate(k['order']):
        t = mk_transform(o, r, d, 't%d' % i, False)[0]
        if o in ('PCA', 'LDA', 'NDA') and t.T.shape[1] != d:
            t = type(t)(mu=r.randn(d), T=P(r, d), name='t%d' % i)
        ts.append(t)
    if k['append'] and len(ts) > 1:
        L = TransformList(ts[:1], name=k['name'])
        for t in ts[1:]:
            L.append(t)
    else:
        L = TransformList(ts, name=k['name'])
    x = r.randn(6, d)
    want = L.predict(x)
    nm = [t.name for t in L.transforms]
    p = ctx.path('list.h5')
    L.save(p)
    g = TransformList.load(p)
    for i in range(3):
        eq([t.name for t in g.transforms], nm, 'names of the transforms')
        eq(g.name, k['name'], 'name of the list')
        eqlist([type(t).__name__ for t in g.transforms], k['order'], 'classes')
        same(g.predict(x), want, 'output of the list', rtol=2e-4, atol=2e-4 * max(1., np.abs(want).max()))
        eq(config(g), config(L), 'configuration of the list')
        g.save(p)
        g = ModelLoader.load(p) if i == 1 else TransformList.load(p)
    if k['others']:
        p = ctx.path('shared.h5')
        ms = [mk(kind, r, d, 'x%d' % i, False) for i, kind in enumerate(['CentWhiten', 'Normal', 'PCA', 'GMMDiagCov', 'SPLDA', 'LinearGBE'])]
        with h5py.File(p, 'w') as f:
            for m, ev in ms:
                m.save_params(f)
        with h5py.File(p, 'r') as f:
            for m, ev in r.permutation(np.array(ms, dtype=object)):
                check(type(m).load_params(f, json.loads(m.to_json())), m, ev, x, 'shared file: ' + type(m).__name__)


@sub('P23', fd(seed=seeds, d=st.integers(1, 4)), quick=40, nontrivial=lambda k: k['d'] > 1)
def matrices(k, ctx):
    """parameter files without a configuration; file names without a directory"""
    r = rng(k['seed'])
    d = k['d']
    x = r.randn(5, d)
    for kind in ('CentWhiten', 'LNorm', 'PCA', 'LDA', 'NDA', 'NAP', 'Gaussianizer'):
        m, ev = mk_transform(kind, r, d, None, False)
        p = ctx.path('m.h5')
        m.save_mat(p)
        g = type(m).load_mat(p)
        w = ev(m, x)
        same(ev(g, x), w, kind + ' from its matrices', rtol=2e-4, atol=2e-4 * max(1., np.abs(w).max()))
    cwd = os.getcwd()
    os.chdir(ctx.dir)
    try:
        m.save('plain.h5')
        check(type(m).load('plain.h5'), m, ev, x, 'file in the working directory')
    finally:
        os.chdir(cwd)
