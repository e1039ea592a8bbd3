"""P43: layers, losses and constraints of the Keras part, on the numpy stand-ins of Keras, Theano and TensorFlow."""
import numpy as np
from scipy.fftpack import dct, idct
from scipy.special import expit, logsumexp
from scipy.stats import multivariate_normal

from pbt.core import *
from pbt.keraslib import K, noise
from keras import constraints as kc, initializers as ki
from keras.engine import Layer
from keras.layers import Input
import hyperion.keras.layers as L
from hyperion.keras.layers import pooling as LP, core as LC, cov as LV, feats as LF, losses as LL, scoring as LS, sampling as SA, tensor_manipulation as LT, advanced_activations as LA, masking as LM
from hyperion.keras import losses as KL, objectives as KO, constraints as HC
from hyperion.keras.backend_addons import theano_backend as TH, tensorflow_backend as TF

RULE = 'more than one frame, dimension and item of the batch, or options away from their defaults'
TOL = dict(rtol=1e-8, atol=1e-9)
TOL4 = dict(rtol=1e-6, atol=1e-6)


class Arr(np.ndarray):
    """array that takes a list of slices as index, as the tensors of Theano and TensorFlow do"""
    def __getitem__(self, i):
        return np.ndarray.__getitem__(self, tuple(i) if isinstance(i, list) and any(isinstance(a, slice) for a in i) else i)


def run_layer(layer, ins, what, shape=True, **kw):
    """outputs of a layer; its output shape has to be that of the outputs, and its inputs are left alone"""
    many = isinstance(ins, list)
    with unchanged(what, *(ins if many else [ins])):
        out = layer(ins, **kw)
    if shape:
        s = layer.compute_output_shape([tuple(a.shape) for a in ins] if many else tuple(ins.shape))
        want = [tuple(np.shape(o)) for o in out] if isinstance(out, list) else tuple(np.shape(out))
        got = [tuple(a) for a in s] if isinstance(out, list) else tuple(s)
        eq(got, want, '%s: output shape' % what)
        # the number of frames and the size of the batch may be unknown
        if many:
            s = layer.compute_output_shape([(None,) + tuple(a.shape[1:]) for a in ins])
        else:
            s = layer.compute_output_shape((None,) + tuple(ins.shape[1:]))
        if not isinstance(out, list):
            eq(tuple(s)[1:], want[1:], '%s: output shape of a batch of unknown size' % what)
    return out


def again(layer, ins, out, what, **kw):
    """the layer made from the configuration and the weights of another one gives the same outputs"""
    c = layer.get_config()
    eq(c['name'], layer.name, what + ': name in the configuration')
    l2 = type(layer).from_config(dict(c))
    many = isinstance(ins, list)
    l2._prepare([tuple(a.shape) for a in (ins if many else [ins])], many)
    l2.set_weights(layer.get_weights())
    o2 = l2(ins, **kw)
    for a, b in zip(o2 if isinstance(out, list) else [o2], out if isinstance(out, list) else [out]):
        same(a, b, what + ': output of the layer made from the configuration', **TOL)
    eq(set(l2.get_config()), set(c), what + ': fields of the configuration')
    return l2


def mask_of(c, r, zero=True):
    B, T = c['B'], c['T']
    if c['w'] == 'ones':
        w = np.ones((B, T))
    elif c['w'] == 'mask':
        w = np.zeros((B, T))
        for b in range(B):
            n = r.randint(1, T + 1)
            i = r.permutation(T)[:n] if r.rand() < 0.5 else np.arange(n)
            w[b, i] = 1
    else:
        w = r.rand(B, T) + 0.05
        w[r.rand(B, T) < 0.3] = 0
        w[:, 0] = 0.7
    return w


pool_st = fd(kind=st.sampled_from(['max', 'mean', 'sum', 'meanstd', 'meanlogvar', 'sum0', 'sumw', 'masked']), B=st.integers(1, 3), T=st.integers(1, 7), D=st.integers(1, 4),
             w=st.sampled_from(['ones', 'mask', 'float']), nd=st.sampled_from([2, 3]), off=st.sampled_from([0., 5., -5.]), seed=seeds)


@sub('P43', pool_st, quick=500, nontrivial=lambda c: c['T'] > 1 and c['w'] != 'ones')
def weighted_pooling(c, ctx):
    """statistics over time of the frames with weights"""
    r = rng(c['seed'])
    x = r.randn(c['B'], c['T'], c['D']) + c['off']
    if c['kind'] == 'max' and c['w'] == 'float':
        c = dict(c, w='mask')
    w = mask_of(c, r)
    k = c['kind']
    ctx.label(k, c['w'], '%d-D weights' % c['nd'])
    wi = w if c['nd'] == 2 else w[..., None]
    W = w[..., None]
    mu = np.sum(W * x, 1) / W.sum(1)
    var = np.stack([np.average((x[b] - mu[b]) ** 2, axis=0, weights=w[b]) for b in range(c['B'])])
    if k in ('sum0', 'sumw'):
        l = LP.GlobalSumPooling1D() if k == 'sum0' else LP.GlobalSumWeights()
        z = x if k == 'sum0' else W
        out = run_layer(l, z, k)
        same(out, z.sum(1), k, **TOL)
        again(l, z, out, k)
        return
    if k == 'masked':
        l = LP.GlobalMaskedAveragePooling1D()
        m = w > 0
        out = run_layer(l, x, k, mask=m)
        same(out, np.stack([x[b][m[b]].mean(0) for b in range(c['B'])]), 'average of the frames in the mask', **TOL)
        same(l.call(x), x.mean(1), 'average without a mask', **TOL)
        return
    cls, want = {'max': (LP.GlobalMaskedMaxPooling1D, lambda: np.stack([x[b][w[b] > 0].max(0) for b in range(c['B'])])),
                 'mean': (LP.GlobalWeightedAveragePooling1D, lambda: mu), 'sum': (LP.GlobalWeightedSumPooling1D, lambda: (x * W).sum(1)),
                 'meanstd': (LP.GlobalWeightedMeanStdPooling1D, lambda: [mu, np.sqrt(var)]),
                 'meanlogvar': (LP.GlobalWeightedMeanLogVarPooling1D, lambda: [mu, np.log(var + 1e-10)])}[k]
    l = cls()
    out = run_layer(l, [x, wi], k)
    want = want()
    for a, b, n in zip(out, want, ('mean', 'dispersion')) if isinstance(want, list) else [(out, want, k)]:
        same(a, b, '%s pooling: %s' % (k, n), **TOL4)
    again(l, [x, wi], out, k)
    # frames of no weight do not count
    y = np.where(W > 0, x, r.randn(*x.shape) * 3)
    o2 = l([y, wi])
    for a, b in zip(out, o2) if isinstance(out, list) else [(out, o2)]:
        same(b, a, k + ' pooling after changing the frames of no weight', **TOL4)
    # one item at a time
    o1 = [l([x[b:b + 1], wi[b:b + 1]]) for b in range(c['B'])]
    for i, a in enumerate(out if isinstance(out, list) else [out]):
        same(np.concatenate([o[i] if isinstance(out, list) else o for o in o1]), a, k + ' pooling of each item alone', **TOL4)
    if k == 'max':      # both sets of addons
        for m, n in ((TH, 'Theano'), (TF, 'TensorFlow')):
            for kd in (False, True):
                same(np.asarray(m.max_with_mask(x, W, axis=1, keepdims=kd)), want[:, None] if kd else want, 'max_with_mask of the %s addons' % n, **TOL4)


FMT2 = ['logitvar', 'logprec-1', 'logvar', 'logprec', 'var', 'prec', 'prec-1']


def to_prec(p, fmt, b):
    """precision, with the variance limited to [b, 1]"""
    if fmt in ('logitvar', 'logprec-1'):
        y = np.clip(p, -7, 7) * (-1 if fmt == 'logitvar' else 1)
        v = b + (1 - b) * expit(-y)       # logit of the variance within its limits
        return 1 / v
    q = {'logvar': lambda: np.exp(-p), 'logprec': lambda: np.exp(p), 'var': lambda: 1 / p, 'prec': lambda: p, 'prec-1': lambda: p + 1}[fmt]()
    return np.clip(q, 1, 1 / b)


def from_prec(q, fmt, b):
    if fmt in ('logitvar', 'logprec-1'):
        v = np.clip((1 / q - b) / (1 - b), 1e-12, 1 - 1e-12)
        y = np.log(v) - np.log(1 - v)
        return y if fmt == 'logitvar' else -y
    return {'logvar': lambda: -np.log(q), 'logprec': lambda: np.log(q), 'var': lambda: 1 / q, 'prec': lambda: q, 'prec-1': lambda: q - 1}[fmt]()


OUT2 = ['logvar', 'var', 'logprec', 'prec']


@sub('P43', fd(B=st.integers(1, 3), T=st.integers(1, 6), D=st.integers(1, 3), m1=st.sampled_from(['nat', 'mean']), f1=st.sampled_from(FMT2), m2=st.sampled_from(['nat', 'mean']), f2=st.sampled_from(OUT2),
               min_var=st.sampled_from([0.001, 0.01, 0.2, 0.5]), pen=st.sampled_from([1, 0.5, 0.1]), w=st.sampled_from(['ones', 'mask', 'float']), nd=st.sampled_from([2, 3]), wide=st.booleans(), seed=seeds), quick=500,
     nontrivial=lambda c: c['T'] > 1 and c['f1'] != c['f2'])
def posterior_pooling(c, ctx):
    """product of the Gaussian posteriors of the frames with the standard normal prior, whatever the format of its parameters"""
    r = rng(c['seed'])
    b = c['min_var']
    v = np.exp(np.log(b) + (r.rand(c['B'], c['T'], c['D']) * 0.96 + 0.02) * -np.log(b))
    q = 1 / v
    p2 = from_prec(q, c['f1'], b)
    if c['wide']:       # beyond the limits of the variance
        p2 = {'logitvar': r.randn, 'logprec-1': r.randn, 'logvar': r.randn, 'logprec': r.randn}.get(c['f1'], r.rand)(*q.shape) * 12 + (0.01 if c['f1'] in ('var', 'prec', 'prec-1') else 0)
    q = to_prec(p2, c['f1'], b)
    m = r.randn(*q.shape)
    p1 = m if c['m1'] == 'mean' else m * q
    w = mask_of(c, r)
    wi = w if c['nd'] == 2 else w[..., None]
    W = w[..., None]
    eta = c['pen'] * np.sum(W * m * q, 1)
    prec = np.clip(1 + c['pen'] * np.sum(W * (q - 1), 1), 1, 1e5)
    l = LP.GlobalNormalDiagCovPostStdPriorPooling1D(in_fmt='%s+%s' % (c['m1'], c['f1']), out_fmt='%s+%s' % (c['m2'], c['f2']), min_var=b, frame_corr_penalty=c['pen'])
    ctx.label(c['f1'] + ' to ' + c['f2'])
    ins = [p1, p2, wi]
    o = run_layer(l, ins, 'posterior pooling')
    same(o[0], eta if c['m2'] == 'nat' else eta / prec, 'posterior pooling: ' + c['m2'], rtol=1e-6, atol=1e-7)
    same(o[1], from_prec(prec, c['f2'], b), 'posterior pooling: ' + c['f2'], rtol=1e-6, atol=1e-7)
    again(l, ins, o, 'posterior pooling')
    j = LP.GlobalNormalDiagCovPostStdPriorPooling1D(in_fmt='%s+%s' % (c['m1'], c['f1']), out_fmt=l.get_config()['out_fmt'], min_var=b, frame_corr_penalty=c['pen'])
    keep = np.argsort(r.rand(c['T']))
    o2 = j([p1[:, keep], p2[:, keep], wi[:, keep]])
    for a, d in zip(o, o2):
        same(d, a, 'posterior pooling after reordering the frames', rtol=1e-6, atol=1e-7)
    # conversion between formats
    l = SA.ConvertNormalDiagCovPostStdPriorFmt(l.get_config()['in_fmt'], l.get_config()['out_fmt'], min_var=b)
    o = run_layer(l, [p1, p2], 'conversion')
    same(o[0], m * q if c['m2'] == 'nat' else m, 'conversion to ' + c['m2'], rtol=1e-6, atol=1e-7)
    same(o[1], from_prec(q, c['f2'], b), 'conversion to ' + c['f2'], rtol=1e-6, atol=1e-7)
    again(l, [p1, p2], o, 'conversion')


@sub('P43', fd(kind=st.sampled_from(['0', '2', '3', 'common', 'c1', 'c2', 'c3', 'c4', 'full']), B=st.integers(1, 3), T=st.integers(1, 5), D=st.integers(1, 3), w=st.sampled_from(['ones', 'mask', 'float']), nd=st.sampled_from([2, 3]),
               min_var=st.sampled_from([None, 0.5]), seed=seeds), quick=300, nontrivial=lambda c: c['T'] > 1)
def product_of_posteriors(c, ctx):
    """older layers that multiply the posteriors of the frames"""
    r = rng(c['seed'])
    k = c['kind']
    x = r.randn(c['B'], c['T'], c['D'])
    w = mask_of(c, r)
    W = w[..., None]
    wi = w if c['nd'] == 2 else W
    N = W.sum(1)
    g = (W * x).sum(1)
    ctx.label(k)
    kw = {} if c['min_var'] is None else dict(min_var=c['min_var'])
    bb = c['min_var'] or 0.95
    if k in ('0', '2', '3'):
        y = r.randn(*x.shape)
        l = {'0': LP.GlobalProdRenormDiagNormalStdPrior, '2': LP.GlobalProdRenormDiagNormalStdPrior2, '3': LP.GlobalProdRenormDiagNormalStdPrior3}[k](**({} if k == '0' else kw))
        ins = [x, y, wi]
        prec = 1 + np.sum(W * (np.exp(-y) if k == '0' else 1 / (bb + (1 - bb) * expit(-y)) - 1), 1)
        want = [np.mean(W * x, 1) if k == '3' else g / prec, -np.log(prec)]
    elif k == 'common':
        lv = -r.rand(c['B'], c['D'])
        l, ins = LP.GlobalProdRenormDiagNormalCommonCovStdPrior(), [x, lv, wi]
        prec = 1 + N * (np.exp(-lv) - 1)
        want = [g / prec, -np.log(prec)]
    else:
        cls = {'c1': LP.GlobalProdRenormDiagNormalConstCovStdPrior, 'c2': LP.GlobalProdRenormDiagNormalConstCovStdPrior2, 'c3': LP.GlobalProdRenormDiagNormalConstCovStdPrior3,
               'c4': LP.GlobalProdRenormDiagNormalConstCovStdPrior4, 'full': LP.GlobalProdRenormNormalConstCovStdPrior}[k]
        l, ins = cls(c['D']), [x, wi]
        l._prepare([a.shape for a in ins], True)
        D = c['D']
        if k == 'full':
            d, ch = r.randn(D), np.triu(r.randn(D, D), 1) + np.eye(D)
            l.set_weights([d, ch])
            P = np.linalg.inv(ch.T.dot(np.diag(np.exp(d))).dot(ch))
            cov = np.stack([np.linalg.inv(np.eye(D) + n[0] * P) for n in N])
            o = run_layer(l, ins, k)
            same(o[0], np.stack([cov[b].dot(g[b]) for b in range(c['B'])]), 'mean', rtol=1e-6, atol=1e-8)
            for b in range(c['B']):
                same(o[2][b], np.triu(o[2][b]), 'Cholesky factor is upper triangular', atol=1e-10)
                same(np.diag(o[2][b]), np.ones(D), 'diagonal of the Cholesky factor', **TOL)
                same(o[2][b].T.dot(np.diag(np.exp(o[1][b]))).dot(o[2][b]), cov[b], 'covariance', rtol=1e-6, atol=1e-8)
            again(l, ins, o, k)
            return
        a, e = (-r.rand(D), None) if k == 'c1' else (r.randn(D), r.randn(D))
        l.set_weights([a] if k in ('c1', 'c2') else [a, e])
        prec = {'c1': lambda: 1 + N * (np.exp(-a) - 1), 'c2': lambda: 1 + N * np.maximum(a, 0), 'c3': lambda: 1 + np.maximum(N * a + e, 0), 'c4': lambda: np.exp(e) + N * np.exp(a)}[k]()
        want = [g / prec, -np.log(prec)]
    o = run_layer(l, ins, k)
    same(o[0], want[0], 'mean', **TOL4)
    same(o[1], want[1], 'log-variance', **TOL4)
    again(l, ins, o, k)


@sub('P43', fd(B=st.integers(1, 3), T=st.integers(1, 6), D=st.integers(1, 3), C=st.integers(1, 4), order=st.sampled_from([1, 2, None]), w=st.sampled_from(['ones', 'mask', 'float']), nd=st.sampled_from([2, 3]), seed=seeds), quick=200,
     nontrivial=lambda c: c['T'] > 1 and c['C'] > 1)
def dictionary_encoder(c, ctx):
    """mean of the frames relative to each word, weighted by the posterior of the word"""
    r = rng(c['seed'])
    x, w = r.randn(c['B'], c['T'], c['D']), mask_of(c, r)
    l = LP.LDE1D(num_comp=c['C']) if c['order'] is None else LP.LDE1D(c['C'], c['order'])
    ins = [x, w if c['nd'] == 2 else w[..., None]]
    l._prepare([a.shape for a in ins], True)
    mu, s = r.randn(c['C'], c['D']), r.rand(c['C']) * 2
    l.set_weights([mu, s])
    d = x[:, :, None] - mu
    dist = np.abs(d).sum(-1) if c['order'] == 1 else (d ** 2).sum(-1)
    a = -s * dist
    p = np.exp(a - logsumexp(a, axis=-1, keepdims=True)) * w[..., None]
    want = np.concatenate([(p[:, :, k, None] * x).sum(1) / p[:, :, k, None].sum(1) - mu[k] for k in range(c['C'])], axis=-1)
    o = run_layer(l, ins, 'LDE1D')
    same(o, want, 'encoding', **TOL4)
    again(l, ins, o, 'LDE1D')
    l.set_weights([mu, s - 1])
    l.constrain()
    same(l.get_weights()[1], np.maximum(s - 1, 0), 'precisions after an update are not negative', **TOL)


def chol_of(r, d):
    return np.triu(r.randn(d, d), 1) + np.eye(d)


@sub('P43', fd(kind=st.sampled_from(['diag', 'std', 'cov', 'bias', 'const', 'tconst', 'triu', 'ttriu']), shape=st.lists(st.integers(1, 4), min_size=2, max_size=3), act=st.sampled_from([None, 'relu', 'tanh', 'sigmoid']), dv=st.sampled_from([None, 0, 1, 2.5]), seed=seeds),
     quick=300, nontrivial=lambda c: len(c['shape']) == 3)
def parameter_layers(c, ctx):
    """layers whose parameters are a bias, a constant or the covariance of a Gaussian"""
    r = rng(c['seed'])
    k, D = c['kind'], c['shape'][-1]
    x = r.randn(*c['shape'])
    lead = tuple(c['shape'][:-1])
    ctx.label(k)
    p = r.randn(D)
    if k in ('diag', 'std', 'cov'):
        l = {'diag': LV.MultConstDiagCov, 'std': LV.MultConstDiagCovStdPrior, 'cov': LV.MultConstCovStdPrior}[k](D)
        l._prepare([x.shape], False)
        lv = p if k == 'diag' else -np.log1p(np.exp(p))
        if k == 'cov':
            ch = chol_of(r, D)
            l.set_weights([p, ch])
            cov = ch.T.dot(np.diag(np.exp(lv))).dot(ch)
            want = [x.dot(cov), np.broadcast_to(lv, x.shape), np.broadcast_to(ch, lead + (D, D))]
        else:
            l.set_weights([p])
            want = [x * np.exp(lv), np.broadcast_to(lv, x.shape)]
        o = run_layer(l, x, k)
        for a, b, n in zip(o, want, ('mean', 'log-variance', 'Cholesky factor')):
            same(a, b, '%s: %s' % (k, n), **TOL4)
        eq(len(o), len(want), 'outputs')
        again(l, x, o, k)
        if k == 'cov':
            l.set_weights([p, r.randn(D, D)])
            l.constrain()
            ch = l.get_weights()[1]
            same(ch, np.triu(ch, 1) + np.eye(D), 'factor after an update is upper triangular of unit diagonal', **TOL)
        return
    if k == 'bias':
        l = LC.Bias(D, activation=c['act'])
        l._prepare([x.shape], False)
        l.set_weights([p])
        f = {None: lambda a: a, 'relu': lambda a: np.maximum(a, 0), 'tanh': np.tanh, 'sigmoid': expit}[c['act']]
        o = run_layer(l, x, k)
        same(o, f(x + p), 'bias', **TOL)
    elif k in ('const', 'tconst'):
        l = (LC.Constant if k == 'const' else LC.TiledConstant)(D)
        l._prepare([x.shape], False)
        l.set_weights([p])
        o = run_layer(l, x, k, shape=False)
        same(o, p if k == 'const' else np.broadcast_to(p, x.shape), 'constant', **TOL)
        eq(tuple(l.compute_output_shape(x.shape)), np.shape(o), 'output shape')
    else:
        l = (LC.ConstTriu if k == 'triu' else LC.TiledConstTriu)(D, diag_val=c['dv'])
        l._prepare([x.shape], False)
        l.set_weights([r.randn(D, D)])
        l.constrain()
        m = l.get_weights()[0]
        same(m, np.triu(m) if c['dv'] is None else np.triu(m, 1) + c['dv'] * np.eye(D), 'triangular constant after an update', **TOL)
        o = run_layer(l, x, k, shape=False)
        same(o, m if k == 'triu' else np.broadcast_to(m, lead + (D, D)), 'triangular constant', **TOL)
        eq(tuple(l.compute_output_shape(x.shape)), np.shape(o), 'output shape')
    l2 = again(l, x, o, k)
    eq(l2.compute_output_shape(x.shape), l.compute_output_shape(x.shape), 'output shape from the configuration')


@sub('P43', fd(kind=st.sampled_from(['invert', 'exp', 'taylor', 'log', 'log1', 'neglog', 'neglog1', 'add1', 'add01', 'swish', 'swishb', 'repeat', 'tile', 'expand', 'mask', 'dct', 'lift', 'nin', 'triu', 'clip', 'list']),
               shape=st.lists(st.integers(1, 4), min_size=2, max_size=3), n=st.integers(1, 4), axis=st.integers(-3, 2), beta=st.sampled_from([1, 0.5, 3.]), inv=st.booleans(), norm=st.booleans(), Q=st.sampled_from([22, 5.5, 40]), keep=st.booleans(),
               val=st.sampled_from([0., 1.]), seed=seeds), quick=600, nontrivial=lambda c: len(c['shape']) == 3)
def elementwise_layers(c, ctx):
    """non-linearities, repetitions, masks, feature transformations and constraints"""
    r = rng(c['seed'])
    k, D, n = c['kind'], c['shape'][-1], c['n']
    x = r.randn(*c['shape'])
    ctx.label(k)
    if k in ('triu', 'clip', 'list'):
        A = r.randn(D, D)
        dv = [None, 0, 1, 2.5][n - 1]
        tri = np.triu(A) if dv is None else np.triu(A, 1) + dv * np.eye(D)
        lo, hi = -0.3, 0.3 + c['beta']
        if k == 'triu':
            o = HC.Triu(D, dv)
            same(HC.Triu(**o.get_config())(A), tri, 'triangular constraint from its configuration', **TOL)
            want = tri
        elif k == 'clip':
            o = HC.Clip(max_val=hi) if c['keep'] else HC.Clip(lo, hi)
            want = np.clip(A, -np.inf if c['keep'] else lo, hi)
            same(HC.Clip(**o.get_config())(A), want, 'limits from their configuration', **TOL)
        else:
            o = HC.ConstraintList([HC.Triu(D, dv), HC.Clip(lo, hi)] if c['keep'] else [HC.Clip(lo, hi), HC.Triu(D, dv)])
            want = np.clip(tri, lo, hi) if c['keep'] else np.triu(np.clip(A, lo, hi), 0 if dv is None else 1) + (dv or 0) * np.eye(D)
        with unchanged('constraint', A):
            same(o(A), want, k, **TOL)
        return
    kw = {}
    if k in ('invert', 'log', 'neglog', 'log1', 'neglog1'):
        x = np.abs(x) + 0.1
    if k in ('invert', 'exp', 'log', 'log1', 'neglog', 'neglog1', 'add1', 'add01'):
        l, f = {'invert': (LC.Invert, lambda a: 1 / a), 'exp': (LC.Exp, np.exp), 'log': (LC.Log, np.log), 'log1': (LC.Log1, np.log1p), 'neglog': (LC.NegLog, lambda a: -np.log(a)), 'neglog1': (LC.NegLog1, lambda a: -np.log1p(a)),
                'add1': (LC.Add1, lambda a: a + 1), 'add01': (LC.Add01, lambda a: a + 0.1)}[k]
        l, want = l(), f(x)
    elif k == 'taylor':
        l, want, t = LC.ExpTaylor(n), np.ones_like(x), np.ones_like(x)
        for i in range(1, n + 1):
            t = t * x / i
            want = want + t
    elif k in ('swish', 'swishb'):
        l, want = (LA.Swish if k == 'swish' else LA.SwishBeta)(c['beta']), x * expit(c['beta'] * x)
    elif k == 'repeat':
        a = c['axis'] % x.ndim if c['axis'] >= 0 else -(-c['axis'] % x.ndim) - 1 if -c['axis'] > x.ndim else c['axis']
        l, want = LT.Repeat(n, a), np.repeat(x, n, axis=a)
        same(l(x), want, k, **TOL)
        eq(tuple(l.compute_output_shape(x.shape)), want.shape, 'output shape')
        again(l, x, want, k)
        return
    elif k in ('tile', 'expand'):
        a = c['axis']
        l = LT.ExpandAndTile(n, a) if k == 'tile' else LT.ExpandDim(a)
        want = np.repeat(np.expand_dims(x, a), n if k == 'tile' else 1, axis=a)
        same(l(x), want, k, **TOL)
        eq(tuple(l.compute_output_shape(x.shape)), want.shape, 'output shape')
        again(l, x, want, k)
        return
    elif k == 'mask':
        x = r.randn(c['shape'][0], n + 1, D)
        x[r.rand(*x.shape) < 0.3] = c['val']
        x[r.rand(*x.shape[:2]) < 0.4] = c['val']
        l = LM.CreateMask(c['val'], keepdims=c['keep'])
        want = np.any(x != c['val'], axis=-1, keepdims=c['keep']).astype(float)
        if c['inv']:
            m = (r.rand(*want.shape) < 0.5).astype(float)
            kw, want = dict(mask=m), want * m
    elif k == 'dct':
        u = n if not c['inv'] else D
        u = min(u, D)
        l = LF.DCT(u, inv=c['inv'], normalize=c['norm'])
        want = (idct if c['inv'] else dct)(x, type=2, norm='ortho' if c['norm'] else None, axis=-1)[..., :u]
    elif k == 'lift':
        l = LF.Liftering(c['Q'], inv=c['inv'])
        f = 1 + c['Q'] / 2 * np.sin(np.pi * np.arange(D) / c['Q'])
        want = x / f if c['inv'] else x * f
    else:
        i, h, o = n, r.randint(1, 4), r.randint(1, 4)
        m = r.randint(1, 4)
        x = r.randn(*(list(c['shape'][:-1]) + [m * i]))
        l = LA.NIN(o, h, i, input_dim=m * i) if c['keep'] else LA.NIN(o, h, i)
        l._prepare([x.shape], False)
        U1, U2 = r.randn(i, h), r.randn(h, o)
        l.set_weights([U1, U2])
        f = lambda a: np.maximum(a, 0)
        want = np.concatenate([f(f(f(x[..., j * i:(j + 1) * i]).dot(U1)).dot(U2)) for j in range(m)], axis=-1)
    o = run_layer(l, x, k, **kw)
    same(o, want, k, **TOL4)
    again(l, x, o, k, **kw)


def std_kl(m, v, beta=1.):
    """(1/beta) E[log q] - E[log p] over q, p the standard normal"""
    return np.sum(-(np.log(2 * np.pi * v) + 1) / (2 * beta) + (np.log(2 * np.pi) + m ** 2 + v) / 2, axis=-1)


def as_fmt(m, v, fmt):
    a, b = fmt.split('+')
    return (m if a == 'mean' else m / v), {'var': v, 'prec': 1 / v, 'logvar': np.log(v), 'logprec': -np.log(v)}[b]


@sub('P43', fd(two=st.booleans(), shape=st.lists(st.integers(1, 4), min_size=2, max_size=3), fmt=st.sampled_from([a + '+' + b for a in ('mean', 'nat') for b in ('var', 'prec', 'logvar', 'logprec')] + [None]), min_kl=st.sampled_from([0, 0, 1., 3.]),
               beta=st.sampled_from([1, 1, 0.5, 2]), tn=st.booleans(), seed=seeds), quick=400, nontrivial=lambda c: c['fmt'] not in (None, 'mean+prec'))
def kl_layers(c, ctx):
    """Kullback-Leibler divergences between diagonal Gaussians, from any format of their parameters"""
    r = rng(c['seed'])
    sh = c['shape']
    fmt = c['fmt'] or 'mean+prec'
    m1, v1 = r.randn(*sh), np.exp(r.randn(*sh))
    kw = {} if c['fmt'] is None else dict(in_fmt=c['fmt'])
    kw.update(min_kl=c['min_kl'], beta=c['beta'])
    b = float(c['beta'])
    ctx.label('%d Gaussians' % (1 + c['two']), '%d-D' % len(sh))
    if c['two']:
        m2, v2 = r.randn(*sh), np.exp(r.randn(*sh))
        l = LL.KLDivNormalVsDiagNormal(**kw)
        ins = list(as_fmt(m1, v1, fmt)) + list(as_fmt(m2, v2, fmt))
        want = np.sum(-(np.log(2 * np.pi * v1) + 1) / (2 * b) + (np.log(2 * np.pi * v2) + ((m1 - m2) ** 2 + v1) / v2) / 2, axis=-1)
    else:
        l = LL.KLDivNormalVsStdNormal(time_norm=c['tn'], **kw)
        if len(sh) == 3:
            pad = np.arange(sh[1])[None, :, None] < r.randint(1, sh[1] + 1, size=(sh[0], 1, 1))
            m1 = m1 * pad
        ins = list(as_fmt(m1, v1, fmt))
        want = std_kl(m1, v1, b)[..., None]
    want = np.maximum(want, c['min_kl'])
    if not c['two'] and len(sh) == 3 and not c['tn']:
        want = want * pad.sum(1)[:, None]
    o = run_layer(l, ins, 'KL layer')
    same(o, want, 'divergence', **TOL4)
    again(l, ins, o, 'KL layer')


@sub('P43', fd(kind=st.sampled_from(['cat', 'bern', 'obern', 'normal', 'odiag', 'chol1', 'chol', 'chol3', 'chol13', 'mbr', 'klstd', 'kldiag']), B=st.integers(1, 3), T=st.integers(1, 4), D=st.integers(1, 3), three=st.booleans(), tn=st.booleans(), beta=st.sampled_from([None, 2., 0.5]), seed=seeds),
     quick=500, nontrivial=lambda c: c['D'] > 1)
def losses(c, ctx):
    """minus the log-likelihood of the targets by the predicted distributions; divergences"""
    r = rng(c['seed'])
    k, B, T, D = c['kind'], c['B'], c['T'], c['D']
    ctx.label(k)
    sh = (B, T, D) if c['three'] else (B, D)
    kw = {} if c['tn'] else dict(time_norm=False)
    n = np.full((B, 1), T)
    if c['three']:
        n = r.randint(1, T + 1, size=(B, 1))
    pad = (np.arange(T)[None] < n)[..., None] if c['three'] else np.ones(sh)
    TN = 1 if c['tn'] else n if c['three'] else 1
    if k in ('cat', 'mbr'):
        p = r.rand(*sh) + 0.1
        p /= p.sum(-1, keepdims=True)
        y = np.eye(D)[r.randint(D, size=sh[:-1])]
        if k == 'mbr':
            same(KL.categorical_mbr(y, p), 1 - np.sum(np.where(y == 1, p, 0), -1), 'risk', **TOL)
            return
        if c['three']:
            y = y * pad
            same(KL.get_seq_length(y), n[:, 0], 'length of the sequences', **TOL)
            same(KL.nllk_categorical(y, p, **kw) if T > 0 else 0, _cat(y, p) * TN, 'categorical', **TOL4)
        elif c['tn']:
            same(KL.nllk_categorical(y, p), _cat(y, p), 'categorical', **TOL4)
        return
    if k in ('bern', 'obern'):
        p = r.rand(*sh) * 0.9 + 0.05
        y = (r.rand(*sh) < 0.5).astype(float)
        want = -np.sum(np.where(y == 1, np.log(p), np.log(1 - p)), -1)
        if k == 'obern':
            got = KO.bernoulli(y, p)
        elif c['three']:
            y[:, :, 0] = 1
            y = y * pad
            want = -np.sum(np.where(y == 1, np.log(p), np.log(1 - p)), -1) * TN
            got = KL.nllk_bernoulli(y, p, **kw)
        else:
            got = KL.nllk_bernoulli(y, p)
        same(got, want, 'Bernoulli', rtol=1e-5, atol=1e-6)
        return
    m, lv = r.randn(*sh), r.randn(*sh)
    y = r.randn(*sh)
    llk = 0.5 * np.sum(np.log(2 * np.pi) + lv + (y - m) ** 2 / np.exp(lv), -1)
    if k == 'normal':
        pred = np.concatenate((m, lv), axis=-1).view(Arr)
        if c['three']:
            y = y * pad
            llk = 0.5 * np.sum(np.log(2 * np.pi) + lv + (y - m) ** 2 / np.exp(lv), -1)
            same(np.asarray(KL.nllk_normal_diag_cov(y.view(Arr), pred, **kw)), llk * TN, 'normal', **TOL4)
        else:
            same(np.asarray(KL.nllk_normal_diag_cov(y.view(Arr), pred)), llk, 'normal', **TOL4)
        return
    if k == 'odiag':
        same(KO.diag_normal(y, [m, lv]), llk, 'normal of diagonal covariance', **TOL4)
        return
    kb = {} if c['beta'] is None else dict(beta=c['beta'])
    b = c['beta'] or 1.
    if k == 'klstd':
        same(KO.kl_normal_vs_std_normal([m, lv], **kb), std_kl(m, np.exp(lv), b), 'divergence from the standard normal', **TOL4)
        return
    if k == 'kldiag':
        m2, lv2 = r.randn(*sh), r.randn(*sh)
        want = np.sum(-(np.log(2 * np.pi) + lv + 1) / (2 * b) + (np.log(2 * np.pi) + lv2 + ((m - m2) ** 2 + np.exp(lv)) / np.exp(lv2)) / 2, -1)
        same(KO.kl_normal_vs_diag_normal([m, lv], [m2, lv2], **kb), want, 'divergence between normals', **TOL4)
        return
    three = k in ('chol3', 'chol13')
    sh = (B, T, D) if three else (B, D)
    y, m, lv = r.randn(*sh), r.randn(*sh), r.randn(*sh)
    one = k in ('chol1', 'chol13')
    ch = chol_of(r, D) if one else np.stack([chol_of(r, D) for i in range(int(np.prod(sh[:-1])))]).reshape(sh[:-1] + (D, D))
    got = {'chol1': KO.normal_1chol, 'chol': KO.normal, 'chol3': KO.normal_3d, 'chol13': KO.normal_1chol_3d}[k](y, [m, lv, ch])
    want = np.zeros(sh[:-1])
    for i in np.ndindex(*sh[:-1]):
        C = ch if one else ch[i]
        want[i] = -multivariate_normal.logpdf(y[i], m[i], C.T.dot(np.diag(np.exp(lv[i]))).dot(C), allow_singular=True)
    same(got, want, 'normal of full covariance', rtol=1e-5, atol=1e-5)


def _cat(y, p):
    return -np.sum(np.where(y == 1, np.log(p), 0), -1)


class Flow(object):
    """noise from a generator of its own; the shapes asked for are recorded"""
    def __init__(self, seed):
        self.r, self.shapes, self.eps = np.random.RandomState(seed), [], []

    def __call__(self, shape):
        self.shapes.append(tuple(shape))
        self.eps.append(self.r.randn(*shape))
        return self.eps[-1]


@sub('P43', fd(kind=st.sampled_from(['diag', 'tied', 'odiag', 'oseq', 'full', 'fullseq', 'bern']), B=st.integers(1, 3), T=st.integers(1, 4), D=st.integers(1, 3), three=st.booleans(), n=st.integers(1, 3), mean=st.sampled_from(['mean', 'nat']), var=st.sampled_from(['logvar', 'var', 'std']),
               one=st.booleans(), dflt=st.booleans(), seed=seeds), quick=500, nontrivial=lambda c: c['n'] > 1)
def samplers(c, ctx):
    """samples are the mean plus the noise with the covariance given, num_samples of each item together; one sample or one per frame of each sequence"""
    r = rng(c['seed'])
    k, B, T, D, n = c['kind'], c['B'], c['T'], c['D'], c['n']
    ctx.label(k)
    sh = (B, T, D) if c['three'] and k in ('diag', 'odiag', 'full', 'bern') else (B, D)
    m, s = r.randn(*sh), np.exp(r.randn(*sh))
    rep = lambda a: np.repeat(a, n, axis=0)
    if k == 'bern':
        p = r.rand(*sh)
        p[r.rand(*sh) < 0.3] = 0
        p[r.rand(*sh) < 0.3] = 1
        l = SA.BernoulliSampler(n)
        o = run_layer(l, p, k)
        o = np.asarray(o, dtype=float)
        require(np.all((o == 0) | (o == 1)), 'samples are %s', o)
        require(np.all(o[rep(p) == 0] == 0) and np.all(o[rep(p) == 1] == 1), 'samples of probability 0 or 1 are %s', o)
        l2 = SA.BernoulliSampler.from_config(l.get_config())
        eq(l2.num_samples, n, 'number of samples from the configuration')
        big = np.asarray(SA.BernoulliSampler(400)(np.array([[0.2]])), dtype=float)
        require(0.05 < big.mean() < 0.4, 'proportion of ones for probability 0.2 is %s', big.mean())
        return
    f = Flow(c['seed'])
    var = c['var']
    seq = k in ('tied', 'oseq', 'fullseq')
    if k == 'fullseq' or (k == 'full' and c['three']):
        var = 'logvar'      # the only one they have
    if c['dflt']:
        var = 'logvar'
    p2 = {'logvar': 2 * np.log(s), 'var': s ** 2, 'std': s}[var]
    p1 = m
    num = {} if n == 1 and c['dflt'] else dict(num_samples=n)
    if k in ('diag', 'tied'):
        fmt = c['mean'] + '+' + ('stddev' if var == 'std' else var)
        if c['dflt']:
            fmt = 'mean+logvar'
        if fmt.startswith('nat'):
            p1 = m / s ** 2
        spec = {} if c['dflt'] else dict(in_fmt=fmt)
        l = SA.NormalDiagCovSampler(**dict(num, **spec)) if k == 'diag' else SA.TiedNormalDiagCovSampler(T, one_per_seq=c['one'], **dict(num, **spec))
    elif k in ('odiag', 'oseq'):
        spec = {} if c['dflt'] else dict(var_spec=var)
        l = SA.DiagNormalSampler(**dict(num, **spec)) if k == 'odiag' else SA.DiagNormalSamplerFromSeqLevel(T, one_sample_per_seq=c['one'], **dict(num, **spec))
    else:
        spec = {} if c['dflt'] else dict(var_spec=var + '+chol')
        l = SA.NormalSampler(**dict(num, **spec)) if k == 'full' else SA.NormalSamplerFromSeqLevel(T, one_sample_per_seq=c['one'], **dict(num, **spec))
    ins = [p1, p2]
    ch = None
    if k in ('full', 'fullseq'):
        ch = np.stack([chol_of(r, D) for i in range(int(np.prod(sh[:-1])))]).reshape(sh[:-1] + (D, D))
        ins.append(ch)
    with noise(f):
        o = run_layer(l, ins, k)
    eq(len(f.shapes), 1, 'draws of noise')
    e = f.eps[0]
    mm, ss = rep(m), rep(s)
    if seq:
        eq(int(np.prod(f.shapes[0])), n * B * D * (1 if c['one'] else T), 'numbers of noise')
        e = e.reshape(n * B, -1, D)
        mm, ss = mm[:, None], ss[:, None]
    else:
        eq(f.shapes[0], (n * B,) + sh[1:], 'shape of the noise')
    if ch is not None:
        C = rep(ch)
        want = mm + (np.einsum('btd,bdf->btf', e * ss, C) if seq else np.einsum('...d,...df->...f', e * ss, C))
    else:
        want = mm + ss * e
    if seq:
        want = np.broadcast_to(want, (n * B, T, D))
    same(o, want, 'samples', **TOL4)
    with noise(Flow(c['seed'])):
        again(l, ins, o, k)


@sub('P43', fd(homo=st.booleans(), B=st.integers(1, 4), C=st.integers(1, 4), D=st.integers(1, 4), seed=seeds), quick=250, nontrivial=lambda c: c['B'] > 1 and c['C'] > 1)
def posterior_scoring(c, ctx):
    """log-likelihood ratio between one common and two different identities, given the posteriors of the class and of the test segment"""
    r = rng(c['seed'])
    B, C, D = c['B'], c['C'], c['D']
    l = (LS.CatQScoringDiagNormalHomoPostStdPrior if c['homo'] else LS.CatQScoringDiagNormalPostStdPrior)(C)
    Lt = 1 + np.exp(r.randn(B, D))
    eta = r.randn(B, D) * 2
    ins = [eta, Lt]
    l._prepare([a.shape for a in ins], True)
    mu = r.randn(C, D)
    Le = 1 + np.exp(r.randn(*((D,) if c['homo'] else (C, D))))
    l.set_weights([mu, Le])
    o = run_layer(l, ins, 'scoring')
    LE = np.broadcast_to(Le, (C, D))
    want = np.zeros((B, C))
    for b in range(B):
        for k in range(C):
            # log of the integral of q_e(y) q_t(y) / N(y; 0, 1), by the normalisation constants of the Gaussians
            def logz(eta, prec):
                return 0.5 * np.sum(eta ** 2 / prec - np.log(prec))
            ee = LE[k] * mu[k]
            want[b, k] = logz(ee + eta[b], LE[k] + Lt[b] - 1) - logz(ee, LE[k]) - logz(eta[b], Lt[b])
    same(o, want, 'log-likelihood ratios', rtol=1e-6, atol=1e-7)
    again(l, ins, o, 'scoring')
    l.set_weights([mu, Le - 1.2])
    l.constrain()
    same(l.get_weights()[1], np.clip(Le - 1.2, 1, 1e5), 'precisions after an update are not under that of the prior', **TOL)


@sub('P43', fd(d=st.integers(1, 4), lower=st.booleans(), seed=seeds), quick=100, nontrivial=lambda c: c['d'] > 1)
def backend_addons(c, ctx):
    """the functions added to the backends: inverse, Cholesky factor, diagonal"""
    r = rng(c['seed'])
    d = c['d']
    A = rand_pd(r, d)
    for m, n in ((TH, 'Theano'), (TF, 'TensorFlow')):
        same(np.asarray(m.matrix_inverse(A)).dot(A), np.eye(d), n + ': inverse', rtol=1e-6, atol=1e-7)
        F = np.asarray(m.cholesky(A, lower=c['lower']))
        same(F, np.tril(F) if c['lower'] else np.triu(F), n + ': triangular factor', **TOL)
        same(F.dot(F.T) if c['lower'] else F.T.dot(F), A, n + ': Cholesky factor', rtol=1e-6, atol=1e-7)
        same(np.asarray(m.diag(A)), np.diag(A), n + ': diagonal', **TOL)
        same(np.asarray(m.cholesky(A)), np.asarray(m.cholesky(A, lower=False)), n + ': factor by default', **TOL)
