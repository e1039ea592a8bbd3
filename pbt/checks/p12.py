"""P12: isotonic regression, optimal log-likelihood ratios and Cllr against the min-max characterisation and definitions."""
from pbt.core import *
from pbt.checks.p11 import scores_st, arrs, interleaved
from hyperion.metrics.utils import pavx, opt_loglr
from hyperion.metrics.cllr import compute_cllr, compute_min_cllr

RULE = 'the input of the regression violates monotonicity, or target and non-target scores interleave or tie'


def isotonic(y, w=None):
    """max-min formula of isotonic regression"""
    y = np.asarray(y, dtype=float)
    w = np.ones(len(y)) if w is None else np.asarray(w, dtype=float)
    n = len(y)
    cy, cw = np.concatenate([[0], np.cumsum(y * w)]), np.concatenate([[0], np.cumsum(w)])
    return np.array([max(min((cy[k + 1] - cy[j]) / (cw[k + 1] - cw[j]) for k in range(i, n)) for j in range(i + 1)) for i in range(n)])


y_st = st.one_of(st.lists(st.integers(-3, 3), min_size=1, max_size=16), st.lists(st.sampled_from([0., 1.]), min_size=1, max_size=16),
                 st.lists(st.floats(-100, 100).map(lambda x: round(x, 4)), min_size=1, max_size=16))


@sub('P12', fd(y=y_st), quick=900, nontrivial=lambda c: any(a > b for a, b in zip(c['y'][:-1], c['y'][1:])))
def pav(c, ctx):
    """the regression is the closest non-decreasing sequence, with consistent blocks"""
    y = np.array(c['y'])
    with unchanged('pavx', y):
        g, w, h = pavx(y)
    want = isotonic(c['y'])
    same(g, want, 'isotonic regression', rtol=1e-9, atol=1e-9)
    require(np.all(np.diff(g) >= -1e-12), 'not monotone')
    eq(int(np.sum(w)), len(y), 'sum of the widths')
    eq(len(w), len(h), 'number of blocks')
    require(np.all(np.asarray(w) > 0), 'empty block')
    require(np.all(np.diff(h) > 0), 'heights %s do not increase', h)
    same(np.repeat(h, w), g, 'blocks', rtol=1e-12, atol=1e-12)
    i = 0
    for a, b in zip(w, h):
        require(abs(np.mean(y[i:i + a]) - b) < 1e-9 * max(1, abs(b)), 'block at %d is not the mean of its values', i)
        i += a


def opt_ref(tar, non, laplace):
    s = np.concatenate([tar, non])
    lab = np.concatenate([np.ones(len(tar)), np.zeros(len(non))])
    u = np.unique(s)
    y, w = [], []
    if laplace:
        y, w = [1., 0.], [1., 1.]
    for x in u:
        y.append(np.mean(lab[s == x]))
        w.append(np.sum(s == x))
    if laplace:
        y, w = y + [1., 0.], w + [1., 1.]
    g = isotonic(y, w)
    if laplace:
        g = g[2:-2]
    with np.errstate(all='ignore'):
        llr = np.log(g) - np.log(1 - g) - np.log(len(tar) / float(len(non)))
    d = dict(zip(u.tolist(), llr))
    return np.array([d[x] for x in tar]), np.array([d[x] for x in non])


@sub('P12', fd(s=scores_st(), method=st.sampled_from(['laplace', 'raw'])), quick=700, nontrivial=interleaved)
def optimal_llr(c, ctx):
    """optimal log-likelihood ratios equal the isotonic posterior minus the prior, and follow the order of the scores"""
    tar, non = arrs(c['s'])
    with unchanged('opt_loglr', tar, non):
        t, n = opt_loglr(tar, non, c['method'])
    wt, wn = opt_ref(tar, non, c['method'] == 'laplace')
    same(t, wt, 'target ratios', rtol=1e-7, atol=2e-6)
    same(n, wn, 'non-target ratios', rtol=1e-7, atol=2e-6)
    s, l = np.concatenate([tar, non]), np.concatenate([t, n])
    o = np.argsort(s, kind='mergesort')
    for a, b in zip(o[:-1], o[1:]):
        if s[a] < s[b]:
            require(l[a] <= l[b] + 1e-9, 'ratios decrease: scores %r %r ratios %r %r', s[a], s[b], l[a], l[b])
    if c['method'] == 'laplace':
        require(np.all(np.isfinite(l)), 'infinite ratio with the Laplace rule')


def cllr_ref(tar, non):
    f = lambda x: np.mean(np.logaddexp(0., -np.asarray(x, dtype=float))) / np.log(2)
    return 0.5 * (f(tar) + f(-np.asarray(non, dtype=float)))


@sub('P12', fd(s=scores_st(), scale=st.sampled_from([0.01, 1.0, 30.0])), quick=500, nontrivial=interleaved)
def cllr(c, ctx):
    """the cost equals its definition, without overflow, and is symmetric under swapping classes with negated scores"""
    tar, non = [c['scale'] * x for x in arrs(c['s'])]
    with unchanged('compute_cllr', tar, non):
        v = compute_cllr(tar, non)
    same(v, cllr_ref(tar, non), 'Cllr', rtol=1e-9, atol=1e-12)
    same(compute_cllr(-non, -tar), v, 'Cllr of the swapped classes', rtol=1e-9, atol=1e-12)
    r = rng(1)
    same(compute_cllr(r.permutation(tar), r.permutation(non)), v, 'Cllr after shuffling', rtol=1e-9, atol=1e-12)


@sub('P12', fd(s=scores_st(), seed=seeds), quick=500, nontrivial=interleaved)
def min_cllr(c, ctx):
    """the minimum cost is the best over monotone recalibrations, invariant to increasing transformations"""
    tar, non = arrs(c['s'])
    with unchanged('compute_min_cllr', tar, non):
        m = float(compute_min_cllr(tar, non))
    wt, wn = opt_ref(tar, non, False)
    f = lambda x: np.mean(np.where(np.isposinf(x), 0., np.logaddexp(0., -np.where(np.isposinf(x), 0., x)))) / np.log(2)
    want = 0.5 * (f(wt) + f(-wn))
    require(abs(m - want) < 2e-6, 'minimum Cllr %r, want %r', m, want)
    require(m <= 1 + 1e-9, 'minimum Cllr %r over 1', m)
    require(m <= compute_cllr(tar, non) + 2e-6, 'minimum %r over actual %r', m, compute_cllr(tar, non))
    r = rng(c['seed'])
    u = sorted(set(c['s']['tar']) | set(c['s']['non']))
    for k in range(4):
        z = np.cumsum(r.rand(len(u)) * r.choice([0.1, 1., 4.])) + r.randn() * 3
        if k > 1:
            z = z - np.mean(z)
        d = dict(zip(u, z))
        t, n = np.array([d[x] for x in c['s']['tar']]), np.array([d[x] for x in c['s']['non']])
        require(m <= compute_cllr(t, n) + 2e-6, 'minimum %r over the cost %r of a monotone recalibration', m, compute_cllr(t, n))
        same(compute_min_cllr(t, n), m, 'minimum after an increasing transformation', atol=3e-6)
    if min(c['s']['tar']) > max(c['s']['non']):
        ctx.label('separated')
        require(m < 3e-6, 'minimum %r of separated classes', m)
