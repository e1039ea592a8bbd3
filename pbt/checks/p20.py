"""P20: PLDA scores against the brute-force joint Gaussian likelihoods of pooled vectors."""
from pbt.plda_ref import *

RULE = 'at least two dimensions and more than one vector on some side'

side_st = fd(m=model_st(), C1=st.integers(1, 4), C2=st.integers(1, 4), n1=st.integers(1, 4), n2=st.integers(1, 4), trained=st.booleans())
nt = lambda k: k['m']['d'] > 1 and k['n1'] + k['n2'] > 2
TOL = dict(rtol=1e-6, atol=1e-6)


def make(k, ctx):
    c = k['m']
    r = rng(c['seed'])
    p = gen_params(c, r)
    m = build(c, p)
    if k.get('trained'):
        # a model that went through updates scores with its present parameters
        ids = gen_ids(r, 6, 5)
        x = draw(Ref(*read(c, m)), r, ids)
        m.llr_1vs1(x, x)
        m.fit(x, class_ids=ids, epochs=2)
        mu, Sb, Sw = read(c, m)
        if np.linalg.eigvalsh(Sw)[0] < 1e-3 * c['scale'] ** 2 or c['kind'] == 'fr' and np.linalg.eigvalsh(Sb)[0] < 1e-3 * c['scale'] ** 2:
            ctx.label('degenerate')
            m = build(c, p)
    return c, r, m, Ref(*read(c, m))


@sub('P20', side_st, quick=300, nontrivial=lambda k: k['m']['d'] > 1 and k['C1'] * k['C2'] > 1)
def one_to_one(k, ctx):
    """scores of pairs of vectors; symmetry; independence of the other trials"""
    c, r, m, ref = make(k, ctx)
    x1 = draw(ref, r, np.arange(k['C1']))
    x2 = draw(ref, r, np.arange(k['C2']))
    with unchanged('llr_1vs1', x1, x2, m.mu):
        s = m.llr_1vs1(x1, x2)
    want = [[ref.llr(a[None], b[None]) for b in x2] for a in x1]
    same(s, want, 'scores', **TOL)
    same(m.llr_1vs1(x2, x1).T, s, 'scores with the sides swapped', **TOL)
    i, j = r.permutation(k['C1']), r.permutation(k['C2'])
    same(m.llr_1vs1(x1[i], x2[j]), s[np.ix_(i, j)], 'scores of reordered vectors', **TOL)
    same(m.llr_1vs1(x1[i[:1]], x2[j[:1]])[0, 0], s[i[0], j[0]], 'score of one trial alone', **TOL)
    for meth in ('book', 'vavg', 'savg'):
        a, b = np.arange(k['C1']), np.arange(k['C2'])
        same(m.llr_NvsM(x1, x2, a, b, method=meth), s, 'one vector per side with ' + meth, **TOL)
        same(m.llr_Nvs1(x1, x2, a, method=meth), s, 'one vector per side with N vs 1 ' + meth, **TOL)


def lnorm(x):
    return np.sqrt(x.shape[1]) * x / np.sqrt(np.sum(x ** 2, axis=1, keepdims=True))


@sub('P20', side_st, quick=300, nontrivial=nt)
def many_to_many(k, ctx):
    """scores of sets of vectors under every method"""
    c, r, m, ref = make(k, ctx)
    ids1, ids2 = gen_ids(r, k['C1'], k['n1']), gen_ids(r, k['C2'], k['n2'])
    x1, x2 = draw(ref, r, ids1), draw(ref, r, ids2)
    g1 = [x1[ids1 == i] for i in range(k['C1'])]
    g2 = [x2[ids2 == i] for i in range(k['C2'])]
    a1, a2 = np.stack([g.mean(axis=0) for g in g1]), np.stack([g.mean(axis=0) for g in g2])
    W = {}
    W['book'] = np.array([[ref.llr(a, b) for b in g2] for a in g1])
    W['vavg'] = np.array([[ref.llr(a[None], b[None]) for b in a2] for a in a1])
    W['vavg-lnorm'] = np.array([[ref.llr(a[None], b[None]) for b in lnorm(a2)] for a in lnorm(a1)])
    W['savg'] = np.array([[np.mean([[ref.llr(p[None], q[None]) for q in b] for p in a]) for b in g2] for a in g1])
    q1, q2 = r.permutation(len(x1)), r.permutation(len(x2))
    with unchanged('many to many', x1, x2, ids1, ids2, m.mu):
        for meth in ('book', 'vavg', 'vavg-lnorm', 'savg'):
            w = W[meth]
            same(m.llr_NvsM(x1, x2, ids1, ids2, method=meth), w, meth, **TOL)
            same(m.llr_NvsM(x2, x1, ids2, ids1, method=meth).T, w, meth + ' with the sides swapped', **TOL)
            same(m.llr_NvsM(x1[q1], x2[q2], ids1[q1], ids2[q2], method=meth), w, meth + ' with the vectors reordered', **TOL)
            i1, i2 = r.permutation(k['C1']), r.permutation(k['C2'])
            same(m.llr_NvsM(x1, x2, np.argsort(i1)[ids1], np.argsort(i2)[ids2], method=meth), w[np.ix_(i1, i2)], meth + ' with the speakers reordered', **TOL)
            o1, o2 = int(r.randint(k['C1'])), int(r.randint(k['C2']))
            same(m.llr_NvsM(g1[o1], g2[o2], np.zeros(len(g1[o1]), dtype=int), np.zeros(len(g2[o2]), dtype=int), method=meth), w[o1:o1 + 1, o2:o2 + 1], meth + ' of a trial alone', **TOL)
        same(m.llr_NvsM(x1, x2, ids1, ids2), W['vavg-lnorm'], 'default method', **TOL)
    # precomputed statistics
    D1, D2 = m.compute_stats_hard(x1, ids1), m.compute_stats_hard(x2, ids2)
    with unchanged('precomputed statistics', *(list(D1) + list(D2))):
        for meth in ('book', 'vavg', 'vavg-lnorm'):
            same(m.llr_NvsM(D1, D2, method=meth), W[meth], meth + ' from statistics', **TOL)
            same(m.llr_NvsM(D1, D2, method=meth), W[meth], meth + ' from statistics, again', **TOL)
            same(m.llr_NvsM(x1, D2, ids1=ids1, method=meth), W[meth], meth + ' from statistics of one side', **TOL)


@sub('P20', side_st, quick=200, nontrivial=lambda k: k['m']['d'] > 1 and k['n1'] > 1)
def many_to_one(k, ctx):
    """scores of sets of enrolment vectors against single test vectors"""
    c, r, m, ref = make(k, ctx)
    ids1 = gen_ids(r, k['C1'], k['n1'])
    x1 = draw(ref, r, ids1)
    x2 = draw(ref, r, np.arange(k['C2']))
    g1 = [x1[ids1 == i] for i in range(k['C1'])]
    a1 = np.stack([g.mean(axis=0) for g in g1])
    W = {}
    W['book'] = np.array([[ref.llr(a, b[None]) for b in x2] for a in g1])
    W['vavg'] = np.array([[ref.llr(a[None], b[None]) for b in x2] for a in a1])
    W['vavg-lnorm'] = np.array([[ref.llr(a[None], b[None]) for b in lnorm(x2)] for a in lnorm(a1)])
    W['savg'] = np.array([[np.mean([ref.llr(p[None], b[None]) for p in a]) for b in x2] for a in g1])
    D1 = m.compute_stats_hard(x1, ids1)
    with unchanged('many to one', x1, x2, ids1, m.mu, *D1):
        for meth in ('book', 'vavg', 'vavg-lnorm', 'savg'):
            same(m.llr_Nvs1(x1, x2, ids1, method=meth), W[meth], meth, **TOL)
            j = r.permutation(k['C2'])
            q = r.permutation(len(x1))
            same(m.llr_Nvs1(x1[q], x2[j], ids1[q], method=meth), W[meth][:, j], meth + ' reordered', **TOL)
            if meth != 'savg':
                same(m.llr_Nvs1(D1, x2, method=meth), W[meth], meth + ' from statistics', **TOL)
        same(m.llr_Nvs1(x1, x2, ids1), W['vavg-lnorm'], 'default method', **TOL)


@sub('P20', fd(m=model_st(), n=st.integers(1, 12), C=st.integers(1, 4), weights=st.booleans(), f=st.sampled_from([None, 0.5, 3.])), quick=150, nontrivial=lambda k: k['n'] > 2 and k['C'] > 1)
def statistics(k, ctx):
    """counts, sums and scatter of the speakers"""
    c = k['m']
    r = rng(c['seed'])
    C = CLS[c['kind']]
    n, d = k['n'], c['d']
    x = r.randn(n, d) * c['scale']
    ids = np.concatenate([np.arange(min(k['C'], n)), r.randint(min(k['C'], n), size=max(0, n - k['C']))])
    ids = ids[r.permutation(n)]
    P = r.rand(n, k['C'])
    w = 0.1 + r.rand(n) if k['weights'] else None
    H = np.zeros((n, np.max(ids) + 1))
    H[np.arange(n), ids] = 1
    with unchanged('statistics', x, ids, P, w):
        for got, Q in ((C.compute_stats_hard(x, ids, sample_weight=w, scal_factor=k['f']), H), (C.compute_stats_soft(x, P, sample_weight=w, scal_factor=k['f']), P)):
            Q = Q * (1 if w is None else w[:, None]) * (k['f'] or 1)
            same(got[0], Q.sum(axis=0), 'counts', rtol=1e-9)
            same(got[1], Q.T.dot(x), 'sums', rtol=1e-8, atol=1e-10 * c['scale'])
            same(got[2], (x * Q.sum(axis=1)[:, None]).T.dot(x), 'scatter', rtol=1e-8, atol=1e-10 * c['scale'] ** 2)
    mu = r.randn(d) * c['scale']
    D = C.compute_stats_hard(x, ids)
    with unchanged('center_stats', *D):
        Dc = C.center_stats(D, mu)
    for a, b, nm in zip(Dc, C.compute_stats_hard(x - mu, ids), ('counts', 'sums', 'scatter')):
        same(a, b, 'centred ' + nm, rtol=1e-7, atol=1e-8 * c['scale'] ** 2 + 1e-8 * c['scale'])
