"""P21: PLDA training as exact EM; likelihoods, posteriors and samples from the explicit joint Gaussian."""
from pbt.plda_ref import *

RULE = 'at least two dimensions and two speakers'
data_st = fd(m=model_st(), C=st.integers(1, 7), n=st.integers(1, 6))
nt = lambda k: k['m']['d'] > 1 and k['C'] > 1


def problem(k):
    c = k['m']
    r = rng(c['seed'])
    m = build(c, gen_params(c, r))
    ref = Ref(*read(c, m))
    ids = gen_ids(r, k['C'], k['n'])
    gen = build(c, gen_params(c, r))
    x = draw(Ref(*read(c, gen)), r, ids)
    return c, r, m, ref, x, ids


@sub('P21', fd(m=model_st(), C=st.integers(1, 7), n=st.integers(1, 6), soft=st.booleans()), quick=300, nontrivial=nt)
def posterior(k, ctx):
    """speaker posteriors by Gaussian conditioning on all the vectors of the speaker, and the bound by direct likelihood"""
    c, r, m, ref, x, ids = problem(k)
    d, C, n = c['d'], k['C'], len(x)
    H = np.zeros((n, C))
    H[np.arange(n), ids] = 1
    D = m.compute_stats_soft(x, H) if k['soft'] else m.compute_stats_hard(x, ids)
    # y in its own space: x = b + y A + noise
    if c['kind'] == 'fr':
        A, b, py0, P0 = np.eye(d), np.zeros(d), ref.mu, ref.Sb
    else:
        A, b = m.V, ref.mu
        py0, P0 = np.zeros(len(A)), np.eye(len(A))
    means, covs, l0 = [], [], []
    for i in range(C):
        X = x[ids == i]
        G = np.tile(A.T, (len(X), 1))
        Cx = G.dot(P0).dot(G.T) + np.kron(np.eye(len(X)), ref.Sw)
        Kg = P0.dot(G.T).dot(np.linalg.inv(Cx))
        dl = (X - b).ravel() - G.dot(py0)
        mu, S = py0 + Kg.dot(dl), P0 - Kg.dot(G).dot(P0)
        means.append(mu)
        covs.append(S)
        l0.append(-0.5 * (len(mu) * np.log(2 * np.pi) + np.linalg.slogdet(S)[1] + mu.dot(np.linalg.solve(S, mu))))
    means, covs = np.stack(means), np.stack(covs)
    t = 1e-6 * max(1, np.max(np.abs(means)))
    tc = 1e-6 * np.max(np.abs(P0))
    with unchanged('posterior', x, *D):
        same(m.compute_py_g_x(D), means, 'posterior means', rtol=1e-6, atol=t)
        y, S = m.compute_py_g_x(D, return_cov=True)
        same(y, means, 'posterior means', rtol=1e-6, atol=t)
        same(S, covs, 'posterior covariances', rtol=1e-5, atol=tc)
        y, lp = m.compute_py_g_x(D, return_logpy_0=True)
        same(lp, l0, 'log p(y=0|x)', rtol=1e-5, atol=1e-5)
        y, S, lp, Ry, Py = m.compute_py_g_x(D, return_cov=True, return_logpy_0=True, return_acc=True)
        same(y, means, 'posterior means', rtol=1e-6, atol=t)
        same(S, covs, 'posterior covariances', rtol=1e-5, atol=tc)
        want = ref.marginal(x, ids)
        e = m.elbo(m.Estep(D))
        same(e, want, 'bound', rtol=1e-6, atol=1e-5)
        q = r.permutation(n)
        pc = r.permutation(C)
        D2 = m.compute_stats_hard(x[q], np.argsort(pc)[ids][q])
        same(m.elbo(m.Estep(D2)), want, 'bound with speakers and vectors reordered', rtol=1e-6, atol=1e-5)
        same(m.compute_py_g_x(D2), means[pc], 'posterior means with speakers and vectors reordered', rtol=1e-6, atol=t)


@sub('P21', fd(m=model_st(), C=st.integers(1, 6), n=st.integers(1, 9)), quick=150, nontrivial=nt)
def soft_posterior(k, ctx):
    """posteriors from soft assignments (fractional counts)"""
    c = k['m']
    r = rng(c['seed'])
    m = build(c, gen_params(c, r))
    mu, Sb, Sw = read(c, m)
    x = draw(Ref(mu, Sb, Sw), r, np.arange(k['n']))
    P = r.rand(k['n'], k['C'])
    D = m.compute_stats_soft(x, P)
    W = np.linalg.inv(Sw)
    means, covs = [], []
    for i in range(k['C']):
        N, F = P[:, i].sum(), P[:, i].dot(x)
        if c['kind'] == 'fr':
            L = np.linalg.inv(Sb) + N * W
            g = W.dot(F) + np.linalg.solve(Sb, mu)
        else:
            L = np.eye(len(m.V)) + N * m.V.dot(W).dot(m.V.T)
            g = m.V.dot(W).dot(F - N * mu)
        covs.append(np.linalg.inv(L))
        means.append(covs[-1].dot(g))
    y, S = m.compute_py_g_x(D, return_cov=True)
    same(y, means, 'posterior means', rtol=1e-6, atol=1e-6 * max(1, np.max(np.abs(means))))
    same(S, covs, 'posterior covariances', rtol=1e-6, atol=1e-6 * np.max(np.abs(covs)))


FLAGS = {'fr': ('mu', 'B', 'W'), 's': ('mu', 'V', 'W'), 'full': ('mu', 'V', 'U', 'D')}


def degenerate(c, m):
    mu, Sb, Sw = read(c, m)
    s2 = c['scale'] ** 2
    if not (np.all(np.isfinite(Sb)) and np.all(np.isfinite(Sw))):
        return False
    if c['kind'] == 'full' and np.min(1 / m.D) < 1e-3 * s2:
        return True
    if c['kind'] == 'fr' and np.linalg.eigvalsh(Sb)[0] < 1e-4 * s2:
        return True
    if c['kind'] == 's' and np.linalg.eigvalsh(Sb)[-len(m.V)] < 1e-5 * s2:
        return True
    if c['kind'] == 'full' and (np.linalg.eigvalsh(Sb)[-len(m.V)] < 1e-5 * s2 or np.linalg.eigvalsh(m.U.T.dot(m.U))[-len(m.U)] < 1e-5 * s2):
        return True
    return np.linalg.eigvalsh(Sw)[0] < 1e-3 * s2


em_st = fd(m=model_st(), C=st.integers(1, 8), n=st.integers(1, 6), flags=st.lists(st.booleans(), min_size=4, max_size=4), diag=st.booleans(),
           md=st.sampled_from(['ml', 'md', 'ml+md', 'ml+md']), iters=st.integers(1, 8), all=st.booleans())


@sub('P21', em_st, quick=400, nontrivial=lambda k: nt(k) and k['iters'] > 1)
def em(k, ctx):
    """no iteration lowers the exact likelihood; frozen parameters do not move"""
    c = k['m']
    r = rng(c['seed'])
    names = FLAGS[c['kind']]
    on = dict((nm, k['all'] or f) for nm, f in zip(names, k['flags']))
    kw = dict(('update_' + nm, v) for nm, v in on.items())
    p = gen_params(c, r)
    if c['kind'] == 'full':
        kw['floor_iD'] = 1e-9 * c['scale'] ** 2
    elif k['diag']:
        kw['fullcov_W'] = False
        p['W'] = np.diag(np.diag(p['W']))
    ids = gen_ids(r, k['C'], k['n'])
    ids = np.concatenate([ids, r.randint(k['C'], size=c['d'] + 3)])
    gen = build(c, gen_params(c, r))
    x = draw(Ref(*read(c, gen)), r, ids) + 0.2 * c['scale'] * r.randn(len(ids), c['d'])
    m = CLS[c['kind']](**dict(p, **kw))
    given = dict((a, v.copy()) for a, v in p.items())
    D = m.compute_stats_hard(x, ids)
    last = Ref(*read(c, m)).marginal(x, ids)
    what = 'flags %s, %s, ' % (sorted(on.items()), k['md'])
    use_ml, use_md = 'ml' in k['md'], 'md' in k['md']
    for i in range(k['iters']):
        stt = m.Estep(D)
        e = m.elbo(stt)
        same(e, last, '%siteration %d: bound' % (what, i), rtol=1e-6, atol=1e-5)
        if use_ml:
            m.MstepML(stt)
        if use_md:
            m.MstepMD(stt)
        for nm in names:
            if not on[nm]:
                same(getattr(m, nm), given[nm], '%siteration %d: frozen %s' % (what, i, nm))
        if degenerate(c, m):
            ctx.label('degenerate')
            break
        if k['diag'] and c['kind'] != 'full':
            same(m.W, np.diag(np.diag(m.W)), what + 'diagonal precision')
        now = Ref(*read(c, m)).marginal(x, ids)
        require(now >= last - 1e-7 * (1 + abs(last)), '%siteration %d: likelihood fell from %.10g to %.10g', what, i, last, now)
        last = now
    else:
        # everything derived from the parameters follows them
        ref = Ref(*read(c, m))
        a, b = x[:2], x[-2:]
        same(m.llr_1vs1(a, b), [[ref.llr(u[None], v[None]) for v in b] for u in a], what + 'scores after training', rtol=1e-5, atol=1e-5)
    for a, v in given.items():
        same(p[a], v, what + 'parameter %s given by the caller was overwritten' % a)


def soft_bound(c, m, x, P):
    """log-likelihood of fractional counts, by completing squares"""
    mu, Sb, Sw = read(c, m)
    w, q = np.linalg.eigh(Sb)
    A = q * np.sqrt(np.maximum(w, 0))
    W, ld, out = np.linalg.inv(Sw), np.linalg.slogdet(Sw)[1], 0.
    for i in range(P.shape[1]):
        N, v = P[:, i].sum(), x - mu
        out += -0.5 * (N * len(mu) * np.log(2 * np.pi) + N * ld + np.sum(P[:, i] * np.sum(v.dot(W) * v, axis=1)))
        L, g = np.eye(len(mu)) + N * A.T.dot(W).dot(A), A.T.dot(W).dot(P[:, i].dot(v))
        out += -0.5 * np.linalg.slogdet(L)[1] + 0.5 * g.dot(np.linalg.solve(L, g))
    return out


@sub('P21', fd(em=em_st, unit=st.booleans()), quick=200, nontrivial=lambda k: nt(k['em']) and k['em']['iters'] > 1)
def em_soft(k, ctx):
    """training on soft assignments (fractional counts): the bound is exact and does not fall"""
    soft, k = k, k['em']
    c = k['m']
    r = rng(c['seed'])
    names = FLAGS[c['kind']]
    on = dict((nm, k['all'] or f) for nm, f in zip(names, k['flags']))
    kw = dict(('update_' + nm, v) for nm, v in on.items())
    if c['kind'] == 'full':
        kw['floor_iD'] = 1e-9 * c['scale'] ** 2
    p = gen_params(c, r)
    ids = np.concatenate([gen_ids(r, k['C'], k['n']), r.randint(k['C'], size=c['d'] + 3)])
    gen = build(c, gen_params(c, r))
    x = draw(Ref(*read(c, gen)), r, ids) + 0.2 * c['scale'] * r.randn(len(ids), c['d'])
    P = 0.05 + r.rand(len(x), k['C'])
    P[np.arange(len(x)), ids] += 2
    P /= P.sum(axis=1, keepdims=True) if soft['unit'] else 1.5
    m = CLS[c['kind']](**dict(p, **kw))
    D = m.compute_stats_soft(x, P)
    last = soft_bound(c, m, x, P)
    what = 'soft counts, flags %s, %s, ' % (sorted(on.items()), k['md'])
    for i in range(k['iters']):
        with unchanged('Estep', *D):
            stt = m.Estep(D)
        same(m.elbo(stt), last, '%siteration %d: bound' % (what, i), rtol=1e-6, atol=1e-5)
        if 'ml' in k['md']:
            m.MstepML(stt)
        if 'md' in k['md']:
            m.MstepMD(stt)
        if degenerate(c, m):
            ctx.label('degenerate')
            break
        now = soft_bound(c, m, x, P)
        require(now >= last - 1e-7 * (1 + abs(last)), '%siteration %d: likelihood fell from %.10g to %.10g', what, i, last, now)
        last = now


def invariants(c, m):
    mu, Sb, Sw = read(c, m)
    return dict(mu=mu, Sb=Sb, Sw=Sw)


@sub('P21', fd(m=model_st(), C=st.integers(0, 8), n=st.integers(2, 5), epochs=st.integers(1, 6), md=st.sampled_from(['ml', 'ml+md']), given=st.booleans(), diag=st.booleans(), val=st.booleans(), mdep=st.booleans()),
     quick=250, nontrivial=lambda k: k['m']['d'] > 1 and k['epochs'] > 1)
def fitting(k, ctx):
    """training by fit(): reported bounds are the exact likelihoods and grow; order and kind of labels do not matter"""
    c = dict(k['m'])
    r = rng(c['seed'])
    if c['kind'] == 'full' and not k['given']:
        c['d'] = max(c['d'], 2)
        c['z'] = min(c['z'], c['d'] - 1)
    C = c['d'] + 3 + k['C']
    p = gen_params(c, r)
    ref0 = Ref(*read(c, build(c, gen_params(c, r))))
    ids = np.concatenate([gen_ids(r, C, k['n']), np.arange(C), r.randint(C, size=3 * c['d'])])
    ids = ids[r.permutation(len(ids))]
    x = draw(ref0, r, ids) + 0.2 * c['scale'] * r.randn(len(ids), c['d'])
    idv = gen_ids(r, 3, 3)
    xv = draw(ref0, r, idv)
    kw = dict(floor_iD=1e-9 * c['scale'] ** 2) if c['kind'] == 'full' else dict(fullcov_W=not k['diag'])

    def new():
        if k['given']:
            q = dict((a, v.copy()) for a, v in p.items())
            if kw.get('fullcov_W') is False:
                q['W'] = np.diag(np.diag(q['W']))
            return CLS[c['kind']](**dict(q, **kw))
        if c['kind'] == 'full':
            return PLDA(y_dim=min(c['y'], c['d']), z_dim=c['z'], **kw)
        if c['kind'] == 's':
            return SPLDA(y_dim=min(c['y'], c['d']), **kw)
        return FRPLDA(**kw)
    md_ep = [0, 2] if k['mdep'] else None
    # reference trajectory by single steps
    m0 = new()
    D = m0.compute_stats_hard(x, ids)
    if not m0.is_init:
        m0.initialize(D)
        if c['kind'] == 'full':
            require(m0.V.shape == (min(c['y'], c['d']), c['d']) and m0.U.shape == (c['z'], c['d']), 'ranks after initialisation')
    traj, trajv = [], []
    for i in range(k['epochs']):
        if degenerate(c, m0):
            ctx.label('degenerate')
            return
        rf = Ref(*read(c, m0))
        traj.append(rf.marginal(x, ids))
        trajv.append(rf.marginal(xv, idv))
        stt = m0.Estep(D)
        m0.MstepML(stt)
        if k['md'] == 'ml+md' and (md_ep is None or i in md_ep):
            m0.MstepMD(stt)
    if degenerate(c, m0):
        ctx.label('degenerate')
        return
    for a, b in zip(traj[:-1], traj[1:]):
        require(b >= a - 1e-7 * (1 + abs(a)), 'likelihoods of the epochs %s', traj)
    m = new()
    H = np.zeros((len(x), C))
    H[np.arange(len(x)), ids] = 1
    vk = dict(x_val=xv, class_ids_val=idv) if k['val'] else {}
    with unchanged('fit', x, ids, xv, idv):
        out = m.fit(x, class_ids=ids, epochs=k['epochs'], ml_md=k['md'], md_epochs=md_ep, **vk)
    eq(len(out), 4 if k['val'] else 2, 'values returned')
    t = dict(rtol=1e-5, atol=1e-4)
    same(out[0], traj, 'bounds reported by fit', **t)
    same(out[1], np.array(traj) / len(x), 'normalised bounds', **t)
    if k['val']:
        same(out[2], trajv, 'bounds of the validation data', **t)
        same(out[3], np.array(trajv) / len(xv), 'normalised bounds of the validation data', **t)
    s, s2 = c['scale'], c['scale'] ** 2
    w = invariants(c, m0)
    q, pc = r.permutation(len(x)), r.permutation(C)
    for nm, args in (('hard labels', None), ('reordered', (x[q], dict(class_ids=np.argsort(pc)[ids][q]))), ('one-hot labels', (x, dict(ptheta=H.copy())))):
        if args is None:
            mm = m
        else:
            mm = new()
            mm.fit(args[0], epochs=k['epochs'], ml_md=k['md'], md_epochs=md_ep, **args[1])
        g = invariants(c, mm)
        same(g['mu'], w['mu'], nm + ': mean', rtol=1e-4, atol=1e-4 * s)
        same(g['Sb'], w['Sb'], nm + ': between-speaker covariance', rtol=1e-4, atol=1e-4 * s2)
        same(g['Sw'], w['Sw'], nm + ': within-speaker covariance', rtol=1e-4, atol=1e-4 * s2)


@sub('P21', fd(m=model_st()), quick=60, nontrivial=lambda k: k['m']['d'] > 1)
def sampling(k, ctx):
    """samples have the between and within covariances of the model"""
    c = k['m']
    r = rng(c['seed'])
    m = build(c, gen_params(c, r))
    mu, Sb, Sw = read(c, m)
    M, n, s = 1500, 3, c['seed'] % 1000
    x = m.sample(M, n, seed=s)
    d = c['d']
    eq(x.shape, (M * n, d), 'shape')
    same(m.sample(M, n, seed=s), x, 'same seed')
    same(m.sample(M, n, rng=np.random.RandomState(s)), x, 'generator in the same state')
    require(not np.array_equal(m.sample(M, n, seed=s + 1), x), 'another seed gives the same samples')
    X = x.reshape(M, n, d)
    ybar = X.mean(axis=1)
    Cm = Sb + Sw / n
    L = np.linalg.cholesky(Cm)
    y = np.linalg.solve(L, (ybar - mu).T).T
    require(np.all(np.abs(y.mean(axis=0)) < 7 / np.sqrt(M)), 'mean of the whitened class means %s', y.mean(axis=0))
    require(np.all(np.abs(y.T.dot(y) / M - np.eye(d)) < 7 * np.sqrt(2. / M)), 'covariance of the class means is %s, expected %s', np.cov(ybar.T), Cm)
    z = np.linalg.solve(np.linalg.cholesky(Sw), (X - ybar[:, None]).reshape(-1, d).T).T
    E = z.T.dot(z) / (M * (n - 1)) - np.eye(d)
    require(np.all(np.abs(E) < 7 * np.sqrt(2. / (M * (n - 1)))), 'within-class covariance of the whitened samples is off the identity by %s', E)


@sub('P21', fd(m=model_st(), w=st.lists(st.sampled_from([0, 0.25, 0.5, 1]), min_size=3, max_size=3), n=st.integers(1, 4), steps=st.integers(0, 2)), quick=150, nontrivial=lambda k: k['m']['d'] > 1)
def averaging(k, ctx):
    """averaging two models interpolates means and covariances, and scores follow; densities given the hidden variables"""
    c = k['m']
    r = rng(c['seed'])
    m, o = build(c, gen_params(c, r)), build(c, gen_params(c, r))
    (mu, Sb, Sw), (mo, So, Wo) = read(c, m), read(c, o)
    x = draw(Ref(mu, Sb, Sw), r, np.arange(k['n']))
    m.llr_1vs1(x, x)
    m.is_init
    wm, wb, ww = k['w']
    before = dict((a, np.array(getattr(o, a))) for a in FLAGS[c['kind']])
    D0 = m.D.copy() if c['kind'] == 'full' else None
    if k['steps']:
        ids = np.concatenate([np.arange(4), r.randint(4, size=8)])
        xx = draw(Ref(mo, So, Wo), r, ids)
        tr = build(c, dict((a, np.array(getattr(m, a))) for a in FLAGS[c['kind']]))
        tr.fit(xx, class_ids=ids, epochs=1)
        if degenerate(c, tr):
            return
        m.fit_adapt_weighted_avg_model(xx, class_ids=ids, epochs=1, plda0=o, w_mu=wm, w_B=wb, w_W=ww)
        mu, Sb, Sw = read(c, tr)
        if c['kind'] == 'full':
            D0 = tr.D
    else:
        m.weighted_avg_model(o, wm, wb, ww)
    for a, v in before.items():
        same(getattr(o, a), v, 'the other model was modified')
    g = read(c, m)
    s, s2 = c['scale'], c['scale'] ** 2
    same(g[0], wm * mo + (1 - wm) * mu, 'mean', rtol=1e-6, atol=1e-6 * s)
    want = wb * So + (1 - wb) * Sb
    if c['kind'] != 'fr':
        w, q = np.linalg.eigh(want)
        yd = len(m.V)
        want = (q[:, -yd:] * w[-yd:]).dot(q[:, -yd:].T) if wb > 0 else Sb
        if wb > 0 and yd < c['d'] and w[-yd] - w[-yd - 1] < 1e-3 * w[-1]:
            ctx.label('tied eigenvalues')
            want = None
    if want is not None:
        same(g[1], want, 'between-speaker covariance', rtol=1e-5, atol=1e-5 * s2)
    want = ww * Wo + (1 - ww) * Sw
    if c['kind'] != 'full':
        same(g[2], want, 'within-speaker covariance', rtol=1e-5, atol=1e-5 * s2)
    elif ww > 0 and s >= 1:
        same(np.diag(g[2]), np.diag(want), 'within-speaker variances', rtol=1e-4, atol=1e-3)
    ref = Ref(*g)
    same(m.llr_1vs1(x, x), [[ref.llr(a[None], b[None]) for b in x] for a in x], 'scores after averaging', rtol=1e-5, atol=1e-5)
    if c['kind'] != 'fr':
        y = r.randn(k['n'], len(m.V))
        nl = lambda v, S: -0.5 * (len(S) * np.log(2 * np.pi) + np.linalg.slogdet(S)[1] + np.sum(v * np.linalg.solve(S, v.T).T, axis=1))
        same(m.log_probx_g_y(x, y), nl(x - g[0] - y.dot(m.V), g[2]), 'log p(x|y)', rtol=1e-5, atol=1e-5)
        if c['kind'] == 'full':
            z = r.randn(k['n'], len(m.U))
            same(m.log_probx_g_yz(x, y, z), nl(x - g[0] - y.dot(m.V) - z.dot(m.U), np.diag(1 / m.D)), 'log p(x|y,z)', rtol=1e-5, atol=1e-5)
