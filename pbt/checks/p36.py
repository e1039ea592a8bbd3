"""P36: total-variability factor analysis against the joint Gaussian of the frames and the factor."""
from pbt.core import *
from hyperion.pdfs.jfa import JFATotal

RULE = 'at least two mixture components, two factor dimensions and two recordings'
prob_st = fd(K=st.integers(1, 4), d=st.integers(1, 3), y=st.integers(1, 4), M=st.integers(1, 6), top=st.sampled_from([2, 5, 12]), seed=seeds,
             scale=st.sampled_from([0.3, 1.0, 4.0]), soft=st.booleans())


def nt(c):
    c = c.get('p', c)
    return c['K'] > 1 and c['y'] > 1 and c['M'] > 1


def problem(c, top=None):
    """model, weighted frames per recording (component, weight, frame) and their statistics"""
    r = rng(c['seed'])
    K, d, y, M = c['K'], c['d'], c['y'], c['M']
    T = c['scale'] * r.randn(y, K * d)
    true = r.randn(y, K * d)
    recs = []
    N, F, G = np.zeros((M, K)), np.zeros((M, K * d)), np.zeros(M)
    for i in range(M):
        f = r.randn(y)
        n = r.randint(1, (top or c['top']) + 1)
        rec = []
        for _ in range(n):
            k = int(r.randint(K))
            w = 0.1 + r.rand() if c['soft'] else 1.0
            x = f.dot(true[:, k * d:(k + 1) * d]) + r.randn(d) / np.sqrt(w)
            rec.append((k, w, x))
            N[i, k] += w
            F[i, k * d:(k + 1) * d] += w * x
            # density without the factor
            G[i] += -0.5 * (d * np.log(2 * np.pi) - d * np.log(w) + w * x.dot(x))
        recs.append(rec)
    return r, T, recs, N, F, G


def joint(T, rec, d):
    """posterior mean and covariance of the factor and log-density of the frames of a recording, from their joint Gaussian"""
    A = np.vstack([T[:, k * d:(k + 1) * d].T for k, _, _ in rec])
    S = np.diag(np.repeat([1 / w for _, w, _ in rec], d))
    x = np.concatenate([v for _, _, v in rec])
    C = A.dot(A.T) + S
    g = np.linalg.solve(C, A).T
    return g.dot(x), np.eye(len(T)) - g.dot(A), -0.5 * (len(x) * np.log(2 * np.pi) + np.linalg.slogdet(C)[1] + x.dot(np.linalg.solve(C, x)))


def pack(S):
    return S[np.triu_indices(len(S))]


def llk(T, recs, d):
    return np.array([joint(T, rec, d)[2] for rec in recs])


@sub('P36', prob_st, quick=400, nontrivial=nt)
def posterior(c, ctx):
    """means, covariances, bound and accumulators of the factor posteriors"""
    r, T, recs, N, F, G = problem(c)
    K, d, y = c['K'], c['d'], c['y']
    m = JFATotal(K, T=T.copy())
    ms, Ss, ls = zip(*[joint(T, rec, d) for rec in recs])
    ms, Ss, ls = np.stack(ms), np.stack(Ss), np.array(ls)
    t = 1e-7 * max(1, np.max(np.abs(ms)))
    with unchanged('posterior', N, F, G, T):
        same(m.compute_py_g_x(N, F), ms, 'posterior means', rtol=1e-6, atol=t)
        got, S = m.compute_py_g_x(N, F, return_cov=True)
        same(got, ms, 'posterior means', rtol=1e-6, atol=t)
        same(S, np.stack([pack(s) for s in Ss]), 'posterior covariances', rtol=1e-6, atol=1e-7)
        got, e = m.compute_py_g_x(N, F, return_elbo=True)
        te = 1e-7 * np.max(np.abs(np.concatenate((ls, G, [1]))))
        same(e, ls - G, 'bound without the constant', rtol=1e-6, atol=te)
        got, S, e, Ry, Py = m.compute_py_g_x(N, F, G, return_cov=True, return_elbo=True, return_acc=True)
        same(got, ms, 'posterior means', rtol=1e-6, atol=t)
        same(S, np.stack([pack(s) for s in Ss]), 'posterior covariances', rtol=1e-6, atol=1e-7)
        same(e, ls, 'bound', rtol=1e-6, atol=te)
        E2 = [s + np.outer(a, a) for s, a in zip(Ss, ms)]
        wR = np.stack([pack(sum(N[i, k] * E2[i] for i in range(len(recs)))) for k in range(K)])
        tr = 1e-6 * max(1, np.max(np.abs(wR)))
        same(Ry, wR, 'weighted second moments', rtol=1e-6, atol=tr)
        same(Py, sum(E2), 'second moments', rtol=1e-6, atol=tr)
        el, M, ya, Ry, Cy, Py = m.Estep(N, F, G)
        same(el, np.sum(ls), 'E-step: bound', rtol=1e-6, atol=te * len(ls))
        eq(int(M), len(recs), 'E-step: number of recordings')
        same(ya, ms.sum(axis=0), 'E-step: sum of means', rtol=1e-6, atol=t * len(ms))
        same(Ry, wR, 'E-step: weighted second moments', rtol=1e-6, atol=tr)
        same(Py, sum(E2), 'E-step: second moments', rtol=1e-6, atol=tr)
        same(Cy, F.T.dot(ms), 'E-step: correlations', rtol=1e-6, atol=1e-6 * max(1, np.max(np.abs(F))) * max(1, np.max(np.abs(ms))) * len(ms))


@sub('P36', fd(p=prob_st, ml_md=st.sampled_from(['ml', 'md', 'ml+md']), epochs=st.integers(1, 6), md=st.sampled_from([None, 'some', 'none']), val=st.booleans(), G=st.booleans(), init=st.booleans()),
     quick=250, nontrivial=nt)
def training(k, ctx):
    """exact EM: every iteration is the maximiser of its step, the reported likelihoods are those of the models and never fall"""
    c = k['p']
    K, d, y = c['K'], c['d'], c['y']
    r, T, recs, N, F, G = problem(dict(c, M=c['M'] + 3), top=max(c['top'], 6))
    # every component is seen
    if np.any(N.sum(axis=0) <= 0):
        return
    # the correlation matrices of a component have to be invertible: y factors need more than rank one
    ctx.label(k['ml_md'])
    mde = None if k['md'] is None else [] if k['md'] == 'none' else [0, 2]
    v = problem(dict(c, seed=c['seed'] ^ 1)) if k['val'] else None
    g = G if k['G'] else None
    if k['init']:
        np.random.seed(c['seed'] % 1000)
        m = JFATotal(K, y_dim=y)
        m.initialize(N, F)
        eq(m.T.shape, (y, K * d), 'shape of the initial factor loadings')
        T = m.T.copy()
        # not initialized: fit does it
        m = JFATotal(K, y_dim=y)
        raises(lambda: m.compute_py_g_x(N, F), 'posterior of a model without parameters')
        np.random.seed(c['seed'] % 1000)
    else:
        m = JFATotal(K, T=T.copy())
    # the sequence of models, by single steps
    seq, ref = [T], JFATotal(K, T=T.copy())
    for e in range(k['epochs']):
        s = ref.Estep(N, F, g)
        old = ref.T
        P = [joint(old, rec, d) for rec in recs]
        E2 = [a[1] + np.outer(a[0], a[0]) for a in P]
        want = old
        if k['ml_md'] != 'md':
            ref.MstepML(s)
            want = np.hstack([np.linalg.solve(sum(N[i, j] * E2[i] for i in range(len(recs))), sum(np.outer(P[i][0], F[i, j * d:(j + 1) * d]) for i in range(len(recs)))) for j in range(K)])
            same(ref.T, want, 'maximum-likelihood loadings', rtol=1e-5, atol=1e-6 * max(1, np.max(np.abs(want))))
        if k['ml_md'] != 'ml' and (mde is None or e in mde):
            ref.MstepMD(s)
            C = sum(E2) / len(recs)
            want = want.T.dot(C).dot(want)
            same(ref.T.T.dot(ref.T), want, 'covariances after the minimum-divergence step', rtol=1e-5, atol=1e-6 * max(1, np.max(np.abs(want))))
        seq.append(ref.T.copy())
    with unchanged('fit', N, F, G):
        out = m.fit(N, F, g, *((v[3], v[4]) if v else ()), epochs=k['epochs'], ml_md=k['ml_md'], md_epochs=mde)
    eq(len(out), 4 if v else 2, 'number of results')
    same(m.T, seq[-1], 'trained loadings', rtol=1e-6, atol=1e-8)
    ll = np.array([np.sum(llk(t, recs, d)) for t in seq])
    t = 1e-6 * max(1, np.max(np.abs(ll)), np.sum(np.abs(G)))
    w = ll[:-1] - (0 if k['G'] else np.sum(G))
    same(out[0], w, 'reported likelihoods', rtol=1e-6, atol=t)
    same(out[1], w / np.sum(N), 'reported likelihoods per frame', rtol=1e-6, atol=t)
    for e in range(len(ll) - 1):
        require(ll[e + 1] >= ll[e] - t, 'epoch %d (%s): likelihood fell from %.10g to %.10g', e, k['ml_md'], ll[e], ll[e + 1])
    if v:
        lv = np.array([np.sum(llk(s, v[2], d) - v[5]) for s in seq[:-1]])
        same(out[2], lv, 'validation likelihoods', rtol=1e-6, atol=1e-6 * max(1, np.max(np.abs(lv)), np.sum(np.abs(v[5]))))
        same(out[3], lv / np.sum(v[3]), 'validation likelihoods per frame', rtol=1e-6, atol=1e-6 * max(1, np.max(np.abs(lv)), np.sum(np.abs(v[5]))))


@sub('P36', prob_st, quick=100, nontrivial=nt)
def invariances(c, ctx):
    """rotations of the factor and merging of recordings; models saved and loaded; normalised loadings"""
    r, T, recs, N, F, G = problem(c)
    K, d, y = c['K'], c['d'], c['y']
    m = JFATotal(K, T=T.copy())
    q = np.linalg.qr(r.randn(y, y))[0]
    a, ea = m.compute_py_g_x(N, F, G, return_elbo=True)
    b, eb = JFATotal(K, T=q.dot(T)).compute_py_g_x(N, F, G, return_elbo=True)
    same(b, a.dot(q.T), 'rotated factor', rtol=1e-6, atol=1e-6 * max(1, np.max(np.abs(a))))
    same(eb, ea, 'bound under rotation', rtol=1e-6, atol=1e-6 * max(1, np.max(np.abs(G))))
    # a recording alone and among others
    for i in range(len(recs)):
        same(m.compute_py_g_x(N[i:i + 1], F[i:i + 1]), a[i:i + 1], 'recording alone', rtol=1e-6, atol=1e-8)
    # statistics of frames with covariances: whitening the frames whitens the loadings
    R = np.stack([np.linalg.cholesky(rand_pd(r, d)).T for _ in range(K)])
    Tn = JFATotal.normalize_T(T, R)
    for k in range(K):
        t, n = T[:, k * d:(k + 1) * d], Tn[:, k * d:(k + 1) * d]
        same(n.dot(n.T), t.dot(R[k].T.dot(R[k])).dot(t.T), 'products of normalised loadings', rtol=1e-6, atol=1e-6 * max(1, np.max(np.abs(T))**2))
        x = r.randn(d)
        same(n.dot(R[k].dot(x)), t.dot(R[k].T.dot(R[k])).dot(x), 'normalised loadings and frames', rtol=1e-6, atol=1e-6 * max(1, np.max(np.abs(T))))
    p = ctx.path('m.h5')
    m.save(p)
    z = JFATotal.load(p)
    same(z.T, T, 'loaded loadings', rtol=1e-5, atol=1e-6)
    eq((z.K, z.y_dim), (K, y), 'loaded sizes')
    same(z.compute_py_g_x(N, F), a, 'posteriors of the loaded model', rtol=1e-3, atol=1e-3 * max(1, np.max(np.abs(a))))
