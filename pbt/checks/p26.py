"""P26: agglomerative clustering and K-means against naive references."""
from pbt.core import *
from hyperion.clustering import AHC, KMeans

RULE = 'at least four items (AHC) or more points than clusters and two dimensions (K-means)'

ahc_st = fd(seed=seeds, n=st.integers(2, 12), method=st.sampled_from(['average', 'complete', 'single', 'weighted', 'ward']), metric=st.sampled_from(['llr', 'llr', 'prob', 'distance']),
            mask=st.sampled_from([None, None, .3, .7]), scale=st.sampled_from([.1, 1., 50.]), pos=st.booleans())
nt = lambda k: k['n'] >= 4


def case(k):
    r = rng(k['seed'])
    n = k['n']
    method = k['method']
    if k['metric'] == 'distance':
        p = r.randn(n, 3) * k['scale']
        x = np.sqrt(((p[:, None] - p[None]) ** 2).sum(axis=-1))
    else:
        if method == 'ward':
            method = 'average'
        x = r.rand(n, n) if k['metric'] == 'prob' else r.randn(n, n) * k['scale'] + (100 if k['pos'] else 0)
        x = (x + x.T) / 2
    m = None
    if k['mask'] is not None:
        m = r.rand(n, n) > k['mask']
        m = m & m.T
        np.fill_diagonal(m, True)
    return x, m, method, r


def ref_ahc(d, method):
    """d: dissimilarities.  returns list of (height, partition as set of frozensets) after 0, 1, ... merges"""
    n = len(d)
    D = {}
    cl = {i: frozenset([i]) for i in range(n)}
    for i in range(n):
        for j in range(i):
            D[i, j] = D[j, i] = d[min(i, j), max(i, j)]
    out = [(None, set(cl.values()))]
    new = n
    while len(cl) > 1:
        ids = sorted(cl)
        h, a, b = min((D[i, j], i, j) for i in ids for j in ids if i < j)
        na, nb = len(cl[a]), len(cl[b])
        for q in ids:
            if q in (a, b):
                continue
            da, db, nq = D[a, q], D[b, q], len(cl[q])
            if method == 'single':
                v = min(da, db)
            elif method == 'complete':
                v = max(da, db)
            elif method == 'average':
                v = (na * da + nb * db) / (na + nb)
            elif method == 'weighted':
                v = (da + db) / 2
            else:
                v = np.sqrt(((na + nq) * da ** 2 + (nb + nq) * db ** 2 - nq * h ** 2) / (na + nb + nq))
            D[new, q] = D[q, new] = v
        cl[new] = cl[a] | cl[b]
        del cl[a], cl[b]
        new += 1
        out.append((h, set(cl.values())))
    return out


def partition(lab):
    lab = np.asarray(lab)
    return set(frozenset(np.flatnonzero(lab == v).tolist()) for v in np.unique(lab))


def check_labels(lab, n, K, what):
    lab = np.asarray(lab)
    eq(lab.shape, (n,), what + ': shape')
    eq(sorted(set(lab.tolist())), list(range(K)), what + ': labels used')


@sub('P26', ahc_st, quick=150, nontrivial=nt)
def ahc(k, ctx):
    x, m, method, r = case(k)
    n = k['n']
    sim = k['metric'] != 'distance'
    big = 1e9
    y = -x if sim else x
    if m is not None:
        y = np.where(m, y, big)
        ctx.label('mask')
    ref = ref_ahc(y, method)
    a = AHC(method=method, metric=k['metric'])
    raw = x.copy()
    if k['seed'] % 3 == 0:
        raw[np.tril_indices(n)] = 0
    before = raw.copy()
    with unchanged('AHC', raw, m):
        a.fit(raw, mask=m)
    h = [v[0] for v in ref[1:]]
    hs = [-v if sim else v for v in h]
    ok = [abs(v) < 1e6 for v in h]
    eq(len(a.Z), n - 1, 'number of merges')
    for i in range(n - 1):
        if ok[i]:
            same(a.Z[i, 2], hs[i], 'score of merge %d' % i, rtol=1e-5, atol=1e-5 * max(1, k['scale']))
    # merges that do not involve masked pairs are at the start
    nok = sum(ok)
    require(all(ok[:nok]), 'reference')
    for cached in (False, True):
        for K in range(1, n + 2):
            got = a.get_flat_clusters(K, criterion='num_clusters')
            Kc = min(K, n)
            check_labels(got, n, Kc, '%d clusters' % K)
            if n - Kc <= nok:
                eq(partition(got), ref[n - Kc][1], 'partition in %d clusters' % K)
        thr = []
        hh = hs[:nok]
        gap = 1e-4 * max(1, k['scale'])
        for i in range(nok + 1):
            if nok == 0:
                t = [float(x.max() + 1 if sim else x.min() - 1)]
            elif i == 0:
                t = [hh[0] + gap if sim else hh[0] - gap]
            elif i == nok:
                t = [hh[-1] - gap if sim else hh[-1] + gap]
            elif abs(hh[i] - hh[i - 1]) > 2 * gap:
                t = [(hh[i] + hh[i - 1]) / 2, hh[i] + (gap if sim else -gap), hh[i - 1] + (-gap if sim else gap)]
            else:
                t = []
            if i and t:
                t = t + [float(a.Z[i - 1, 2])]   # a score equal to the threshold merges
            for v in t:
                got = a.get_flat_clusters(v)
                check_labels(got, n, n - i, 'threshold %g' % v)
                eq(partition(got), ref[i][1], 'partition for threshold %g' % v)
                eqlist(np.asarray(a.get_flat_clusters_from_thr(v)).tolist(), np.asarray(got).tolist(), 'get_flat_clusters_from_thr')
        if not cached:
            # the same, from the table with every partition
            a.compute_flat_clusters()
            ctx.label('n=%d' % n)
    # nested
    prev = None
    for K in range(n, 0, -1):
        P = partition(a.get_flat_clusters_from_num_clusters(K))
        if prev is not None:
            require(all(any(c <= d for d in P) for c in prev), 'partitions not nested at %d clusters', K)
        prev = P
    # relabelling the items
    p = r.permutation(n)
    b = AHC(method=method, metric=k['metric'])
    b.fit(x[np.ix_(p, p)], mask=None if m is None else m[np.ix_(p, p)])
    for K in range(n - nok, n + 1):
        if K < 1:
            continue
        want = set(frozenset(int(np.flatnonzero(p == i)[0]) for i in c) for c in ref[n - K][1])
        eq(partition(b.get_flat_clusters(K, criterion='num')), want, 'relabelled items, %d clusters' % K)


@sub('P26', fd(seed=seeds, n=st.integers(2, 9), method=st.sampled_from(['average', 'complete', 'single']), lv=st.integers(2, 5)), quick=100, nontrivial=nt)
def ahc_ties(k, ctx):
    """with tied scores: each merge joins a closest pair, and flat clusters are the merges above the threshold"""
    r = rng(k['seed'])
    n = k['n']
    x = np.triu(r.randint(0, k['lv'], (n, n)), 1).astype(float)
    x = x + x.T
    a = AHC(method=k['method'], metric='llr')
    a.fit(x)
    cl = {i: [i] for i in range(n)}
    f = dict(average=np.mean, complete=np.min, single=np.max)[k['method']]
    for i in range(n - 1):
        u, v, h = int(a.Z[i, 0]), int(a.Z[i, 1]), a.Z[i, 2]
        require(u in cl and v in cl and u != v, 'merge %d joins clusters that do not exist', i)
        best = max(f(x[np.ix_(cl[p], cl[q])]) for p in cl for q in cl if p != q)
        same(h, f(x[np.ix_(cl[u], cl[v])]), 'score of merge %d' % i, rtol=1e-9, atol=1e-9)
        same(h, best, 'best score at merge %d' % i, rtol=1e-9, atol=1e-9)
        cl[n + i] = cl.pop(u) + cl.pop(v)
        eq(partition(a.get_flat_clusters(n - 1 - i, 'num')), set(frozenset(c) for c in cl.values()), 'clusters after merge %d' % i)
    for t in np.arange(-.53, k['lv'] + 1, .25):
        K = n - int(np.sum(a.Z[:, 2] >= t))
        eq(len(partition(a.get_flat_clusters(t))), K, 'number of clusters at %g' % t)
    if k['method'] == 'single':
        # connected components of the graph of the scores above the threshold
        for t in np.arange(.5, k['lv'], 1.):
            comp = list(range(n))
            for _ in range(n):
                for i in range(n):
                    for j in range(n):
                        if i != j and x[i, j] >= t:
                            comp[i] = comp[j] = min(comp[i], comp[j])
            eq(partition(a.get_flat_clusters(t)), partition(comp), 'connected components at %g' % t)


def cond_entropy(a, b):
    """H(a|b) in nats"""
    n, h = float(len(a)), 0.
    for v in set(b):
        s = [x for x, y in zip(a, b) if y == v]
        for u in set(s):
            p = s.count(u) / float(len(s))
            h -= len(s) / n * p * np.log(p)
    return h


@sub('P26', fd(base=ahc_st, C=st.integers(2, 5), refit=st.booleans()), quick=80, nontrivial=lambda k: nt(k['base']))
def impurity(k, ctx):
    """homogeneity and completeness losses of every partition of the tree"""
    x, m, method, r = case(k['base'])
    n = len(x)
    a = AHC(method=method, metric=k['base']['metric'])
    if k['refit']:
        n0 = r.randint(2, 8)
        z = r.rand(n0, n0)
        a.fit(z + z.T)
        a.evaluate_impurity_det(r.randint(0, 2, n0))
        ctx.label('refit')
    a.fit(x)
    ref = ref_ahc(-x if k['base']['metric'] != 'distance' else x, method)
    lab = r.randint(0, k['C'], n).tolist()
    lab[:2] = [0, 1]
    im, co = a.evaluate_impurity_det(np.array(lab))
    eq((np.shape(im), np.shape(co)), ((n,), (n,)), 'shape')
    zero = [0] * n
    for i in range(n):
        cl = [0] * n
        for q, c in enumerate(ref[i][1]):
            for e in c:
                cl[e] = q
        hc, hk = cond_entropy(lab, zero), cond_entropy(cl, zero)
        same(im[i], cond_entropy(lab, cl) / hc, 'impurity after %d merges' % i, rtol=1e-6, atol=1e-6)
        if hk > 0:      # undefined for one cluster
            same(co[i], cond_entropy(cl, lab) / hk, 'dispersion after %d merges' % i, rtol=1e-6, atol=1e-6)
        eq(partition(a.get_flat_clusters(n - i, 'num')), ref[i][1], 'partition after %d merges' % i)


km_st = fd(seed=seeds, n=st.integers(1, 40), d=st.integers(1, 4), K=st.integers(1, 6), dup=st.booleans(), shift=st.sampled_from([0., 0., 50.]), f32=st.booleans(), epochs=st.sampled_from([1, 2, 3, 100]), sep=st.sampled_from([0., 3., 30.]))
ntk = lambda k: k['n'] > k['K'] > 1 and k['d'] > 1


@sub('P26', km_st, quick=200, nontrivial=ntk)
def kmeans(k, ctx):
    r = rng(k['seed'])
    n, d, K = k['n'], k['d'], k['K']
    x = r.randn(n, d) + k['shift'] + k['sep'] * r.randn(K, d)[r.randint(0, K, n)]
    if k['dup']:
        x = np.round(x)
        ctx.label('duplicates')
    if k['f32']:
        x = x.astype('float32')
    tol = 1e-4 if k['f32'] else 1e-8
    with unchanged('KMeans', x):
        km = KMeans(K)
        loss, idx = km.fit(x, epochs=k['epochs'])
    loss, idx = np.asarray(loss, dtype=float), np.asarray(idx)
    require(1 <= len(loss) <= k['epochs'], 'number of loss values %d', len(loss))
    eq(np.shape(km.mu), (K, d), 'shape of the centroids')
    x = x.astype(float)
    sc = tol * (1 + np.abs(x).max() ** 2)
    d2 = ((x[:, None] - np.asarray(km.mu, dtype=float)[None]) ** 2).sum(axis=-1)
    eq(idx.shape, (n,), 'shape of the assignments')
    same(d2[np.arange(n), idx], d2.min(axis=1), 'distance to the assigned centroid', rtol=tol, atol=sc)
    same(loss[-1], d2.min(axis=1).mean(), 'last loss', rtol=tol, atol=sc)
    require(np.all(np.diff(loss) <= sc), 'loss increases: %s', loss)
    i2, e2 = km.predict(x)
    same(d2[np.arange(n), i2], d2.min(axis=1), 'predict', rtol=tol, atol=sc)
    same(e2, d2.min(axis=1), 'predicted errors', rtol=tol, atol=sc)
    # centroids: one more run of the same number of iterations ends at the same place
    km1 = KMeans(K)
    l1, idx1 = km1.fit(x.astype('float32') if k['f32'] else x, epochs=k['epochs'])
    same(km1.mu, km.mu, 'second fit', rtol=tol, atol=sc)
    # Lloyd steps from farthest-point seeds
    if not k['f32'] and not k['dup'] and n >= K:
        mu = [x[0]]
        while len(mu) < K:
            mu.append(x[np.argmax(((x[:, None] - np.array(mu)[None]) ** 2).sum(axis=-1).min(axis=1))])
        mu = np.array(mu)
        a = ((x[:, None] - mu[None]) ** 2).sum(axis=-1).argmin(axis=1)
        first = None
        for e in range(len(loss)):
            if len(set(a.tolist())) < K:
                ctx.label('empty cluster')
                return
            mu = np.stack([x[a == c].mean(axis=0) for c in range(K)])
            dd = ((x[:, None] - mu[None]) ** 2).sum(axis=-1)
            a = dd.argmin(axis=1)
            same(loss[e], dd.min(axis=1).mean(), 'loss of iteration %d' % e, rtol=1e-7, atol=sc)
        same(km.mu, mu, 'centroids', rtol=1e-7, atol=sc)
        same(idx, a, 'assignments')
        ctx.label('lloyd')
        if len(loss) < k['epochs'] and len(loss) > 1:
            ctx.label('converged')
            require(abs(loss[-2] - loss[-1]) <= 2e-3 * loss[-2] + sc, 'stopped before convergence: %s', loss)
