"""P11: detection error metrics against brute force over all thresholds."""
from fractions import Fraction as Fr
from pbt.core import *
from hyperion.metrics.roc import compute_roc, compute_rocch, rocch2eer, filter_roc, compute_area_under_rocch
from hyperion.metrics.dcf import compute_dcf, compute_min_dcf, compute_act_dcf, fast_eval_dcf_eer
from hyperion.metrics.eer import compute_eer, compute_prbep
from hyperion.metrics.utils import effective_prior

RULE = 'at least two scores per class and the classes overlap (target and non-target scores interleave or tie)'

val_st = st.one_of(st.integers(-3, 3).map(float), st.floats(-20, 20, allow_nan=False).map(lambda x: round(x, 3)), st.sampled_from([0.0, 1e6, -1e6, 1e-9]))


@st.composite
def scores_st(draw, max_size=12):
    kind = draw(st.sampled_from(['any', 'any', 'ties', 'separated', 'reversed', 'gauss']))
    n, m = draw(st.integers(1, max_size)), draw(st.integers(1, max_size))
    if kind == 'ties':
        v = st.integers(-2, 2).map(float)
        return dict(tar=draw(st.lists(v, min_size=n, max_size=n)), non=draw(st.lists(v, min_size=m, max_size=m)))
    if kind == 'gauss':
        r = rng(draw(seeds))
        return dict(tar=[float(x) for x in np.round(r.randn(n * 4) + 1, 6)], non=[float(x) for x in np.round(r.randn(m * 4), 6)])
    t, x = draw(st.lists(val_st, min_size=n, max_size=n)), draw(st.lists(val_st, min_size=m, max_size=m))
    if kind == 'separated':
        d = max(x) - min(t) + 1
        t = [a + d for a in t]
    elif kind == 'reversed':
        d = max(t) - min(x) + 1
        x = [a + d for a in x]
    return dict(tar=t, non=x)


prior_st = st.sampled_from([1e-6, 0.001, 0.01, 0.05, 0.1, 0.25, 0.3, 0.5, 0.5, 0.7, 0.9, 0.99, 0.9999])
priors_st = st.lists(prior_st, min_size=1, max_size=4).map(sorted)


def interleaved(c):
    s = c.get('s', c)
    return len(s['tar']) > 1 and len(s['non']) > 1 and min(s['tar']) <= max(s['non'])


def points(tar, non):
    """exact operating points (miss, fa), accept iff score >= threshold, thresholds ascending"""
    th = sorted(set(tar) | set(non)) + [float('inf')]
    return [(Fr(sum(1 for t in tar if t < h), len(tar)), Fr(sum(1 for x in non if x >= h), len(non))) for h in th]


def hull(pts):
    """lower convex hull of (fa, miss) points, by increasing miss"""
    best = {}
    for miss, fa in pts:
        best[fa] = min(miss, best.get(fa, miss))
    p = sorted(best.items())
    h = []
    for q in p:
        while len(h) > 1 and (h[-1][0] - h[-2][0]) * (q[1] - h[-2][1]) <= (h[-1][1] - h[-2][1]) * (q[0] - h[-2][0]):
            h.pop()
        h.append(q)
    h = [(m, f) for f, m in h]
    return h[::-1]


def hull_cross(h):
    """value where the hull polyline meets miss = fa"""
    for (m0, f0), (m1, f1) in zip(h[:-1], h[1:]):
        a, b = m0 - f0, m1 - f1
        if a <= 0 <= b:
            if a == b:
                return m0
            w = -a / (b - a)
            return m0 + w * (m1 - m0)
    raise HarnessError('no crossing')


def arrs(s):
    return np.array(s['tar'], dtype=float), np.array(s['non'], dtype=float)


def F(x):
    return float(x)


@sub('P11', scores_st(), quick=600, nontrivial=interleaved)
def roc(c, ctx):
    """ROC points are the error rates at the thresholds, from (0,1) to (1,0)"""
    tar, non = arrs(c)
    with unchanged('compute_roc', tar, non):
        pm, pf = compute_roc(tar, non)
    O = points(c['tar'], c['non'])
    got = [(float(a), float(b)) for a, b in zip(pm, pf)]
    want = [(F(a), F(b)) for a, b in O]
    eq(len(pm), len(tar) + len(non) + 1, 'number of points')
    if len(set(c['tar']) | set(c['non'])) == len(c['tar']) + len(c['non']):
        same(np.array(got), np.array(want), 'ROC without ties', atol=1e-12)
    k = 0
    for g in got:
        while k < len(want) and np.allclose(g, want[k], atol=1e-12, rtol=0):
            k += 1
        lo, hi = want[max(k - 1, 0)], want[min(k, len(want) - 1)]
        require(lo[0] - 1e-12 <= g[0] <= hi[0] + 1e-12 and hi[1] - 1e-12 <= g[1] <= lo[1] + 1e-12, 'point %s between thresholds %s and %s', g, lo, hi)
    eq(k, len(want), 'operating points found in the ROC')
    fm, ff = filter_roc(pm, pf)
    eq(len(fm), len(ff), 'coordinates of the filtered ROC')
    poly = list(zip(fm, ff))
    require(poly[0] == got[0] and poly[-1] == got[-1], 'ends of the filtered ROC')
    for a, b in zip(poly[:-1], poly[1:]):
        require(a[0] == b[0] or a[1] == b[1], 'filtered ROC has a diagonal step %s %s', a, b)
        require(a[0] <= b[0] and a[1] >= b[1], 'filtered ROC goes back')
    for g in got:
        require(any(a[0] <= g[0] <= b[0] and b[1] <= g[1] <= a[1] for a, b in zip(poly[:-1], poly[1:])), 'point %s is not on the filtered ROC', g)
    for p in poly:
        require(p in got, 'filtered ROC has a new point %s', p)


@sub('P11', scores_st(), quick=700, nontrivial=interleaved)
def convex_hull(c, ctx):
    """the ROC convex hull has exactly the vertices of the hull of all operating points; EER and break-even lie on it"""
    tar, non = arrs(c)
    with unchanged('compute_rocch', tar, non):
        pm, pf = compute_rocch(tar, non)
    h = hull(points(c['tar'], c['non']))
    hm, hf = [F(a) for a, b in h], [F(b) for a, b in h]
    require(np.all(np.diff(pm) >= 0) and np.all(np.diff(pf) <= 0), 'hull is not monotone')
    for a, b in zip(hm, hf):
        require(np.any((np.abs(pm - a) < 1e-12) & (np.abs(pf - b) < 1e-12)), 'vertex miss %g fa %g is not in the hull', a, b)
    for a, b in zip(pm, pf):
        want = np.interp(a, hm, hf)
        on = abs(want - b) < 1e-9 or any(abs(a - x) < 1e-12 and y2 - 1e-12 <= b <= y1 + 1e-12 for (x, y1, x2, y2) in zip(hm, hf, hm[1:], hf[1:]) if x == x2)
        require(on, 'point miss %g fa %g is off the hull', a, b)
    e = F(hull_cross(h))
    n = [(a * len(c['tar']), b * len(c['non'])) for a, b in h]
    pr = F(hull_cross(n))
    for v, w, f in ((compute_eer(tar, non), e, 'compute_eer'), (compute_prbep(tar, non), pr, 'compute_prbep'), (rocch2eer(pm, pf), e, 'rocch2eer')):
        require(abs(v - w) < 1e-9 * max(1, w), '%s is %r, want %r', f, v, w)
    area = sum((b[0] - a[0]) * (a[1] + b[1]) / 2 for a, b in zip(h[:-1], h[1:]))
    v = compute_area_under_rocch(pm, pf)
    require(abs(v - F(area)) < 1e-9, 'area under the hull %r, want %r', v, F(area))
    if min(c['tar']) > max(c['non']):
        ctx.label('separated')
        eq(float(v), 0., 'area of separated classes')
        eq(float(compute_eer(tar, non)), 0., 'EER of separated classes')


@sub('P11', fd(s=scores_st(), p=priors_st, norm=st.booleans(), scalar=st.booleans()), quick=900, nontrivial=interleaved)
def costs(c, ctx):
    """minimum and actual detection costs equal brute force at every prior"""
    s = c['s']
    tar, non = arrs(s)
    O = points(s['tar'], s['non'])
    ps = c['p'][:1] if c['scalar'] else c['p']
    arg = ps[0] if c['scalar'] else np.array(ps)
    mins, acts = [], []
    for p in ps:
        z = min(p, 1 - p) if c['norm'] else 1.
        mins.append(min(p * F(m) + (1 - p) * F(f) for m, f in O) / z)
        t = np.log(1 - p) - np.log(p)
        tie = 1e-9 * max(1, abs(t))
        m0, m1 = np.mean(tar < t - tie), np.mean(tar <= t + tie)
        f0, f1 = np.mean(non > t + tie), np.mean(non >= t - tie)
        acts.append(((p * m0 + (1 - p) * f0) / z, (p * m1 + (1 - p) * f1) / z, (m0, m1), (f0, f1)))
    with unchanged('cost functions', tar, non):
        md, bm, bf = compute_min_dcf(tar, non, arg, c['norm'])
        ad, am, af = compute_act_dcf(tar, non, arg, c['norm'])
        fmd, fad, eer, prbep = fast_eval_dcf_eer(tar, non, arg, c['norm'])
    for name, v in (('compute_min_dcf', md), ('fast_eval_dcf_eer min', fmd)):
        same(np.ravel(v), mins, name, rtol=1e-9, atol=1e-12)
    for k, p in enumerate(ps):
        b = np.ravel(bm)[k], np.ravel(bf)[k]
        z = min(p, 1 - p) if c['norm'] else 1.
        require(abs((p * b[0] + (1 - p) * b[1]) / z - mins[k]) < 1e-9 * max(1, mins[k]), 'operating point %s of the minimum', b)
        for name, v in (('compute_act_dcf', ad), ('fast_eval_dcf_eer act', fad)):
            v = float(np.ravel(v)[k])
            require(acts[k][0] - 1e-9 * max(1, acts[k][0]) <= v <= acts[k][1] * (1 + 1e-9) + 1e-12, '%s at prior %g is %r, want %s', name, p, v, acts[k][:2])
            require(v >= mins[k] - 1e-9 * max(1, mins[k]), 'actual cost %r under the minimum %r', v, mins[k])
        a, f = float(np.ravel(am)[k]), float(np.ravel(af)[k])
        require(acts[k][2][0] - 1e-12 <= a <= acts[k][2][1] + 1e-12, 'actual miss rate %r, want %s', a, acts[k][2])
        require(acts[k][3][0] - 1e-12 <= f <= acts[k][3][1] + 1e-12, 'actual false alarm rate %r, want %s', f, acts[k][3])
        if c['norm']:
            require(mins[k] <= 1 + 1e-9 and np.ravel(md)[k] <= 1 + 1e-9, 'minimum cost over the default decision')
    eq(float(eer), float(compute_eer(tar, non)), 'EER of fast_eval_dcf_eer')
    eq(float(prbep), float(compute_prbep(tar, non)), 'PRBEP of fast_eval_dcf_eer')
    if c['scalar']:
        eq((np.ndim(md), np.ndim(ad), np.ndim(fmd), np.ndim(fad)), (0, 0, 0, 0), 'dimensions for one prior')


@sub('P11', fd(s=scores_st(), p=prior_st, seed=seeds, a=st.sampled_from([0.5, 2.0, 8.0])), quick=500, nontrivial=interleaved)
def invariances(c, ctx):
    """order, monotone transformations and class swap"""
    s = c['s']
    tar, non = arrs(s)
    r = rng(c['seed'])
    base = compute_rocch(tar, non)
    e, p = compute_eer(tar, non), c['p']
    md = compute_min_dcf(tar, non, p)[0]
    u = sorted(set(s['tar']) | set(s['non']))
    ranks = np.cumsum(1 + r.randint(0, 5, size=len(u)) * 1.0)
    mp = dict(zip(u, ranks))
    variants = dict(shuffled=(r.permutation(tar), r.permutation(non)), scaled=(c['a'] * tar, c['a'] * non),
                    ranks=(np.array([mp[x] for x in s['tar']]), np.array([mp[x] for x in s['non']])))
    for name, (t, n) in variants.items():
        same(compute_eer(t, n), e, 'EER, ' + name, atol=1e-9)
        same(compute_min_dcf(t, n, p)[0], md, 'minimum cost, ' + name, rtol=1e-9, atol=1e-12)
        g = compute_rocch(t, n)
        for q in zip(*base):
            require(abs(np.interp(q[0], g[0], g[1]) - q[1]) < 1e-9 or q[0] in (0., 1.), 'hull, ' + name)
        f0, f1 = fast_eval_dcf_eer(t, n, p)[0], fast_eval_dcf_eer(tar, non, p)[0]
        same(f0, f1, 'fast minimum cost, ' + name, rtol=1e-9, atol=1e-12)
    a0, a1 = compute_act_dcf(tar, non, p), compute_act_dcf(r.permutation(tar), r.permutation(non), p)
    same(a1[0], a0[0], 'actual cost after shuffling', rtol=1e-12)
    same(compute_eer(-non, -tar), e, 'EER of the swapped classes', atol=1e-9)
    same(compute_min_dcf(-non, -tar, 1 - p)[0], md, 'minimum cost of the swapped classes', rtol=1e-6, atol=1e-9)
    g = compute_rocch(-non, -tar)
    h0 = hull(points(s['tar'], s['non']))
    for m, f in h0:
        require(np.any((np.abs(g[0] - F(f)) < 1e-12) & (np.abs(g[1] - F(m)) < 1e-12)), 'hull of the swapped classes')


@sub('P11', fd(p=st.floats(0.001, 0.999), cm=st.floats(0.01, 100), cf=st.floats(0.01, 100), m=st.lists(st.floats(0, 1), min_size=1, max_size=4), seed=seeds,
               ps=priors_st, norm=st.booleans()), quick=200)
def dcf_formula(c, ctx):
    """detection cost and effective prior formulas"""
    pm = np.array(c['m'])
    pf = rng(c['seed']).rand(len(pm))
    d = compute_dcf(pm, pf, np.array(c['ps']), c['norm'])
    eq(d.shape, (len(c['ps']), len(pm)), 'shape of the costs')
    for i, p in enumerate(c['ps']):
        for j in range(len(pm)):
            w = (p * pm[j] + (1 - p) * pf[j]) / (min(p, 1 - p) if c['norm'] else 1)
            require(abs(d[i, j] - w) <= 1e-9 * max(1, abs(w)), 'cost %r, want %r', d[i, j], w)
    same(compute_dcf(pm, pf, c['ps'][0], c['norm']), d[0], 'cost with a scalar prior', rtol=1e-12)
    e = effective_prior(c['p'], c['cm'], c['cf'])
    a, b = c['p'] * c['cm'], (1 - c['p']) * c['cf']
    require(abs(e - a / (a + b)) < 1e-9, 'effective prior %r, want %r', e, a / (a + b))
