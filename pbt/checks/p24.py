"""P24: score normalization against per-trial reference statistics."""
from pbt.core import *
from hyperion.score_norm import TNorm, ZNorm, ZTNorm, TZNorm, SNorm, AdaptSNorm

RULE = 'at least two enrollment models, two test segments and three cohort items'
T = dict(rtol=1e-7, atol=1e-8)

base_st = fd(seed=seeds, ne=st.integers(1, 5), nt=st.integers(1, 6), nc=st.integers(1, 9), nd=st.integers(2, 9),
             scale=st.sampled_from([.01, 1., 30.]), shift=st.sampled_from([0., -5., 100.]), floor=st.sampled_from([None, 1e-5, 1e-5, 1e-3, .5, 5.]),
             const=st.booleans(), mct=st.sampled_from([None, 1., .5, .8]), mec=st.sampled_from([None, 1., .5, .8]), mcc=st.sampled_from([None, 1., .6]),
             keepm=st.sampled_from([1, 1, 2]))
nt = lambda k: k['ne'] > 1 and k['nt'] > 1 and k['nc'] > 2


def scores(k):
    r = rng(k['seed'])
    f = lambda *s: r.randn(*s) * k['scale'] + k['shift']
    # enr x test, coh(nc) x test, enr x coh(nc), coh x coh
    return f(k['ne'], k['nt']), f(k['nc'], k['nt']), f(k['ne'], k['nc']), f(k['nc'], k['nd']), r


def mask(r, shape, p, axis, least=1):
    """boolean mask with at least `least` entries kept along axis"""
    if p is None:
        return None
    m = r.rand(*shape) < p
    mm = m if axis == 0 else m.T
    n = mm.shape[0]
    for j in range(mm.shape[1]):
        i = r.permutation(n)
        mm[i[:min(least, n)], j] = True
    return m


def opts(k):
    return {} if k['floor'] is None else {'std_floor': k['floor']}


def stats(v, m, floor):
    v = v if m is None else v[m]
    return v.mean(), max(np.sqrt(np.mean((v - v.mean()) ** 2)), floor)


def ref_t(s, ct, m, floor):
    out = np.zeros(s.shape)
    for j in range(s.shape[1]):
        a, b = stats(ct[:, j], None if m is None else m[:, j], floor)
        out[:, j] = (s[:, j] - a) / b
    return out


def ref_z(s, ec, m, floor):
    return ref_t(s.T, ec.T, None if m is None else m.T, floor).T


def fl(k):
    return 1e-5 if k['floor'] is None else k['floor']



@sub('P24', base_st, quick=150, nontrivial=nt)
def t_z(k, ctx):
    s, ct, ec, cc, r = scores(k)
    if k['const']:
        ct[:, 0] = ct[0, 0]
        ec[0] = ec[0, 0]
        ctx.label('constant')
    mct, mec = mask(r, ct.shape, k['mct'], 0), mask(r, ec.shape, k['mec'], 1)
    # deviations close to the floor can fall at either side because of rounding
    tol = dict(rtol=1e-6, atol=1e-6 + 1e-9 * (abs(k['shift']) + k['scale']) / fl(k))
    with unchanged('TNorm', s, ct, mct):
        same(TNorm(**opts(k)).predict(s, ct, mct), ref_t(s, ct, mct, fl(k)), 't-norm', **tol)
    with unchanged('ZNorm', s, ec, mec):
        same(ZNorm(**opts(k)).predict(s, ec, mec), ref_z(s, ec, mec, fl(k)), 'z-norm', **tol)
    with unchanged('SNorm', s, ct, ec, mct, mec):
        same(SNorm(**opts(k)).predict(s, ct, ec, mct, mec), (ref_t(s, ct, mct, fl(k)) + ref_z(s, ec, mec, fl(k))) / np.sqrt(2), 's-norm', **tol)


@sub('P24', base_st, quick=150, nontrivial=nt)
def zt_tz(k, ctx):
    s, ct, ec, _, r = scores(k)
    # the stats of the cohort against itself: Z-normalizes the cohort (rows of coh_test), T-normalizes it (columns of enr_coh)
    nc, nd = k['nc'], k['nd']
    ccz = r.randn(nc, nd) * k['scale'] + k['shift']
    cct = r.randn(nd, nc) * k['scale'] + k['shift']
    mct, mec = mask(r, ct.shape, k['mct'], 0), mask(r, ec.shape, k['mec'], 1)
    mz, mt = mask(r, ccz.shape, k['mcc'], 1), mask(r, cct.shape, k['mcc'], 0)
    f = fl(k)
    zt = ref_t(ref_z(s, ec, mec, f), ref_z(ct, ccz, mz, f), mct, f)
    tz = ref_z(ref_t(s, ct, mct, f), ref_t(ec, cct, mt, f), mec, f)
    with unchanged('ZTNorm', s, ct, ec, ccz, mct, mec, mz):
        got = ZTNorm(**opts(k)).predict(s, ct, ec, ccz, mct, mec, mz)
    close(got, zt, 'zt-norm')
    with unchanged('TZNorm', s, ct, ec, cct, mct, mec, mt):
        got = TZNorm(**opts(k)).predict(s, ct, ec, cct, mct, mec, mt)
    close(got, tz, 'tz-norm')


def close(got, want, what):
    """relative to the size of the reference; entries blown up by a floored deviation are compared relatively"""
    got, want = np.asarray(got), np.asarray(want)
    same(got, want, what, rtol=1e-5, atol=1e-5 * max(1., np.abs(want).max() if want.size else 1.))


def ref_adapt(s, ct, ec, mct, mec, nbest, disc, floor):
    z, t = np.zeros(s.shape), np.zeros(s.shape)
    nc = ct.shape[0]
    rct = ct if mct is None else np.where(mct, ct, -np.inf)
    rec = ec if mec is None else np.where(mec, ec, -np.inf)
    for i in range(s.shape[0]):
        for j in range(s.shape[1]):
            top = sorted(range(nc), key=lambda c: -rct[c, j])[disc:disc + nbest]
            a, b = stats(ec[i, top], None if mec is None else mec[i, top], floor)
            z[i, j] = (s[i, j] - a) / b
            top = sorted(range(nc), key=lambda c: -rec[i, c])[disc:disc + nbest]
            a, b = stats(ct[top, j], None if mct is None else mct[top, j], floor)
            t[i, j] = (s[i, j] - a) / b
    return (z + t) / np.sqrt(2)


adapt_st = fd(base=base_st, nbest=st.one_of(st.integers(1, 9), st.just(None)), disc=st.integers(0, 4), same=st.booleans())


def adapt_case(k):
    b = k['base']
    s, ct, ec, _, r = scores(b)
    disc = min(k['disc'], b['nc'] - 1)
    nbest = 100 if k['nbest'] is None else k['nbest']
    need = min(disc + nbest, b['nc'])
    mct, mec = mask(r, ct.shape, b['mct'], 0, need), mask(r, ec.shape, b['mec'], 1, need)
    # every selected set of the other side needs a kept item: keep all of them for the pairs that would be empty
    for _ in range(50):
        bad = False
        for i in range(b['ne']):
            for j in range(b['nt']):
                for rk, m, a in ((ct[:, j] if mct is None else np.where(mct[:, j], ct[:, j], -np.inf), mec, 'e'), (ec[i] if mec is None else np.where(mec[i], ec[i], -np.inf), mct, 't')):
                    if m is None:
                        continue
                    top = np.argsort(-rk, kind='stable')[disc:disc + nbest]
                    row = m[i] if a == 'e' else m[:, j]
                    if not row[top].any():
                        row[top[0]] = True
                        bad = True
        if not bad:
            break
    else:
        raise HarnessError('no valid mask')
    o = dict(opts(b), nbest_discard=disc)
    if k['nbest'] is not None:
        o['nbest'] = nbest
    return s, ct, ec, mct, mec, nbest, disc, o, r


@sub('P24', adapt_st, quick=200, nontrivial=lambda k: nt(k['base']))
def adaptive(k, ctx):
    s, ct, ec, mct, mec, nbest, disc, o, r = adapt_case(k)
    if disc + nbest < k['base']['nc']:
        ctx.label('selects')
    if disc:
        ctx.label('discards')
    if (mct is not None and not mct.all()) or (mec is not None and not mec.all()):
        ctx.label('masked')
    with unchanged('AdaptSNorm', s, ct, ec, mct, mec):
        got = AdaptSNorm(**o).predict(s, ct, ec, mct, mec)
    want = ref_adapt(s, ct, ec, mct, mec, nbest, disc, fl(k['base']))
    close(got, want, 'adaptive s-norm')
    if nbest + disc >= k['base']['nc'] and disc == 0:
        ctx.label('whole cohort')
        close(got, SNorm(**opts(k['base'])).predict(s, ct, ec, mct, mec), 'adaptive s-norm with the whole cohort')


def all_norms(k, nbest, disc):
    o = opts(k)
    return [('t', lambda a: TNorm(**o).predict(a['s'], a['ct'], a['mct'])),
            ('z', lambda a: ZNorm(**o).predict(a['s'], a['ec'], a['mec'])),
            ('s', lambda a: SNorm(**o).predict(a['s'], a['ct'], a['ec'], a['mct'], a['mec'])),
            ('zt', lambda a: ZTNorm(**o).predict(a['s'], a['ct'], a['ec'], a['cc'], a['mct'], a['mec'], a['mcc'])),
            ('tz', lambda a: TZNorm(**o).predict(a['s'], a['ct'], a['ec'], a['cc'], a['mct'], a['mec'], a['mcc'])),
            ('as', lambda a: AdaptSNorm(nbest=nbest, nbest_discard=disc, **o).predict(a['s'], a['ct'], a['ec'], a['mct'], a['mec']))]


@sub('P24', adapt_st, quick=120, nontrivial=lambda k: nt(k['base']))
def metamorphic(k, ctx):
    """cohort order, trial subsets, common affine map of every score, true masks"""
    b = k['base']
    s, ct, ec, mct, mec, nbest, disc, o, r = adapt_case(k)
    nc = b['nc']
    cc = r.randn(nc, nc) * b['scale'] + b['shift']
    mcc = None
    if b['mcc'] is not None:
        mcc = r.rand(nc, nc) < b['mcc']
        mcc |= np.eye(nc, dtype=bool)
    a = dict(s=s, ct=ct, ec=ec, cc=cc, mct=mct, mec=mec, mcc=mcc)
    sel = lambda x, *ix: None if x is None else x[np.ix_(*ix)]
    p = r.permutation(nc)
    E, J, Cc = np.arange(b['ne']), np.arange(b['nt']), np.arange(nc)
    perm = dict(s=s, ct=ct[p], ec=ec[:, p], cc=cc[np.ix_(p, p)], mct=sel(mct, p, J), mec=sel(mec, E, p), mcc=sel(mcc, p, p))
    e = np.sort(r.choice(b['ne'], r.randint(1, b['ne'] + 1), replace=False))
    j = r.permutation(b['nt'])[:r.randint(1, b['nt'] + 1)]
    part = dict(s=s[np.ix_(e, j)], ct=ct[:, j], ec=ec[e], cc=cc, mct=sel(mct, Cc, j), mec=sel(mec, e, Cc), mcc=mcc)
    true = lambda m, x: m if m is not None else np.ones(x.shape, dtype=bool)
    full = dict(a, mct=true(mct, ct), mec=true(mec, ec), mcc=true(mcc, cc))
    # masked-out cohort scores have no influence
    junk = lambda x, m: x if m is None else np.where(m, x, r.choice([-1e3, 0., 1e3], x.shape))
    garb = dict(a, ct=junk(ct, mct), ec=junk(ec, mec), cc=junk(cc, mcc))
    for name, f in all_norms(b, nbest, disc):
        want = f(a)
        eq(want.shape, s.shape, name + ': shape')
        close(f(perm), want, name + ': permuted cohort')
        close(f(part), want[np.ix_(e, j)], name + ': subset of the trials')
        close(f(full), want, name + ': true masks')
        close(f(garb), want, name + ': masked-out cohort scores')
        if b['floor'] in (None, 1e-5) and nc > 1 and name in ('t', 'z', 's') and mct is None and mec is None:
            g = lambda x: 3. * x - 7.
            if not b['const']:
                m = dict(a, s=g(s), ct=g(ct), ec=g(ec))
                close(f(m), want, name + ': affine map of the scores')
                ctx.label('affine')


@sub('P24', fd(seed=seeds, e=st.integers(1, 3), t=st.integers(1, 3), nc=st.integers(2, 5), bad=st.integers(1, 2)), quick=15)
def mismatch(k, ctx):
    r = rng(k['seed'])
    s, ct, ec = r.randn(k['e'], k['t']), r.randn(k['nc'], k['t']), r.randn(k['e'], k['nc'] + k['bad'])
    raises(lambda: AdaptSNorm(nbest=2).predict(s, ct, ec), 'cohorts of different size')
    raises(lambda: AdaptSNorm(nbest=2, nbest_discard=k['nc']).predict(s, ct, ec[:, :k['nc']]), 'every cohort item discarded')
