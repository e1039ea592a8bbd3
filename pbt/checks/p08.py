"""P08: scores are attributed to the right trial (align, missing values, target / non-target extraction, transform)."""
from pbt.core import *
from pbt.checks.p07 import name_st, strs
from hyperion.utils.trial_ndx import TrialNdx
from hyperion.utils.trial_key import TrialKey
from hyperion.utils.trial_scores import TrialScores

RULE = 'the score set and the trial list have different orders or different members'


@st.composite
def case_st(draw):
    ms, ss = draw(st.lists(name_st, min_size=1, max_size=6, unique=True)), draw(st.lists(name_st, min_size=1, max_size=6, unique=True))
    rel = draw(st.sampled_from(['subset', 'perm', 'any']))
    if rel == 'subset':
        km, ks = draw(st.lists(st.sampled_from(ms), min_size=1, unique=True)), draw(st.lists(st.sampled_from(ss), min_size=1, unique=True))
    elif rel == 'perm':
        km, ks = draw(st.permutations(ms)), draw(st.permutations(ss))
    else:
        km = draw(st.lists(st.sampled_from(ms + ['new1', 'new2']), min_size=1, unique=True))
        ks = draw(st.lists(st.sampled_from(ss + ['new3', 'new4']), min_size=1, unique=True))
    return dict(ms=ms, ss=ss, km=list(km), ks=list(ks), kind=draw(st.sampled_from(['ndx', 'key'])), seed=draw(seeds),
                full=draw(st.booleans()), dens=draw(st.sampled_from([0.3, 0.7, 1.0])), val=draw(st.sampled_from([-10.0, 0.0, 7.5])))


def mk(c):
    r = rng(c['seed'])
    sh, kh = (len(c['ms']), len(c['ss'])), (len(c['km']), len(c['ks']))
    mask = np.ones(sh, dtype=bool) if c['full'] else r.rand(*sh) < 0.8
    sc = r.permutation(sh[0] * sh[1]).reshape(sh) + 1.0      # all different, so that a misplaced score shows
    s = TrialScores(list(c['ms']), list(c['ss']), sc.copy(), mask.copy())
    u = r.rand(*kh)
    tar, non = u < c['dens'] / 2, u >= 1 - c['dens'] / 2
    n = TrialNdx(list(c['km']), list(c['ks']), tar | non) if c['kind'] == 'ndx' else TrialKey(list(c['km']), list(c['ks']), tar, non)
    d = {(a, b): sc[i, j] for i, a in enumerate(c['ms']) for j, b in enumerate(c['ss']) if mask[i, j]}
    return s, n, sc, mask, tar, non, d


def diff(c):
    return c['ms'] != c['km'] or c['ss'] != c['ks']


def expected(c, trial, d):
    """per position: ('no',) not a trial, ('missing',) or ('score', x)"""
    out = {}
    for i, a in enumerate(c['km']):
        for j, b in enumerate(c['ks']):
            out[i, j] = None if not trial[i, j] else d.get((a, b), 'missing')
    return out


@sub('P08', case_st(), quick=900, nontrivial=diff)
def align(c, ctx):
    """aligned scores sit at the position of their trial; missing trials raise or stay unscored"""
    s, n, sc, mask, tar, non, d = mk(c)
    want = expected(c, tar | non, d)
    missing = any(isinstance(v, str) for v in want.values())
    members = set(c['km']) <= set(c['ms']) and set(c['ks']) <= set(c['ss'])
    ctx.label('missing' if missing else 'complete', c['kind'])
    if missing:
        raises(lambda: s.align_with_ndx(n), 'aligning with missing trials')
        raises(lambda: s.align_with_ndx(n, raise_missing=True), 'aligning with missing trials')
    with unchanged('align_with_ndx', s.scores, s.score_mask, tar, non):
        outs = [s.align_with_ndx(n, raise_missing=False)]
        if not missing and members:
            outs.append(s.align_with_ndx(n))
    for o in outs:
        eqlist(strs(o.model_set), c['km'], 'models')
        eqlist(strs(o.seg_set), c['ks'], 'segments')
        for (i, j), v in want.items():
            ok = v is not None and not isinstance(v, str)
            eq(bool(o.score_mask[i, j]), ok, 'score mask of (%s, %s)' % (c['km'][i], c['ks'][j]))
            if ok:
                eq(float(o.scores[i, j]), v, 'score of (%s, %s)' % (c['km'][i], c['ks'][j]))
    eqlist(strs(s.model_set), c['ms'], 'models of the original')


@sub('P08', case_st(), quick=700, nontrivial=diff)
def missing_to_value(c, ctx):
    """missing trials are filled with the requested value, and only those"""
    s, n, sc, mask, tar, non, d = mk(c)
    want = expected(c, tar | non, d)
    with unchanged('set_missing_to_value', s.scores, s.score_mask, tar, non):
        o = s.set_missing_to_value(n, c['val'])
    eqlist(strs(o.model_set), c['km'], 'models')
    eqlist(strs(o.seg_set), c['ks'], 'segments')
    for (i, j), v in want.items():
        eq(bool(o.score_mask[i, j]), v is not None, 'score mask')
        if v is not None:
            eq(float(o.scores[i, j]), c['val'] if isinstance(v, str) else v, 'score of (%s, %s)' % (c['km'][i], c['ks'][j]))


@sub('P08', case_st(), quick=700, nontrivial=diff)
def tar_non(c, ctx):
    """target and non-target scores are exactly those of the trials with that label"""
    c = dict(c, kind='key')
    s, n, sc, mask, tar, non, d = mk(c)
    want = expected(c, tar | non, d)
    if any(isinstance(v, str) for v in want.values()):
        raises(lambda: s.get_tar_non(n), 'extracting scores with missing trials')
        s = s.set_missing_to_value(n, c['val'])
        want = {k: (c['val'] if isinstance(v, str) else v) for k, v in want.items()}
    elif not (set(c['km']) <= set(c['ms']) and set(c['ks']) <= set(c['ss'])):
        return
    t, x = s.get_tar_non(n)
    eqlist(sorted(float(v) for v in t), sorted(v for k, v in want.items() if tar[k]), 'target scores')
    eqlist(sorted(float(v) for v in x), sorted(v for k, v in want.items() if non[k]), 'non-target scores')


@sub('P08', fd(c=case_st(), a=st.sampled_from([2.0, -1.0, 0.5]), b=st.sampled_from([0.0, 3.0])), quick=250, nontrivial=lambda c: not c['c']['full'])
def transform(c, ctx):
    """a transformation is applied to scored trials only"""
    s, n, sc, mask, tar, non, d = mk(c['c'])
    s.transform(lambda x: c['a'] * x + c['b'])
    same(s.scores, np.where(mask, c['a'] * sc + c['b'], sc), 'transformed scores')
    same(s.score_mask, mask, 'score mask')


@sub('P08', case_st(), quick=400, nontrivial=diff)
def filter_missing(c, ctx):
    """filtering with missing models or segments keeps the known scores at their place and leaves the others unscored"""
    s, n, sc, mask, tar, non, d = mk(c)
    km, ks = np.array(c['km']), np.array(c['ks'])
    o = s.filter(km, ks, raise_missing=False)
    if not (set(c['km']) <= set(c['ms']) and set(c['ks']) <= set(c['ss'])):
        raises(lambda: s.filter(km, ks), 'filtering with missing entries')
    eqlist(strs(o.model_set), c['km'], 'models')
    eqlist(strs(o.seg_set), c['ks'], 'segments')
    for i, a in enumerate(c['km']):
        for j, b in enumerate(c['ks']):
            eq(bool(o.score_mask[i, j]), (a, b) in d, 'score mask of (%s, %s)' % (a, b))
            if (a, b) in d:
                eq(float(o.scores[i, j]), d[a, b], 'score of (%s, %s)' % (a, b))
