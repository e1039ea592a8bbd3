"""P07: trial lists, keys and score sets against a dictionary model of (model, segment) entries."""
from pbt.core import *
from hyperion.utils.trial_ndx import TrialNdx
from hyperion.utils.trial_key import TrialKey
from hyperion.utils.trial_scores import TrialScores
from hyperion.utils.utt2info import Utt2Info

RULE = 'at least two models and two segments (histories: at least two operations; merges: the two objects overlap)'
CLS = dict(ndx=TrialNdx, key=TrialKey, scores=TrialScores)
name_st = st.text(alphabet='abcXY012_-.', min_size=1, max_size=6).filter(lambda s: s.strip('.-_') != '')


@st.composite
def obj_st(draw, kinds=('ndx', 'key', 'scores'), max_size=6):
    return dict(kind=draw(st.sampled_from(kinds)), models=draw(st.lists(name_st, min_size=1, max_size=max_size, unique=True)),
                segs=draw(st.lists(name_st, min_size=1, max_size=max_size, unique=True)), seed=draw(seeds),
                mc=draw(st.integers(0, 3)), sc=draw(st.integers(0, 3)), tc=draw(st.integers(0, 3)), names=draw(st.booleans()),
                dens=draw(st.sampled_from([0.2, 0.5, 0.9])))


def mk(o):
    """random contents -> object and its model (a dictionary view)"""
    r = rng(o['seed'])
    ms, ss = o['models'], o['segs']
    shape = (len(ms), len(ss))
    if o['kind'] == 'ndx':
        x = TrialNdx(list(ms), list(ss), r.rand(*shape) < o['dens'])
    elif o['kind'] == 'scores':
        x = TrialScores(list(ms), list(ss), np.round(r.randn(*shape) * 10, 5), r.rand(*shape) < o['dens'])
    else:
        u = r.rand(*shape)
        kw = {}
        for f, n, sh in (('model_cond', o['mc'], shape[:1]), ('seg_cond', o['sc'], shape[1:]), ('trial_cond', o['tc'], shape)):
            if n:
                kw[f] = r.rand(*((n,) + sh)) < 0.5
                if o['names']:
                    kw[f + '_name'] = ['%s%d' % (f, i) for i in range(n)]
        x = TrialKey(list(ms), list(ss), u < o['dens'] / 2, u > 1 - o['dens'] / 2, **kw)
    return x, view(x)


def strs(a):
    return [str(x) for x in np.asarray(a)]


def view(x):
    ms, ss = strs(x.model_set), strs(x.seg_set)
    shape = (len(ms), len(ss))
    v = dict(models=ms, segs=ss, cell={}, mc=None, sc=None, names=None)

    def mat(a, what, sh=shape):
        a = np.asarray(a)
        eq(tuple(a.shape), tuple(sh), what + ' shape')
        return a
    if isinstance(x, TrialNdx):
        m = mat(x.trial_mask, 'trial_mask')
        f = lambda i, j: bool(m[i, j])
    elif isinstance(x, TrialScores):
        m, s = mat(x.score_mask, 'score_mask'), mat(x.scores, 'scores')
        f = lambda i, j: round(float(s[i, j]), 4) if m[i, j] else None
    else:
        t, n = mat(x.tar, 'tar'), mat(x.non, 'non')
        tc = x.trial_cond
        if tc is not None:
            tc = mat(tc, 'trial_cond', (len(tc),) + shape)
        f = lambda i, j: (bool(t[i, j]), bool(n[i, j]), None if tc is None else tuple(bool(z) for z in tc[:, i, j]))
        if x.model_cond is not None:
            c = mat(x.model_cond, 'model_cond', (len(x.model_cond), shape[0]))
            v['mc'] = {k: tuple(bool(z) for z in c[:, i]) for i, k in enumerate(ms)}
        if x.seg_cond is not None:
            c = mat(x.seg_cond, 'seg_cond', (len(x.seg_cond), shape[1]))
            v['sc'] = {k: tuple(bool(z) for z in c[:, i]) for i, k in enumerate(ss)}
        v['names'] = [None if z is None else strs(z) for z in (x.model_cond_name, x.seg_cond_name, x.trial_cond_name)]
    for i, a in enumerate(ms):
        for j, b in enumerate(ss):
            v['cell'][(a, b)] = f(i, j)
    return v


def restrict(v, ms, ss):
    return dict(models=list(ms), segs=list(ss), cell={(a, b): v['cell'][(a, b)] for a in ms for b in ss},
                mc=None if v['mc'] is None else {a: v['mc'][a] for a in ms}, sc=None if v['sc'] is None else {b: v['sc'][b] for b in ss}, names=v['names'])


def agree(x, m, what, ordered=False):
    v = view(x)
    if ordered:
        eqlist(v['models'], m['models'], what + ': model order')
        eqlist(v['segs'], m['segs'], what + ': segment order')
    eqlist(sorted(v['models']), sorted(m['models']), what + ': models')
    eqlist(sorted(v['segs']), sorted(m['segs']), what + ': segments')
    for k in m['cell']:
        a, b = v['cell'][k], m['cell'][k]
        if isinstance(a, float) and isinstance(b, float):
            require(abs(a - b) <= 2e-4 + 1e-5 * abs(b), '%s: score of %s is %s, want %s', what, k, a, b)
        else:
            eq(a, b, '%s: entry %s' % (what, (k,)))
    for f in ('mc', 'sc', 'names'):
        eq(v[f], m[f], '%s: %s' % (what, f))
    return v


def merged(a, b, kind):
    ms, ss = sorted(set(a['models']) | set(b['models'])), sorted(set(a['segs']) | set(b['segs']))

    def orr(x, y, n):
        z = (False,) * n
        return tuple(p or q for p, q in zip(x if x is not None else z, y if y is not None else z))
    out = dict(models=ms, segs=ss, cell={}, mc=None, sc=None, names=a['names'])
    for p in ms:
        for q in ss:
            u, w = a['cell'].get((p, q)), b['cell'].get((p, q))
            if kind == 'ndx':
                z = bool(u) or bool(w)
            elif kind == 'scores':
                z = u if u is not None else w
            else:
                e = next(iter(a['cell'].values()))[2]
                u, w = u or (False, False, None), w or (False, False, None)
                z = (u[0] or w[0], u[1] or w[1], None if e is None else orr(u[2], w[2], len(e)))
            out['cell'][(p, q)] = z
    for f, ks in (('mc', ms), ('sc', ss)):
        if a[f] is not None:
            n = len(next(iter(a[f].values())))
            out[f] = {k: orr(a[f].get(k), b[f].get(k), n) for k in ks}
    return out


def trials_of(x):
    """(model, segment) -> content, for the cells that are trials"""
    v = view(x)
    if isinstance(x, TrialNdx):
        return {k: True for k, c in v['cell'].items() if c}
    if isinstance(x, TrialScores):
        return {k: c for k, c in v['cell'].items() if c is not None}
    return {k: c[:2] for k, c in v['cell'].items() if c[0] or c[1]}


op_st = st.one_of(
    fd(op='sort'), fd(op='filter', m=st.lists(st.integers(0, 9), max_size=5), s=st.lists(st.integers(0, 9), max_size=5), keep=st.booleans()),
    fd(op='split', nm=st.integers(1, 4), ns=st.integers(1, 4), merge=st.booleans(), i=st.integers(0, 3), j=st.integers(0, 3)),
    fd(op='h5'), fd(op='copy'))


def big(o):
    return len(o['models']) > 1 and len(o['segs']) > 1


@sub('P07', fd(o=obj_st(), ops=st.lists(op_st, min_size=1, max_size=5)), quick=700, nontrivial=lambda c: big(c['o']) and len(c['ops']) > 1)
def histories(c, ctx):
    """sequences of sort / filter / split / merge / save-load, compared with the model after every step"""
    x, m = mk(c['o'])
    cls = CLS[c['o']['kind']]
    for op in c['ops']:
        o = op['op']
        ctx.label(c['o']['kind'] + ' ' + o)
        if not m['models'] or not m['segs']:
            break
        if o == 'sort':
            x.sort()
            m = restrict(m, sorted(m['models']), sorted(m['segs']))
            agree(x, m, 'sorted', True)
        elif o == 'filter':
            ms = list(dict.fromkeys(m['models'][i % len(m['models'])] for i in op['m']))
            ss = list(dict.fromkeys(m['segs'][i % len(m['segs'])] for i in op['s']))
            arr = lambda z: np.array(z) if z else np.array([], dtype='U1')
            y = x.filter(arr(ms), arr(ss), keep=op['keep'])
            agree(x, m, 'original after filter', True)
            if op['keep']:
                m = restrict(m, ms, ss)
                agree(y, m, 'filtered', True)
            else:
                m = restrict(m, [a for a in m['models'] if a not in ms], [b for b in m['segs'] if b not in ss])
                v = agree(y, m, 'inverted filter')
                m = restrict(m, v['models'], v['segs'])
            x = y
            if m['models'] and m['segs']:
                raises(lambda: x.filter(arr(['no_such']), arr(m['segs'][:1])), 'filter with an unknown model')
                raises(lambda: x.filter(arr(m['models'][:1]), arr(['no_such'])), 'filter with an unknown segment')
                if cls is TrialScores:
                    ms, ss = m['models'][::-1] + ['no_such'], ['no_such'] + m['segs'][::-1]
                    w = dict(m, models=ms, segs=ss, cell={(a, b): m['cell'].get((a, b)) for a in ms for b in ss})
                    agree(x.filter(arr(ms), arr(ss), raise_missing=False), w, 'filtered with unknown names', True)
                    agree(x, m, 'original after the filter', True)
        elif o == 'split':
            nm, ns = min(op['nm'], len(m['models'])), min(op['ns'], len(m['segs']))
            parts = [[x.split(i + 1, nm, j + 1, ns) for j in range(ns)] for i in range(nm)]
            vs = [[view(p) for p in row] for row in parts]
            for i in range(nm):
                for j in range(ns):
                    agree(parts[i][j], restrict(m, vs[i][0]['models'], vs[0][j]['segs']), 'part %d,%d' % (i + 1, j + 1), True)
            eqlist([a for i in range(nm) for a in vs[i][0]['models']], m['models'], 'models over the parts')
            eqlist([b for j in range(ns) for b in vs[0][j]['segs']], m['segs'], 'segments over the parts')
            if op['merge']:
                x = cls.merge([p for row in parts for p in row])
                v = agree(x, m, 'split and merged')
                m = restrict(m, v['models'], v['segs'])
            else:
                i, j = op['i'] % nm, op['j'] % ns
                x, m = parts[i][j], vs[i][j]
        elif o == 'h5':
            x.save(ctx.path('x.h5'))
            x = cls.load(ctx.path('x.h5'))
            agree(x, m, 'loaded', True)
        elif o == 'copy':
            y = x.copy()
            require(bool(x == y) and not bool(x != y), 'copy compares different')
            y.model_set[:] = 'q'
            for f in ('trial_mask', 'tar', 'non', 'score_mask', 'model_cond', 'seg_cond', 'trial_cond'):
                if getattr(y, f, None) is not None:
                    getattr(y, f)[:] = ~getattr(y, f)
            agree(x, m, 'original after changing its copy', True)
        agree(x, m, 'after ' + o, True)


@sub('P07', fd(o=obj_st(), extra=st.booleans()), quick=300, nontrivial=lambda c: big(c['o']))
def text_files(c, ctx):
    """text round trip describes the same trials, labels and scores"""
    x, m = mk(c['o'])
    t = trials_of(x)
    if not t:
        return
    x.save(ctx.path('x.txt'))
    y = CLS[c['o']['kind']].load(ctx.path('x.txt'))
    eq(sorted(y.model_set), sorted(set(k[0] for k in t)), 'models')
    eq(sorted(y.seg_set), sorted(set(k[1] for k in t)), 'segments')
    g = trials_of(y)
    eq(sorted(g), sorted(t), 'trials in the text file')
    for k in t:
        if c['o']['kind'] == 'scores':
            require(abs(g[k] - t[k]) < 2e-4, 'score of %s: %s want %s', k, g[k], t[k])
        else:
            eq(g[k], t[k], 'label of %s' % (k,))
    agree(x, m, 'original after saving', True)


@st.composite
def pair_st(draw):
    a = draw(obj_st())
    b = dict(a, seed=draw(seeds))
    pool = draw(st.lists(name_st, max_size=3))
    for f in ('models', 'segs'):
        z = draw(st.lists(st.sampled_from(a[f] + pool), min_size=1, max_size=6, unique=True))
        b[f] = z
    return dict(a=a, b=b)


@sub('P07', pair_st(), quick=400, nontrivial=lambda c: bool(set(c['a']['models']) & set(c['b']['models'])) and big(c['a']))
def merge_two(c, ctx):
    """merging overlapping objects takes the union of their entries"""
    k = c['a']['kind']
    x, m = mk(c['a'])
    y, w = mk(c['b'])
    if k == 'scores':
        both = set(trials_of(x)) & set(trials_of(y))
        if both:
            ctx.label('overlapping scores')
            raises(lambda: TrialScores.merge([x, y]), 'merging score sets that score the same trial')
            for i, a in enumerate(strs(y.model_set)):
                for j, b in enumerate(strs(y.seg_set)):
                    if (a, b) in both:
                        y.score_mask[i, j] = False
            w = view(y)
        if c['a']['seed'] % 2:
            x.scores[~x.score_mask] = 0
            y.scores[~y.score_mask] = 0
    z = CLS[k].merge([x, y])
    agree(z, merged(m, w, k), 'merged')
    agree(CLS[k].merge([y, x]), dict(merged(w, m, k), names=w['names']), 'merged in the other order')
    agree(x, m, 'first input after merging', True)
    agree(y, w, 'second input after merging', True)
    agree(CLS[k].merge([x]), m, 'merge of one object')


@sub('P07', fd(o=obj_st(kinds=('key',))), quick=150, nontrivial=lambda c: big(c['o']))
def key_to_ndx(c, ctx):
    """the index of a key contains exactly its target and non-target trials"""
    x, m = mk(c['o'])
    n = x.to_ndx()
    require(isinstance(n, TrialNdx), 'to_ndx returns %s', type(n))
    v = view(n)
    eqlist(v['models'], m['models'], 'models')
    eqlist(v['segs'], m['segs'], 'segments')
    for k, t in m['cell'].items():
        eq(v['cell'][k], t[0] or t[1], 'trial %s' % (k,))
    agree(x, m, 'key after conversion', True)


CH = dict(ndx=['same', 'model', 'seg', 'trial_mask', 'drop'], scores=['same', 'model', 'seg', 'scores', 'score_mask', 'drop'],
          key=['same', 'model', 'seg', 'tar', 'non', 'model_cond', 'seg_cond', 'trial_cond', 'names', 'drop', 'nocond'])


@sub('P07', fd(o=obj_st(), ch=st.integers(0, 20), i=st.integers(0, 9), j=st.integers(0, 9), cc=st.integers(0, 2)), quick=500)
def equality(c, ctx):
    """objects are equal exactly when sets, trials, labels, conditions and scores are"""
    x, _ = mk(c['o'])
    y, _ = mk(c['o'])
    ch = CH[c['o']['kind']]
    ch = ch[c['ch'] % len(ch)]
    i, j = c['i'] % len(c['o']['models']), c['j'] % len(c['o']['segs'])
    same_ = False
    if ch == 'same':
        same_ = True
    elif ch == 'model':
        y.model_set = np.array([a + ('q' if k == i else '') for k, a in enumerate(strs(y.model_set))])
    elif ch == 'seg':
        y.seg_set = np.array([a + ('q' if k == j else '') for k, a in enumerate(strs(y.seg_set))])
    elif ch in ('trial_mask', 'tar', 'non', 'score_mask'):
        getattr(y, ch)[i, j] = ~getattr(y, ch)[i, j]
    elif ch == 'scores':
        y.scores[i, j] += 1
        y.score_mask[i, j] = x.score_mask[i, j] = True
    elif ch in ('model_cond', 'seg_cond', 'trial_cond'):
        a = getattr(y, ch)
        if a is None:
            return
        ix = (c['cc'] % len(a),) + dict(model_cond=(i,), seg_cond=(j,), trial_cond=(i, j))[ch]
        a[ix] = ~a[ix]
    elif ch == 'names':
        f = ['model_cond_name', 'seg_cond_name', 'trial_cond_name'][c['cc']]
        a = getattr(y, f)
        if a is None:
            return
        a[c['j'] % len(a)] = 'q'
    elif ch == 'nocond':
        f = ['model_cond', 'seg_cond', 'trial_cond'][c['cc']]
        if getattr(y, f) is None:
            return
        setattr(y, f, None)
    elif ch == 'drop':
        if len(c['o']['models']) < 2:
            return
        y = y.filter(y.model_set[1:], y.seg_set)
    ctx.label(ch)
    eq(bool(x == y), same_, 'x == y after changing ' + ch)
    eq(bool(y == x), same_, 'y == x after changing ' + ch)
    eq(bool(x != y), not same_, 'x != y after changing ' + ch)


@sub('P07', fd(o=obj_st(), bad=st.sampled_from(['dup model', 'dup seg', 'rows', 'cols', 'nan', 'inf', 'mc', 'sc', 'tc', 'tc2', 'non']), k=st.integers(0, 9)), quick=300)
def validation(c, ctx):
    """inconsistent inputs are rejected, consistent ones are not"""
    x, m = mk(c['o'])
    kind, b = c['o']['kind'], c['bad']
    ms, ss = list(m['models']), list(m['segs'])
    a = dict(ndx=('trial_mask',), key=('tar', 'non', 'model_cond', 'seg_cond', 'trial_cond'), scores=('scores', 'score_mask'))[kind]
    a = {f: getattr(x, f) for f in a}
    CLS[kind](list(ms), list(ss), **a)
    d = dict(a)
    dup = lambda v: None if v is None else np.concatenate([v, v[:1]], axis=0)
    if b == 'dup model':
        ms = ms + ms[:1]
        d = {f: (v if f in ('model_cond', 'seg_cond', 'trial_cond') else dup(v)) for f, v in a.items()}
        for f in ('model_cond', 'trial_cond'):
            if d.get(f) is not None:
                d[f] = np.concatenate([d[f], d[f][:, :1]], axis=1)
    elif b == 'dup seg':
        ss = ss + ss[:1]
        d = {f: (v if f in ('model_cond', 'seg_cond', 'trial_cond') else np.concatenate([v, v[:, :1]], axis=1)) for f, v in a.items()}
        if d.get('seg_cond') is not None:
            d['seg_cond'] = np.concatenate([d['seg_cond'], d['seg_cond'][:, :1]], axis=1)
        if d.get('trial_cond') is not None:
            d['trial_cond'] = np.concatenate([d['trial_cond'], d['trial_cond'][:, :, :1]], axis=2)
    elif b in ('rows', 'cols', 'non'):
        f = dict(ndx='trial_mask', key='tar', scores=['scores', 'score_mask'][c['k'] % 2])[kind]
        if b == 'non':
            if kind != 'key':
                return
            f = 'non'
        d[f] = dup(a[f]) if b == 'rows' else np.concatenate([a[f], a[f][:, :1]], axis=1)
    elif b in ('nan', 'inf'):
        if kind != 'scores':
            return
        d['scores'] = a['scores'].copy()
        d['scores'][c['k'] % len(ms), 0] = np.nan if b == 'nan' else np.inf
    else:
        f = dict(mc='model_cond', sc='seg_cond', tc='trial_cond', tc2='trial_cond')[b]
        if kind != 'key' or a[f] is None:
            return
        ax = 2 if b == 'tc2' else 1
        d[f] = np.concatenate([a[f], a[f][(slice(None),) * ax + (slice(0, 1),)]], axis=ax)
    ctx.label(b)
    raises(lambda: CLS[kind](ms, ss, **d), 'inconsistent %s (%s)' % (kind, b))


@sub('P07', fd(o=obj_st()), quick=100)
def defaults(c, ctx):
    """an index without mask holds all trials, scores without mask are all valid, a key without labels has no trials"""
    ms, ss = c['o']['models'], c['o']['segs']
    n = len(ms) * len(ss)
    eq(len(trials_of(TrialNdx(list(ms), list(ss)))), n, 'trials of a full index')
    eq(len(trials_of(TrialKey(list(ms), list(ss)))), 0, 'trials of an empty key')
    eq(len(trials_of(TrialScores(list(ms), list(ss), np.ones((len(ms), len(ss)))))), n, 'valid scores')
    x = TrialScores(list(ms), list(ss))
    eq(x.scores.shape, (len(ms), len(ss)), 'default score matrix')
    for z in (TrialNdx(list(ms), list(ss)), TrialKey(list(ms), list(ss)), x):
        eq((z.num_models, z.num_tests), (len(ms), len(ss)), 'num_models, num_tests')


@sub('P07', fd(o=obj_st(kinds=('ndx',)), ev=st.sampled_from(['enroll-test', 'enroll-coh', 'coh-test', 'coh-coh']), none=st.booleans(), n=st.integers(1, 3), extra=st.integers(0, 2), nt=st.integers(1, 5)),
     quick=200, nontrivial=lambda c: big(c['o']))
def evaluation_sets(c, ctx):
    """trials and enrolment list for main and cohort evaluations"""
    x, m = mk(c['o'])
    r = rng(c['o']['seed'])
    rows = [('e%02d' % (i * 7 % 100), a) for i, a in enumerate((m['models'] + ['zz%d' % j for j in range(c['extra'])]) * c['n'])]
    rows = [rows[i] for i in r.permutation(len(rows))]
    if c['ev'].startswith('coh'):
        rows = [('e%02d' % i, 'm%d' % (i % 3)) for i in range(len(rows))]
    enroll = Utt2Info.create([a for a, _ in rows], [b for _, b in rows])
    tk = ['t%d' % i for i in r.permutation(c['nt'])]
    test = Utt2Info.create(tk, tk)
    if c['none']:
        n, e = TrialNdx.parse_eval_set(None, enroll, test, c['ev'])
        m = dict(models=sorted(set(b for _, b in rows)), segs=tk, cell=None)
    elif c['ev'] == 'enroll-test':
        n, e = TrialNdx.parse_eval_set(x, enroll)
    else:
        n, e = TrialNdx.parse_eval_set(x, enroll, test, c['ev'])
    ekey = [a for a, _ in rows]
    if c['ev'].startswith('enroll'):
        keep = [q for q in rows if q[1] in m['models']]
    else:
        keep, m = rows, dict(m, models=ekey, cell=None)
    if c['ev'].endswith('coh'):
        m = dict(m, segs=tk, cell=None)
    v = view(n)
    eqlist(v['models'], m['models'], 'models')
    eqlist(v['segs'], m['segs'], 'segments')
    for q, t in v['cell'].items():
        eq(t, True if m['cell'] is None else m['cell'][q], 'trial %s' % (q,))
    eqlist([(str(a), str(b)) for a, b in zip(e.key, e.info)], keep, 'enrolment list')
    eqlist([(str(a), str(b)) for a, b in zip(enroll.key, enroll.info)], rows, 'enrolment list given')
    eqlist(list(test.key), tk, 'test list given')


class Segments(object):
    """the part of an extended segment list that apply_segmentation_to_test uses"""

    def __init__(self, d):
        self.d = d

    def ext_segment_ids_from_file(self, f):
        return np.array(self.d[str(f)])


@sub('P07', fd(o=obj_st(kinds=('ndx',)), ns=st.lists(st.integers(1, 4), min_size=6, max_size=6)), quick=100, nontrivial=lambda c: big(c['o']))
def segmented_tests(c, ctx):
    """the segments of a test file take its trials"""
    x, m = mk(c['o'])
    d = dict((f, ['%s-%d' % (f, i) for i in range(n)]) for f, n in zip(m['segs'], c['ns']))
    n = x.apply_segmentation_to_test(Segments(d))
    v = view(n)
    eqlist(v['models'], m['models'], 'models')
    eqlist(v['segs'], [s for f in m['segs'] for s in d[f]], 'segments')
    for a in m['models']:
        for f in m['segs']:
            for s in d[f]:
                eq(v['cell'][(a, s)], m['cell'][(a, f)], 'trial %s %s' % (a, s))
    agree(x, m, 'list after the segmentation', True)
