"""P33: extended segment lists keep the segments, identities and series together; speaker-tracking readers follow them."""
import pandas as pd

from pbt.core import *
from hyperion.io import DataWriterFactory
from hyperion.utils import ExtSegmentList, SegmentList, Utt2Info, RTTM
from hyperion.utils.trial_ndx import TrialNdx
from hyperion.transforms import TransformList, LNorm
from hyperion.helpers.tracking_data_reader import TrackingDataReader

RULE = 'two or more files with several segments, an extended segment of several segments, or more than one part'
COLS = ['file_id', 'segment_id', 'ext_segment_id', 'series_id']


@st.composite
def lists(draw):
    nf = draw(st.integers(1, 4))
    return dict(seed=draw(seeds), numeric=draw(st.booleans()), nseg=draw(st.lists(st.integers(1, 5), min_size=nf, max_size=nf)),
                ext=draw(st.lists(st.integers(0, 2), min_size=5 * nf, max_size=5 * nf)), series=draw(st.lists(st.integers(0, 2), min_size=nf, max_size=nf)),
                names=draw(st.lists(st.sampled_from(['ann', 'bob', 'NA2', '07', None]), min_size=3 * nf, max_size=3 * nf)),
                noscore=draw(st.integers(0, 15)), each=draw(st.booleans()), col=draw(st.sampled_from(COLS)))


class Model(object):
    """rows (segment, file, tbeg, tend, ext), ext -> (name, score), file -> series; in list order"""

    def __init__(self, c):
        r = rng(c['seed'])
        nf = len(c['nseg'])
        order = r.permutation(nf)
        fid = lambda i: ('%03d' % order[i]) if c['numeric'] else 'file%d' % order[i]
        self.rows, self.ext, self.files = [], {}, {}
        sids = r.permutation(100)
        for f in range(nf):
            self.files[fid(f)] = ('%02d' if c['numeric'] else 'ser%d') % c['series'][f]
            t = r.randint(0, 3000)
            for s in range(c['nseg'][f]):
                d = r.randint(1, 2000)
                sid = ('%d' if c['numeric'] else 'seg%d') % sids[len(self.rows)]
                k = c['ext'][5 * f + s]
                eid = sid if c['each'] else ('%d%d' % (order[f], k) if c['numeric'] else 'ext%d-%d' % (order[f], k))
                if eid not in self.ext:
                    nm = c['names'][(3 * f + (s if c['each'] else k)) % len(c['names'])]
                    self.ext[eid] = (nm, None if c['noscore'] >> (len(self.ext) % 4) & 1 else r.randint(-50, 50) / 8.)
                self.rows.append((sid, fid(f), t / 1000., (t + d) / 1000., eid))
                t += r.choice([0, r.randint(0, d), d])

    def key(self, row, col):
        return {'file_id': row[1], 'segment_id': row[0], 'ext_segment_id': row[4], 'series_id': self.files[row[1]]}[col]

    def keys(self, col):
        out = []
        for row in self.rows:
            k = self.key(row, col)
            if k not in out:
                out.append(k)
        return out

    def only(self, rows):
        m = Model.__new__(Model)
        m.rows = rows
        m.ext = dict((e, v) for e, v in self.ext.items() if e in set(x[4] for x in rows))
        m.files = dict((f, v) for f, v in self.files.items() if f in set(x[1] for x in rows))
        return m

    def build(self, col):
        seg = pd.DataFrame(self.rows, columns=['segment_id', 'file_id', 'tbeg', 'tend', 'ext_segment_id'])
        ext = pd.DataFrame([(e, np.nan if n is None else n, np.nan if s is None else s) for e, (n, s) in self.ext.items()],
                           columns=['ext_segment_id', 'name', 'score'])
        files = pd.DataFrame(list(self.files.items()), columns=['file_id', 'series_id'])
        return ExtSegmentList(seg, ext, files, col)


def none(x):
    return None if x is None or (isinstance(x, float) and np.isnan(x)) else x


def check(l, m, what, names=True, ordered=True):
    rows = list(zip(l.segment_id, l.file_id, [round(float(t), 6) for t in l.tbeg], [round(float(t), 6) for t in l.tend], l.ext_segment_id))
    if ordered:
        eqlist(rows, m.rows, what + ': segments')
    else:
        eqlist(sorted(rows), sorted(m.rows), what + ': segments')
        for f in set(l.file_id):
            tb = l.tbeg[l.file_id == f]
            require(np.all(np.diff(tb) >= 0), '%s: segments of %s out of order', what, f)
    eq(len(l), len(m.rows), what + ': length')
    eqlist(sorted(l.uniq_segment_id), sorted(m.ext), what + ': extended segments')
    eq(l.num_ext_segments, len(m.ext), what + ': number of extended segments')
    eqlist(sorted(zip(l.uniq_file_id, l.series_id)), sorted(m.files.items()), what + ': files and series')
    eqlist(sorted(l.uniq_series_id), sorted(set(m.files.values())), what + ': series')
    if names:
        eqlist([none(x) for x in l.segment_names], [m.ext[x[4]][0] for x in rows], what + ': names')
        eqlist([none(x) for x in l.segment_score], [m.ext[x[4]][1] for x in rows], what + ': scores')


nt = lambda c: len(c['nseg']) > 1 and max(c['nseg']) > 1


@sub('P33', fd(l=lists(), keys=st.lists(st.integers(0, 12), min_size=1, max_size=6, unique=True), parts=st.integers(1, 4)), quick=150, nontrivial=lambda k: nt(k['l']))
def tables(k, ctx):
    """saving, loading, looking up, filtering, splitting, merging and iterating"""
    c = k['l']
    col = c['col']
    m = Model(c)
    l = m.build(col)
    ctx.label(col)
    check(l, m, 'list')
    p = ctx.path('l')
    l.save(p)
    check(ExtSegmentList.load(p, index_column=col), m, 'loaded list')
    # more digits than the three that are written
    f = m.only(m.rows)
    f.rows = [x[:2] + (round(x[2] + 0.00021, 6), round(x[3] + 0.00021, 6), x[4]) for x in m.rows]
    f.ext = dict((e, (n, None if s is None else s + 0.00021)) for e, (n, s) in m.ext.items())
    lf = f.build(col)
    check(lf, f, 'list with more digits')
    lf.save(p)
    check(ExtSegmentList.load(p, index_column=col), m, 'loaded list with the digits written')
    bad = k['keys'][0] % len(m.rows)
    f.rows = [x[:3] + (x[2] - 0.125,) + x[4:] if i == bad else x for i, x in enumerate(m.rows)]
    raises(lambda: f.build(col), 'a segment that ends before its beginning')
    if len(m.rows) > 1 and m.rows[0][1] == m.rows[1][1] and m.rows[0][2] < m.rows[1][2]:
        f.rows = [m.rows[1], m.rows[0]] + m.rows[2:]
        raises(lambda: f.build(col), 'segments of a file that are not in order of time')
    # names in the order of the segments
    pos = dict((e, i) for i, e in enumerate(l.uniq_segment_id))
    eqlist(l.get_ext_segment_index(), [pos[x[4]] for x in m.rows], 'indexes of the extended segments')
    nm = [m.ext[x[4]][0] for x in m.rows]
    if None not in nm:
        u = sorted(set(nm))
        eqlist(l.segment_names_index, [u.index(x) for x in nm], 'indexes of the names')
    for f in m.files:
        eqlist(l.segment_ids_from_file(f), [x[0] for x in m.rows if x[1] == f], 'segments of ' + f)
        eqlist(sorted(l.ext_segment_ids_from_file(f)), sorted(set(x[4] for x in m.rows if x[1] == f)), 'extended segments of ' + f)
    # by key
    ks = m.keys(col)
    some = [ks[i % len(ks)] for i in k['keys']]
    some = sorted(set(some), key=some.index)
    want = m.only([x for x in m.rows if m.key(x, col) in some])
    check(l.filter(some), want, 'filtered list', ordered=False)
    check(l.filter(np.array(some)), want, 'list filtered with an array', ordered=False)
    rest = m.only([x for x in m.rows if m.key(x, col) not in some])
    if rest.rows:
        check(l.filter(some, keep=False), rest, 'rest of the list', ordered=False)
    check(l, m, 'list after filtering')
    one = l[some[0]]
    w1 = m.only([x for x in m.rows if m.key(x, col) == some[0]])
    if col == 'segment_id':
        eq(len(one), 1, 'rows of a segment')
        row = one.iloc[0]
        x = w1.rows[0]
        eqlist([row[n] for n in ('segment_id', 'file_id', 'ext_segment_id')] + [none(row['name']), none(row['score'])],
               [x[0], x[1], x[4]] + list(m.ext[x[4]]), 'segment by key')
        same([row['tbeg'], row['tend']], [x[2], x[3]], 'times of a segment by key')
    else:
        check(one, w1, 'part by key', ordered=False)
    if col != 'series_id':
        eq([x in l for x in some + ['none']], [True] * len(some) + [False], 'membership')
    # iteration
    units = list(l)
    eq(len(units), len(ks), 'number of units')
    if col == 'segment_id':
        eqlist([x['segment_id'].iloc[0] for x in units], [x[0] for x in m.rows], 'segments by iteration')
    else:
        eqlist(sorted(m.key(x, col) for u in units for x in [(u.segment_id[0], u.file_id[0], 0, 0, u.ext_segment_id[0])]), sorted(ks), 'units by iteration')
        for u in units:
            kk = m.key((u.segment_id[0], u.file_id[0], 0, 0, u.ext_segment_id[0]), col)
            check(u, m.only([x for x in m.rows if m.key(x, col) == kk]), 'unit by iteration', ordered=False)
    # parts
    n = min(k['parts'], len(ks))
    parts = [l.split(i + 1, n) for i in range(n)]
    got = sorted(s for q in parts for s in q.segment_id)
    eqlist(got, sorted(x[0] for x in m.rows), 'segments of the %d parts' % n)
    for q in parts:
        check(q, m.only([x for x in m.rows if x[0] in set(q.segment_id)]), 'part', ordered=False)
    cat = [x for q in parts for x in zip(q.file_id, q.tbeg)]
    if all(a[0] != b[0] or a[1] <= b[1] for a, b in zip(cat, cat[1:])):      # otherwise the parts interleave in time
        check(ExtSegmentList.merge(parts, col), m, 'merged parts', ordered=False)
    # equality
    o = l.copy()
    require(o == l and not (o != l), 'a copy differs')
    e = list(m.ext)[k['keys'][0] % len(m.ext)]
    o.assign_names([e], ['zed'], [7.25])
    require(o != l and not (o == l), 'lists with different names compare equal')
    m.ext[e] = ('zed', 7.25)
    check(o, m, 'list with a new name')


@sub('P33', fd(l=lists(), how=st.sampled_from(['scalar', 'dict', 'nan', 'list']), series=st.booleans(), own=st.booleans(), seglist=st.booleans()), quick=120, nontrivial=lambda k: nt(k['l']))
def construction(k, ctx):
    """lists from arrays, from a segment list and from the segments alone"""
    c = dict(k['l'])
    if k['own'] or k['seglist'] or k['how'] == 'list':
        c['each'] = True
    m = Model(c)
    col = c['col']
    sid, fid, tb, te, eid = [list(x) for x in zip(*m.rows)]
    ser = {}
    for f, s in m.files.items():
        ser.setdefault(s, []).append(f)
    kw = dict(index_column=col)
    if k['series']:
        kw['series_id'] = ser
    else:
        m.files = dict((f, f) for f in m.files)
    if k['how'] == 'scalar':
        kw.update(name='someone', score=1.5)
        m.ext = dict((e, ('someone', 1.5)) for e in m.ext)
    elif k['how'] == 'nan':
        m.ext = dict((e, (None, None)) for e in m.ext)
    elif k['how'] == 'dict' or k['seglist']:
        kw.update(name=dict((e, np.nan if v[0] is None else v[0]) for e, v in m.ext.items()))
        if k['seglist']:
            m.ext = dict((e, (v[0], None)) for e, v in m.ext.items())
        else:
            kw.update(score=dict((e, np.nan if v[1] is None else v[1]) for e, v in m.ext.items()))
    else:
        kw.update(name=[np.nan if m.ext[e][0] is None else m.ext[e][0] for e in eid], score=[np.nan if m.ext[e][1] is None else m.ext[e][1] for e in eid])
    if k['seglist']:
        sl = SegmentList.create(sid, fid, tb, te)
        l = ExtSegmentList.create_from_segment_list(sl, **kw)
    elif k['own'] or (k['how'] == 'list'):
        l = ExtSegmentList.create(sid, fid, tb, te, **kw)
    else:
        l = ExtSegmentList.create(sid, fid, tb, te, eid, **kw)
    check(l, m, 'created list')
    q = ExtSegmentList(pd.DataFrame(dict(segment_id=sid, file_id=fid, tbeg=tb, tend=te)))
    w = m.only(m.rows)
    w.rows = [x[:4] + (x[0],) for x in m.rows]
    w.ext = dict((x, (None, None)) for x in sid)
    w.files = dict((f, f) for f in m.files)
    check(q, w, 'list of the segments alone')


def runs(m, mx):
    out = []
    for i, x in enumerate(m.rows):
        n = m.ext[x[4]][0]
        if out and out[-1][1] == x[1] and out[-1][2] == n and n is not None and (not mx or len(out[-1][0]) < mx):
            out[-1][0].append(x[0])
        else:
            out.append(([x[0]], x[1], n))
    return out


@sub('P33', fd(l=lists(), max=st.integers(0, 4), again=st.booleans()), quick=150, nontrivial=lambda k: max(k['l']['nseg']) > 2)
def adjacent(k, ctx):
    """merging adjacent segments joins the maximal runs of one file and name"""
    m = Model(k['l'])
    l = m.build(k['l']['col'])
    l.merge_adjacent_segments(k['max'])
    w = m.only(m.rows)
    groups = runs(m, k['max'])
    e = dict((s, '@'.join(g[0])) for g in groups for s in g[0])
    w.rows = [x[:4] + (e[x[0]],) for x in m.rows]
    w.ext = dict(('@'.join(g[0]), (g[2], None)) for g in groups)
    check(l, w, 'merged list', names=False)
    eqlist([none(x) for x in l.segment_names], [w.ext[x[4]][0] for x in w.rows], 'names after merging')
    if k['again']:
        before = [tuple(x) for x in zip(l.segment_id, l.ext_segment_id)]
        l.merge_adjacent_segments(k['max'])
        if not k['max']:
            eqlist([tuple(x) for x in zip(l.segment_id, l.ext_segment_id)], before, 'merging twice')
    p = ctx.path('m')
    l.save(p)
    q = ExtSegmentList.load(p, index_column=k['l']['col'])
    eqlist([none(x) for x in q.segment_names], [none(x) for x in l.segment_names], 'names after saving')
    if k['l']['col'] == 'ext_segment_id':
        g = groups[0]
        eqlist(sorted(l.filter([list(l.uniq_segment_id)[0]]).segment_id), sorted(g[0]) if not k['again'] or not k['max'] else sorted(l.segment_id[l.ext_segment_id == l.uniq_segment_id[0]]), 'first run')


@sub('P33', fd(l=lists(), prepend=st.booleans(), byfile=st.booleans()), quick=80, nontrivial=lambda k: nt(k['l']))
def to_rttm(k, ctx):
    """diarization labels made from an extended list carry its files, times, names and scores"""
    m = Model(k['l'])
    for e, (n, s) in list(m.ext.items()):
        m.ext[e] = (n or 'x', s or 0.25)
    l = m.build(k['l']['col'])
    r = RTTM.create_spkdiar_from_ext_segments(l, prepend_file_id=k['prepend'], index_by_file=k['byfile'])
    eqlist(r.file_id, [x[1] for x in m.rows], 'files')
    same(r.tbeg, [x[2] for x in m.rows], 'begin times')
    same(r.tdur, [x[3] - x[2] for x in m.rows], 'durations', atol=1e-9)
    eqlist(r.name, [(x[1] + '_' if k['prepend'] else '') + m.ext[x[4]][0] for x in m.rows], 'names')
    eqlist(list(r.segments.conf), [m.ext[x[4]][1] for x in m.rows], 'scores')
    eqlist(list(r.segments.segment_type), ['SPEAKER'] * len(m.rows), 'types')


@sub('P33', fd(l=lists(), seed=seeds, nm=st.integers(1, 4), perm=st.booleans(), d=st.integers(1, 3), fmt=st.sampled_from(['h5', 'scp']), pre=st.booleans(),
               parts=st.lists(st.integers(1, 3), min_size=2, max_size=2), mask=st.integers(0, 2 ** 16 - 1), sep=st.sampled_from([' ', ','])), quick=100,
     nontrivial=lambda k: nt(k['l']) and k['nm'] > 1)
def tracking_reader(k, ctx):
    """speaker-tracking readers give the enrolment and segment vectors that the lists name"""
    m = Model(dict(k['l'], col='file_id'))
    r = rng(k['seed'])
    d = k['d']
    m.build('file_id').save(ctx.path('seg'))
    models = ['m%d' % i for i in r.permutation(k['nm'])]
    en = [('enr%d' % i, models[j]) for i, j in enumerate(r.permutation(np.concatenate([np.arange(k['nm']), r.randint(k['nm'], size=2)])))]
    with open(ctx.path('enroll'), 'w') as f:
        f.write(''.join(k['sep'].join(x) + '\n' for x in en))
    files = list(m.files)
    if k['perm']:
        files = [files[i] for i in r.permutation(len(files))]
    mask = np.array([[k['mask'] >> ((4 * i + j) % 16) & 1 for j in range(len(files))] for i in range(k['nm'])], dtype=bool)
    mask[r.randint(k['nm'])] = True
    mask[:, r.randint(len(files))] = True
    ndx = TrialNdx(np.array(models), np.array(files), mask)
    ndx.save(ctx.path('ndx.h5'))
    keys = [x[0] for x in en] + list(m.ext)
    vec = dict((x, r.randn(d).astype('f4')) for x in keys)
    o = r.permutation(len(keys))
    with DataWriterFactory.create('%s,scp:%s,%s' % (('h5', ctx.path('v.h5'), ctx.path('v.scp')) if k['fmt'] == 'h5' else ('ark', ctx.path('v.ark'), ctx.path('v.scp')))) as w:
        w.write([keys[i] for i in o], [vec[keys[i]] for i in o])
    spec = 'h5:' + ctx.path('v.h5') if k['fmt'] == 'h5' else 'scp:' + ctx.path('v.scp')
    mu = np.linspace(-1, 1, d)
    pre = TransformList(LNorm(mu=mu, T=np.eye(d))) if k['pre'] else None

    def P(x):
        x = np.asarray(x, dtype=float)
        if k['pre']:
            x = x - mu
            x = x / np.sqrt((x ** 2).sum(axis=-1, keepdims=True)) * np.sqrt(d)
        return x
    mp, sp = min(k['parts'][0], k['nm']), min(k['parts'][1], len(files))
    seen = {}
    for i in range(mp):
        for j in range(sp):
            q = TrackingDataReader(spec, ctx.path('ndx.h5'), ctx.path('enroll'), ctx.path('seg'), pre, tlist_sep=k['sep'],
                                   model_idx=i + 1, num_model_parts=mp, seg_idx=j + 1, num_seg_parts=sp)
            part = ndx.split(i + 1, mp, j + 1, sp)
            for key in [None] + list(part.seg_set):
                if key is not None and not part.trial_mask[:, list(part.seg_set).index(key)].any():
                    continue
                x_e, x_t, names, nd, seg = q.read(key)
                fs = list(part.seg_set) if key is None else [key]
                ms = [a for a in part.model_set if key is None or True]
                we = [x for x in en if x[1] in set(nd.model_set)]
                require(set(nd.model_set) <= set(ms), 'models out of the part')
                eqlist(names, [x[1] for x in we], 'models of the enrolment segments')
                same(x_e, P([vec[x[0]] for x in we]), 'enrolment vectors', rtol=1e-5, atol=1e-6)
                segs = [e for e in m.ext if [x for x in m.rows if x[4] == e][0][1] in fs]
                eqlist(sorted(nd.seg_set), sorted(segs), 'test segments')
                same(x_t, P([vec[s] for s in nd.seg_set]), 'test vectors', rtol=1e-5, atol=1e-6)
                eqlist(sorted(seg.segment_id), sorted(x[0] for x in m.rows if x[1] in fs), 'segments')
                owner = dict((x[4], x[1]) for x in m.rows)
                for a, mod in enumerate(nd.model_set):
                    for b, s in enumerate(nd.seg_set):
                        t = bool(mask[models.index(mod), files.index(owner[s])])
                        eq(bool(nd.trial_mask[a, b]), t, 'trial %s %s' % (mod, s))
                        if key is None:
                            seen[mod, s] = seen.get((mod, s), 0) + t
                if key is not None:
                    for mod in part.model_set:
                        if mask[models.index(mod), files.index(key)]:
                            require(mod in set(nd.model_set), 'model %s left out', mod)
    want = dict(((mod, e), 1) for mod in models for e in m.ext for f in [[x for x in m.rows if x[4] == e][0][1]] if mask[models.index(mod), files.index(f)])
    eq(dict((a, b) for a, b in seen.items() if b), want, 'trials of all the parts')
