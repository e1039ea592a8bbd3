"""P09: segment lists and diarization turns against lists of rows."""
import warnings
from pbt.core import *
from hyperion.utils.segment_list import SegmentList
from hyperion.utils.rttm import RTTM

RULE = 'at least three rows in at least two recordings'
warnings.filterwarnings('ignore')
file_st = st.sampled_from(['f1', 'f2', 'a.b', '007', '12', 'NA', 'rec-x'])
name_st = st.sampled_from(['s1', 's2', 'A', '3', '01', '<NA>'])


@st.composite
def rows_st(draw, sort_=False, max_size=9):
    """rows [segment, file, tbeg ms, tend ms, speaker]; with sort_ the rows of a file are together and in time order"""
    n = draw(st.integers(1, max_size))
    rows = []
    for i in range(n):
        b = draw(st.integers(0, 3000))
        rows.append([None, draw(file_st), b, b + draw(st.integers(1, 1500)), draw(name_st)])
    if sort_:
        fs = list(dict.fromkeys(r[1] for r in rows))
        rows = sorted(rows, key=lambda r: (fs.index(r[1]), r[2]))
    ids = draw(st.permutations(list(range(n))))
    for r, i in zip(rows, ids):
        r[0] = draw(st.sampled_from(['s%02d', '%03d', 'seg-%d'])) % i
    if len(set(r[0] for r in rows)) < n:
        for i, r in enumerate(rows):
            r[0] = 'x%d' % i
    return rows


def big(c):
    return len(c['rows']) > 2 and len(set(r[1] for r in c['rows'])) > 1


def seg(rows, by_file):
    return SegmentList.create([r[0] for r in rows], [r[1] for r in rows], [r[2] / 1000. for r in rows], [r[3] / 1000. for r in rows], index_by_file=by_file)


def rt(rows, by_file):
    return RTTM.create_spkdiar([r[1] for r in rows], [r[2] / 1000. for r in rows], [(r[3] - r[2]) / 1000. for r in rows], [r[4] for r in rows],
                               index_by_file=by_file)


def ms(x):
    return [int(round(float(v) * 1000)) for v in np.asarray(x)]


def sview(s):
    return [list(x) for x in zip([str(a) for a in s.segment_id], [str(a) for a in s.file_id], ms(s.tbeg), ms(s.tend))]


def rview(s):
    d = ms(s.tdur)
    return [[str(f), b, b + u, str(n), t] for f, b, u, n, t in zip(s.file_id, ms(s.tbeg), d, s.name, s.segments['segment_type'])]


def smodel(rows):
    return [r[:4] for r in rows]


def rmodel(rows):
    return [r[1:5] + ['SPEAKER'] for r in rows]


def srow(r):
    return [str(r['segment_id']), str(r['file_id'])] + ms([r['tbeg'], r['tend']])


def rrow(r):
    b, u = ms([r['tbeg'], r['tdur']])
    return [str(r['file_id']), b, b + u, str(r['name']), r['segment_type']]


op_st = st.one_of(fd(op='filter', idx=st.lists(st.integers(0, 9), min_size=1, max_size=4), keep=st.booleans()),
                  fd(op='split', n=st.integers(1, 4), i=st.integers(0, 3), merge=st.booleans()), fd(op='saveload'), fd(op='copy'), fd(op='mode', by_file=st.booleans()))


@sub('P09', fd(rows=rows_st(sort_=True), by_file=st.booleans(), kind=st.sampled_from(['seg', 'rttm']), ops=st.lists(op_st, max_size=4)),
     quick=500, nontrivial=big)
def histories(c, ctx):
    """filter / split / merge / save-load / lookups against a list of rows, after every step"""
    kind = c['kind']
    F = 1 if kind == 'seg' else 0
    x, m = (seg(c['rows'], c['by_file']), smodel(c['rows'])) if kind == 'seg' else (rt(c['rows'], c['by_file']), rmodel(c['rows']))
    view, row = (sview, srow) if kind == 'seg' else (rview, rrow)
    cls = SegmentList if kind == 'seg' else RTTM
    by_file = c['by_file']

    def lookups():
        eqlist(view(x), m, 'rows')
        eq(len(x), len(m), 'len')
        files = list(dict.fromkeys(r[F] for r in m))
        if by_file:
            uf = sorted(files) if kind == 'seg' else files
            got = [view(s) for s in x]
            eqlist(got, [[r for r in m if r[F] == f] for f in uf], 'iteration by recording')
            for i, f in enumerate(uf):
                require(f in x, 'recording %s not found', f)
                eqlist(view(x[f]), [r for r in m if r[F] == f], 'rows of ' + f)
                if kind == 'seg':
                    eqlist(view(x[i]), [r for r in m if r[F] == f], 'rows of recording number %d' % i)
            require('no_such' not in x, 'unknown recording found')
        else:
            eqlist([row(r) for r in x], m, 'iteration by segment')
            for i, r in enumerate(m):
                eqlist(row(x[i]), r, 'segment number %d' % i)
                if kind == 'seg':
                    require(r[0] in x, 'segment %s not found', r[0])
                    eqlist(row(x[r[0]]), r, 'segment ' + r[0])
            if kind == 'seg':
                require('no_such' not in x, 'unknown segment found')
        if kind == 'seg':
            for f in files:
                eqlist([str(s) for s in x.segments_ids_from_file(f)], [r[0] for r in m if r[1] == f], 'segments of ' + f)
        else:
            eq(x.num_files, len(files), 'num_files')
            eq(x.total_num_spks, len(set(r[3] for r in m)), 'total_num_spks')
            eq({k: int(v) for k, v in x.num_spks_per_file.items()}, {f: len(set(r[3] for r in m if r[0] == f)) for f in files}, 'num_spks_per_file')
            s = x.to_segment_list()
            eqlist([[a, b, e] for _, a, b, e in sview(s)], [r[:3] for r in m], 'to_segment_list')

    def key(i):
        r = m[i % len(m)]
        return r[F] if by_file else (r[0] if kind == 'seg' else None)

    lookups()
    for op in c['ops']:
        o = op['op']
        ctx.label('%s %s %s' % (kind, 'file' if by_file else 'segment', o))
        if o == 'filter':
            if kind == 'rttm' and not by_file:
                keys = list(dict.fromkeys(i % len(m) for i in op['idx']))
                lab = [int(v) for v in x.segments.index]
                y = x.filter([lab[i] for i in sorted(keys)] if op['keep'] else [lab[i] for i in keys], keep=op['keep'])
                want = [r for i, r in enumerate(m) if (i in keys) == op['keep']]
            else:
                keys = list(dict.fromkeys(key(i) for i in op['idx']))
                if op['keep'] is False and len(keys) == len(set(r[F] if by_file else r[0] for r in m)):
                    continue
                y = x.filter(keys, keep=op['keep'])
                k = F if by_file else 0
                if op['keep']:
                    want = [r for q in keys for r in m if r[k] == q]
                else:
                    want = [r for q in sorted(set(r[k] for r in m) - set(keys)) for r in m if r[k] == q]
            eqlist(view(x), m, 'original after filter')
            if not want:
                continue
            x, m = y, want
        elif o == 'split':
            units = list(dict.fromkeys(r[F] for r in m)) if by_file else list(range(len(m)))
            n = min(op['n'], len(units))
            parts = [x.split(i + 1, n) for i in range(n)]
            vs = [view(p) for p in parts]
            whole = [r for v in vs for r in v]
            want = [r for f in (sorted(units) if kind == 'seg' else units) for r in m if r[F] == f] if by_file else m
            eqlist(whole, want, 'rows over the parts')
            if by_file:
                for a in range(n):
                    require(len(vs[a]) > 0, 'empty part')
                    for b in range(a):
                        require(not set(r[F] for r in vs[a]) & set(r[F] for r in vs[b]), 'recording in two parts')
            if op['merge']:
                x, m = cls.merge(parts, index_by_file=by_file), whole
            else:
                x, m = parts[op['i'] % n], vs[op['i'] % n]
        elif o == 'saveload':
            x.save(ctx.path('x'))
            y = cls.load(ctx.path('x'), index_by_file=by_file)
            eqlist(view(y), m, 'loaded rows')
            y.save(ctx.path('y'))
            eq(open(ctx.path('x')).read(), open(ctx.path('y')).read(), 'file saved after loading')
            x = y
        elif o == 'copy':
            y = x.copy()
            require(bool(y == x) and not bool(y != x), 'copy compares different')
            y.segments['tbeg'] = y.segments['tbeg'] + 1.
            require(not bool(y == x) and bool(y != x), 'different lists compare equal')
        elif o == 'mode':
            by_file = op['by_file']
            x.index_by_file = by_file
        lookups()


@sub('P09', fd(rows=rows_st(), by_file=st.booleans(), shift=st.sampled_from([10, 5, 20, 12.5]), nf=st.one_of(st.none(), st.integers(0, 600))), quick=500, nontrivial=big)
def bin_vad(c, ctx):
    """a frame is speech iff it is inside a segment of the recording (edges: one frame)"""
    x = seg(c['rows'], c['by_file'])
    sh = c['shift']
    for k in sorted(set(r[1] if c['by_file'] else r[0] for r in c['rows'])):
        rows = [r for r in c['rows'] if (r[1] if c['by_file'] else r[0]) == k]
        frow = [r for r in c['rows'] if r[1] == rows[0][1]]
        last = max(r[3] for r in frow)
        if c['nf'] is None:
            v = x.to_bin_vad(k, frame_shift=sh)
            require(abs(len(v) - last / sh) <= 0.5 + 1e-6, '%d frames for a recording that ends at %d ms', len(v), last)
        else:
            n = max(1, c['nf'], int(np.ceil(max(r[2] for r in frow) / sh)) + 1)
            v = x.to_bin_vad(k, frame_shift=sh, num_frames=n)
            eq(len(v), n, 'number of frames')
        require(set(int(a) for a in v) <= {0, 1}, 'values %s', set(v))
        for i in range(len(v)):
            t = i * sh
            inside = any(r[2] + sh / 2. <= t <= r[3] - sh / 2. for r in rows)
            near = any(r[2] - sh <= t <= r[3] + sh for r in rows)
            if inside:
                eq(int(v[i]), 1, 'frame %d of %s' % (i, k))
            if not near:
                eq(int(v[i]), 0, 'frame %d of %s' % (i, k))


@sub('P09', fd(rows=rows_st(sort_=True), margin=st.sampled_from([0, 100, 500]), by_file=st.booleans()), quick=400, nontrivial=big)
def merge_adjacent(c, ctx):
    """merging adjacent turns keeps all the speech of every speaker and adds only gaps up to the margin"""
    x = rt(c['rows'], c['by_file'])
    x.merge_adjacent_segments(c['margin'] / 1000.)
    got = rview(x)
    old = rmodel(c['rows'])
    for f, b, e, n, t in old:
        require(any(g[0] == f and g[3] == n and g[1] <= b + 1 and g[2] >= e - 1 for g in got), 'turn %s lost or cut', (f, b, e, n))
    for f, b, e, n, t in got:
        mine = sorted(r for r in old if r[0] == f and r[3] == n and r[1] >= b and r[2] <= e + 1)
        require(mine and mine[0][1] == b, 'turn starts at %d', b)
        end = mine[0][2]
        for r in mine[1:]:
            require(r[1] - end <= c['margin'] + 1, 'gap of %d ms filled', r[1] - end)
            end = max(end, r[2])
        require(abs(end - e) <= 1, 'turn ends at %d, want %d', e, end)
    want, exact = [], True
    for i, r in enumerate(old):
        p = old[i - 1] if i else None
        if p and p[0] == r[0] and p[3] == r[3]:
            d = r[1] - p[2]
            exact = exact and r[2] >= p[2] and abs(d - c['margin']) > 1
            if d <= c['margin']:
                want[-1][2] = max(want[-1][2], r[2])
                continue
        want.append(list(r))
    if exact:
        eqlist(got, want, 'turns after merging')
        ctx.label('exact')
    ctx.label('merged' if len(got) < len(old) else 'nothing to merge')


@st.composite
def chain_st(draw):
    """turns of some recordings where a turn overlaps at most its neighbours and only partially"""
    rows = []
    for f in draw(st.lists(file_st, min_size=1, max_size=3, unique=True)):
        t = draw(st.integers(0, 500))
        for i in range(draw(st.integers(1, 4))):
            gap = draw(st.integers(-180, 300))
            b = max(0, t + (gap if i else 0))
            t = b + draw(st.integers(400, 1200))
            rows.append(['s%d' % len(rows), f, b, t, draw(name_st)])
    return rows


@sub('P09', fd(rows=chain_st(), by_file=st.booleans()), quick=300, nontrivial=big)
def overlaps(c, ctx):
    """overlap removal splits each overlap at its middle and changes nothing else"""
    x = rt(c['rows'], c['by_file'])
    x.eliminate_overlaps()
    want = [list(map(float, r[2:4])) for r in c['rows']]
    for i in range(1, len(want)):
        a, b = c['rows'][i - 1], c['rows'][i]
        if a[1] == b[1] and b[2] < a[3]:
            ctx.label('overlap')
            want[i][0] = want[i - 1][1] = (b[2] + a[3]) / 2.
    same(np.asarray(x.tbeg, dtype=float) * 1000, [w[0] for w in want], 'onsets', atol=1e-6)
    same(np.asarray(x.tdur, dtype=float) * 1000, [w[1] - w[0] for w in want], 'durations', atol=1e-6)
    eqlist([str(a) for a in x.name], [r[4] for r in c['rows']], 'names')


@sub('P09', fd(rows=rows_st(sort_=True), by_file=st.booleans(), shift=st.sampled_from([0.001, 0.01])), quick=200, nontrivial=big)
def matrix(c, ctx):
    """the activity matrix of a recording has one column per speaker, active within the turns of the speaker"""
    x = rt(c['rows'], c['by_file'])
    sh = c['shift'] * 1000
    for f in set(r[1] for r in c['rows']):
        rows = [r for r in c['rows'] if r[1] == f]
        M = np.asarray(x.to_matrix(f, frame_shift=c['shift']))
        names = sorted(set(r[4] for r in rows))
        eq(M.shape[1], len(names), 'columns')
        require(abs(M.shape[0] - max(r[3] for r in rows) / sh) <= 1, '%s frames', M.shape[0])
        for j, n in enumerate(names):
            for i in range(0, M.shape[0], 1 if sh > 1 else 7):
                t = i * sh
                if any(r[4] == n and r[2] + sh <= t <= r[3] - 2 * sh for r in rows):
                    eq(int(M[i, j]), 1, 'frame %d of %s' % (i, n))
                if not any(r[4] == n and r[2] - sh <= t <= r[3] + sh for r in rows):
                    eq(int(M[i, j]), 0, 'frame %d of %s' % (i, n))


@sub('P09', fd(rows=rows_st(sort_=True), q=rows_st()), quick=250, nontrivial=big)
def names(c, ctx):
    """speakers of a segment: those whose turns cover its start or its end"""
    x = rt(c['rows'], True)
    s = seg(c['q'], False)
    for fn in (x.get_segment_names, x.get_segment_names_slow):
        nm, n = fn(s)
        for i, (_, f, b, e, _) in enumerate(c['q']):
            want = list(dict.fromkeys(r[4] for r in c['rows'] if r[1] == f and ((r[2] <= b and r[3] > b + 1e-9) or (r[2] < e and r[3] >= e))))
            edge = any(r[1] == f and (r[3] == b or r[2] == b or r[2] == e or r[3] == e) for r in c['rows'])
            if edge:
                continue            # equality of two float sums
            eq(int(n[i]), len(want), 'number of speakers of segment %d' % i)
            eq(str(nm[i]), '@'.join(want) if want else '<NA>', 'speakers of segment %d' % i)
    for f in sorted(set(r[1] for r in c['rows'])):
        mine = set(r[4] for r in c['rows'] if r[1] == f)
        got = x.get_files_with_names_diff_to_file(f)
        eq(sorted(got), sorted(set(r[1] for r in c['rows'] if r[4] not in mine)), 'files with other speakers')
    y = x.copy()
    y.prepend_file_id_to_name()
    eqlist([str(a) for a in y.name], [r[1] + '_' + r[4] for r in c['rows']], 'names with the recording in front')


@st.composite
def rttm_cols_st(draw):
    rows = draw(rows_st(sort_=True))
    return dict(rows=rows, types=[draw(st.sampled_from(['SPEAKER', 'SPEAKER', 'LEXEME', 'NON-SPEECH'])) for _ in rows],
                chnl=draw(st.booleans()), conf=draw(st.booleans()), extra=draw(st.booleans()), prepend=draw(st.booleans()), by_file=draw(st.booleans()))


@sub('P09', rttm_cols_st(), quick=250, nontrivial=big)
def columns(c, ctx):
    """every field of a turn is kept by create / save / load; the ones that are not given are <NA> (channel 1)"""
    rows, n = c['rows'], len(c['rows'])
    kw = {}
    if c['chnl']:
        kw['chnl'] = [1 + i % 2 for i in range(n)]
    if c['conf']:
        kw['conf'] = [round(0.125 * (i % 9), 3) for i in range(n)]
    files, tb, td, spk = [r[1] for r in rows], [r[2] / 1000. for r in rows], [(r[3] - r[2]) / 1000. for r in rows], [r[4] for r in rows]
    kw2 = dict(kw)
    if c['extra']:
        kw2.update(ortho=['o%d' % i for i in range(n)], stype=['t%d' % i for i in range(n)], slat=['l%d' % i for i in range(n)])
    x = RTTM.create(c['types'], files, tbeg=tb, tdur=td, name=spk, index_by_file=c['by_file'], **kw2)

    def cols(x):
        s = x.segments
        return {k: [str(a) for a in s[k]] for k in ('segment_type', 'file_id', 'chnl', 'ortho', 'stype', 'name', 'conf', 'slat')}
    na = ['<NA>'] * n
    want = dict(segment_type=c['types'], file_id=files, name=spk, chnl=[str(a) for a in kw.get('chnl', [1] * n)], conf=[str(a) for a in kw['conf']] if c['conf'] else na)
    for k in ('ortho', 'stype', 'slat'):
        want[k] = kw2.get(k, na)
    eq(cols(x), want, 'fields')
    x.save(ctx.path('x'))
    txt = [l.split(' ') for l in open(ctx.path('x')).read().splitlines()]
    eqlist([l[:5] + l[5:8] + l[9:] for l in txt],
           [[t, r[1], ch, '%.3f' % (r[2] / 1000.), '%.3f' % ((r[3] - r[2]) / 1000.), o, s, r[4], l]
            for t, r, ch, o, s, l in zip(c['types'], rows, want['chnl'], want['ortho'], want['stype'], want['slat'])], 'lines of the file')
    y = RTTM.load(ctx.path('x'), **({} if c['by_file'] else dict(index_by_file=False)))
    eq(y.index_by_file, c['by_file'], 'index')
    eq(cols(y), want, 'fields after loading')
    # counts of speakers take only SPEAKER rows
    spkrows = [(r[1], r[4]) for r, t in zip(rows, c['types']) if t == 'SPEAKER']
    eq(y.total_num_spks, len(set(s for _, s in spkrows)), 'total_num_spks')
    per = {f: len(set(s for g, s in spkrows if g == f)) for f in files}
    eq({k: int(v) for k, v in y.num_spks_per_file.items()}, per, 'num_spks_per_file')
    same(y.avg_num_spks_per_file, np.mean(list(per.values())), 'avg_num_spks_per_file')
    # names of a segment of one type
    q = SegmentList.create(['q%d' % i for i in range(n)], files, tb, [r[3] / 1000. for r in rows], index_by_file=False)
    for ty in ('SPEAKER', 'LEXEME'):
        for fn in (y.get_segment_names, y.get_segment_names_slow):
            nm, k = fn(q, sep='+', segment_type=ty)
            for i, r in enumerate(rows):
                cand = [o for o, t in zip(rows, c['types']) if t == ty and o[1] == r[1] and ((o[2] <= r[2] and o[3] > r[2] + 1) or (o[2] < r[3] - 1 and o[3] >= r[3] + 1))]
                edge = any(o[1] == r[1] and t == ty and o is not r and (o[3] == r[2] or o[3] == r[3] or abs(o[2] - r[3]) < 2 or abs(o[3] - r[2]) < 2 or abs(o[3] - r[3]) < 2)
                           for o, t in zip(rows, c['types']))
                if edge:
                    continue
                w = list(dict.fromkeys(o[4] for o, t in zip(rows, c['types']) if o in cand or (o is r and t == ty)))
                eq(int(k[i]), len(w), 'number of names of segment %d' % i)
                eq(str(nm[i]), '+'.join(w) if w else '<NA>', 'names of segment %d' % i)
        mine = {f: set(r[4] for r, t in zip(rows, c['types']) if r[1] == f and t == ty) for f in files}
        for f in files:
            eq(sorted(y.get_files_with_names_diff_to_file(f, segment_type=ty)),
               sorted(set(r[1] for r, t in zip(rows, c['types']) if t == ty and r[4] not in mine[f])), 'files with other names')
        z = y.copy()
        z.prepend_file_id_to_name(segment_type=ty)
        eqlist([str(a) for a in z.name], [r[1] + '_' + r[4] if t == ty else r[4] for r, t in zip(rows, c['types'])], 'prepended names')
    # the constructors for diarization
    sg = seg(rows, c['by_file'])
    wname = [f + '_' + s for f, s in zip(files, spk)] if c['prepend'] else spk
    for x in (RTTM.create_spkdiar(files, tb, td, spk, index_by_file=c['by_file'], prepend_file_id=c['prepend'], **kw),
              RTTM.create_spkdiar_from_segments(sg, spk, index_by_file=c['by_file'], prepend_file_id=c['prepend'], **kw)):
        eq(cols(x), dict(want, name=wname, segment_type=['SPEAKER'] * n, ortho=na, stype=na, slat=na), 'fields')
        eqlist(rview(x), [[r[1], r[2], r[3], w, 'SPEAKER'] for r, w in zip(rows, wname)], 'turns')
        eq(x.index_by_file, c['by_file'], 'index')
    # the ids of the segments are unique
    s = y.to_segment_list()
    if len(set((r[1], r[2], r[3]) for r in rows)) == n:
        eq(len(set(s.segment_id)), n, 'different segment ids')
    # a turn before the previous one of its recording
    for i in range(1, n):
        if rows[i - 1][1] == rows[i][1] and rows[i - 1][2] < rows[i][2]:
            o = list(range(n))
            o[i - 1], o[i] = i, i - 1
            raises(lambda: RTTM.create(['SPEAKER'] * n, [files[j] for j in o], tbeg=np.array(tb)[o], tdur=np.array(td)[o], name=spk), 'turns out of order')
            break
    i = n // 2
    raises(lambda: SegmentList.create(['q%d' % j for j in range(n)], files, tb, [t + (-0.25 if j == i else 0.5) for j, t in enumerate(tb)]), 'segment that ends before it begins')
    eq((x.__cmp__(x.copy()), x.__cmp__(RTTM.create_spkdiar(files, tb, td, [a + 'x' for a in wname]))), (0, 1), 'comparison')
    sg2 = sg.copy()
    eq(sg.__cmp__(sg2), 0, 'comparison of segments')
    sg2.segments['tend'] = sg2.segments['tend'] + 1.
    eq(sg.__cmp__(sg2), 1, 'comparison of segments')


@sub('P09', fd(rows=rows_st(sort_=True, max_size=25), bins=st.sampled_from([None, 1, 4])), quick=150, nontrivial=big)
def stats(c, ctx):
    """statistics of the durations"""
    x = rt(c['rows'], True)
    d, n = np.array([r[3] - r[2] for r in c['rows']]) / 1000., len(c['rows'])
    info, hist, spks = x.compute_stats(**({} if c['bins'] is None else dict(nbins_dur=c['bins'])))
    for k, f in (('mean', np.mean), ('median', np.median), ('min', np.min), ('max', np.max)):
        same(float(info[k]), f(d), k, rtol=1e-9)
    if n > 1:
        same(float(info['std']), np.std(d, ddof=1), 'std', rtol=1e-9, atol=1e-9)
    eq(int(spks), len(set(r[4] for r in c['rows'])), 'speakers')
    h, e = hist
    eq(int(np.sum(h)), n, 'histogram')
    eq(len(h), c['bins'] or max(5, min(100, n // 10)), 'bins')
    v, cnt = np.unique(d, return_counts=True)
    if np.sum(cnt == cnt.max()) == 1:
        same(float(np.atleast_1d(info['model'])[0]), v[np.argmax(cnt)], 'mode', rtol=1e-9)
