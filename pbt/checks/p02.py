"""P02: partial reads equal slices of the full matrix."""
from pbt.core import *
from pbt.iolib import *
from pbt.checks import p01
from hyperion.io import ArkDataWriter, H5DataWriter
from hyperion.io.ark_data_reader import SequentialArkFileDataReader, SequentialArkScriptDataReader, RandomAccessArkDataReader
from hyperion.io.h5_data_reader import (SequentialH5FileDataReader, SequentialH5ScriptDataReader,
                                        RandomAccessH5FileDataReader, RandomAccessH5ScriptDataReader)

RULE = 'at least one record is really cut (offset > 0, or fewer rows than available, or a script range)'
METHODS = [None, None, 'auto', 'speech-feat', '2byte-auto', '2byte-signed-integer', '1byte-auto', '1byte-unsigned-integer', '1byte-0-1']


@st.composite
def cases(draw):
    n = draw(st.integers(1, 5))
    recs = []
    cols = draw(st.integers(1, 4))
    for i in range(n):
        r = draw(st.integers(1, 14))
        rg = None
        if draw(st.booleans()):
            a = draw(st.integers(0, r - 1))
            rg = [a, draw(st.integers(1, r - a)) if draw(st.booleans()) else 0]
        avail = r if rg is None else (rg[1] if rg[1] > 0 else r - rg[0])
        off = draw(st.integers(0, avail - 1))
        cnt = draw(st.integers(0, avail - off))
        recs.append(dict(r=r, rg=rg, avail=avail, off=off, cnt=cnt, seed=draw(seeds)))
    return dict(fmt=draw(st.sampled_from(['ark', 'h5'])), method=draw(st.sampled_from(METHODS)), cols=cols, recs=recs,
                ranges=draw(st.booleans()), how=draw(st.sampled_from(['both', 'both', 'off', 'cnt', 'none'])),
                scalar=draw(st.booleans()), nparray=draw(st.booleans()), batch=draw(st.integers(0, 3)),
                repeat=draw(st.lists(st.integers(0, 4), max_size=5)), doubles=draw(st.booleans()))


def build(c, ctx):
    recs = c['recs']
    keys = ['rec%02d' % i for i in range(len(recs))]
    data = []
    for x in recs:
        a = rng(x['seed']).randn(x['r'], c['cols']) * 2
        if c['method'] in ('2byte-signed-integer', '1byte-unsigned-integer'):
            a = np.round(np.abs(a) * 30)
        data.append(a)
    ext = 'h5' if c['fmt'] == 'h5' else 'ark'
    arch, scp = ctx.path('d', 'x.' + ext), ctx.path('d', 'x.scp')
    kw = dict(compress=c['method'] is not None, compression_method=c['method'] or 'auto')
    with (H5DataWriter if ext == 'h5' else ArkDataWriter)(arch, scp, **kw) as w:
        w.write(keys, data)
    if c['ranges']:
        lines = open(scp).read().splitlines()
        with open(scp, 'w') as f:
            for l, x in zip(lines, recs):
                if x['rg'] is not None:
                    l += '[%d:%s]' % (x['rg'][0], '' if x['rg'][1] == 0 else str(sum(x['rg'])))
                f.write(l + '\n')
    return keys, data, arch, scp


def full_of(c, keys, arch, scp, recs):
    """full matrices (no partial reading involved) cut by hand with the script range"""
    R = RandomAccessH5FileDataReader(arch) if c['fmt'] == 'h5' else RandomAccessArkDataReader(scp + '.full')
    with R as r:
        return r.read(keys)


def request(c, avail):
    recs = c['recs']
    off = [x['off'] for x in recs] if c['how'] in ('both', 'off') else [0] * len(recs)
    cnt = [x['cnt'] for x in recs] if c['how'] in ('both', 'cnt') else [0] * len(recs)
    off = [min(o, a - 1) for o, a in zip(off, avail)]
    if c['scalar']:
        o = min(off)
        off = [o] * len(recs)
        m = min(cnt)
        cnt = [m] * len(recs)
    cnt = [min(k, a - o) for k, a, o in zip(cnt, avail, off)]
    if c['scalar']:
        cnt = [min(cnt)] * len(recs)
    return off, cnt


def form(c, x):
    if c['scalar']:
        return x[0]
    return np.array(x) if c['nparray'] else x


def nontriv(c):
    return any((x['off'] > 0 or 0 < x['cnt'] < x['avail'] or (c['ranges'] and x['rg'])) for x in c['recs']) and c['how'] != 'none'


def setup(c, ctx):
    keys, data, arch, scp = build(c, ctx)
    if c['fmt'] != 'h5':
        with open(scp) as f, open(scp + '.full', 'w') as g:
            for l in f:
                g.write(l.rstrip('\n').split('[')[0] + '\n')
    full = full_of(c, keys, arch, scp, c['recs'])
    for x, d, k in zip(full, data, keys):
        eq(x.shape, d.shape, 'full shape of ' + k)
        if c['method'] is None:
            same(x, d.astype('float32'), 'full matrix ' + k)
    avail, visible = [], []
    for x, m in zip(c['recs'], full):
        v = m
        if c['ranges'] and x['rg'] is not None:
            v = m[x['rg'][0]:] if x['rg'][1] == 0 else m[x['rg'][0]:sum(x['rg'])]
        visible.append(v)
        avail.append(len(v))
    return keys, arch, scp, full, visible, avail


@sub('P02', cases(), quick=500, nontrivial=nontriv)
def sequential_slices(c, ctx):
    """offsets/counts (scalar or per utterance) through script files with row ranges, in batches, sequentially"""
    keys, arch, scp, full, vis, avail = setup(c, ctx)
    off, cnt = request(c, avail)
    ctx.label(c['fmt'], 'compressed' if c['method'] else 'plain', 'ranges' if c['ranges'] else 'no ranges')
    h5 = c['fmt'] == 'h5'
    with (SequentialH5ScriptDataReader if h5 else SequentialArkScriptDataReader)(scp) as r:
        n = len(keys)
        step = n if c['batch'] == 0 else c['batch']
        pos = 0
        while pos < n:
            b = min(step, n - pos)
            if c['scalar']:
                k, d = r.read(b, row_offset=off[0], num_rows=cnt[0])
            else:
                k, d = r.read(b, row_offset=form(c, off[pos:pos + b]), num_rows=form(c, cnt[pos:pos + b]))
            eqlist(k, keys[pos:pos + b], 'keys')
            for j in range(b):
                i = pos + j
                w = vis[i][off[i]:] if cnt[i] == 0 else vis[i][off[i]:off[i] + cnt[i]]
                same(d[j], w, 'rows of %s (offset %d count %d range %s)' % (keys[i], off[i], cnt[i], c['recs'][i]['rg']))
            pos += b
    # archives read sequentially without script
    with (SequentialH5FileDataReader if h5 else SequentialArkFileDataReader)(arch) as r:
        av = [len(m) for m in full]
        off, cnt = request(dict(c, ranges=False), av)
        k, d = r.read(row_offset=form(c, off), num_rows=form(c, cnt))
        eqlist(k, keys, 'keys')
        for i in range(len(keys)):
            w = full[i][off[i]:] if cnt[i] == 0 else full[i][off[i]:off[i] + cnt[i]]
            same(d[i], w, 'archive rows of %s' % keys[i])


@sub('P02', cases(), quick=500, nontrivial=nontriv)
def random_access_slices(c, ctx):
    """the same through random access, with repeated keys in any order; requests for too many rows are rejected"""
    keys, arch, scp, full, vis, avail = setup(c, ctx)
    off, cnt = request(c, avail)
    h5 = c['fmt'] == 'h5'
    idx = [i for i in c['repeat'] if i < len(keys)] + list(range(len(keys)))[::-1]
    with (RandomAccessH5ScriptDataReader if h5 else RandomAccessArkDataReader)(scp) as r:
        if c['scalar']:
            d = r.read([keys[i] for i in idx], row_offset=off[0], num_rows=cnt[0])
        else:
            d = r.read([keys[i] for i in idx], row_offset=form(c, [off[i] for i in idx]), num_rows=form(c, [cnt[i] for i in idx]))
        for j, i in enumerate(idx):
            w = vis[i][off[i]:] if cnt[i] == 0 else vis[i][off[i]:off[i] + cnt[i]]
            same(d[j], w, 'rows of %s (offset %d count %d range %s)' % (keys[i], off[i], cnt[i], c['recs'][i]['rg']))
        i = idx[0]
        raises(lambda: r.read([keys[i]], row_offset=off[i], num_rows=avail[i] - off[i] + 1), 'more rows than available requested')
    if h5:
        av = [len(m) for m in full]
        off, cnt = request(dict(c, ranges=False), av)
        with RandomAccessH5FileDataReader(arch) as r:
            d = r.read(keys, row_offset=form(c, off), num_rows=form(c, cnt))
            for i in range(len(keys)):
                w = full[i][off[i]:] if cnt[i] == 0 else full[i][off[i]:off[i] + cnt[i]]
                same(d[i], w, 'archive rows of %s' % keys[i])


@sub('P02', cases(), quick=350, nontrivial=lambda c: len(c['recs']) > 1)
def reported_shapes(c, ctx):
    """shapes, dimensions and row counts reported without loading equal those of the data; mixing shape queries and reads keeps position"""
    keys, arch, scp, full, vis, avail = setup(c, ctx)
    h5 = c['fmt'] == 'h5'

    def seq(r, mats, what):
        for meth in ('read_shapes', 'read_num_rows', 'read_dims'):
            r.reset()
            k, s = getattr(r, meth)()
            eqlist(k, keys, what + meth + ' keys')
            want = {'read_shapes': [m.shape for m in mats], 'read_num_rows': [m.shape[0] for m in mats],
                    'read_dims': [m.shape[1] for m in mats]}[meth]
            eqlist([tuple(x) if meth == 'read_shapes' else int(x) for x in s], want, what + meth)
        r.reset()
        pos = 0
        turn = c['batch']
        while pos < len(keys):
            if turn % 2:
                k, s = r.read_shapes(1)
                eqlist(k, [keys[pos]], what + 'keys at %d' % pos)
                eq(tuple(s[0]), mats[pos].shape, what + 'shape at %d' % pos)
            else:
                k, d = r.read(1)
                eqlist(k, [keys[pos]], what + 'keys at %d' % pos)
                same(d[0], mats[pos], what + 'data after shape queries')
            pos += 1
            turn += 1
        k, s = r.read_shapes(1)
        eq((len(k), len(s)), (0, 0), what + 'shapes at the end')

    with (SequentialH5ScriptDataReader if h5 else SequentialArkScriptDataReader)(scp) as r:
        seq(r, vis, 'script ')
    with (SequentialH5FileDataReader if h5 else SequentialArkFileDataReader)(arch) as r:
        seq(r, full, 'archive ')
    readers = [((RandomAccessH5ScriptDataReader if h5 else RandomAccessArkDataReader)(scp), vis)]
    if h5:
        readers.append((RandomAccessH5FileDataReader(arch), full))
    ask = [i for i in c['repeat'] if i < len(keys)] + [len(keys) - 1]
    for r, mats in readers:
        with r:
            kk = [keys[i] for i in ask]
            eqlist([tuple(x) for x in r.read_shapes(kk)], [mats[i].shape for i in ask], 'random read_shapes')
            eqlist(list(r.read_num_rows(kk)), [mats[i].shape[0] for i in ask], 'random read_num_rows')
            eqlist(list(r.read_dims(kk)), [mats[i].shape[1] for i in ask], 'random read_dims')


@sub('P02', fd(fmt=st.sampled_from(['ark', 'ark_t', 'h5']), items=st.lists(item_st(min_rows=1, min_cols=1), min_size=1, max_size=5),
               perm=st.booleans(), sub_=st.lists(st.integers(0, 4), min_size=1, max_size=4)), quick=250,
     nontrivial=lambda c: len(c['items']) > 1)
def shapes_of_mixed_archives(c, ctx):
    """shape queries over archives mixing vectors and matrices of any width, text and binary; missing keys in permissive readers"""
    text = c['fmt'] == 'ark_t'
    data = [make_item(i, text) for i in c['items']]
    keys = ['k%d' % i for i in range(len(data))]
    cc = dict(fmt=c['fmt'], how='class', rhow='class', sep=' ', flush=False, cuts=[], scalar=False, stack=False)
    arch, scp = p01.write(cc, ctx, keys, data)
    for script in (False, True):
        with p01.seq_reader(cc, arch, scp, script) as r:
            k, s = r.read_shapes(assert_same_dim=False)
            eqlist(k, keys, 'keys')
            eqlist([tuple(x) for x in s], [d.shape for d in data], 'shapes')
            r.reset()
            k, s = r.read_dims(assert_same_dim=False)
            eqlist(s, [d.shape[-1] for d in data], 'dims')
            r.reset()
            k, s = r.read_num_rows(assert_same_dim=False)
            eqlist(s, [d.shape[0] if d.ndim == 2 else 1 for d in data], 'num_rows')
            dims = set(d.shape[-1] for d in data)
            r.reset()
            if len(dims) > 1:
                raises(lambda: r.read_shapes(), 'assert_same_dim with different dimensions')
            else:
                r.read_shapes()
    with p01.ra_reader(cc, arch, scp, True, True) as r:
        ask = [i for i in c['sub_'] if i < len(keys)]
        names = [keys[i] for i in ask] + (['nope'] if c['perm'] else [])
        s = r.read_shapes(names, assert_same_dim=False)
        eqlist([tuple(x) for x in s], [data[i].shape for i in ask] + ([(0,)] if c['perm'] else []), 'random shapes')


@sub('P02', fd(fmt=st.sampled_from(['ark', 'h5']), method=st.sampled_from(METHODS), narch=st.integers(1, 3), nrec=st.integers(1, 3), cols=st.integers(1, 3),
               entries=st.lists(fd(a=st.integers(0, 2), k=st.integers(0, 2), beg=st.integers(0, 5), num=st.integers(0, 5), ranged=st.booleans(), bare=st.booleans()),
                                min_size=1, max_size=7), sort=st.booleans(), batch=st.integers(0, 3), seed=seeds, again=st.booleans()), quick=350,
     nontrivial=lambda c: len(c['entries']) > 1)
def windows_over_archives(c, ctx):
    """scripts whose entries cut windows of records of several archives (same file names in different directories, files with one matrix),
    in any order and with several entries for one record"""
    r0 = rng(c['seed'])
    h5 = c['fmt'] == 'h5'
    full, where = {}, {}
    for a in range(c['narch']):
        ext = 'h5' if h5 else 'ark'
        arch = ctx.path('d%d' % a, 'x.' + ext)
        scp = ctx.path('d%d' % a, 'x.scp')
        keys = ['rec%d' % k for k in range(c['nrec'])]
        data = [r0.randint(0, 50, (r0.randint(1, 9), c['cols'])).astype('float32') / (50. if c['method'] == '1byte-0-1' else 1.) for _ in keys]
        with (H5DataWriter if h5 else ArkDataWriter)(arch, scp, compress=c['method'] is not None, compression_method=c['method'] or 'auto') as w:
            w.write(keys, data)
        if h5:
            with RandomAccessH5FileDataReader(arch) as r:
                d = r.read(keys)
        else:
            with SequentialArkFileDataReader(arch) as r:
                _, d = r.read()
        for k in range(c['nrec']):
            same(d[k], data[k], 'stored matrix', atol=1.) if c['method'] else same(d[k], data[k], 'stored matrix')
            full[a, k] = d[k]
            l = open(scp).read().split('\n')[k].split(' ')[1]
            if not h5:
                # the same matrix alone in a file
                off = int(l.rsplit(':', 1)[1])
                nxt = [int(x.rsplit(':', 1)[1]) for x in open(scp).read().split()[1::2]] + [None]
                b = open(arch, 'rb').read()
                end = len(b) if nxt[k + 1] is None else nxt[k + 1] - len(keys[k + 1]) - 1
                with open(ctx.path('d%d' % a, 'm%d' % k), 'wb') as f:
                    f.write(b[off:end])
            where[a, k] = l
    lines, want, names = [], [], []
    used = set()
    for i, e in enumerate(c['entries']):
        a, k = e['a'] % c['narch'], e['k'] % c['nrec']
        if h5 and k in used:
            continue
        used.add(k)
        m = full[a, k]
        name = 'rec%d' % k if h5 else 'seg%d' % i
        l = where[a, k]
        if e['bare'] and not h5:
            l = ctx.path('d%d' % a, 'm%d:0' % k)
        if e['ranged']:
            beg = e['beg'] % len(m)
            num = min(e['num'], len(m) - beg)
            l += '[%d:%s]' % (beg, '' if num == 0 else beg + num)
            m = m[beg:] if num == 0 else m[beg:beg + num]
        lines.append('%s %s' % (name, l))
        want.append(m)
        names.append(name)
    if c['sort']:
        o = sorted(range(len(lines)), key=lambda i: lines[i].split(' ')[1])
        lines, want, names = [lines[i] for i in o], [want[i] for i in o], [names[i] for i in o]
    scp = ctx.path('windows.scp')
    with open(scp, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    with (SequentialH5ScriptDataReader if h5 else SequentialArkScriptDataReader)(scp) as r:
        for _ in range(2 if c['again'] else 1):
            r.reset()
            i = 0
            while not r.eof():
                kk, d = r.read(c['batch'])
                for x, y in zip(kk, d):
                    eq(x, names[i], 'key %d' % i)
                    same(y, want[i], lines[i])
                    i += 1
            eq(i, len(names), 'records read')
        r.reset()
        _, s = r.read_shapes()
        eqlist([tuple(x) for x in s], [m.shape for m in want], 'shapes')
    with (RandomAccessH5ScriptDataReader if h5 else RandomAccessArkDataReader)(scp) as r:
        o = [int(i) for i in r0.permutation(len(names))] + [0]
        for i, y in zip(o, r.read([names[i] for i in o])):
            same(y, want[i], lines[i])
        eqlist([tuple(x) for x in r.read_shapes([names[i] for i in o])], [want[i].shape for i in o], 'shapes')
