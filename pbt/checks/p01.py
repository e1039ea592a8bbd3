"""P01: archives return exactly the keyed arrays that were written."""
import shutil

from pbt.core import *
from pbt.iolib import *
from hyperion.io import DataWriterFactory, SequentialDataReaderFactory, RandomAccessDataReaderFactory
from hyperion.io import ArkDataWriter, H5DataWriter
from hyperion.io.ark_data_reader import SequentialArkFileDataReader, SequentialArkScriptDataReader, RandomAccessArkDataReader
from hyperion.io.h5_data_reader import (SequentialH5FileDataReader, SequentialH5ScriptDataReader,
                                        RandomAccessH5FileDataReader, RandomAccessH5ScriptDataReader)
from hyperion.io.rw_specifiers import WSpecifier, RSpecifier, WSpecType, RSpecType, ArchiveType
from hyperion.utils.kaldi_matrix import KaldiMatrix

RULE = 'at least two records with at least two distinct shapes or values, or a read plan with several batches / repeated keys / missing keys'

FMT = st.sampled_from(['ark', 'ark_t', 'h5'])


def write(c, ctx, keys, data, tag='a', script=True):
    """Writes the records as the case says; returns (archive, script)."""
    fmt = c['fmt']
    ext = 'h5' if fmt == 'h5' else 'ark'
    arch, scp = ctx.path('sub', tag + '.' + ext), ctx.path('sub', tag + '.scp')
    if c['how'] == 'class':
        if fmt == 'h5':
            w = H5DataWriter(arch, scp if script else None, flush=c['flush'], scp_sep=c['sep'])
        else:
            w = ArkDataWriter(arch, scp if script else None, binary=fmt == 'ark', flush=c['flush'], scp_sep=c['sep'])
    else:
        opts = ['h5' if fmt == 'h5' else 'ark'] + (['scp'] if script else [])
        if fmt == 'ark_t':
            opts.append('t')
        elif c['how'] == 'factory_b' and fmt == 'ark':
            opts.append('b')
        if c['flush']:
            opts.append('f')
        spec = ','.join(opts) + ':' + arch + (',' + scp if script else '')
        w = DataWriterFactory.create(spec, scp_sep=c['sep'])
    with w:
        for a, b in batches_of(len(keys), c['cuts']):
            d = data[a:b]
            if b - a == 1 and c['scalar']:
                w.write(keys[a], d[0])
            elif c['stack'] and len(set(x.shape for x in d)) == 1:
                w.write(keys[a:b], np.stack(d))
            else:
                w.write(keys[a:b], d)
        if c['flush']:
            w.flush()
    return arch, scp


def seq_reader(c, arch, scp, script, **kw):
    h5 = c['fmt'] == 'h5'
    if c['rhow'] == 'class':
        if script:
            return (SequentialH5ScriptDataReader if h5 else SequentialArkScriptDataReader)(scp, scp_sep=c['sep'], **kw)
        return (SequentialH5FileDataReader if h5 else SequentialArkFileDataReader)(arch, **kw)
    spec = ('scp:' + scp) if script else (('h5:' if h5 else 'ark:') + arch)
    return SequentialDataReaderFactory.create(spec, scp_sep=c['sep'], **kw)


def ra_reader(c, arch, scp, script, permissive):
    h5 = c['fmt'] == 'h5'
    if c['rhow'] == 'class':
        if not script:
            return RandomAccessH5FileDataReader(arch, permissive=permissive)
        return (RandomAccessH5ScriptDataReader if h5 else RandomAccessArkDataReader)(scp, permissive=permissive, scp_sep=c['sep'])
    p = ',p' if permissive else ''
    spec = ('scp%s:' % p + scp) if script else ('h5%s:' % p + arch)
    return RandomAccessDataReaderFactory.create(spec, scp_sep=c['sep'])


@st.composite
def cases(draw, fmt=FMT):
    f = draw(fmt)
    keys = draw(keys_st(1, 7))
    text = f == 'ark_t'
    its = draw(st.lists(item_st(min_rows=1 if text else 0, min_cols=1 if text else 0), min_size=len(keys), max_size=len(keys)))
    if draw(st.booleans()):
        its = [dict(its[0], seed=i + its[0]['seed'] % 1000) for i in range(len(keys))]
    return dict(fmt=f, keys=keys, items=its, how=draw(st.sampled_from(['class', 'factory', 'factory_b'])),
                rhow=draw(st.sampled_from(['class', 'factory'])), sep=' ', flush=draw(st.booleans()),
                cuts=draw(st.lists(st.integers(1, 7), max_size=4)), scalar=draw(st.booleans()), stack=draw(st.booleans()),
                script=draw(st.booleans()), plan=draw(st.lists(st.integers(-1, 4), min_size=1, max_size=6)),
                ask=draw(st.lists(st.integers(-2, 6), min_size=1, max_size=8)), permissive=draw(st.booleans()))


def nontriv(c):
    return len(c['keys']) >= 2


@sub('P01', cases(), quick=350, nontrivial=nontriv)
def sequential_roundtrip(c, ctx):
    """write in batches, read back sequentially in batches of any size (-1 = reset), compare with the written list"""
    text = c['fmt'] == 'ark_t'
    data = [make_item(i, text) for i in c['items']]
    keys = c['keys']
    arch, scp = write(c, ctx, keys, [d.copy() for d in data])
    order = list(range(len(keys)))
    if c['fmt'] == 'h5' and not c['script']:
        order = sorted(order, key=lambda i: keys[i].encode())
    ctx.label(c['fmt'], 'script' if c['script'] else 'archive')
    with seq_reader(c, arch, scp, c['script']) as r:
        pos = 0
        for n in c['plan']:
            if n < 0:
                r.reset()
                pos = 0
                continue
            k, d = r.read(n)
            want = order[pos:] if n == 0 else order[pos:pos + n]
            eqlist(k, [keys[i] for i in want], 'keys of read(%d) at %d' % (n, pos))
            eq(len(d), len(want), 'records of read(%d)' % n)
            for j, i in enumerate(want):
                check_value(d[j], data[i], text, 'value of %s' % keys[i])
            pos += len(want)
        r.reset()
        got = [(k, d) for k, d in r]
        eqlist([k for k, _ in got], [keys[i] for i in order], 'keys by iteration')
        for (k, d), i in zip(got, order):
            check_value(d, data[i], text, 'value of %s by iteration' % k)
        require(bool(r.eof()), 'eof() false after the last record')
        k, d = r.read(1)
        eq((len(k), len(d)), (0, 0), 'read after end')


@sub('P01', cases(), quick=350, nontrivial=nontriv)
def random_access_roundtrip(c, ctx):
    """read arbitrary lists of keys (repeated, permuted, missing), strict or permissive"""
    text = c['fmt'] == 'ark_t'
    data = [make_item(i, text) for i in c['items']]
    keys = c['keys']
    arch, scp = write(c, ctx, keys, [d.copy() for d in data])
    script = c['script'] or c['fmt'] != 'h5'
    missing = 'missing_key'
    r = ra_reader(c, arch, scp, script, c['permissive'])
    with r:
        ask = [i for i in c['ask'] if i < len(keys)]
        names = [keys[i] if i >= 0 else missing + str(-i) for i in ask]
        has_missing = any(i < 0 for i in ask)
        ctx.label('missing' if has_missing else 'all present', 'permissive' if c['permissive'] else 'strict')
        if has_missing and not c['permissive']:
            raises(lambda: r.read(names), 'strict read of a missing key')
            raises(lambda: r.read_shapes(names, assert_same_dim=False), 'strict read_shapes of a missing key')
        else:
            d = r.read(np.array(names) if c['stack'] and names else names)
            eq(len(d), len(ask), 'number of arrays')
            for j, i in enumerate(ask):
                if i < 0:
                    require(np.asarray(d[j]).size == 0, 'permissive read of a missing key gave a non-empty array')
                else:
                    check_value(d[j], data[i], text, 'value of %s' % keys[i])
        for i in range(len(keys)):
            d = r.read(keys[i])
            eq(len(d), 1, 'read of one key')
            check_value(d[0], data[i], text, 'value of single key %s' % keys[i])


@st.composite
def multi_cases(draw):
    c = draw(cases())
    c['where'] = draw(st.lists(st.integers(0, 2), min_size=len(c['keys']), max_size=len(c['keys'])))
    c['perm'] = draw(st.permutations(list(range(len(c['keys'])))))
    c['prefix'] = draw(st.booleans())
    c['sep'] = draw(st.sampled_from([' ', ' ', '\t', ',']))
    return c


@sub('P01', multi_cases(), quick=250, nontrivial=lambda c: len(set(c['where'])) > 1)
def several_archives_one_script(c, ctx):
    """script files that interleave records of several archives, with path prefixes and other field separators"""
    text = c['fmt'] == 'ark_t'
    keys = c['keys']
    data = [make_item(i, text) for i in c['items']]
    lines = {}
    for w in sorted(set(c['where'])):
        idx = [i for i in range(len(keys)) if c['where'][i] == w]
        arch, scp = write(c, ctx, [keys[i] for i in idx], [data[i] for i in idx], tag='arch%d' % w)
        with open(scp) as f:
            for l in f:
                lines[l.split(c['sep'])[0]] = l
    eqlist(sorted(lines), sorted(keys), 'keys of the script files')
    order = [i for i in c['perm']]
    base = ctx.path('sub') + os.sep
    scp = ctx.path('all.scp')
    with open(scp, 'w') as f:
        for i in order:
            l = lines[keys[i]]
            if c['prefix']:
                require(base in l, 'archive path %r not in script line %r', base, l)
                l = l.replace(base, '', 1)
            f.write(l)
    pp = base if c['prefix'] else None
    h5 = c['fmt'] == 'h5'
    if c['rhow'] == 'class':
        r = (SequentialH5ScriptDataReader if h5 else SequentialArkScriptDataReader)(scp, path_prefix=pp, scp_sep=c['sep'])
        a = (RandomAccessH5ScriptDataReader if h5 else RandomAccessArkDataReader)(scp, path_prefix=pp, scp_sep=c['sep'])
    else:
        r = SequentialDataReaderFactory.create('scp:' + scp, path_prefix=pp, scp_sep=c['sep'])
        a = RandomAccessDataReaderFactory.create('scp:' + scp, path_prefix=pp, scp_sep=c['sep'])
    with r:
        k, d = r.read()
        eqlist(k, [keys[i] for i in order], 'sequential keys')
        for j, i in enumerate(order):
            check_value(d[j], data[i], text, 'value of %s' % keys[i])
    with a:
        rev = order[::-1] + order
        d = a.read([keys[i] for i in rev])
        for j, i in enumerate(rev):
            check_value(d[j], data[i], text, 'random value of %s' % keys[i])


@sub('P01', fd(fmt=FMT, n=st.integers(1, 6), kind=st.sampled_from('mv'), r=st.integers(1, 4), c=st.integers(1, 5), seed=seeds,
               missing=st.lists(st.integers(0, 6), max_size=3), script=st.booleans()), quick=150,
     nontrivial=lambda c: c['n'] > 1)
def squeezed_reads(c, ctx):
    """squeeze=True stacks equally-shaped records into one array; permissive readers stand zeros in for missing records"""
    text = c['fmt'] == 'ark_t'
    shape = (c['r'], c['c']) if c['kind'] == 'm' else (c['c'],)
    data = np.stack([make_values(c['seed'] + i, shape, 'normal', text) for i in range(c['n'])])
    keys = ['k%d' % i for i in range(c['n'])]
    cc = dict(fmt=c['fmt'], how='class', rhow='class', sep=' ', flush=False, cuts=[], scalar=False, stack=True)
    arch, scp = write(cc, ctx, keys, [x for x in data])
    with seq_reader(cc, arch, scp, c['script']) as r:
        k, d = r.read(squeeze=True)
        eqlist(k, keys, 'keys')
        require(isinstance(d, np.ndarray), 'squeeze did not return an array')
        check_value(d, data, text, 'squeezed sequential data')
    with ra_reader(cc, arch, scp, True, True) as r:
        names = list(keys)
        want = [x for x in data]
        for m in c['missing']:
            p = min(m, len(names))
            names.insert(p, 'nope%d' % len(names))
            want.insert(p, np.zeros(shape))
        d = r.read(names, squeeze=True)
        check_value(d, np.stack(want), text, 'squeezed random-access data')


@sub('P01', fd(fmt=st.sampled_from(['ark', 'h5']), names=keys_st(1, 4), dtypes=st.lists(st.sampled_from(['f4', 'f8', 'i4', 'f2']), min_size=4, max_size=4),
               seed=seeds, order=st.sampled_from('CFS'), km=st.booleans()), quick=150, nontrivial=lambda c: len(c['names']) > 1)
def input_types(c, ctx):
    """float32/float64/integer inputs, C/F/strided layouts and Kaldi matrix objects are stored alike; inputs are not modified"""
    cc = dict(fmt=c['fmt'], how='class', rhow='class', sep=' ', flush=False, cuts=[], scalar=True, stack=False)
    data = []
    for i, k in enumerate(c['names']):
        a = rng(c['seed'] + i).randint(-100, 100, size=(4, 6)) / 8.0
        a = np.round(a) if c['dtypes'][i] == 'i4' else a
        a = a.astype(c['dtypes'][i])
        if c['order'] == 'F':
            a = np.asfortranarray(a)
        elif c['order'] == 'S':
            a = a[::2, ::3]
        data.append(a)
    wdata = data
    if c['km'] and c['fmt'] == 'ark':
        wdata = [KaldiMatrix(np.ascontiguousarray(a.astype('f8' if i % 2 else 'f4'))) for i, a in enumerate(data)]
    with unchanged('write', *data):
        arch, scp = write(cc, ctx, c['names'], wdata)
    with ra_reader(cc, arch, scp, True, False) as r:
        d = r.read(c['names'])
        for a, b, k in zip(d, data, c['names']):
            same(np.asarray(a, dtype='f8'), b.astype('f8'), 'value of ' + k)
    with seq_reader(cc, arch, scp, False) as r:
        k, d = r.read()
        for x, kk in zip(d, k):
            same(np.asarray(x, dtype='f8'), data[c['names'].index(kk)].astype('f8'), 'sequential value of ' + kk)


@sub('P01', fd(fmt=FMT, n=st.integers(0, 3), script=st.booleans(), seed=seeds), quick=40)
def relative_paths(c, ctx):
    """archives may be given as bare file names in the current directory; an archive without records is empty"""
    old = os.getcwd()
    os.makedirs(ctx.path('wd'))
    os.chdir(ctx.path('wd'))
    try:
        ext = 'h5' if c['fmt'] == 'h5' else 'ark'
        keys = ['u%d' % i for i in range(c['n'])]
        data = [make_values(c['seed'] + i, (2, 3), 'int') for i in range(c['n'])]
        W = H5DataWriter if ext == 'h5' else ArkDataWriter
        kw = {} if ext == 'h5' else dict(binary=c['fmt'] == 'ark')
        with W('x.' + ext, 'x.scp', **kw) as w:
            w.write(keys, data)
        cc = dict(c, rhow='class', sep=' ')
        with seq_reader(cc, 'x.' + ext, 'x.scp', c['script']) as r:
            k, d = r.read()
            eqlist(k, keys, 'keys')
            for x, y in zip(d, data):
                check_value(x, y, c['fmt'] == 'ark_t', 'value')
    finally:
        os.chdir(old)


class _Affine(object):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def predict(self, x):
        return self.a * x + self.b


@sub('P01', fd(fmt=FMT, n=st.integers(1, 4), a=st.integers(-3, 3), b=st.integers(-3, 3), script=st.booleans(), seed=seeds), quick=60)
def reader_transform(c, ctx):
    """a reader with a transform returns the transform of each stored array"""
    keys = ['u%d' % i for i in range(c['n'])]
    data = [make_values(c['seed'] + i, (i + 1, 3), 'int') for i in range(c['n'])]
    cc = dict(fmt=c['fmt'], how='class', rhow='class', sep=' ', flush=False, cuts=[], scalar=False, stack=False)
    arch, scp = write(cc, ctx, keys, data)
    t = _Affine(c['a'], c['b'])
    with seq_reader(cc, arch, scp, c['script'], transform=t) as r:
        k, d = r.read()
        for kk, x in zip(k, d):
            same(x, c['a'] * data[keys.index(kk)] + c['b'], 'transformed ' + kk)
    h5 = c['fmt'] == 'h5'
    R = (RandomAccessH5ScriptDataReader if h5 else RandomAccessArkDataReader)(scp, transform=t) if c['script'] or not h5 else \
        RandomAccessH5FileDataReader(arch, transform=t)
    with R as r:
        for x, y in zip(r.read(keys), data):
            same(x, c['a'] * y + c['b'], 'transformed, random access')


PATHS = st.text(alphabet='abcXYZ019_-./', min_size=1, max_size=10).filter(lambda s: s.strip() == s and s.strip('./') != '')


@sub('P01', fd(arch=PATHS, scp=PATHS, kind=st.sampled_from(['h5', 'ark', 'none']), has_scp=st.booleans(), rev=st.booleans(),
               mods=st.lists(st.sampled_from(['t', 'b', 'f', 'nf', 'p']), unique=True, max_size=4), at=st.integers(0, 4)),
     quick=300, nontrivial=lambda c: c['has_scp'] or c['mods'])
def write_specifiers(c, ctx):
    """write specifiers name the archive, script, type, binary/text, flush and permissive options they spell"""
    mods = [m for m in c['mods'] if not (m == 'b' and 't' in c['mods']) and not (m == 'nf' and 'f' in c['mods'])]
    if c['kind'] == 'none':
        s = WSpecifier.create(c['arch'])
        eq((s.archive, s.script, s.spec_type, s.archive_type), (c['arch'], None, WSpecType.ARCHIVE, ArchiveType.H5), 'bare path')
        eq((s.binary, s.flush, s.permissive), (True, False, False), 'bare path options')
        return
    opts = [c['kind']] + (['scp'] if c['has_scp'] else [])
    files = [c['arch']] + ([c['scp']] if c['has_scp'] else [])
    if c['rev']:
        opts, files = opts[::-1], files[::-1]
    at = min(c['at'], len(opts))
    opts = opts[:at] + mods + opts[at:]
    spec = ','.join(opts) + ':' + ','.join(files)
    s = WSpecifier.create(spec)
    ark = c['kind'] == 'ark'
    eq(s.archive, c['arch'], spec)
    eq(s.script, c['scp'] if c['has_scp'] else None, spec)
    eq(s.spec_type, WSpecType.BOTH if c['has_scp'] else WSpecType.ARCHIVE, spec)
    eq(s.archive_type, ArchiveType.ARK if ark else ArchiveType.H5, spec)
    if ark:
        eq(s.binary, 't' not in mods, spec + ' binary')
        eq(s.permissive, 'p' in mods, spec + ' permissive')
    eq(s.flush, 'f' in mods, spec + ' flush')
    require(s == WSpecifier.create(spec), 'equal specifiers compare different')
    o = WSpecifier.create(spec.replace(c['kind'] + ('' if not ark else ''), 'h5' if ark else 'ark', 1)) if c['kind'] in spec.split(':')[0] else s
    if o.archive_type != s.archive_type:
        require(s != o and not (s == o), 'specifiers with different archive types compare equal: %s', spec)
    for bad in (spec.replace(':', ',zz:', 1), spec + ':x'):
        raises(lambda: WSpecifier.create(bad), 'bad write specifier ' + bad)


@sub('P01', fd(arch=PATHS, kind=st.sampled_from(['h5', 'ark', 'none', 'scp_h5', 'scp_ark']),
               mods=st.lists(st.sampled_from(['o', 's', 'cs', 'p', 'bg', 'b', 't']), unique=True, max_size=5), at=st.integers(0, 1),
               rng=st.booleans()),
     quick=300, nontrivial=lambda c: c['mods'])
def read_specifiers(c, ctx):
    """read specifiers name the archive or script, detect the archive type behind a script and spell the reading options"""
    if c['kind'] == 'none':
        s = RSpecifier.create(c['arch'])
        eq((s.archive, s.spec_type, s.archive_type, s.permissive), (c['arch'], RSpecType.ARCHIVE, ArchiveType.H5, False), 'bare path')
        return
    path = c['arch']
    if c['kind'].startswith('scp'):
        path = ctx.path('f.scp')
        with open(path, 'w') as f:
            f.write('key1 ' + c['arch'] + (':123' if c['kind'] == 'scp_ark' else '') + ('[1:4]' if c['rng'] else '') + '\n')
    k = c['kind'].split('_')[0]
    mods = c['mods']
    opts = ([k] + mods) if c['at'] == 0 else (mods + [k])
    spec = ','.join(opts) + ':' + path
    s = RSpecifier.create(spec)
    eq(s.archive, path, spec)
    eq(s.spec_type, RSpecType.SCRIPT if k == 'scp' else RSpecType.ARCHIVE, spec)
    ark = c['kind'] in ('ark', 'scp_ark')
    eq(s.archive_type, ArchiveType.ARK if ark else ArchiveType.H5, spec)
    if k == 'scp':
        eq(s.script, path, spec)
    eq(s.permissive, 'p' in mods, spec + ' permissive')
    if ark:
        eq((s.once, s.is_sorted, s.called_sorted, s.background), ('o' in mods, 's' in mods, 'cs' in mods, 'bg' in mods), spec)
    require(s == RSpecifier.create(spec) and not (s != RSpecifier.create(spec)), 'equal specifiers compare different')
    if 'p' in mods and k != 'scp':
        o = RSpecifier.create(','.join(x for x in opts if x != 'p') + ':' + path)
        require(o != s, 'specifiers that differ in permissive compare equal')
    raises(lambda: RSpecifier.create('zz,' + spec), 'unknown option')


@sub('P01', fd(n=st.integers(3, 12), page=st.sampled_from([4096, 8192]), edge=st.lists(st.integers(-24, 24), min_size=1, max_size=4), seed=seeds,
               klen=st.integers(1, 5), kinds=st.text(alphabet='vmMd', min_size=12, max_size=12), plan=st.lists(st.integers(1, 4), min_size=1, max_size=3),
               shapes=st.booleans(), script=st.booleans()), quick=120, nontrivial=lambda c: len(c['edge']) > 1)
def buffer_edges(c, ctx):
    """records whose headers fall anywhere around the file-buffer boundaries are read like any other, also when only shapes are asked for"""
    arch, scp = ctx.path('a.ark'), ctx.path('a.scp')
    keys, data, pos = [], [], 0
    with ArkDataWriter(arch, scp, flush=True) as w:
        for i in range(c['n']):
            k = ('%d' % i).rjust(c['klen'] + i % 2, 'k')
            nbytes = 8 * (i + 1)
            if i % 2 == 0 and i // 2 < len(c['edge']):
                want = (pos // c['page'] + 1) * c['page'] + c['edge'][i // 2]
                nbytes = max(want - pos - 20, 4)
            kind = c['kinds'][i]
            if kind == 'v':
                x = rng(c['seed'] + i).randint(-9, 9, size=(nbytes // 4,)).astype('f4')
            elif kind == 'm':
                x = rng(c['seed'] + i).randint(-9, 9, size=(max(nbytes // 8, 1), 2)).astype('f4')
            elif kind == 'M':
                x = rng(c['seed'] + i).randint(-9, 9, size=(1, nbytes // 4)).astype('f4')
            else:
                x = rng(c['seed'] + i).randint(-9, 9, size=(max(nbytes // 24, 1), 3)).astype('f8')
            w.write([k], [x])
            keys.append(k)
            data.append(x)
            pos = os.path.getsize(arch)
    R = (lambda: SequentialArkScriptDataReader(scp)) if c['script'] else (lambda: SequentialArkFileDataReader(arch))
    with R() as r:
        p, j = 0, 0
        while p < len(keys):
            n = c['plan'][j % len(c['plan'])]
            j += 1
            k, d = r.read(n)
            eqlist(k, keys[p:p + n], 'keys')
            for x, y in zip(d, data[p:p + n]):
                same(x, y, 'value around the buffer edge')
            p += n
    with R() as r:
        p = 0
        for n in c['plan']:
            if c['shapes']:
                k, s = r.read_shapes(n, assert_same_dim=False)
                eqlist(k, keys[p:p + n], 'keys with shapes')
                eqlist([tuple(x) for x in s], [x.shape for x in data[p:p + n]], 'shapes')
            else:
                k, s = r.read_num_rows(n, assert_same_dim=False)
                eqlist(k, keys[p:p + n], 'keys with row counts')
                eqlist([int(x) for x in s], [x.shape[0] if x.ndim == 2 else 1 for x in data[p:p + n]], 'row counts')
            p += n
        k, d = r.read(0)
        eqlist(k, keys[p:], 'keys after the shapes')
        for x, y in zip(d, data[p:]):
            same(x, y, 'value after reading shapes')


@sub('P01', fd(t=st.sampled_from([0, 1, 2]), a=st.sampled_from('xy'), s=st.sampled_from(['u', 'v', None]), k=st.booleans(),
               flags=st.lists(st.booleans(), min_size=5, max_size=5), change=st.integers(-1, 8), write=st.booleans()), quick=150,
     nontrivial=lambda c: c['change'] >= 0)
def specifier_equality(c, ctx):
    """two specifiers are equal exactly when every field is equal"""
    T = [ArchiveType.H5, ArchiveType.ARK][int(c['k'])]
    if c['write']:
        v = [[WSpecType.ARCHIVE, WSpecType.SCRIPT, WSpecType.BOTH][c['t']], c['a'], c['s'], T] + c['flags'][:3]
        alt = [WSpecType.NO, 'zz', 'ww', [ArchiveType.ARK, ArchiveType.H5][int(c['k'])]] + [not f for f in c['flags'][:3]]
        cls = WSpecifier
    else:
        v = [[RSpecType.ARCHIVE, RSpecType.SCRIPT, RSpecType.SCRIPT][c['t']], c['a'], T] + c['flags']
        alt = [RSpecType.NO, 'zz', [ArchiveType.ARK, ArchiveType.H5][int(c['k'])]] + [not f for f in c['flags']]
        cls = RSpecifier
    o = list(v)
    if 0 <= c['change'] < len(v):
        o[c['change']] = alt[c['change']]
    x, y = cls(*v), cls(*o)
    eq((x == y, x != y, y == x), (v == o, v != o, v == o), 'equality of specifiers %r %r' % (v, o))


def snapshot(ctx, arch, scp, tag):
    """copies of the two files as they are now, the script naming the copy of the archive"""
    os.makedirs(ctx.path('snap'), exist_ok=True)
    a, s = ctx.path('snap', tag + os.path.basename(arch)), ctx.path('snap', tag + '.scp')
    shutil.copy(arch, a)
    with open(scp) as f, open(s, 'w') as g:
        g.write(f.read().replace(arch, a))
    return a, s


@sub('P01', fd(fmt=FMT, how=st.sampled_from(['class', 'factory', 'factory_b']), keys=keys_st(2, 6), seed=seeds, flush=st.booleans(), each=st.booleans(), bad=st.lists(st.sampled_from(['key', 'type', 'nan', 'dup', 'empty']), max_size=3),
               comp=st.booleans(), script=st.booleans(), cuts=st.lists(st.integers(1, 5), max_size=3)), quick=200, nontrivial=lambda c: c['flush'] or c['bad'])
def files_on_disk(c, ctx):
    """what is flushed or closed is complete on disk, and a record which is refused leaves the others as they are"""
    fmt, h5 = c['fmt'], c['fmt'] == 'h5'
    arch, scp = ctx.path('sub', 'a.h5' if h5 else 'a.ark'), ctx.path('sub', 'a.scp')
    text = fmt == 'ark_t'
    data = [make_values(c['seed'] + i, (1 + (i + c['seed']) % 5, 3), 'normal', text) for i in range(len(c['keys']))]
    kw = dict(compress=True, compression_method='2byte-auto') if c['comp'] else {}
    auto = c['flush'] and c['each']
    if c['how'] == 'class':
        w = H5DataWriter(arch, scp, flush=auto, **kw) if h5 else ArkDataWriter(arch, scp, binary=fmt == 'ark', flush=auto, **kw)
    else:
        opts = ['h5' if h5 else 'ark', 'scp'] + (['t'] if text else ['b'] if c['how'] == 'factory_b' and not h5 else []) + (['f'] if auto else [])
        w = DataWriterFactory.create(','.join(opts) + ':' + arch + ',' + scp, **kw)
    keys, refused = [], list(c['bad'])

    def verify(tag):
        a, s = snapshot(ctx, arch, scp, tag)
        cc = dict(fmt=fmt, rhow='class', sep=' ')
        for script in (True, False):
            with seq_reader(cc, a, s, script) as r:
                k, d = r.read()
            o = sorted(range(len(keys)), key=lambda i: keys[i].encode()) if h5 and not script else range(len(keys))
            eqlist(k, [keys[i] for i in o], '%s: keys of the %s' % (tag, 'script' if script else 'archive'))
            for x, i in zip(d, o):
                if c['comp']:
                    same(x, data[i], '%s: %s' % (tag, keys[i]), rtol=0, atol=1e-4 * np.ptp(data[i]) + 1e-6)
                else:
                    check_value(x, data[i], text, '%s: %s' % (tag, keys[i]))
    with w:
        for n, (a, b) in enumerate(batches_of(len(data), c['cuts'])):
            w.write(c['keys'][a:b], data[a:b])
            keys += c['keys'][a:b]
            if refused:
                what = refused.pop()
                ctx.label('refused ' + what)
                if what == 'key':
                    raises(lambda: w.write(['a b'], [data[0]]), 'key with a blank')
                elif what == 'empty':
                    raises(lambda: w.write([''], [data[0]]), 'empty key')
                elif what == 'type':
                    raises(lambda: w.write(['bad'], ['words']), 'writing words')
                elif what == 'nan' and c['comp']:
                    raises(lambda: w.write(['bad'], [np.full((3, 3), np.nan)]), 'compressing nan')
                elif what == 'dup' and h5:
                    raises(lambda: w.write([keys[0]], [data[0]]), 'repeated key')
            if c['flush']:
                if not auto:
                    w.flush()
                verify('flush%d' % n)
    verify('closed')
    if h5:
        ctx.label('h5')


@sub('P01', fd(fmt=FMT, shapes=st.lists(st.tuples(st.booleans(), st.integers(1, 4), st.integers(1, 3)), min_size=1, max_size=5), same=st.booleans(), seed=seeds, ask=st.lists(st.integers(-2, 4), min_size=1, max_size=6),
               lost=st.booleans(), batch=st.integers(0, 3), script=st.booleans()), quick=200, nontrivial=lambda c: len(set(map(tuple, c['shapes']))) > 1)
def shapes_of_records(c, ctx):
    """shapes, rows and columns of vectors and matrices; different columns are refused unless allowed; records lost from the archive"""
    shp = [((r, 2 if c['same'] else d) if m else (2 if c['same'] else d,)) for m, r, d in c['shapes']]
    keys = ['k%d' % i for i in range(len(shp))]
    data = [make_values(c['seed'] + i, s, 'int', True) for i, s in enumerate(shp)]
    cc = dict(fmt=c['fmt'], how='class', rhow='class', sep=' ', flush=False, cuts=[], scalar=False, stack=False)
    arch, scp = write(cc, ctx, keys, data)
    nr = [s[0] if len(s) == 2 else 1 for s in shp]
    nc = [s[-1] for s in shp]
    differ = len(set(nc)) > 1
    ctx.label('differ' if differ else 'same columns')
    for meth, want in (('read_shapes', shp), ('read_num_rows', nr), ('read_dims', nc)):
        with seq_reader(cc, arch, scp, c['script']) as r:
            if differ:
                raises(lambda: getattr(r, meth)(), meth + ' of different numbers of columns')
                r.reset()
            got = []
            while not r.eof():
                k, s = getattr(r, meth)(c['batch'], assert_same_dim=False) if differ else getattr(r, meth)(c['batch'])
                eqlist(k, keys[len(got):len(got) + len(k)], 'keys')
                got += [tuple(v) if meth == 'read_shapes' else int(v) for v in s]
            eqlist(got, want, meth)
    ask = [i for i in c['ask'] if i < len(keys)]
    if not ask:
        return
    # keys of the script which the archive does not have
    if c['lost'] and c['fmt'] == 'h5':
        with open(scp, 'a') as f:
            f.write('lost1 %s\nlost2 %s\n' % (arch, arch))
        ctx.label('lost records')
    h5 = c['fmt'] == 'h5'
    names = [keys[i] if i >= 0 else 'lost%d' % -i for i in ask]
    for permissive in (True, False):
        for script in ((True, False) if h5 else (True,)):
            with ra_reader(cc, arch, scp, script, permissive) as r:
                dif = len(set(nc[i] if i >= 0 else 0 for i in ask)) > 1
                for meth, want, none in (('read_shapes', shp, (0,)), ('read_num_rows', nr, 1), ('read_dims', nc, 0)):
                    f = getattr(r, meth)
                    if min(ask) < 0 and not permissive:
                        raises(lambda: f(names, assert_same_dim=False), meth + ' of a record which is not there')
                        continue
                    if dif:
                        raises(lambda: f(names), meth + ' of different numbers of columns')
                    got = f(names, assert_same_dim=False) if dif else f(names)
                    got = [tuple(v) if meth == 'read_shapes' else int(v) for v in got]
                    eqlist([g for g, i in zip(got, ask) if i >= 0], [want[i] for i in ask if i >= 0], meth + ' by key')
                    if meth == 'read_shapes':
                        eqlist([g for g, i in zip(got, ask) if i < 0], [none for i in ask if i < 0], 'shape of records which are not there')
                    i = max(ask)
                    if i >= 0:
                        g = f(keys[i])
                        eq(len(g), 1, meth + ' of one key')
                if min(ask) < 0 and not permissive:
                    raises(lambda: r.read(names), 'record which is not there')
                else:
                    for x, i in zip(r.read(names), ask):
                        if i < 0:
                            eq(np.asarray(x).size, 0, 'size of a record which is not there')
                        else:
                            check_value(x, data[i], c['fmt'] == 'ark_t', 'record by key')
