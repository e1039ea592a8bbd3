"""P04: compressed matrices decode within the quantisation error of their format."""
from pbt.core import *
from pbt.iolib import *
from hyperion.utils.kaldi_matrix import KaldiMatrix, KaldiCompressedMatrix, compression_methods
from hyperion.io import ArkDataWriter, H5DataWriter
from hyperion.io.ark_data_reader import SequentialArkFileDataReader, RandomAccessArkDataReader
from hyperion.io.h5_data_reader import SequentialH5FileDataReader, RandomAccessH5FileDataReader

RULE = 'at least two rows and two distinct values'
METHODS = ['auto', 'speech-feat', '2byte-auto', '2byte-signed-integer', '1byte-auto', '1byte-unsigned-integer', '1byte-0-1']
EPS = 1.2e-7

mat_st = fd(r=st.one_of(st.integers(1, 12), st.integers(1, 60)), c=st.integers(1, 6), seed=seeds,
            val=st.sampled_from(['normal', 'skew', 'const', 'constcol', 'int', 'big', 'small', 'outlier', 'two', 'offset', 'unit']))


def make_mat(m):
    r = rng(m['seed'])
    sh = (m['r'], m['c'])
    v = m['val']
    if v == 'normal':
        a = r.randn(*sh) * 3
    elif v == 'skew':
        a = np.exp(2 * r.randn(*sh))
    elif v == 'const':
        a = np.full(sh, r.randint(-4, 5) * 0.75)
    elif v == 'constcol':
        a = np.tile(r.randn(1, sh[1]) * 5, (sh[0], 1))
    elif v == 'int':
        a = r.randint(-300, 301, size=sh)
    elif v == 'big':
        a = r.randn(*sh) * 1e5
    elif v == 'small':
        a = r.randn(*sh) * 1e-4
    elif v == 'outlier':
        a = r.randn(*sh)
        a[r.randint(sh[0]), r.randint(sh[1])] = 1000
    elif v == 'two':
        a = np.where(r.rand(*sh) < 0.5, -1.5, 2.0)
    elif v == 'offset':
        a = 500 + r.randn(*sh)
    else:
        a = r.rand(*sh) * 1.4 - 0.2
    return np.asarray(a, dtype='float64')


def bound(a, method):
    """(reference to decode to, elementwise bound): independent statement of what each format promises"""
    if method == 'auto':
        method = 'speech-feat' if a.shape[0] > 8 else '2byte-auto'
    mx = np.max(np.abs(a))
    lo, hi = a.min(), a.max()
    rg = hi - lo if hi > lo else 1 + abs(lo)
    if method == '2byte-auto':
        return a, np.full(a.shape, 0.51 * rg / 65535 + 8 * EPS * (mx + rg))
    if method == '1byte-auto':
        return a, np.full(a.shape, 0.51 * rg / 255 + 8 * EPS * (mx + rg))
    if method == '2byte-signed-integer':
        return np.clip(a, -32768, 32767), np.full(a.shape, 0.52)
    if method == '1byte-unsigned-integer':
        return np.clip(a, 0, 255), np.full(a.shape, 0.51)
    if method == '1byte-0-1':
        return np.clip(a, 0, 1), np.full(a.shape, 0.51 / 255 + 1e-6)
    # per column: quartile-wise quantisation on top of 16-bit column headers
    n = a.shape[0]
    b = np.zeros(a.shape)
    h = rg / 65535
    for j in range(a.shape[1]):
        s = np.sort(a[:, j])
        if n >= 5:
            p = [s[0], s[n // 4], s[3 * (n // 4)], s[-1]]
        else:
            p = list(s) + [s[-1]] * (4 - n)
        steps = [(p[1] - p[0]) / 64, (p[2] - p[1]) / 128, (p[3] - p[2]) / 63]
        slack = 3.5 * h
        for i in range(n):
            v = a[i, j]
            cand = [0.0]
            for k in range(3):
                if p[k] - slack <= v <= p[k + 1] + slack:
                    cand.append(0.51 * steps[k])
            b[i, j] = max(cand)
        b[:, j] += slack + 16 * EPS * (mx + rg)
    return a, b


def check_decoded(x, a, method, what):
    eq(x.shape, a.shape, what + ' shape')
    ref, b = bound(a, method)
    err = np.abs(x.astype('float64') - ref)
    bad = ~(err <= b)
    if np.any(bad):
        i = tuple(np.argwhere(bad)[0])
        raise Violation('%s: %s entry %s decoded to %r, stored %r, allowed error %g' % (what, method, i, x[i], a[i], b[i]))


def nontriv(c):
    m = c['m'] if 'm' in c else c['mats'][0]
    return m['r'] > 1 and m['val'] != 'const'


@sub('P04', fd(m=mat_st, method=st.sampled_from(METHODS), f4=st.booleans()), quick=1000, nontrivial=nontriv)
def in_memory(c, ctx):
    """compress -> decode in memory is within the format's quantisation error; the header reports shape, range and format"""
    a = make_mat(c['m'])
    if c['f4']:
        a = a.astype('float32').astype('float64')
    arg = a.astype('float32') if c['f4'] else a
    ctx.label(c['method'], c['m']['val'])
    with unchanged('compress', arg):
        M = KaldiCompressedMatrix.compress(arg, c['method'])
        x = M.to_ndarray()
    check_decoded(x, a, c['method'], 'in memory')
    eq((M.num_rows, M.num_cols), a.shape, 'reported shape')
    fmt = {'speech-feat': 1, '2byte-auto': 2, '2byte-signed-integer': 2}.get(c['method'], 3)
    if c['method'] == 'auto':
        fmt = 1 if a.shape[0] > 8 else 2
    eq(M.data_format, fmt, 'format')
    same(M.to_matrix().to_ndarray(), x, 'to_matrix')
    same(KaldiCompressedMatrix(M.data).to_ndarray(), x, 'rebuilt from the packed bytes', rtol=1e-6, atol=1e-6 * np.max(np.abs(x)))
    data, attrs = M.get_data_attrs()
    eq(data.shape, a.shape, 'coded data shape')
    y = KaldiCompressedMatrix.build_from_data_attrs(data, attrs).to_ndarray()
    same(y, x, 'rebuilt from coded data and attributes', rtol=1e-6, atol=1e-6 * np.max(np.abs(x)))
    # same matrix compressed from a Kaldi matrix object
    z = KaldiCompressedMatrix.compress(KaldiMatrix(arg), c['method']).to_ndarray()
    same(z, x, 'compressed from a Kaldi matrix')


@sub('P04', fd(m=mat_st, method=st.sampled_from(METHODS), alpha=st.sampled_from([0.5, 2.0, 3.0, 0.1, 1.0])), quick=200, nontrivial=nontriv)
def scaling(c, ctx):
    """scaling a compressed matrix scales what it decodes to"""
    a = make_mat(c['m'])
    M = KaldiCompressedMatrix.compress(a.astype('float32'), c['method'])
    x = M.to_ndarray().astype('float64')
    M.scale(c['alpha'])
    tol = 2e-6 * np.max(np.abs(x)) * c['alpha'] + 1e-30
    rg = 4e-7 * 65535
    same(M.to_ndarray(), c['alpha'] * x, 'scaled', rtol=2e-6, atol=tol + (rg * c['alpha'] if c['method'] == '2byte-signed-integer' else 0) + 1e-4 * (c['method'] == '1byte-unsigned-integer'))
    same(KaldiCompressedMatrix(M.data).to_ndarray(), M.to_ndarray(), 'packed after scaling', rtol=2e-6, atol=tol + rg * (c['method'] == '2byte-signed-integer') + 1e-4)


@st.composite
def file_cases(draw):
    mats = draw(st.lists(mat_st, min_size=1, max_size=4))
    rr = []
    for m in mats:
        o = draw(st.integers(0, m['r'] - 1))
        rr.append([o, draw(st.integers(0, m['r'] - o))])
    return dict(mats=mats, method=draw(st.sampled_from(METHODS)), ranges=rr, obj=draw(st.booleans()))


@sub('P04', file_cases(), quick=500, nontrivial=nontriv)
def through_files(c, ctx):
    """archive and HDF5 files: decoded values within the error bound, equal between back ends, partial = rows of full, any access"""
    mats = [make_mat(m).astype('float32') for m in c['mats']]
    keys = ['k%d' % i for i in range(len(mats))]
    wm = [KaldiCompressedMatrix.compress(m, c['method']) for m in mats] if c['obj'] else [m.copy() for m in mats]
    with ArkDataWriter(ctx.path('d', 'x.ark'), ctx.path('d', 'x.scp'), compress=True, compression_method=c['method']) as w:
        w.write(keys, wm)
    with H5DataWriter(ctx.path('d', 'x.h5'), compress=True, compression_method=c['method']) as w:
        w.write(keys, mats)
    with SequentialArkFileDataReader(ctx.path('d', 'x.ark')) as r:
        k, ark = r.read()
        eqlist(k, keys, 'ark keys')
    with SequentialH5FileDataReader(ctx.path('d', 'x.h5')) as r:
        k, h5 = r.read()
        eqlist(k, keys, 'h5 keys')
    for i in range(len(mats)):
        check_decoded(ark[i], mats[i].astype('float64'), c['method'], 'ark')
        check_decoded(h5[i], mats[i].astype('float64'), c['method'], 'h5')
        same(ark[i], h5[i], 'ark and h5 decode differently')
        x = KaldiCompressedMatrix.compress(mats[i], c['method']).to_ndarray()
        same(ark[i], x, 'file and in-memory decode', rtol=1e-6, atol=1e-6 * np.max(np.abs(x)) + 1e-12)
    off = [a for a, b in c['ranges']]
    cnt = [b for a, b in c['ranges']]
    for R in (RandomAccessArkDataReader(ctx.path('d', 'x.scp')), RandomAccessH5FileDataReader(ctx.path('d', 'x.h5'))):
        with R as r:
            eqlist([tuple(s) for s in r.read_shapes(keys, assert_same_dim=False)], [m.shape for m in mats], 'shapes')
            d = r.read(keys, row_offset=off, num_rows=cnt)
            for i in range(len(mats)):
                w = ark[i][off[i]:] if cnt[i] == 0 else ark[i][off[i]:off[i] + cnt[i]]
                same(d[i], w, 'partial decode of rows %d+%d' % (off[i], cnt[i]))
    # sequential partial reads leave the file positioned at the next record
    with SequentialArkFileDataReader(ctx.path('d', 'x.ark')) as r:
        k, d = r.read(row_offset=off, num_rows=cnt)
        eqlist(k, keys, 'keys of partial sequential read')
        for i in range(len(mats)):
            w = ark[i][off[i]:] if cnt[i] == 0 else ark[i][off[i]:off[i] + cnt[i]]
            same(d[i], w, 'sequential partial decode')


@sub('P04', fd(m=mat_st, method=st.sampled_from(METHODS)), quick=200, nontrivial=nontriv)
def recompress_and_text(c, ctx):
    """compressed matrices written without compression or to text keep their decoded values; non-finite matrices are rejected"""
    a = make_mat(c['m']).astype('float32')
    M = KaldiCompressedMatrix.compress(a, c['method'])
    x = M.to_ndarray()
    with ArkDataWriter(ctx.path('d', 'u.ark'), ctx.path('d', 'u.scp'), compress=False) as w:
        w.write(['a'], [M])
    with RandomAccessArkDataReader(ctx.path('d', 'u.scp')) as r:
        same(r.read(['a'])[0], x, 'decompressed on write')
    with ArkDataWriter(ctx.path('d', 't.ark'), ctx.path('d', 't.scp'), binary=False, compress=True, compression_method=c['method']) as w:
        w.write(['a'], [a])
    with RandomAccessArkDataReader(ctx.path('d', 't.scp')) as r:
        same(r.read(['a'])[0], x, 'compressed text archive', rtol=2e-7, atol=6e-7)
    if c['method'] in ('auto', 'speech-feat', '2byte-auto', '1byte-auto'):
        b = a.copy()
        b[0, 0] = np.inf if c['m']['seed'] % 2 else np.nan
        raises(lambda: KaldiCompressedMatrix.compress(b, c['method']), 'compressing a non-finite matrix')
