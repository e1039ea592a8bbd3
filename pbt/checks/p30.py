"""P30: copying, splitting and merging archives keeps their content."""
import argparse

from pbt.core import *
from pbt.iolib import *
from hyperion.io import DataWriterFactory as DWF, SequentialDataReaderFactory as DRF, RandomAccessDataReaderFactory as RDF
from hyperion.io import CopyFeats as CF, H5Merger, HypDataReader, HypDataWriter

RULE = 'at least two records of different shapes'

SEP = st.sampled_from([' ', ' ', ',', '\t'])
IN = st.sampled_from(['ark', 'ark_t', 'h5', 'scp_ark', 'scp_h5', 'scp_ark'])
OUT = st.sampled_from(['ark', 'ark,t', 'ark,b', 'h5', 'ark,scp', 'h5,scp', 'ark,scp,t', 'ark,scp,f'])


@st.composite
def items_st(draw, n=9, comp=False):
    keys = draw(keys_st(1, n))
    its = draw(st.lists(item_st(matrix_only=comp, min_rows=1, min_cols=1), min_size=len(keys), max_size=len(keys)))
    return dict(keys=keys, items=its)


def create(kind, keys, data, sep, ctx, tag, prefix=False):
    """archive of the given kind; returns the specifier and the order in which it lists its keys"""
    h5 = 'h5' in kind
    arch, scp = ctx.path(tag + ('.h5' if h5 else '.ark')), ctx.path(tag + '.scp')
    spec = ('h5,scp:' if h5 else 'ark,scp,t:' if kind == 'ark_t' else 'ark,scp:') + arch + ',' + scp
    with DWF.create(spec, scp_sep=sep) as w:
        w.write(keys, [d.copy() for d in data])
    if kind == 'h5':
        return 'h5:' + arch, sorted(range(len(keys)), key=lambda i: keys[i].encode())
    if kind.startswith('scp'):
        if prefix:
            d = arch[:arch.rindex('/') + 1]
            t = open(scp).read()
            open(scp, 'w').write(t.replace(sep + d, sep))
        return 'scp:' + scp, list(range(len(keys)))
    return 'ark:' + arch, list(range(len(keys)))


def target(kind, ctx, tag):
    arch = ctx.path(tag + ('.h5' if 'h5' in kind else '.ark'))
    return kind + ':' + arch + (',' + ctx.path(tag + '.scp') if 'scp' in kind else ''), ('h5:' if 'h5' in kind else 'ark:') + arch, 'scp:' + ctx.path(tag + '.scp') if 'scp' in kind else None


def load(spec, sep):
    with DRF.create(spec, scp_sep=sep) as r:
        return r.read()


def direct(kind, keys, data, comp, method, ctx, tag):
    """what the writer stores for the same data"""
    spec, arch, _ = target(kind, ctx, tag)
    with DWF.create(spec, compress=comp, compression_method=method) as w:
        w.write(keys, data)
    return load(arch, ' ')


def verify(kind, spec, sep, keys, data, what, text, order=True):
    k, d = load(spec, sep)
    o = list(range(len(keys)))
    if spec.startswith('h5:'):
        o.sort(key=lambda i: keys[i].encode())
    eqlist(k, [keys[i] for i in o], what + ': keys')
    for key, x, i in zip(k, d, o):
        check_value(x, data[i], text, '%s: %s' % (what, key))
        if not text:
            eq(np.asarray(x).shape, data[i].shape, '%s: shape of %s' % (what, key))


nt = lambda c: len(c['keys']) >= 2
COMP = st.sampled_from([None, None, 'auto', 'speech-feat', '2byte-auto', '2byte-signed-integer', '1byte-auto', '1byte-unsigned-integer', '1byte-0-1'])


def shape2d(c):
    """plain data, as the compression methods need"""
    r = rng(sum(map(len, c['keys'])))
    return [r.uniform(0, 1, size=(it.get('r', 3), it['c'])) for it in c['items']]


@sub('P30', st.tuples(items_st(), fd(src=IN, dst=OUT, sep=SEP, chunk=st.integers(1, 12), prefix=st.booleans(), comp=COMP, cli=st.booleans(), aslist=st.booleans())).map(lambda t: dict(t[0], **t[1])), quick=400, nontrivial=nt)
def copy(c, ctx):
    text = c['src'] == 'ark_t' or ',t' in c['dst']
    keys, data = c['keys'], [make_item(i, text) for i in c['items']]
    comp = c['comp']
    if comp:
        data = shape2d(c)
    prefix = c['prefix'] and c['src'].startswith('scp')
    spec, o = create(c['src'], keys, data, c['sep'], ctx, 'in', prefix)
    dst, arch, scp = target(c['dst'], ctx, 'out')
    a = dict(scp_sep=c['sep'])
    if prefix:
        a['path_prefix'] = ctx.path('')
    if comp:
        a.update(compress=True, compression_method=comp)
    if c['cli']:
        p = argparse.ArgumentParser()
        CF.add_argparse_args(p)
        args = sum([['--' + n.replace('_', '-')] + ([] if v is True else [v]) for n, v in a.items()], [])
        CF(spec, dst, **vars(p.parse_args(args)))
    else:
        CF([spec] if c['aslist'] else spec, dst, chunk_size=c['chunk'], **a)
    keys, data = [keys[i] for i in o], [data[i] for i in o]
    outs = [arch] + ([scp] if scp else [])
    if comp:
        ctx.label('compressed')
        stored = load(spec if not prefix else 'ark:' + ctx.path('in.ark') if c['src'] == 'scp_ark' else 'h5:' + ctx.path('in.h5'), c['sep'])
        stored = dict(zip(stored[0], stored[1]))
        k0, d0 = direct(c['dst'], keys, [stored[k] for k in keys], True, comp, ctx, 'ref')
        ref = dict(zip(k0, d0))
        for s in outs:
            k1, d1 = load(s, c['sep'])
            eq(sorted(map(str, k1)), sorted(keys), 'keys')
            for k, x in zip(k1, d1):
                same(x, ref[k], 'compressed ' + k)
    else:
        for s in outs:
            verify(c['dst'], s, c['sep'], keys, data, 'copy', text)
    if scp and not comp:
        r = RDF.create(scp, scp_sep=c['sep'])
        i = len(keys) // 2
        check_value(r.read([keys[i]])[0], data[i], text, 'copy read by key')
    ctx.label(c['src'] + ' to ' + c['dst'])


@sub('P30', st.tuples(items_st(12), fd(src=st.sampled_from(['scp_ark', 'scp_h5', 'h5']), dst=OUT, sep=SEP, chunk=st.integers(1, 5), parts=st.integers(2, 5), back=OUT)).map(lambda t: dict(t[0], **t[1])),
     quick=250, nontrivial=nt)
def parts(c, ctx):
    text = ',t' in c['dst'] or ',t' in c['back']
    keys, data = c['keys'], [make_item(i, text) for i in c['items']]
    spec, o = create(c['src'], keys, data, c['sep'], ctx, 'in')
    P = min(c['parts'], len(keys))
    got, specs = [], []
    for p in range(1, P + 1):
        dst, arch, scp = target(c['dst'], ctx, 'out%d' % p)
        CF(spec, dst, scp_sep=c['sep'], part_idx=p, num_parts=P, chunk_size=c['chunk'])
        specs.append(scp if scp else arch)
        k, d = load(specs[-1], c['sep'])
        got.append([str(v) for v in k])
        for key, x in zip(k, d):
            check_value(x, data[keys.index(key)], text, 'part %d: %s' % (p, key))
    eq(sorted(sum(got, [])), sorted(keys), 'keys of all the parts')
    sizes = [len(g) for g in got]
    require(max(sizes) - min(sizes) <= 1, 'parts with %s records', sizes)
    # and merged back together
    dst, arch, scp = target(c['back'], ctx, 'all')
    CF(specs, dst, scp_sep=c['sep'], chunk_size=c['chunk'])
    ks = sum(got, [])
    for s in [arch] + ([scp] if scp else []):
        verify(c['back'], s, c['sep'], ks, [data[keys.index(k)] for k in ks], 'merged parts', text)
    if P > 1:
        ctx.label('several parts')


@sub('P30', st.tuples(items_st(), fd(srcs=st.lists(IN, min_size=1, max_size=4), dst=OUT, sep=SEP, chunk=st.integers(1, 5), where=st.lists(st.integers(0, 3), min_size=9, max_size=9), dup=st.booleans())).map(lambda t: dict(t[0], **t[1])),
     quick=250, nontrivial=lambda c: len(c['keys']) > 2 and len(c['srcs']) > 1)
def merge(c, ctx):
    text = 'ark_t' in c['srcs'] or ',t' in c['dst']
    keys, data = c['keys'], [make_item(i, text) for i in c['items']]
    n = len(c['srcs'])
    specs, ks, ds = [], [], []
    for j, src in enumerate(c['srcs']):
        mine = [i for i in range(len(keys)) if c['where'][i] % n == j]
        if not mine:
            continue
        spec, o = create(src, [keys[i] for i in mine], [data[i] for i in mine], c['sep'], ctx, 'in%d' % j)
        specs.append(spec)
        ks += [keys[mine[i]] for i in o]
        ds += [data[mine[i]] for i in o]
    dst, arch, scp = target(c['dst'], ctx, 'out')
    if c['dup'] and 'h5' not in c['dst']:
        # the same input twice: its records appear twice
        CF(specs + specs, dst, scp_sep=c['sep'], chunk_size=c['chunk'])
        for s in [arch] + ([scp] if scp else []):
            verify(c['dst'], s, c['sep'], ks + ks, ds + ds, 'merge twice', text)
        ctx.label('twice')
    else:
        CF(specs, dst, scp_sep=c['sep'], chunk_size=c['chunk'])
        for s in [arch] + ([scp] if scp else []):
            verify(c['dst'], s, c['sep'], ks, ds, 'merge', text)
    if len(specs) > 1:
        raises(lambda: CF(specs, target(c['dst'], ctx, 'bad')[0], scp_sep=c['sep'], part_idx=1, num_parts=2), 'merge and split at once')


@sub('P30', st.tuples(items_st(), fd(files=st.integers(1, 4), chunk=st.one_of(st.none(), st.integers(1, 4)), where=st.lists(st.integers(0, 3), min_size=9, max_size=9), empty=st.booleans())).map(lambda t: dict(t[0], **t[1])),
     quick=250, nontrivial=lambda c: len(c['keys']) > 2 and c['files'] > 1)
def h5_merge(c, ctx):
    keys, data = c['keys'], [make_item(i) for i in c['items']]
    keys = [k.replace('/', '_') + str(i) for i, k in enumerate(keys)]
    files = []
    for j in range(c['files']):
        mine = [i for i in range(len(keys)) if c['where'][i] % c['files'] == j]
        if not mine and not c['empty']:
            continue
        files.append(ctx.path('in%d.h5' % j))
        w = HypDataWriter(files[-1])
        w.write([keys[i] for i in mine], '', [data[i] for i in mine])
        w.f.close()
    H5Merger(files, ctx.path('out.h5'), c['chunk']).merge()
    k, d = load('h5:' + ctx.path('out.h5'), ' ')
    o = sorted(range(len(keys)), key=lambda i: keys[i].encode())
    eqlist(k, [keys[i] for i in o], 'keys of the merged file')
    for i, x in zip(o, d):
        check_value(x, data[i], False, 'merged ' + keys[i])
        eq(np.asarray(x).shape, data[i].shape, 'shape of ' + keys[i])


@sub('P30', fd(seed=seeds, lens=st.lists(st.integers(1, 12), min_size=1, max_size=6), c=st.integers(1, 4), fields=st.lists(st.sampled_from(['', '.f', '.acc']), min_size=1, max_size=3, unique=True), single=st.booleans(), same=st.booleans(), off=st.integers(0, 11), num=st.integers(1, 12)),
     quick=250, nontrivial=lambda k: len(k['lens']) > 1)
def fields(k, ctx):
    """several fields for each key: whole, by slices, at random"""
    r = rng(k['seed'])
    if k['same']:
        k['lens'] = [k['lens'][0]] * len(k['lens'])
    keys = ['u%02d' % i for i in r.permutation(len(k['lens']))]
    data = {}
    w = HypDataWriter(ctx.path('d.h5'))
    for f in k['fields']:
        xs = [r.randn(L, k['c']) for L in k['lens']]
        for u, x in zip(keys, xs):
            x[:, 0] = np.arange(len(x))
            data[u, f] = x.astype('float32')
        if k['single']:
            for u, x in zip(keys, xs):
                w.write(u, f, x)
        else:
            w.write(keys, f, xs)
    w.f.close()
    h = HypDataReader(ctx.path('d.h5'))
    eq(sorted(h.get_datasets()), sorted(u + f for u, f in data), 'datasets')
    for f in k['fields']:
        ask = [keys[i] for i in r.randint(0, len(keys), size=5)]
        for q in (ask, np.array(ask)):
            for u, x in zip(ask, h.read(q, f)):
                same(x, data[u, f], 'field %s of %s' % (f, u))
            eqlist(h.get_num_rows(q, f), [len(data[u, f]) for u in ask], 'number of rows')
        if k['same']:
            same(h.read(ask, f, return_tensor=True), np.stack([data[u, f] for u in ask]), 'tensor')
        u = ask[0]
        x = data[u, f]
        a = k['off'] % len(x)
        same(h.read_slice(u, a, k['num'], f), x[a:a + k['num']], 'slice')
        n = min(k['num'], len(x))
        seen = set()
        for s in range(6):
            y, i = h.read_random_slice(u, n, rng(s), f)
            require(0 <= i <= len(x) - n, 'start %s of a slice of %d of %d', i, n, len(x))
            same(y, x[i:i + n], 'random slice')
            seen.add(int(i))
            y2, i2 = h.read_random_slice(u, n, rng(s), f)
            eq(i2, i, 'same seed')
            for rep in (True, False):
                z, _ = h.read_random_samples(u, n, rng(s), f, replace=rep)
                rows = np.round(z[:, 0]).astype(int)
                require(len(rows) == n and rows.min() >= 0 and rows.max() < len(x) and np.all(np.diff(rows) >= (0 if rep else 1)), 'rows %s of %d', rows, len(x))
                same(z, x[rows], 'random samples')
        if len(x) - n >= 3:
            require(len(seen) > 1, 'the random slices of %d of %d start always at %s', n, len(x), seen)
        raises(lambda: h.read(['zz'], f), 'unknown key')
