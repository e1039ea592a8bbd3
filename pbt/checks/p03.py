"""P03: parallel partitions of a dataset cover every record exactly once."""
from pbt.core import *
from pbt.iolib import *
from pbt.checks import p01
from hyperion.utils.list_utils import split_list, split_list_group_by_key
from hyperion.utils.scp_list import SCPList
from hyperion.utils.utt2info import Utt2Info
from hyperion.io.ark_data_reader import SequentialArkFileDataReader, SequentialArkScriptDataReader
from hyperion.io.h5_data_reader import SequentialH5FileDataReader, SequentialH5ScriptDataReader
from hyperion.io import SequentialDataReaderFactory

RULE = 'at least two parts and at least two records'


def check_groups(parts, values, groups, what):
    """parts: list of lists of record positions; every record once, groups whole, in original order inside a part and group"""
    allidx = [i for p in parts for i in p]
    eqlist(sorted(allidx), list(range(len(values))), what + ': records covered')
    where = {}
    for p, idx in enumerate(parts):
        for i in idx:
            require(where.setdefault(groups[i], p) == p, '%s: group %r is in parts %s and %s', what, groups[i], where[groups[i]], p)
    for p, idx in enumerate(parts):
        for g in set(groups[i] for i in idx):
            pos = [i for i in idx if groups[i] == g]
            eqlist(pos, sorted(pos), what + ': order inside a group')


def balanced(sizes, n, what):
    require(max(sizes) - min(sizes) <= 1, '%s: uneven parts %s', what, sizes)


list_cases = fd(n=st.integers(1, 40), parts=st.integers(1, 12), ng=st.integers(1, 12), seed=seeds, kind=st.sampled_from(['list', 'array', 'int']))


@sub('P03', list_cases, quick=500, nontrivial=lambda c: c['n'] >= 2 and c['parts'] >= 2)
def plain_lists(c, ctx):
    """ordered split of a list: concatenation of parts = list, parts differ by at most one element"""
    n, N = c['n'], min(c['parts'], c['n'])
    vals = ['x%03d' % i for i in range(n)] if c['kind'] != 'int' else list(range(100, 100 + n))
    if c['kind'] == 'array':
        vals = np.array(vals)
    out, sizes = [], []
    for i in range(1, N + 1):
        v, loc = split_list(vals, i, N)
        eqlist(v, [vals[j] for j in loc], 'values and positions')
        out.extend(int(j) for j in loc)
        sizes.append(len(loc))
    eqlist(out, list(range(n)), 'concatenation of the parts')
    balanced(sizes, N, 'split_list')


@sub('P03', list_cases, quick=500, nontrivial=lambda c: c['n'] >= 2 and c['parts'] >= 2)
def grouped_lists(c, ctx):
    """split by group: every record once, no group in two parts, each part has whole groups and parts have balanced group counts"""
    r = rng(c['seed'])
    n = c['n']
    groups = ['g%02d' % g for g in r.randint(0, c['ng'], n)]
    N = min(c['parts'], len(set(groups)))
    vals = np.arange(n) + 1000
    parts, ngr = [], []
    for i in range(1, N + 1):
        v, loc = split_list_group_by_key(list(vals), i, N, key=groups)
        eqlist(v, [int(vals[j]) for j in loc], 'values and positions')
        parts.append([int(j) for j in loc])
        ngr.append(len(set(groups[j] for j in loc)))
    check_groups(parts, vals, groups, 'split_list_group_by_key')
    balanced(ngr, N, 'groups per part')
    parts2 = [[int(j) for j in split_list_group_by_key(groups, i, N)[1]] for i in range(1, N + 1)]
    eqlist(parts2, parts, 'grouping by the list itself')


@sub('P03', fd(n=st.integers(1, 400), first=st.integers(0, 9)), quick=150, nontrivial=lambda c: c['n'] > 20)
def every_number_of_parts(c, ctx):
    """one list or list of groups of any size against all its possible numbers of parts (or a tenth of them)"""
    n = c['n']
    a = np.arange(n)
    for N in range(1 + (c['first'] if n > 60 else 0), n + 1, 10 if n > 60 else 1):
        if N < 1:
            continue
        for what, f in (('split_list', split_list), ('split_list_group_by_key', split_list_group_by_key)):
            if what != 'split_list' and N > 60:
                continue
            parts = [f(a, i, N)[1] for i in range(1, N + 1)]
            require(np.array_equal(np.concatenate(parts), a), '%s of %d in %d parts does not give the list back', what, n, N)
            sizes = [len(p) for p in parts]
            require(max(sizes) - min(sizes) <= 1, '%s of %d in %d parts: sizes %s', what, n, N, sorted(set(sizes)))


@sub('P03', fd(n=st.integers(1, 25), parts=st.integers(1, 8), ng=st.integers(1, 12), seed=seeds, off=st.booleans(), rg=st.booleans(),
               group=st.booleans(), u2i=st.integers(0, 2)), quick=400, nontrivial=lambda c: c['n'] >= 2 and c['parts'] >= 2)
def tables(c, ctx):
    """script lists and attribute tables: parts carry whole records, cover the table once, keep groups together"""
    r = rng(c['seed'])
    n = c['n']
    keys = ['k%02d' % k for k in (r.randint(0, c['ng'], n) if c['group'] else r.permutation(n))]
    paths = ['p%d' % i for i in range(n)]
    off = list(range(10, 10 + n)) if c['off'] else None
    rg = np.stack([np.arange(n), np.arange(n) + 1], 1) if c['rg'] else None
    s = SCPList(list(keys), list(paths), off, rg)
    N = min(c['parts'], len(set(keys)))
    parts = []
    for i in range(1, N + 1):
        p = s.split(i, N, group_by_key=c['group'])
        idx = [int(x[1:]) for x in p.file_path]
        parts.append(idx)
        eqlist(p.key, [keys[j] for j in idx], 'keys of the part')
        if off:
            eqlist(p.offset, [off[j] for j in idx], 'offsets of the part')
        if c['rg']:
            eqlist([tuple(x) for x in p.range_spec], [tuple(rg[j]) for j in idx], 'ranges of the part')
    check_groups(parts, keys, keys if c['group'] else list(range(n)), 'script list')
    if not c['group']:
        eqlist([j for p in parts for j in p], list(range(n)), 'order of the script list')
    # attribute tables
    ukeys = ['u%02d' % i for i in r.permutation(n)]
    spk = ['s%d' % x for x in r.randint(0, c['ng'], n)]
    lang = ['l%d' % x for x in r.randint(0, 3, n)]
    t = Utt2Info.create(ukeys, np.array([spk, lang]).T)
    field = c['u2i']
    groups = [list(range(n)), spk, lang][field]
    N = min(c['parts'], len(set(groups)))
    parts = []
    for i in range(1, N + 1):
        p = t.split(i, N, group_by_field=field)
        idx = [ukeys.index(k) for k in p.key]
        parts.append(idx)
        for k, j in zip(p.key, idx):
            eqlist(p[k], [spk[j], lang[j]], 'attributes of ' + k)
    check_groups(parts, ukeys, groups, 'attribute table by field %d' % field)
    if field == 0:
        eqlist([j for p in parts for j in p], list(range(n)), 'order of the table')


@sub('P03', fd(fmt=st.sampled_from(['ark', 'h5']), n=st.integers(1, 9), parts=st.integers(1, 6), script=st.booleans(), dup=st.booleans(),
               split_by_key=st.booleans(), seed=seeds, factory=st.booleans(), batch=st.integers(0, 3)), quick=350,
     nontrivial=lambda c: c['n'] >= 2 and c['parts'] >= 2)
def readers(c, ctx):
    """sequential readers opened as part i of N deliver disjoint parts that cover the archive, with the right data"""
    n = c['n']
    r = rng(c['seed'])
    keys = ['k%02d' % i for i in r.permutation(n)]
    data = [np.full((2, 3), float(i)) + np.arange(3) / 4 for i in range(n)]
    h5 = c['fmt'] == 'h5'
    script = c['script'] or not h5
    cc = dict(fmt=c['fmt'], how='class', rhow='factory' if c['factory'] else 'class', sep=' ', flush=False, cuts=[], scalar=False, stack=False)
    arch, scp = p01.write(cc, ctx, keys, data)
    order = list(range(n))
    if script and c['dup']:
        lines = open(scp).read().splitlines()
        extra = [int(j) for j in r.randint(0, n, 3)]
        order = order + extra
        with open(scp, 'w') as f:
            f.write('\n'.join([lines[j] for j in order]) + '\n')
    if not script:
        order = sorted(order, key=lambda i: keys[i])
    by_key = c['split_by_key']
    N = min(c['parts'], n)
    got, parts = [], []
    for i in range(1, N + 1):
        kw = dict(part_idx=i, num_parts=N, split_by_key=by_key)
        with p01.seq_reader(cc, arch, scp, script, **kw) as rd:
            ks, ds = [], []
            while not rd.eof():
                k, d = rd.read(c['batch'])
                ks.extend(k)
                ds.extend(d)
            rd.reset()
            k2, s2 = rd.read_shapes()
            eqlist(k2, ks, 'keys after reset')
        for k, d in zip(ks, ds):
            same(d, data[keys.index(k)], 'data of ' + k)
        got.extend(ks)
        parts.append(ks)
    want = [keys[j] for j in order]
    if by_key:
        eqlist(sorted(got), sorted(want), 'records covered')
        for k in set(want):
            require(sum(k in p for p in parts) == 1, 'key %s is in several parts', k)
    else:
        eqlist(got, want, 'concatenation of the parts')
