"""P05: script-file lists behave like ordered key-to-location maps."""
from pbt.core import *
from hyperion.utils.scp_list import SCPList

RULE = 'at least two records and, for histories, at least two operations'

PATHC = 'abcXYZ019_-./'
path_st = st.text(alphabet=PATHC, min_size=1, max_size=8)


@st.composite
def recs_st(draw, unique=True, min_size=1, max_size=8):
    keys = draw(keys_st(min_size, max_size)) if unique else draw(st.lists(st.sampled_from(['a', 'b', 'c', 'dd', 'e1']), min_size=min_size, max_size=max_size))
    off = draw(st.booleans())
    rg = draw(st.booleans())
    paths = draw(st.lists(st.sampled_from(['p/a.ark', 'p/b.ark', 'c.ark', '/z/d']) | path_st, min_size=len(keys), max_size=len(keys)))
    out = []
    for k, p in zip(keys, paths):
        out.append([k, p, draw(st.integers(0, 10 ** 10)) if off else None,
                    draw(st.one_of(st.just([0, 0]), st.tuples(st.integers(0, 50), st.integers(0, 50)).map(list))) if rg else None])
    return out


def build(recs, as_list=False):
    off = [r[2] for r in recs] if recs and recs[0][2] is not None else None
    rg = [r[3] for r in recs] if recs and recs[0][3] is not None else None
    if not as_list:
        rg = None if rg is None else np.array(rg, dtype='int64')
        off = None if off is None else np.array(off, dtype='int64')
        return SCPList(np.array([r[0] for r in recs]), np.array([r[1] for r in recs]), off, rg)
    return SCPList([r[0] for r in recs], [r[1] for r in recs], off, rg)


def view(s, use_none=False):
    out = []
    for i in range(len(s)):
        rg = None if s.range_spec is None else [int(x) for x in s.range_spec[i]]
        if rg == [0, 0]:
            rg = None
        out.append([str(s.key[i]), str(s.file_path[i]), None if s.offset is None else int(s.offset[i]), rg])
    return out


def norm(recs):
    return [[r[0], r[1], r[2], None if r[3] is None or list(r[3]) == [0, 0] else list(r[3])] for r in recs]


@sub('P05', fd(recs=recs_st(min_size=0), as_list=st.booleans(), sep=st.sampled_from([' ', '\t', ',', '=']), osep=st.sampled_from([':', ';', '|'])), quick=500,
     nontrivial=lambda c: len(c['recs']) > 1)
def save_load(c, ctx):
    """save -> load reproduces keys, paths, offsets and ranges for any separators"""
    recs = c['recs']
    s = build(recs, c['as_list'])
    eqlist(view(s), norm(recs), 'constructed list')
    s.save(ctx.path('x.scp'), sep=c['sep'], offset_sep=c['osep'])
    l = SCPList.load(ctx.path('x.scp'), sep=c['sep'], offset_sep=c['osep'])
    eqlist(view(l), norm(recs), 'loaded list')
    if recs and (s.range_spec is None or any(list(r[3]) != [0, 0] for r in recs)):
        require(bool(l == s) and not bool(l != s), 'loaded list compares different from the saved one')
    l.save(ctx.path('y.scp'), sep=c['sep'], offset_sep=c['osep'])
    eq(open(ctx.path('y.scp')).read(), open(ctx.path('x.scp')).read(), 'second save')


@sub('P05', fd(recs=recs_st(unique=True), ask=st.lists(st.integers(0, 20), max_size=5), prefix=path_st, other=key_st), quick=300, nontrivial=lambda c: len(c['recs']) > 1)
def lookups(c, ctx):
    """lookup by key and by position, membership, prefixing and copies"""
    recs = norm(c['recs'])
    s = build(c['recs'])
    eq(len(s), len(recs), 'len')
    eq(s.len(), len(recs), 'len()')
    for i, r in enumerate(recs):
        eq(int(s.get_index(r[0])), i, 'get_index')
        require(r[0] in s, 'member %s', r[0])
        k, p, o, g = s[i]
        for got in ((k, p, o, g), (r[0],) + tuple(s[r[0]])):
            eq([str(got[0]), str(got[1]), None if got[2] is None else int(got[2])], r[:3], 'record %d' % i)
            gg = None if got[3] is None or list(got[3]) == [0, 0] else [int(x) for x in got[3]]
            eq(gg, r[3], 'range of record %d' % i)
    if c['other'] not in [r[0] for r in recs]:
        require(c['other'] not in s, 'non-member found')
    t = s.copy()
    t.add_prefix_to_filepath(c['prefix'])
    eqlist([str(x) for x in t.file_path], [c['prefix'] + r[1] for r in recs], 'prefix')
    eqlist(view(s), recs, 'copy is independent')
    eqlist([v[:1] + v[2:] for v in view(t)], [v[:1] + v[2:] for v in recs], 'prefix changes only paths')


@sub('P05', fd(recs=recs_st(), other=st.sampled_from(['same', 'key', 'path', 'offset', 'range', 'len', 'nooff', 'norange', 'order']), at=st.integers(0, 7)), quick=300,
     nontrivial=lambda c: c['other'] != 'same')
def equality(c, ctx):
    """lists compare equal exactly when all records are equal"""
    recs = [list(r) for r in c['recs']]
    a = build(recs)
    o = c['other']
    i = c['at'] % len(recs)
    b = [list(r) for r in recs]
    if o == 'key':
        b[i][0] += 'q'
    elif o == 'path':
        b[i][1] += 'q'
    elif o == 'offset' and b[i][2] is not None:
        b[i][2] += 1
    elif o == 'range' and b[i][3] is not None:
        b[i][3] = [b[i][3][0], b[i][3][1] + 1]
    elif o == 'len':
        b = b + [[x if not isinstance(x, str) else x + '_zz' for x in b[i]]]
    elif o == 'nooff':
        b = [[r[0], r[1], None, r[3]] for r in b]
    elif o == 'norange':
        b = [[r[0], r[1], r[2], None] for r in b]
    elif o == 'order':
        b = b[::-1]
    if o == 'norange' and all(r[3] == [0, 0] for r in recs):
        return
    want = b == recs
    B = build(b)
    eq(bool(a == B), want, 'a == b (%s)' % o)
    eq(bool(B == a), want, 'b == a (%s)' % o)
    eq(bool(a != B), not want, 'a != b (%s)' % o)


op_st = st.one_of(
    fd(op='sort'), fd(op='shuffle', seed=st.integers(0, 99), how=st.sampled_from(['seed', 'rng'])), fd(op='splitmerge', n=st.integers(1, 5), group=st.booleans()),
    fd(op='filter', idx=st.lists(st.integers(0, 9), max_size=5), keep=st.booleans(), by=st.sampled_from(['key', 'path', 'index'])),
    fd(op='part', i=st.integers(1, 4), n=st.integers(1, 4), group=st.booleans()), fd(op='saveload'), fd(op='selfmerge', idx=st.lists(st.integers(0, 9), max_size=5)))


@sub('P05', fd(recs=recs_st(), ops=st.lists(op_st, min_size=1, max_size=6)), quick=600,
     nontrivial=lambda c: len(c['recs']) > 1 and len(c['ops']) > 1)
def histories(c, ctx):
    """random sequences of sort/shuffle/split/merge/filter/save+load against a list model, checked after every step"""
    m = norm(c['recs'])
    s = build(c['recs'])
    for op in c['ops']:
        o = op['op']
        n = len(m)
        if n == 0:
            break
        ctx.label(o)
        if o == 'sort':
            s.sort()
            m = sorted(m, key=lambda r: r[0])
        elif o == 'shuffle':
            idx = s.shuffle(seed=op['seed']) if op['how'] == 'seed' else s.shuffle(rng=rng(op['seed']))
            eqlist(sorted(int(i) for i in idx), list(range(n)), 'shuffle index')
            m = [m[i] for i in idx]
        elif o == 'splitmerge':
            N = min(op['n'], len(set(r[0] for r in m)))
            parts = [s.split(i, N, group_by_key=op['group']) for i in range(1, N + 1)]
            s = SCPList.merge(parts)
            if op['group']:
                eqlist(sorted(map(repr, view(s))), sorted(map(repr, m)), 'split+merge by key')
                m = view(s)
        elif o == 'part':
            N = min(op['n'], len(set(r[0] for r in m)))
            p = s.split(min(op['i'], N), N, group_by_key=op['group'])
            pv = view(p)
            for r in pv:
                require(r in m, 'part has a record that is not in the list: %s', r)
            if not op['group']:
                i0 = m.index(pv[0])
                eqlist(pv, m[i0:i0 + len(pv)], 'part is a contiguous block')
            m, s = pv, p
        elif o == 'filter':
            idx = sorted(set(i % n for i in op['idx']))
            if op['by'] == 'key':
                sel = [m[i][0] for i in idx]
                s2 = s.filter(np.array(sel) if sel else [], keep=op['keep'])
                keepf = lambda r: (r[0] in sel) == op['keep']
                raises(lambda: s.filter(['no_such_key!']), 'filter by a key that is not in the list')
            elif op['by'] == 'path':
                sel = [m[i][1] for i in idx]
                s2 = s.filter_paths(sel, keep=op['keep'])
                keepf = lambda r: (r[1] in sel) == op['keep']
            else:
                sel = set(idx)
                s2 = s.filter_index(np.array(idx, dtype='int64'), keep=op['keep'])
                pos = {id(r): i for i, r in enumerate(m)}
                keepf = lambda r: (pos[id(r)] in sel) == op['keep']
            eqlist(view(s), m, 'filter left the original list alone')
            m = [r for r in m if keepf(r)]
            s = s2
        elif o == 'selfmerge':
            sel = sorted(set(i % n for i in op['idx']))
            a, b = s.filter_index(np.array(sel, dtype='int64')), s.filter_index(np.array(sel, dtype='int64'), keep=False)
            s = SCPList.merge([a, b])
            m = [m[i] for i in sel] + [m[i] for i in range(n) if i not in sel]
        elif o == 'saveload':
            s.save(ctx.path('h.scp'))
            s = SCPList.load(ctx.path('h.scp'))
        eqlist(view(s), m, 'after %s' % o)
        for i, r in enumerate(m):
            eq(int(s.get_index(r[0])), [x[0] for x in m].index(r[0]) if o == 'x' else max(j for j, x in enumerate(m) if x[0] == r[0]), 'index after %s' % o)
