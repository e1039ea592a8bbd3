"""P06: utterance-attribute tables keep rows intact under every operation."""
from pbt.core import *
from hyperion.utils.utt2info import Utt2Info
from hyperion.utils import list_utils as lu

RULE = 'at least two rows and, for histories, at least two operations'
info_st = st.sampled_from(['spk1', 'spk2', 'm', 'f', '3', '07', 'x-y', 'A', 'NA', 'nan', 'null'])


@st.composite
def rows_st(draw, min_size=1, max_size=8):
    keys = draw(keys_st(min_size, max_size))
    nf = draw(st.integers(1, 3))
    return [[k] + draw(st.lists(info_st, min_size=nf, max_size=nf)) for k in keys]


def build(rows):
    info = [r[1:] for r in rows]
    if len(rows[0]) == 2:
        info = [r[0] for r in info]
    return Utt2Info.create([r[0] for r in rows], info)


def view(t):
    nf = t.num_info_fields
    out = []
    for i in range(len(t)):
        k, v = t[i]
        out.append([str(k)] + ([str(v)] if nf == 1 else [str(x) for x in v]))
    return out


def check(t, m, what):
    eqlist(view(t), m, what)
    eqlist([str(k) for k in t.key], [r[0] for r in m], what + ': keys')
    eq(len(t), len(m), what + ': len')
    if m:
        nf = len(m[0]) - 1
        inf = np.asarray(t.info)
        if nf == 1:
            eqlist([str(x) for x in inf], [r[1] for r in m], what + ': info')
        else:
            eq(inf.shape, (len(m), nf), what + ': info shape')
            eqlist([[str(y) for y in x] for x in inf], [r[1:] for r in m], what + ': info')
    for i, r in enumerate(m):
        require(r[0] in t, '%s: %s not in the table', what, r[0])
        eq(int(t.get_index(r[0])), i, what + ': position of ' + r[0])
        v = t[r[0]]
        eqlist([str(v)] if len(r) == 2 else [str(x) for x in v], r[1:], what + ': attributes of ' + r[0])
    require('no_such_key' not in t, '%s: non-member found', what)


@sub('P06', fd(rows=rows_st(), sep=st.sampled_from([' ', '\t', ','])), quick=400, nontrivial=lambda c: len(c['rows']) > 1)
def save_load(c, ctx):
    """save -> load reproduces the table for any number of attributes and any separator"""
    m = c['rows']
    t = build(m)
    check(t, m, 'created')
    t.save(ctx.path('t.txt'), sep=c['sep'])
    l = Utt2Info.load(ctx.path('t.txt'), sep=c['sep'], dtype={i: str for i in range(len(m[0]))})
    check(l, m, 'loaded')
    require(bool(l == t) and not bool(l != t), 'loaded table compares different')
    if len(m[0]) == 2:
        check(Utt2Info.load(ctx.path('t.txt'), sep=c['sep']), m, 'loaded with default types')


@sub('P06', fd(rows=rows_st(), what=st.sampled_from(['same', 'key', 'info', 'len', 'order']), at=st.integers(0, 9), f=st.integers(0, 2)), quick=250,
     nontrivial=lambda c: c['what'] != 'same')
def equality(c, ctx):
    """tables compare equal exactly when all rows are equal"""
    a = [list(r) for r in c['rows']]
    b = [list(r) for r in a]
    i = c['at'] % len(a)
    if c['what'] == 'key':
        b[i][0] += 'q'
    elif c['what'] == 'info':
        b[i][1 + c['f'] % (len(a[0]) - 1)] += 'q'
    elif c['what'] == 'len':
        b = b + [[x + '_z' for x in b[i]]]
    elif c['what'] == 'order':
        b = b[::-1]
    A, B = build(a), build(b)
    eq(bool(A == B), a == b, 'a == b')
    eq(bool(B == A), a == b, 'b == a')
    eq(bool(A != B), a != b, 'a != b')
    E = A.filter_index(np.array([], dtype='int64'))
    require(bool(E == B.filter_index(np.array([], dtype='int64'))) and not bool(E == A), 'comparison of empty tables')


op_st = st.one_of(
    fd(op='sort', field=st.integers(0, 3)), fd(op='shuffle', seed=st.integers(0, 99), how=st.sampled_from(['seed', 'rng'])),
    fd(op='splitmerge', n=st.integers(1, 5), field=st.integers(0, 3)), fd(op='part', i=st.integers(1, 4), n=st.integers(1, 4), field=st.integers(0, 3)),
    fd(op='filter', idx=st.lists(st.integers(0, 9), max_size=5), keep=st.booleans()),
    fd(op='filter_info', idx=st.lists(st.integers(0, 9), max_size=4), keep=st.booleans(), field=st.integers(1, 3)),
    fd(op='filter_index', idx=st.lists(st.integers(0, 9), max_size=5), keep=st.booleans()), fd(op='saveload'), fd(op='copy'))


@sub('P06', fd(rows=rows_st(), ops=st.lists(op_st, min_size=1, max_size=6)), quick=600, nontrivial=lambda c: len(c['rows']) > 1 and len(c['ops']) > 1)
def histories(c, ctx):
    """random sequences of operations against a list-of-rows model, checked after every step"""
    m = [list(r) for r in c['rows']]
    t = build(m)
    nf = len(m[0]) - 1
    for op in c['ops']:
        o = op['op']
        n = len(m)
        if n == 0:
            break
        ctx.label(o)
        before = m
        if o == 'sort':
            f = min(op['field'], nf)
            t.sort(f)
            v = view(t)
            eqlist([r[f] for r in v], sorted(r[f] for r in m), 'sorted column')
            eqlist(sorted(v), sorted(m), 'rows after sorting')
            m = v
        elif o == 'shuffle':
            idx = t.shuffle(seed=op['seed']) if op['how'] == 'seed' else t.shuffle(rng=rng(op['seed']))
            eqlist(sorted(int(i) for i in idx), list(range(n)), 'shuffle index')
            m = [m[i] for i in idx]
        elif o in ('splitmerge', 'part'):
            f = min(op['field'], nf)
            N = min(op['n'], len(set(r[f] for r in m)))
            parts = [t.split(i, N, group_by_field=f) for i in range(1, N + 1)]
            vs = [view(p) for p in parts]
            eqlist(sorted(r for v in vs for r in v), sorted(m), 'rows covered by the parts')
            if f == 0:
                eqlist([r for v in vs for r in v], m, 'order of the parts')
            else:
                gs = [set(r[f] for r in v) for v in vs]
                for a in range(N):
                    for b in range(a):
                        require(not (gs[a] & gs[b]), 'groups shared by two parts')
            if o == 'part':
                t, m = parts[min(op['i'], N) - 1], vs[min(op['i'], N) - 1]
            else:
                t = Utt2Info.merge(parts)
                m = [r for v in vs for r in v]
        elif o == 'filter':
            sel = [m[i][0] for i in dict.fromkeys(x % n for x in op['idx'])]
            t2 = t.filter(sel, keep=op['keep'])
            check(t, before, 'original after filter')
            want = [r for r in m if (r[0] in sel) == op['keep']]
            v = view(t2)
            eqlist(sorted(v), sorted(want), 'rows kept by filter')
            t, m = t2, v
        elif o == 'filter_info':
            f = min(op['field'], nf)
            sel = list(dict.fromkeys(m[i % n][f] for i in op['idx']))
            t = t.filter_info(sel, keep=op['keep']) if f == 1 and len(sel) % 2 else t.filter_info(sel, field=f, keep=op['keep'])
            m = [r for r in m if (r[f] in sel) == op['keep']]
            if m:
                raises(lambda: t.filter_info(np.array(['no_such_value']), field=f), 'filter by a value that is not there')
        elif o == 'filter_index':
            sel = list(dict.fromkeys(x % n for x in op['idx']))
            t = t.filter_index(np.array(sel, dtype='int64'), keep=op['keep'])
            m = [m[i] for i in sel] if op['keep'] else [m[i] for i in range(n) if i not in sel]
        elif o == 'saveload':
            t.save(ctx.path('h.txt'))
            t = Utt2Info.load(ctx.path('h.txt'), dtype={i: str for i in range(nf + 1)})
        elif o == 'copy':
            u = t.copy()
            u.shuffle(seed=5)
        check(t, m, 'after ' + o)


elem_st = st.one_of(st.lists(st.sampled_from(['a', 'b', 'b1', 'c', 'zz', 'A', '07', '7']), max_size=9), st.lists(st.integers(-4, 5), max_size=9))


@sub('P06', fd(a=elem_st, b=elem_st, arr=st.booleans(), reverse=st.booleans()), quick=400, nontrivial=lambda c: len(c['a']) > 1 and len(c['b']) > 1)
def list_helpers(c, ctx):
    """membership, sorting and intersection of plain lists return the right elements and positions"""
    a, b = c['a'], c['b']
    if a and b and type(a[0]) != type(b[0]):
        b = [type(a[0])(len(str(x))) for x in b]
    mk = (lambda x: np.array(x, dtype=None if x else (np.array(a or b).dtype))) if c['arr'] else list
    f, loc = lu.ismember(mk(a), mk(b))
    eqlist([bool(x) for x in f], [x in b for x in a], 'membership')
    for x, g, i in zip(a, f, loc):
        if g:
            eq(int(i), b.index(x), 'position of %r' % x)
        else:
            require(i < 0, 'position %s of the non-member %r', i, x)
    if a:
        want = sorted(a, reverse=c['reverse'])
        s = lu.sort(mk(a), reverse=c['reverse'])
        require(isinstance(s, np.ndarray), 'sort gives %s', type(s))
        eqlist(s, want, 'sort')
        s, i = lu.sort(mk(a), reverse=c['reverse'], return_index=True)
        eqlist(s, want, 'sort with positions')
        eqlist([a[int(j)] for j in i], want, 'positions of the sorted elements')
        eqlist(sorted(int(j) for j in i), list(range(len(a))), 'positions of the sorted elements')
        eqlist(lu.sort(mk(a)), sorted(a), 'sort by default')
        r = lu.list2ndarray(mk(a))
        require(isinstance(r, np.ndarray), 'list2ndarray gives %s', type(r))
        eqlist(r, a, 'list2ndarray')
    if a and b:
        ua, ub = list(dict.fromkeys(a)), list(dict.fromkeys(b))
        for x, y, u in ((a, b, False), (ua, ub, True)):
            want = sorted(set(x) & set(y))
            eqlist(lu.intersect(mk(x), mk(y), assume_unique=u), want, 'intersection')
            eqlist(lu.intersect(mk(x), mk(y)), want, 'intersection')
            i, ia, ib = lu.intersect(mk(x), mk(y), assume_unique=u, return_index=True)
            eqlist(i, want, 'intersection with positions')
            eqlist([x[int(j)] for j in ia], want, 'positions in the first list')
            eqlist([y[int(j)] for j in ib], want, 'positions in the second list')
