"""P10: cross-validation folds and train/validation/evaluation lists are partitions."""
from pbt.core import *
from hyperion.utils.fold_list import FoldList
from hyperion.utils.train_val_eval_list import TrainValEvalList

RULE = 'more segments than folds, and groups, classes or a mask given'


@st.composite
def base_st(draw):
    nc = draw(st.integers(1, 3))
    segs, k = [], 0
    for c in range(nc):
        for g in range(draw(st.integers(1, 7))):
            for _ in range(draw(st.integers(1, 4))):
                segs.append([draw(st.sampled_from(['s%d', 'a-%03d', '%d'])) % (k * 7 % 1000), 'g%d_%d' % (c, g), 'c%d' % c])
                k += 1
    if len(set(s[0] for s in segs)) < len(segs):
        for i, s in enumerate(segs):
            s[0] = 'u%d' % i
    order = draw(st.permutations(list(range(len(segs)))))
    segs = [segs[i] for i in order]
    return dict(segs=segs, group=draw(st.booleans()), bal=draw(st.booleans()), shuffle=draw(st.booleans()), seed=draw(st.integers(0, 99)),
                mask=draw(st.one_of(st.none(), st.lists(st.booleans(), min_size=len(segs), max_size=len(segs)))), lists=draw(st.booleans()),
                sep=draw(st.sampled_from([' ', ',', '\t', ':'])))


def args(c):
    conv = (lambda x: list(x)) if c['lists'] else np.array
    key = conv([s[0] for s in c['segs']])
    kw = dict(shuffle=c['shuffle'], seed=c['seed'])
    if c['group']:
        kw['group_by_key'] = conv([s[1] for s in c['segs']])
    if c['bal']:
        kw['balance_by_key'] = conv([s[2] for s in c['segs']])
    if c['mask'] is not None:
        kw['mask'] = np.array(c['mask'], dtype=bool)
    return key, kw


def units(c):
    """class -> set of units (groups or segments) that are not masked out"""
    out = {}
    for i, s in enumerate(c['segs']):
        if c['mask'] is None or c['mask'][i]:
            out.setdefault(s[2] if c['bal'] else '', set()).add(s[1] if c['group'] else s[0])
    return out


def nt(c):
    return len(c['segs']) > c.get('n', 2) and (c['group'] or c['bal'] or c['mask'] is not None)


@sub('P10', st.tuples(base_st(), st.integers(1, 6)).map(lambda t: dict(t[0], n=t[1])), quick=900, nontrivial=nt)
def folds(c, ctx):
    """every segment is tested in exactly one fold and trained on in all others; groups stay together; classes are even"""
    u = units(c)
    if not u:
        return
    n = min(c['n'], max(len(v) for v in u.values()))
    key, kw = args(c)
    f = FoldList.create(key, n, **kw)
    keys = [s[0] for s in c['segs']]
    valid = [k for i, k in enumerate(keys) if c['mask'] is None or c['mask'][i]]
    eq((int(f.num_folds), len(f)), (n, n), 'number of folds')
    eqlist([str(k) for k in f.key], keys, 'keys')
    test_of = {}
    for i in range(n):
        tr, te = f.get_fold(i)
        tr2, te2 = f[i]
        eqlist(tr, tr2, 'train keys by index')
        eqlist(te, te2, 'test keys by index')
        tr, te = [str(k) for k in tr], [str(k) for k in te]
        eqlist(sorted(tr + te), sorted(valid), 'train + test of fold %d' % i)
        eqlist([k for k in keys if k in set(te)], te, 'order of the test keys')
        for k in te:
            require(k not in test_of, '%s tested in folds %s and %s', k, test_of.get(k), i)
            test_of[k] = i
        if c['group']:
            gt = set(s[1] for s in c['segs'] if s[0] in set(te))
            gr = set(s[1] for s in c['segs'] if s[0] in set(tr))
            require(not gt & gr, 'groups %s on both sides of fold %d', gt & gr, i)
    eqlist(sorted(test_of), sorted(valid), 'segments tested')
    for cl, v in u.items():
        cnt = [0] * n
        for x in v:
            s = next(s for s in c['segs'] if (s[1] if c['group'] else s[0]) == x and s[0] in test_of)
            cnt[test_of[s[0]]] += 1
        require(max(cnt) - min(cnt) <= 1, 'class %s: %s units per fold', cl, cnt)
    g = FoldList.create(*args(c)[:1], n, **args(c)[1])
    eqlist(g.fold, f.fold, 'folds with the same seed')
    f.save(ctx.path('f.txt'))
    l = FoldList.load(ctx.path('f.txt'))
    eqlist([str(k) for k in l.key], keys, 'loaded keys')
    eqlist(l.fold, f.fold, 'loaded folds')
    if c['mask'] is None:
        for i in range(n):
            for a, b in zip(f.get_fold(i), l.get_fold(i)):
                eqlist(a, b, 'loaded fold %d' % i)
    f.save(ctx.path('f2.txt'), sep=c['sep'])
    l = FoldList.load(ctx.path('f2.txt'), sep=c['sep'])
    eqlist([str(k) for k in l.key], keys, 'keys loaded with another separator')
    eqlist(l.fold, f.fold, 'folds loaded with another separator')
    perm = [keys[i] for i in rng(c['seed']).permutation(len(keys))]
    h = f.copy()
    raises(lambda: h.align_with_key(np.array(perm + ['no_such'])), 'aligning with an unknown segment')
    h.align_with_key(np.array(['no_such'] + perm), raise_missing=False)
    eqlist([str(k) for k in h.key], keys, 'keys after the alignment that was not possible')
    eqlist(h.fold, f.fold, 'folds after the alignment that was not possible')
    h = f.copy()
    h.align_with_key(np.array(perm))
    eqlist([str(k) for k in h.key], perm, 'aligned keys')
    for i in range(n):
        eqlist(sorted(h.get_fold(i)[1]), sorted(f.get_fold(i)[1]), 'test part of fold %d after aligning' % i)
        eqlist(sorted(h.get_fold(i)[0]), sorted(f.get_fold(i)[0]), 'train part of fold %d after aligning' % i)
    eqlist([str(k) for k in f.key], keys, 'keys of the original after aligning its copy')


@sub('P10', st.tuples(base_st(), st.sampled_from([[0.5], [0.8], [0.5, 0.25], [0.6, 0.2], [0.1, 0.8], [0.25, 0.25, 0.25]]), st.sampled_from(['default', 'named', 'part 1'])).map(
    lambda t: dict(t[0], prop=t[1], names=t[2])), quick=900, nontrivial=nt)
def parts(c, ctx):
    """parts are disjoint, cover everything, follow the proportions per class and survive saving"""
    u = units(c)
    if not u:
        return
    P = len(c['prop']) + 1
    cum = [0.] + list(np.cumsum(c['prop'])) + [1.]
    names = None
    if c['names'] == 'named':
        names = ['p%d' % i for i in range(P)]
    elif c['names'] == 'part 1':
        names = ['part %d' % i for i in range(P)]
    if names is None and P > 3:
        names = ['a', 'b', 'c', 'd']
    # skip the cases where a part before the last one in use gets nothing (the list rejects these)
    big = [any(round(cum[j + 1] * len(v)) > round(cum[j] * len(v)) for v in u.values()) for j in range(P)]
    if not all(big):
        return
    key, kw = args(c)
    t = TrainValEvalList.create(key, c['prop'], part_names=names, **kw)
    keys = [s[0] for s in c['segs']]
    valid = [k for i, k in enumerate(keys) if c['mask'] is None or c['mask'][i]]
    nm = names or {2: ['train', 'eval'], 3: ['train', 'val', 'eval']}[P]
    eq(len(t), P, 'number of parts')
    eqlist(list(t.part_names), nm, 'part names')

    def of(t):
        out = {}
        for i in range(P):
            k = [str(x) for x in t.get_part(i)]
            eqlist([str(x) for x in t.get_part(nm[i])], k, 'part by name')
            eqlist([str(x) for x in t[i]], k, 'part by index')
            idx = np.asarray(t.get_part_idx(i))
            eqlist([keys[q] for q in np.nonzero(idx)[0]], k, 'order of the part')
            for x in k:
                require(x not in out, '%s in parts %s and %s', x, out.get(x), i)
                out[x] = i
        return out
    p = of(t)
    eqlist(sorted(p), sorted(valid), 'segments covered')
    if c['group']:
        g = {}
        for s in c['segs']:
            if s[0] in p:
                require(g.setdefault(s[1], p[s[0]]) == p[s[0]], 'group %s in two parts', s[1])
    for cl, v in u.items():
        cnt = [0] * P
        for x in v:
            s = next(s for s in c['segs'] if (s[1] if c['group'] else s[0]) == x and s[0] in p)
            cnt[p[s[0]]] += 1
        for j in range(P):
            require(abs(cnt[j] - (cum[j + 1] - cum[j]) * len(v)) <= 1 + 1e-9, 'class %s: %s units for proportions %s', cl, cnt, c['prop'])
    t2 = TrainValEvalList.create(args(c)[0], c['prop'], part_names=names, **args(c)[1])
    eqlist(t2.part, t.part, 'parts with the same seed')
    t.save(ctx.path('t.txt'))
    l = TrainValEvalList.load(ctx.path('t.txt'))
    eqlist([str(k) for k in l.key], keys, 'loaded keys')
    eqlist(l.part, t.part, 'loaded parts')
    eqlist(list(l.part_names), nm, 'loaded part names')
    if c['mask'] is None:
        eq(of(l), p, 'loaded assignment')
    perm = [keys[i] for i in rng(c['seed']).permutation(len(keys))]
    h = t.copy()
    h.align_with_key(np.array(perm))
    for i in range(P):
        eqlist(sorted(h.get_part(i)), sorted(t.get_part(i)), 'part %d after aligning' % i)
    raises(lambda: t.copy().align_with_key(np.array(perm + ['no_such'])), 'aligning with an unknown segment')
    h = t.copy()
    h.align_with_key(np.array(['no_such'] + perm), raise_missing=False)
    eqlist([str(k) for k in h.key], keys, 'keys after the alignment that was not possible')
    eqlist(h.part, t.part, 'parts after the alignment that was not possible')
    t.save(ctx.path('t2.txt'), sep=c['sep'])
    l = TrainValEvalList.load(ctx.path('t2.txt'), sep=c['sep'])
    eqlist([str(k) for k in l.key], keys, 'keys loaded with another separator')
    eqlist(l.part, t.part, 'parts loaded with another separator')
    eqlist(list(l.part_names), nm, 'part names loaded with another separator')
    TrainValEvalList(keys, t.part).save(ctx.path('t3.txt'), sep=c['sep'])
    l = TrainValEvalList.load(ctx.path('t3.txt'), sep=c['sep'])
    eqlist([str(k) for k in l.key], keys, 'keys loaded without part names')
    eqlist(l.part, t.part, 'parts loaded without part names')
    require(l.part_names is None, 'part names %s', l.part_names)


@sub('P10', fd(n=st.integers(9, 30), k=st.integers(2, 3), group=st.booleans(), bal=st.booleans(), seed=st.integers(0, 999), lst=st.sampled_from(['folds', 'parts'])),
     quick=200, nontrivial=lambda c: c['group'] or c['bal'])
def shuffling(c, ctx):
    """the assignment follows the order of the list unless shuffling is requested, and then depends on the seed"""
    n = c['n']
    key = np.array(['s%03d' % i for i in range(n)])
    kw = {}
    if c['bal']:
        kw['balance_by_key'] = np.array(['c0'] * n)
    if c['group']:
        kw['group_by_key'] = np.array(['g%03d' % i for i in range(n)])

    def mk(**k2):
        k2.update(kw)
        if c['lst'] == 'folds':
            return [int(x) for x in FoldList.create(key, c['k'], **k2).fold]
        return [int(x) for x in TrainValEvalList.create(key, [0.5, 0.25][:c['k'] - 1], **k2).part]
    plain = mk(shuffle=False)
    eqlist(plain, sorted(plain), 'assignment without shuffling')
    eqlist(mk(shuffle=False, seed=c['seed']), plain, 'assignment without shuffling')
    got = [mk(shuffle=True, seed=c['seed'] + i) for i in range(8)]
    require(len(set(map(tuple, got))) > 1, 'the same assignment with 8 seeds')
    require(any(g != plain for g in got), 'shuffling does nothing')
    if c['lst'] == 'folds':
        eqlist(mk(), plain, 'default assignment')
    for g in got:
        eqlist(sorted(g), plain, 'sizes of the folds')
