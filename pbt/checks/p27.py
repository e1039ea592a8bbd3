"""P27: vector, class and trial readers return the listed vectors with their classes and trials."""
import argparse

from pbt.core import *
from hyperion.io import DataWriterFactory, HypDataWriter
from hyperion.transforms import TransformList, LNorm
from hyperion.utils import Utt2Info
from hyperion.utils.trial_ndx import TrialNdx
from hyperion.helpers import VectorReader, VectorClassReader, TrialDataReader, ClassifTrialDataReader
from hyperion.helpers.multi_test_trial_data_reader import MultiTestTrialDataReader

RULE = 'at least two classes of different size, more than one part, or a list in an order different from that of the archive'


def vectors(n, r, d):
    x = r.randn(n, d)
    x[:, 0] = np.arange(n) + 1      # identifies the vector
    return x.astype('float32')


def write(ctx, names, x, r, fmt):
    """archive in some other order; returns the read specifier"""
    o = r.permutation(len(names))
    ext = 'h5' if fmt == 'h5' else 'ark'
    with DataWriterFactory.create('%s,scp:%s,%s' % (ext, ctx.path('v.' + ext), ctx.path('v.scp'))) as w:
        w.write([names[i] for i in o], [x[i] for i in o])
    return {'h5': 'h5:' + ctx.path('v.h5'), 'scp': 'scp:' + ctx.path('v.scp'), 'ark': 'scp:' + ctx.path('v.scp')}[fmt]


def preproc(name, d):
    p = None
    if name == 'lnorm':
        p = TransformList(LNorm(mu=np.linspace(-1, 1, d), T=np.eye(d)))
    return p


def pre(x, name, d):
    x = np.asarray(x, dtype=float)
    if name == 'lnorm':
        x = x - np.linspace(-1, 1, d)
        x = x / np.sqrt((x ** 2).sum(axis=-1, keepdims=True)) * np.sqrt(d)
    return x


def put(path, rows, sep=' '):
    with open(path, 'w') as f:
        for row in rows:
            f.write(sep.join(row) + '\n')
    return path


fmt_st = st.sampled_from(['h5', 'ark', 'scp'])
vec_st = fd(seed=seeds, n=st.integers(1, 14), d=st.integers(1, 4), keep=st.integers(1, 14), fmt=fmt_st, pre=st.sampled_from([None, None, 'lnorm']), sep=st.sampled_from([' ', ' ', ',', '=']))


@sub('P27', vec_st, quick=100, nontrivial=lambda k: min(k['n'], k['keep']) > 2)
def vector_reader(k, ctx):
    r = rng(k['seed'])
    n, d = k['n'], k['d']
    names = ['utt%02d' % i for i in range(n)]
    x = vectors(n, r, d)
    spec = write(ctx, names, x, r, k['fmt'])
    sel = r.permutation(n)[:k['keep']]
    lst = put(ctx.path('list'), [[names[i], 'any/path.wav'] for i in sel], k['sep'])
    opts = VectorReader.filter_args(vlist_sep=k['sep'], other=3)
    eq(opts, dict(vlist_sep=k['sep']), 'filter_args')
    rd = VectorReader(spec, lst, preproc=preproc(k['pre'], d), **opts)
    got = rd.read()
    same(got, pre(x[sel], k['pre'], d), 'vectors', rtol=1e-5, atol=1e-6)


def sizes_case(k):
    """list of (utt, class) with chosen class sizes, shuffled or grouped"""
    r = rng(k['seed'])
    cls = ['c%d' % c for c in r.permutation(len(k['sizes']))]
    pairs = [c for c, m in zip(cls, k['sizes']) for _ in range(m)]
    if not k['grouped']:
        r.shuffle(pairs)
    names = ['u%02d' % i for i in range(len(pairs))]
    return r, names, pairs, sorted(set(pairs))


cls_st = fd(seed=seeds, sizes=st.lists(st.integers(1, 9), min_size=1, max_size=5), d=st.integers(1, 3), fmt=fmt_st, grouped=st.booleans(), pre=st.sampled_from([None, None, 'lnorm']),
            min_spc=st.sampled_from([1, 1, 2, 3]), max_spc=st.sampled_from([None, None, 2, 3, 5]), prune=st.sampled_from(['random', 'first', 'last']),
            cmin=st.sampled_from([1, 1, 2]), cmax=st.sampled_from([None, None, 2, 3, 4]), cmode=st.sampled_from(['sequential', 'random', 'random_1part']), overlap=st.integers(0, 2),
            once=st.booleans(), vseed=st.integers(0, 3), mapped=st.booleans(), three=st.booleans(), cli=st.booleans(), sep=st.sampled_from([' ', ' ', ',', '=']), longer=st.integers(0, 3))


def options(k):
    o = dict(min_spc=k['min_spc'], max_spc=k['max_spc'], spc_pruning_mode=k['prune'], csplit_min_spc=k['cmin'], csplit_max_spc=k['cmax'], csplit_mode=k['cmode'],
             csplit_overlap=min(k['overlap'], k['cmax'] - 1) if k['cmax'] else 0, csplit_once=k['once'], vcr_seed=k['vseed'])
    if k['sep'] != ' ':
        o['vlist_sep'] = k['sep']
    return o


def parse(o, prefix):
    """the same options through the command line"""
    p = argparse.ArgumentParser()
    VectorClassReader.add_argparse_args(p, prefix)
    a = []
    q = '' if prefix is None else prefix + '-'
    for name, v in o.items():
        if name == 'csplit_once':
            if not v:
                a.append('--' + q + 'no-csplit-once')
        elif v is not None:
            a += ['--' + q + name.replace('_', '-'), str(v)]
    return VectorClassReader.filter_args(prefix, junk=1, **vars(p.parse_args(a)))


def check_pruned(kept, full, o, what):
    """kept / full: dict class -> list of vector numbers, in list order"""
    for c, idx in full.items():
        m = len(idx)
        if m < o['min_spc']:
            require(c not in kept, '%s: class %s has less than the minimum', what, c)
            continue
        require(c in kept, '%s: class %s is missing', what, c)
        got = kept[c]
        if o['max_spc'] is None or m <= o['max_spc']:
            eq(got, idx, what + ': vectors of ' + c)
        else:
            eq(len(got), o['max_spc'], what + ': size of ' + c)
            if o['spc_pruning_mode'] == 'first':
                eq(got, idx[m - o['max_spc']:], what + ': first ones pruned from ' + c)
            elif o['spc_pruning_mode'] == 'last':
                eq(got, idx[:o['max_spc']], what + ': last ones pruned from ' + c)
            else:
                eq(got, [i for i in idx if i in got], what + ': random pruning of ' + c)
    eq(sorted(kept), sorted(c for c, i in full.items() if len(i) >= o['min_spc']), what + ': classes')


@sub('P27', cls_st, quick=350, nontrivial=lambda k: len(set(k['sizes'])) > 1)
def class_reader(k, ctx):
    r, names, pairs, classes = sizes_case(k)
    d = k['d']
    n = len(names)
    x = vectors(n, r, d)
    px = pre(x, k['pre'], d)
    spec = write(ctx, names, x, r, k['fmt'])
    lst = put(ctx.path('u2c'), zip(names, pairs), k['sep'])
    o = options(k)
    full = {c: [i for i in range(n) if pairs[i] == c] for c in classes}
    # the limits of the list; splitting classes makes classes with new names
    split = o['csplit_max_spc'] is not None
    survive = {c: i for c, i in full.items() if len(i) >= o['min_spc']}
    if not survive:
        ctx.label('all classes pruned')
        return
    left = {c: min(len(i), o['max_spc'] or len(i)) for c, i in survive.items()}
    does_split = split and max(left.values()) > o['csplit_max_spc']
    if split and not does_split and all(v < o['csplit_min_spc'] for v in left.values()):
        ctx.label('all classes pruned')
        return
    mapped = k['mapped'] and not (does_split and o['csplit_mode'] != 'random_1part')
    args = dict(o)
    if k['cli']:
        args = parse(o, ['vcr', None][k['seed'] % 2])
        ctx.label('command line')
    if mapped:
        num = r.permutation(len(classes))
        args['class2int_file'] = put(ctx.path('c2i'), [[c, str(i)] for c, i in zip(classes, num)])
        ctx.label('mapped')
    mk = lambda: VectorClassReader(spec, lst, preproc(k['pre'], d), **args)
    rd = mk()
    ident = {tuple(np.round(v, 4)): i for i, v in enumerate(px)} if len(set(tuple(np.round(v, 4)) for v in px)) == n else None
    reads = []
    for rep in range(2):
        y, ids = rd.read()
        require(isinstance(y, np.ndarray) and isinstance(ids, np.ndarray), 'vectors read as %s, classes as %s', type(y), type(ids))
        eq(y.shape, (len(ids), d), 'shape')
        if ident is None:
            return
        num = []
        for v in y:
            j = np.argmin(np.abs(px - v).max(axis=1))
            same(v, px[j], 'vector', rtol=1e-5, atol=1e-5)
            num.append(int(j))
        reads.append((num, ids.tolist()))
        check_read(k, o, num, ids.tolist(), pairs, full, left, does_split, split, mapped, args, rd, classes, ctx)
    if o['csplit_once'] or not does_split:
        eq(reads[1], reads[0], 'second read')
    elif o['csplit_mode'] != 'sequential':
        # the classes are split again at each read: the choice of one read does not bind those after
        seen = set(frozenset(reads[i][0] if o['csplit_mode'] == 'random_1part' else zip(*reads[i])) for i in range(2))
        for rep in range(18):
            y, ids = rd.read()
            num = [int(np.argmin(np.abs(px - v).max(axis=1))) for v in np.asarray(y)]
            seen.add(frozenset(num if o['csplit_mode'] == 'random_1part' else zip(num, np.asarray(ids).tolist())))
            check_read(k, o, num, np.asarray(ids).tolist(), pairs, full, left, does_split, split, mapped, args, rd, classes, ctx)
        require(len(seen) > 1, 'twenty reads drew the same vectors in the same classes, out of more')
        if o['csplit_mode'] == 'random_1part':
            for c, v in left.items():
                if v > o['csplit_max_spc']:
                    got = set(i for s in seen for i in s if pairs[i] == c)
                    require(len(got) > o['csplit_max_spc'], 'twenty reads drew the same vectors of class %s, out of %d', c, v)
        ctx.label('read again')
    rd2 = mk()
    for rep in range(2):
        y, ids = rd2.read()
        num = [int(np.argmin(np.abs(px - v).max(axis=1))) for v in np.asarray(y)]
        eq((num, np.asarray(ids).tolist()), reads[rep], 'reader with the same seed')
    # counts
    if o['csplit_once'] or not does_split:
        cnt = np.unique(reads[0][1], return_counts=True)[1]
        if not mapped:
            eqlist(rd.samples_per_class, cnt, 'samples_per_class')
        eq(int(rd.max_samples_per_class), int(cnt.max()), 'max_samples_per_class')
    if k['three']:
        rd3 = mk()
        y3, w3 = rd3.read(return_3d=True) if not k['longer'] else rd3.read(return_3d=True, max_length=max(reads[0][1].count(c) for c in set(reads[0][1])) + k['longer'] - 1)
        num, ids = reads[0]
        C = max(ids) + 1
        L = max(ids.count(c) for c in set(ids)) + max(k['longer'] - 1, 0)
        eq(np.shape(y3), (C, L, d), '3d shape')
        for c in range(C):
            m = ids.count(c)
            same(y3[c, :m], px[[i for i, q in zip(num, ids) if q == c]].reshape(m, d), '3d class %d' % c, rtol=1e-5, atol=1e-5)
            same(y3[c, m:], np.zeros((L - m, d)), '3d padding')
            eqlist(w3[c], [1.] * m + [0.] * (L - m), '3d weights')
        ctx.label('3d')


def check_read(k, o, num, ids, pairs, full, left, does_split, split, mapped, args, rd, classes, ctx):
    groups = {}
    for i, c in zip(num, ids):
        groups.setdefault(c, []).append(i)
    for c, g in groups.items():
        require(len(set(pairs[i] for i in g)) == 1, 'class %d mixes vectors of %s', c, set(pairs[i] for i in g))
    if not does_split or o['csplit_mode'] == 'random_1part':
        kept = {}
        for i in num:
            kept.setdefault(pairs[i], []).append(i)
        eq(num, sorted(num), 'order of the list')
        names = sorted(kept)
        # labels
        if mapped:
            m = dict((l.split()[0], int(l.split()[1])) for l in open(args['class2int_file']))
            eqlist(rd.class_names, sorted(m, key=m.get), 'class_names')
        else:
            m = {c: i for i, c in enumerate(names)}
            if not (split and not o['csplit_once']):
                eqlist(rd.class_names, names, 'class_names')
        eq(ids, [m[pairs[i]] for i in num], 'labels')
        if not split:
            check_pruned(kept, full, o, 'pruning')
            if o['max_spc'] is not None and max(map(len, full.values())) > o['max_spc']:
                ctx.label('pruned ' + o['spc_pruning_mode'])
        else:
            lim = o['csplit_max_spc'] if o['csplit_mode'] == 'random_1part' else 10 ** 6
            for c, v in left.items():
                if v < o['csplit_min_spc']:
                    require(c not in kept, 'class %s has less than the split minimum', c)
                else:
                    eq(len(kept.get(c, [])), min(v, lim), 'size of class %s' % c)
                    require(len(set(kept[c])) == len(kept[c]), 'repeated vector')
            if o['csplit_mode'] == 'random_1part' and does_split:
                ctx.label('random_1part')
        return
    ctx.label('split ' + o['csplit_mode'])
    M, shift = o['csplit_max_spc'], o['csplit_max_spc'] - o['csplit_overlap']
    eq(sorted(groups), list(range(len(groups))), 'sub-class numbers')
    bycls = {}
    for c, g in groups.items():
        bycls.setdefault(pairs[g[0]], []).append(g)
        require(o['csplit_min_spc'] <= len(g) <= M, 'sub-class with %d vectors', len(g))
        require(len(set(g)) == len(g), 'vector repeated in a sub-class')
    for c, v in left.items():
        gs = sorted(bycls.get(c, []))
        if v <= M:
            if v < o['csplit_min_spc']:
                eq(gs, [], 'class %s is too small' % c)
            else:
                eq([len(g) for g in gs], [v], 'class %s is not split' % c)
            continue
        K = -(-(v - M) // shift) + 1
        if o['csplit_mode'] == 'random':
            eq([len(g) for g in gs], [M] * K, 'sub-classes of %s' % c)
        else:
            want = [list(range(j * shift, min(j * shift + M, v))) for j in range(K)]
            want = [w for w in want if len(w) >= o['csplit_min_spc']]
            eq([len(g) for g in gs], [len(w) for w in want], 'sub-classes of %s' % c)
            if o['csplit_min_spc'] == 1 or len(want) == K:
                pool = sorted(set(i for g in gs for i in g))
                eq(len(pool), v, 'vectors of %s in its sub-classes' % c)
                eq(gs, [[pool[i] for i in w] for w in want], 'consecutive sub-classes of %s' % c)
                if o['max_spc'] is None or len(full[c]) <= o['max_spc']:
                    eq(pool, full[c], 'vectors of %s' % c)


trial_st = fd(seed=seeds, nm=st.integers(1, 5), ns=st.integers(1, 6), per=st.lists(st.integers(1, 3), min_size=5, max_size=5), extra=st.integers(0, 2), d=st.integers(1, 3), fmt=fmt_st,
              mp=st.integers(1, 3), sp=st.integers(1, 3), eval_set=st.sampled_from(['enroll-test', 'enroll-test', 'enroll-coh', 'coh-test', 'coh-coh']), nc=st.integers(1, 4),
              dens=st.sampled_from([.5, 1.]), pre=st.sampled_from([None, 'lnorm']), ext=st.sampled_from(['.txt', '.h5']), multi=st.booleans(), cli=st.booleans(), sep=st.sampled_from([' ', ' ', ',', '=']))


def trial_case(k, ctx):
    r = rng(k['seed'])
    models = ['m%d' % i for i in r.permutation(k['nm'])]
    segs = ['s%d' % i for i in r.permutation(k['ns'])]
    enroll = [('e%s-%d' % (m, j), m) for m, p in zip(models, k['per']) for j in range(p)]
    enroll += [('ex%d' % i, 'zz%d' % i) for i in range(k['extra'])]
    r.shuffle(enroll)
    enroll = [tuple(str(v) for v in e) for e in enroll]
    coh = ['coh%d' % i for i in r.permutation(k['nc'])]
    sub_ = [('%s-sub%d' % (s, j), s) for s in segs for j in range(r.randint(1, 4))]
    names = [e[0] for e in enroll] + segs + coh + [s[0] for s in sub_]
    x = vectors(len(names), r, k['d'])
    val = dict(zip(names, x))
    spec = write(ctx, names, x, r, k['fmt'])
    mask = r.rand(len(models), len(segs)) < k['dens']
    for i in range(len(models)):
        mask[i, r.randint(len(segs))] = True
    for j in range(len(segs)):
        mask[r.randint(len(models)), j] = True
    nf = ctx.path('ndx' + k['ext'])
    TrialNdx(models, segs, mask).save(nf)
    trials = set((m, s) for i, m in enumerate(models) for j, s in enumerate(segs) if mask[i, j])
    return r, models, segs, enroll, coh, sub_, val, spec, nf, trials


def reader_args(cls, k, o, prefix=None):
    if not k['cli']:
        return o
    p = argparse.ArgumentParser()
    cls.add_argparse_args(p, prefix)
    q = '' if prefix is None else prefix + '-'
    nm = dict(model_idx='model-part-idx', num_model_parts='num-model-parts', seg_idx='seg-part-idx', num_seg_parts='num-seg-parts', eval_set='eval-set', v_field='v-field', tlist_sep='tlist-sep')
    a = []
    for n, v in o.items():
        a += ['--' + q + nm[n], str(v)]
    return cls.filter_args(prefix, junk=0, **vars(p.parse_args(a)))


@sub('P27', trial_st, quick=250, nontrivial=lambda k: k['mp'] > 1 or k['sp'] > 1)
def trial_reader(k, ctx):
    r, models, segs, enroll, coh, sub_, val, spec, nf, trials = trial_case(k, ctx)
    ev = k['eval_set']
    ctx.label(ev)
    d = k['d']
    # cohort segments: each one is its own model
    E = enroll if ev.startswith('enroll') else [(c, c) for c in coh]
    S = segs if ev.endswith('test') else list(coh)
    ef = put(ctx.path('enroll'), E, k['sep'])
    tf = put(ctx.path('test'), [(c, c) for c in coh], k['sep']) if ev.endswith('coh') else None
    multi = k['multi'] and ev.endswith('test')
    sf = put(ctx.path('sub2orig'), sub_, k['sep'])
    if ev == 'enroll-test':
        want = trials
    else:
        want = set((m, s) for m in (models if ev.startswith('enroll') else coh) for s in S)
    M = models if ev.startswith('enroll') else coh
    mp, sp = min(k['mp'], len(M)), min(k['sp'], len(S))
    if multi:
        ctx.label('multi')
    got_trials, got_models, got_segs = [], [], []
    nd = None if ev == 'coh-coh' else nf
    for i in range(1, mp + 1):
        for j in range(1, sp + 1):
            cls = MultiTestTrialDataReader if multi else TrialDataReader
            o = dict(model_idx=i, num_model_parts=mp, seg_idx=j, num_seg_parts=sp, eval_set=ev)
            if k['sep'] != ' ':
                o['tlist_sep'] = k['sep']
            o = reader_args(cls, k, o, ['x', None][k['seed'] % 2])
            if multi:
                rd = cls(spec, nd, ef, tf, sf, preproc(k['pre'], d), **o)
                xe, xt, en, ndx, orig = rd.read()
            else:
                rd = cls(spec, nd, ef, tf, preproc(k['pre'], d), **o)
                xe, xt, en, ndx = rd.read()
            ms, ss = [str(m) for m in ndx.model_set], [str(s) for s in ndx.seg_set]
            require(isinstance(xe, np.ndarray) and isinstance(xt, np.ndarray), 'vectors read as %s and %s', type(xe), type(xt))
            # enrollment side
            sel = [e for e in E if e[1] in ms]
            eqlist(en, [e[1] for e in sel], 'models of the enrollment vectors')
            same(xe, pre(np.array([val[e[0]] for e in sel]), k['pre'], d), 'enrollment vectors', rtol=1e-5, atol=1e-5)
            # test side
            if multi:
                sel = [s for s in sub_ if s[1] in ss]
                eqlist(orig, [s[1] for s in sel], 'original segments of the sub-segments')
                same(xt, pre(np.array([val[s[0]] for s in sel]), k['pre'], d), 'test vectors', rtol=1e-5, atol=1e-5)
            else:
                same(xt, pre(np.array([val[s] for s in ss]), k['pre'], d), 'test vectors', rtol=1e-5, atol=1e-5)
            eq(np.shape(ndx.trial_mask), (len(ms), len(ss)), 'trial mask')
            got_trials += [(m, s) for a, m in enumerate(ms) for b, s in enumerate(ss) if ndx.trial_mask[a, b]]
            got_models.append(ms)
            got_segs.append(ss)
    eq(len(got_trials), len(set(got_trials)), 'trials in several parts')
    eq(sorted(got_trials), sorted(want), 'trials of all the parts')
    eq(sorted(m for ms in got_models[::sp] for m in ms), sorted(M), 'models of all the parts')
    eq(sorted(s for ss in got_segs[:sp] for s in ss), sorted(S), 'segments of all the parts')
    for a in range(mp):
        for b in range(sp):
            eq(got_models[a * sp + b], got_models[a * sp], 'models of part %d' % a)
            eq(got_segs[a * sp + b], got_segs[b], 'segments of part %d' % b)


@sub('P27', fd(seed=seeds, nm=st.integers(1, 4), ns=st.integers(1, 8), sp=st.integers(1, 3), d=st.integers(1, 3), field=st.sampled_from(['', '/x', '.v']), pre=st.sampled_from([None, 'lnorm']), cli=st.booleans()),
     quick=80, nontrivial=lambda k: k['sp'] > 1 and k['ns'] > 2)
def classif_reader(k, ctx):
    r = rng(k['seed'])
    segs = ['s%d' % i for i in r.permutation(k['ns'])]
    models = ['c%d' % i for i in r.permutation(k['nm'])]
    x = vectors(len(segs), r, k['d'])
    w = HypDataWriter(ctx.path('v.h5'))
    w.write(segs, k['field'], x)
    w.f.close()
    cf = put(ctx.path('c2i'), [(m, str(i)) for i, m in enumerate(models)])
    tf = put(ctx.path('test'), [(s, 'whatever') for s in segs])
    sp = min(k['sp'], len(segs))
    seen = []
    for j in range(1, sp + 1):
        o = reader_args(ClassifTrialDataReader, k, dict(v_field=k['field'], seg_idx=j, num_seg_parts=sp), ['p', None][k['seed'] % 2])
        xt, ndx = ClassifTrialDataReader(ctx.path('v.h5'), cf, tf, preproc(k['pre'], k['d']), **o).read()
        ss = [str(s) for s in ndx.seg_set]
        eqlist(ndx.model_set, models, 'classes')
        require(np.all(ndx.trial_mask), 'every class is scored against every segment')
        same(xt, pre(x[[segs.index(s) for s in ss]], k['pre'], k['d']), 'test vectors', rtol=1e-5, atol=1e-5)
        seen += ss
    eq(seen, segs, 'segments of all the parts')
