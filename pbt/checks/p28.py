"""P28: batch generators and sequence readers sample contiguous, correctly labelled, reproducible sub-sequences."""
import argparse
from collections import Counter

from pbt.core import *
from hyperion.io import DataWriterFactory, HypDataWriter
from hyperion.generators import SequenceBatchGeneratorV1 as V1, SequenceBatchGeneratorV2 as V2
from hyperion.transforms import MVN
from hyperion.helpers import SequenceReader, SequenceClassReader, SequencePostReader, SequencePostClassReader

RULE = 'at least three utterances of different lengths in two classes, and several batches per epoch'


def put(path, rows, sep=' '):
    with open(path, 'w') as f:
        for row in rows:
            f.write(sep.join(row) + '\n')
    return path


def dataset(k, ctx, sep=' '):
    """utterances whose rows are (utterance, row, noise)"""
    r = rng(k['seed'])
    lens = k['lens']
    names = ['u%02d' % i for i in r.permutation(len(lens))]
    data = {}
    for i, (u, L) in enumerate(zip(names, lens)):
        x = r.randn(L, 3)
        x[:, 0] = i
        x[:, 1] = np.arange(L)
        data[u] = x.astype('float32')
    o = r.permutation(len(names))
    ext = 'h5' if k['fmt'] == 'h5' else 'ark'
    with DataWriterFactory.create('%s,scp:%s,%s' % (ext, ctx.path('v.' + ext), ctx.path('v.scp')), scp_sep=sep) as w:
        w.write([names[i] for i in o], [data[names[i]] for i in o])
    spec = {'h5': 'h5:' + ctx.path('v.h5'), 'ark': 'scp:' + ctx.path('v.scp')}[k['fmt']]
    cl = ['c%d' % c for c in k['cls']][:len(names)]
    cl += [cl[i % len(k['cls'])] for i in range(len(cl), len(names))]
    lst = put(ctx.path('u2c'), zip(names, cl), sep)
    return r, names, cl, data, spec, lst


base = dict(seed=seeds, lens=st.lists(st.integers(3, 30), min_size=2, max_size=9), cls=st.lists(st.integers(0, 3), min_size=2, max_size=9), fmt=st.sampled_from(['h5', 'ark']),
            batch=st.integers(1, 7), iters=st.sampled_from(['auto', 1, 1, 2, 3]), lo=st.one_of(st.none(), st.integers(2, 12)), hi=st.one_of(st.none(), st.integers(2, 20)),
            prune=st.one_of(st.just(0), st.just(0), st.integers(3, 20)), shuffle=st.booleans(), reset=st.booleans(), epoch=st.integers(0, 3), sg=st.integers(0, 5),
            clist=st.booleans(), sep=st.sampled_from([' ', ' ', ',']), squeeze=st.booleans(), cli=st.booleans())
v1_st = fd(gen=st.sampled_from(['random', 'random', 'sequential', 'sequential', 'full_seqs']), overlap=st.integers(0, 4), cw=st.sampled_from([None, 'balanced', 'unbalanced']), imb=st.sampled_from([1, 2, 3]),
           sw=st.sampled_from(['balanced', 'unbalanced']), **base)
v2_st = fd(epc=st.integers(1, 3), epu=st.integers(1, 3), onehot=st.booleans(), **base)
nt = lambda k: len(set(k['lens'])) > 2 and len(set(k['cls'][:len(k['lens'])])) > 1


def common(k, ctx, names, cl):
    lo, hi = k['lo'], k['hi']
    if lo is not None and hi is not None and lo > hi:
        lo, hi = hi, lo
    o = dict(batch_size=k['batch'], iters_per_epoch=k['iters'], min_seq_length=lo, max_seq_length=hi, prune_min_length=k['prune'], shuffle_seqs=k['shuffle'], init_epoch=k['epoch'],
             sg_seed=k['sg'], scp_sep=k['sep'])
    return o


def via_cli(cls, o, prefix):
    p = argparse.ArgumentParser()
    cls.add_argparse_args(p, prefix)
    p.add_argument('--%sno-shuffle-seqs' % ('' if prefix is None else prefix + '-'), dest=('' if prefix is None else prefix + '_') + 'no_shuffle_seqs', action='store_true') if not has(p, 'shuffle_seqs') else None
    a = []
    for n, v in o.items():
        q = '--' + ('' if prefix is None else prefix + '-')
        if n == 'shuffle_seqs':
            if not v:
                a.append(q + 'no-shuffle-seqs')
        elif v is not None:
            a += [q + n.replace('_', '-'), str(v)]
    return cls.filter_args(prefix, junk=2, **vars(p.parse_args(a)))


def has(p, name):
    return any(name in s for x in p._actions for s in (x.dest,))


def locate(x, key, names, data, lo, hi, what):
    """x is a contiguous run of rows of data[key]; returns its first row"""
    x = np.asarray(x)
    src = data[key]
    require(x.ndim == 2 and x.shape[1] == src.shape[1], '%s: shape %s', what, x.shape)
    L = x.shape[0]
    require(1 <= L <= src.shape[0], '%s: %d rows of an utterance of %d', what, L, src.shape[0])
    f = int(round(float(x[0, 1])))
    require(0 <= f <= src.shape[0] - L, '%s: starts at row %d', what, f)
    same(x, src[f:f + L], '%s: rows %d-%d of %s' % (what, f, f + L, key))
    require(min(lo, src.shape[0]) <= L <= hi, '%s: length %d out of [%d,%d]', what, L, lo, hi)
    return f


def batches(g, n, k, names, data, lo, hi, labels, squeeze, ctx, extra=0):
    """reads n batches and checks their contents; [(key, first, length)] per batch"""
    out = []
    for b in range(n):
        v = g.read(squeeze=squeeze)
        keys = [str(u) for u in v[0]]
        eq(len(keys), k['batch'], 'batch size')
        if squeeze:
            x, w = v[1], v[2]
            eq(np.shape(x)[:2], (len(keys), hi), 'shape of the batch')
            eq(np.shape(w), (len(keys), hi), 'shape of the weights')
            xs = []
            for i in range(len(keys)):
                m = int(np.sum(w[i]))
                eqlist(w[i], [1.] * m + [0.] * (hi - m), 'sample weight')
                same(x[i][m:], np.zeros((hi - m, 3)), 'padding')
                xs.append(x[i][:m])
            rest = v[3:]
        else:
            xs, rest = v[1], v[2:]
        eq(len(xs), len(keys), 'number of sub-sequences')
        y = rest[0]
        require(np.shape(y)[0] == len(keys), 'labels of the batch')
        info = []
        for i, u in enumerate(keys):
            require(u in labels, 'utterance %s is not eligible', u)
            f = locate(xs[i], u, names, data, lo, hi, 'batch %d item %d' % (b, i))
            eq((int(np.argmax(y[i])), float(np.sum(y[i])), float(np.max(y[i]))), (labels[u], 1., 1.), 'label of %s' % u)
            info.append((u, f, len(xs[i])))
        eq(np.shape(y)[1], labels[None], 'number of classes')
        out.append((info, rest[1] if extra else None))
    return out


def eligible(k, ctx, names, cl, o):
    ok = [i for i in range(len(names)) if len(names) and k['lens'][i] >= k['prune']]
    if k['clist']:
        cs = sorted(set(cl))[::-1] + ['zz', 'aa']
        o['class_list'] = put(ctx.path('classes'), [(c,) for c in cs])
    else:
        cs = sorted(set(cl[i] for i in ok))
    labels = {names[i]: cs.index(cl[i]) for i in ok}
    labels[None] = len(cs)
    return ok, labels


@sub('P28', v1_st, quick=300, nontrivial=nt)
def batch_v1(k, ctx):
    r, names, cl, data, spec, lst = dataset(k, ctx, k['sep'])
    lens = dict(zip(names, k['lens']))
    o = common(k, ctx, names, cl)
    ok, labels = eligible(k, ctx, names, cl, o)
    if not ok:
        ctx.label('empty')
        return
    el = [names[i] for i in ok]
    lo = o['min_seq_length'] or min(lens[u] for u in el)
    hi = o['max_seq_length'] or max(lens[u] for u in el)
    if k['gen'] == 'full_seqs' or hi < lo:
        o['min_seq_length'] = o['max_seq_length'] = None
    lo = o['min_seq_length'] or min(lens[u] for u in el)
    hi = o['max_seq_length'] or max(lens[u] for u in el)
    ov = min(k['overlap'], lo - 1)
    # list after balancing the classes
    n_c = Counter(cl[i] for i in ok)
    want_c = {c: max(n, -(-max(n_c.values()) // k['imb'])) if k['cw'] == 'balanced' else n for c, n in n_c.items()}
    N = sum(want_c.values())
    if k['gen'] == 'full_seqs' and k['batch'] > N:
        ctx.label('batch larger than the list')
        return
    o.update(gen_method=k['gen'], seq_overlap=ov, class_weight=k['cw'], seq_weight=k['sw'])
    if k['cli']:
        o = via_cli(V1, o, [None, 'tr'][k['seed'] % 2])
        ctx.label('command line')
    o.update(max_class_imbalance=k['imb'], reset_rng=k['reset'])
    mk = lambda **q: V1(spec, lst, **dict(o, **q))
    # the number of steps of an epoch
    shift = int((hi + lo) / 2) - ov
    subs = {u: -(-lens[u] // shift) for u in el} if k['gen'] == 'sequential' else None
    iters = k['iters']
    g = mk()
    eq(g.num_seqs, N, 'number of utterances in the list')
    eq(int(g.total_length), sum(lens[str(u)] for u in g.u2c.key), 'total length')
    eq((int(g.min_seq_length), int(g.max_seq_length)), (lo, hi), 'lengths of the sub-sequences')
    mult = None
    if iters == 'auto':
        iters = g.iters_per_epoch
        if N == len(el):
            eq(float(iters), float(np.ceil(np.mean([lens[u] for u in el]) / int((hi + lo) / 2))) if k['gen'] == 'random' else 1., 'automatic number of iterations')
    if k['gen'] != 'sequential':
        steps = int(iters * N // k['batch'])
    elif k['sw'] == 'balanced':
        steps = int(iters * N * max(subs.values()) // k['batch'])
    else:
        steps = int(g.steps_per_epoch)
        if N == len(el):
            steps = int(iters * sum(subs.values()) // k['batch'])
    if steps == 0:
        ctx.label('less than one batch')
        return
    eq(int(g.steps_per_epoch), steps, 'steps per epoch')
    eq(int(g.num_total_subseqs), steps * k['batch'], 'sub-sequences per epoch')
    squeeze = k['squeeze']
    rd = lambda g, n: [v[0] for v in batches(g, n, k, names, data, lo, hi, labels, squeeze, ctx)]
    ep = [rd(g, steps) for _ in range(3)]
    ctx.label(k['gen'], 'class ' + str(k['cw']))
    for e in ep:
        flat = [v for b in e for v in b]
        cnt = Counter(v[0] for v in flat)
        total = len(flat)
        if k['gen'] == 'full_seqs':
            require(all(f == 0 and n == lens[u] for u, f, n in flat), 'whole utterances')
        if not (k['gen'] == 'sequential' and k['sw'] == 'unbalanced'):
            # every entry of the list is visited the same number of times, but for the incomplete pass at the end
            q = total // N
            byc = Counter()
            for u in el:
                c = cl[names.index(u)]
                m0, m1 = want_c[c] // n_c[c], -(-want_c[c] // n_c[c])
                require(q * m0 <= cnt[u] <= (q + (total % N > 0)) * m1, 'utterance %s visited %d times in %d passes', u, cnt[u], q)
                byc[c] += cnt[u]
            if total % N == 0:
                eq(dict(byc), {c: q * v for c, v in want_c.items()}, 'visits of each class')
        elif N == len(el):
            S = sum(subs.values())
            for u in el:
                q = total // S
                require(q * subs[u] <= cnt[u] <= (q + (total % S > 0)) * subs[u], 'utterance %s visited %d times', u, cnt[u])
        if not k['shuffle'] and k['cw'] != 'balanced' and k['gen'] != 'sequential':
            eq([v[0] for v in flat], [el[i % N] for i in range(total)], 'order of the list')
        if k['gen'] == 'sequential' and N == len(el):
            for u in el:
                mine = [(f, n) for w, f, n in flat if w == u]
                ml = min(lo, lens[u])
                for i, (f, n) in enumerate(mine):
                    j = i % subs[u]
                    if j == 0:
                        eq(f, 0, 'first sub-sequence of ' + u)
                    else:
                        pf, pn = mine[i - 1]
                        eq(f, min(lens[u] - ml, max(0, pf + pn - ov)), 'start of sub-sequence %d of %s' % (i, u))
                    if j == subs[u] - 1:
                        eq(n, min(hi, lens[u] - f), 'length of the last sub-sequence of ' + u)
                if subs[u] > 1:
                    ctx.label('several sub-sequences')
        if k['shuffle'] and k['gen'] != 'sequential' and N == len(el) and total >= N:
            eq(sorted(v[0] for v in flat[:N]), sorted(el), 'shuffled list')
    if k['reset']:
        eq(ep[1], ep[0], 'epochs with the same seed')
        eq(ep[2], ep[0], 'epochs with the same seed')
    else:
        # the epoch number decides the batches
        eq(rd(mk(init_epoch=k['epoch'] + 1), steps), ep[1], 'start from the second epoch')
    # another generator, reset in the middle of the epoch
    h = mk()
    h0 = rd(h, min(steps, 1 + k['seed'] % 3))
    eq(h0, ep[0][:len(h0)], 'generator with the same seed')
    if len(h0) < steps:
        h.reset()
        eq(rd(h, steps), ep[0], 'reset')
        eq(rd(h, steps), ep[1], 'epoch after reset')
        ctx.label('reset')
    if k['shuffle'] and not k['reset'] and N >= 8 and k['gen'] == 'random':
        require(len(set(tuple(v[0] for b in e for v in b) for e in ep)) > 1, 'same order in three epochs')


@sub('P28', fd(k=v1_st, parts=st.integers(2, 3), v=st.sampled_from([1, 2])), quick=40, nontrivial=lambda c: nt(c['k']))
def parts(c, ctx):
    """the parts of a list read every utterance once"""
    k = dict(c['k'], sep=' ')
    r, names, cl, data, spec, lst = dataset(k, ctx)
    P = min(c['parts'], len(names))
    seen = []
    for i in range(1, P + 1):
        if c['v'] == 1:
            g = V1(spec, lst, batch_size=1, iters_per_epoch=1, gen_method='full_seqs', shuffle_seqs=k['shuffle'], part_idx=i, num_parts=P)
            seen += [str(g.read(squeeze=False)[0][0]) for _ in range(g.steps_per_epoch)]
        else:
            g = V2(spec, lst, batch_size=1, iters_per_epoch=1, part_idx=i, num_parts=P)
            seen += [str(u) for u in g.u2c.key]
    eq(sorted(seen), sorted(names), 'utterances of all the parts')


@sub('P28', v2_st, quick=200, nontrivial=nt)
def batch_v2(k, ctx):
    r, names, cl, data, spec, lst = dataset(k, ctx, k['sep'])
    lens = dict(zip(names, k['lens']))
    o = common(k, ctx, names, cl)
    del o['shuffle_seqs']
    ok, labels = eligible(k, ctx, names, cl, o)
    if not ok:
        ctx.label('empty')
        return
    el = [names[i] for i in ok]
    lo = o['min_seq_length'] or min(lens[u] for u in el)
    hi = o['max_seq_length'] or max(lens[u] for u in el)
    if hi < lo:
        o['min_seq_length'] = o['max_seq_length'] = None
        lo, hi = min(lens[u] for u in el), max(lens[u] for u in el)
    o.update(num_egs_per_class=k['epc'], num_egs_per_utt=k['epu'])
    if k['cli']:
        o = via_cli(V2, o, [None, 'tr'][k['seed'] % 2])
        ctx.label('command line')
    o.update(reset_rng=k['reset'], return_utt1hot=k['onehot'])
    mk = lambda **q: V2(spec, lst, **dict(o, **q))
    g = mk()
    eq(g.num_seqs, len(el), 'number of utterances in the list')
    eq(int(g.total_length), sum(lens[u] for u in el), 'total length')
    eq((int(g.min_seq_length), int(g.max_seq_length)), (lo, hi), 'lengths of the sub-sequences')
    iters = k['iters']
    if iters == 'auto':
        iters = np.ceil(np.mean([lens[u] for u in el]) / int((hi + lo) / 2))
    steps = int(np.ceil(iters * len(el) / k['batch']))
    eq(int(g.steps_per_epoch), steps, 'steps per epoch')
    full = lambda g, n: batches(g, n, k, names, data, lo, hi, labels, k['squeeze'], ctx, k['onehot'])
    rd = lambda g, n: [v[0] for v in full(g, n)]
    ep = []
    cn = dict(zip(names, cl))
    for e in range(3):
        bs = full(g, steps)
        ep.append([v[0] for v in bs])
        for info, z in bs:
            for b in range(0, k['batch'], k['epc'] * k['epu']):
                require(len(set(cn[v[0]] for v in info[b:b + k['epc'] * k['epu']])) == 1, 'examples of one class: %s', info)
            for b in range(0, k['batch'], k['epu']):
                require(len(set(v[0] for v in info[b:b + k['epu']])) == 1, 'examples of one utterance: %s', info)
            if k['onehot']:
                eq(np.shape(z), (k['batch'], -(-k['batch'] // k['epu'])), 'shape of the utterance labels')
                require(np.all(np.sum(z, axis=1) == 1) and np.all(np.max(z, axis=1) == 1), 'one-hot utterance labels')
                a = np.argmax(z, axis=1)
                for i in range(k['batch']):
                    for j in range(i):
                        eq(a[i] == a[j], info[i][0] == info[j][0], 'utterance labels of %s and %s' % (info[i][0], info[j][0]))
                ctx.label('utterance labels')
    if k['reset']:
        eq(ep[1], ep[0], 'epochs with the same seed')
    else:
        eq(rd(mk(init_epoch=k['epoch'] + 1), steps), ep[1], 'start from the second epoch')
    h = mk()
    h0 = rd(h, min(steps, 1 + k['seed'] % 3))
    eq(h0, ep[0][:len(h0)], 'generator with the same seed')
    if len(h0) < steps:
        h.reset()
        eq(rd(h, steps), ep[0], 'reset')
        ctx.label('reset')
    if k['seed'] % 4 == 0:
        # every class and utterance is drawn
        ctx.label('many batches')
        g = mk(reset_rng=False, batch_size=20, iters_per_epoch=100)
        seen = [str(u) for _ in range(30) for u in g.read(squeeze=False)[0]]
        if k['epc'] * k['epu'] <= 4:
            eq(sorted(set(cn[u] for u in seen)), sorted(set(cn[u] for u in el)), 'classes drawn')


sr_st = fd(seed=seeds, lens=st.lists(st.integers(1, 20), min_size=1, max_size=8), batch=st.integers(1, 4), mode=st.sampled_from(['full', 'sequential', 'random_slice', 'random_samples', 'random_slice_1seq', 'random_samples_1seq']),
           lo=st.integers(0, 8), hi=st.integers(1, 9), overlap=st.integers(0, 4), shuffle=st.booleans(), sg=st.integers(0, 3), cls=st.booleans(), three=st.booleans(), parts=st.integers(1, 2), epochs=st.integers(1, 3), post=st.integers(0, 2), pre=st.booleans())


@sub('P28', sr_st, quick=250, nontrivial=lambda k: len(set(k['lens'])) > 2)
def sequence_reader(k, ctx):
    r = rng(k['seed'])
    names = ['u%d' % i for i in r.permutation(len(k['lens']))]
    lens = dict(zip(names, k['lens']))
    data = {}
    for i, u in enumerate(names):
        x = r.randn(lens[u], 3)
        x[:, 0] = i
        x[:, 1] = np.arange(lens[u])
        data[u] = x.astype('float32')
    w = HypDataWriter(ctx.path('v.h5'))
    w.write(names, '', [data[u] for u in names])
    w.f.close()
    cl = {u: 'c%d' % r.randint(3) for u in names}
    lst = put(ctx.path('scp'), [(cl[u] if k['cls'] else 'any', u) for u in names], '=')
    cf = put(ctx.path('classes'), [('c2',), ('c0',), ('c1',)])
    P = k['parts'] if len(names) >= 2 * k['parts'] and k['batch'] == 1 else 1
    hi = None if k['mode'] == 'full' else k['hi']
    ov = min(k['overlap'], (hi or 9) - 1)
    lo = k['lo'] if hi is None else max(1, min(k['lo'], hi))
    o = dict(batch_size=k['batch'], shuffle_seqs=k['shuffle'], min_seq_length=lo, max_seq_length=hi, seq_split_overlap=ov, seqr_seed=k['sg'], num_parts=P)
    if hi is not None:
        o['seq_split_mode'] = k['mode']
    # number of sub-sequences of each one
    def nsub(L):
        if hi is None or k['mode'].endswith('1seq'):
            return int(L >= lo)
        s = hi - ov
        n = max(L - ov, 0) // s
        return n + int(L - n * s >= lo)
    if k['pre']:
        # x, 1 -> 2 x + 1
        o['preproc'] = MVN(mu=np.full(3, -.5), s=np.full(3, .5))
        ctx.label('transform')
    post = k['post'] and 'samples' not in k['mode']
    if post:
        # posteriors of the best components of each frame
        K, nb = 6, k['post']
        ctx.label('posteriors')
        pi = {u: np.array([r.permutation(K)[:nb] for _ in range(lens[u])]) for u in names}
        pr = {u: r.dirichlet(np.ones(nb), size=lens[u]).astype('float32') for u in names}
        w = HypDataWriter(ctx.path('p.h5'))
        for u in names:
            w.write([u], '.r', [pr[u]])
            w.write([u], '.index', [pi[u]])
        w.f.close()
        dense = {}
        for u in names:
            dense[u] = np.zeros((lens[u], K))
            np.put_along_axis(dense[u], pi[u], pr[u], axis=1)
        o['num_comp'] = K

    def mk(part):
        a, c = (ctx.path('v.h5'), lst), ((cf,) if k['cls'] else ())
        if post:
            return (SequencePostClassReader if k['cls'] else SequencePostReader)(*(a + (ctx.path('p.h5'),) + c), part_idx=part, **o)
        return (SequenceClassReader if k['cls'] else SequenceReader)(*(a + c), part_idx=part, **o)
    total = Counter()
    for part in range(1, P + 1):
        sr, sr2 = mk(part), mk(part)
        mine = [str(u) for u in sr.scp.file_path]
        if P == 1:
            eq(sorted(mine), sorted(names), 'list')
        eqlist(sr.seq_length, [lens[u] for u in mine], 'lengths')
        eq(int(sr.total_length), sum(lens[u] for u in mine), 'total length')
        if mine:
            eq(int(sr.max_batch_seq_length), hi or max(lens[u] for u in mine), 'longest sequence of a batch')
        S = sum(nsub(lens[u]) for u in mine)
        eqlist(sr.num_subseqs, [nsub(lens[u]) for u in mine], 'sub-sequences of each one')
        eq(int(sr.num_total_subseqs), S, 'number of sub-sequences')
        eq(int(sr.num_batches), S // k['batch'], 'number of batches')
        if S < k['batch']:
            ctx.label('less than one batch')
            continue
        ctx.label(k['mode'])
        for e in range(k['epochs']):
            flat = []
            for b in range(S // k['batch']):
                v = sr.read(return_3d=k['three'])
                v2 = sr2.read(return_3d=k['three'])
                if post:
                    ps, v, v2 = v[1], v[:1] + v[2:], v2[:1] + v2[2:]
                keys = [str(u) for u in (v[2] if k['three'] else v[1])]
                eqlist(v2[2] if k['three'] else v2[1], keys, 'reader with the same seed')
                eq(len(keys), k['batch'], 'batch size')
                xs = v[0]
                for i, u in enumerate(keys):
                    x = np.asarray(xs[i])
                    same(v2[0][i], x, 'reader with the same seed')
                    if k['three']:
                        m = int(np.sum(v[1][i]))
                        eqlist(v[1][i], [1.] * m + [0.] * (len(x) - m), 'sample weight')
                        same(x[m:], np.zeros((len(x) - m, 3)), 'padding')
                        x = x[:m]
                    if k['pre']:
                        x = (x - 1) / 2
                    rows = np.round(x[:, 1]).astype(int)
                    require(len(rows) and rows.min() >= 0 and rows.max() < lens[u], 'rows %s of %s', rows, u)
                    same(x.astype('float32'), data[u][rows], 'rows of %s' % u, rtol=1e-6, atol=1e-6)
                    if post:
                        q = np.asarray(ps[i])
                        if k['three']:
                            same(q[m:], np.zeros((len(q) - m, K)), 'padding of the posteriors')
                            q = q[:m]
                        same(q, dense[u][rows], 'posteriors of ' + u, rtol=1e-6)
                    if 'samples' in k['mode']:
                        require(np.all(np.diff(rows) >= 0), 'order of the samples')
                    else:
                        eqlist(rows, range(rows[0], rows[0] + len(rows)), 'contiguous rows of ' + u)
                    if k['cls']:
                        y = np.asarray(v[-1])
                        eqlist(y[i], [float(c == cl[u]) for c in ('c2', 'c0', 'c1')], 'label of ' + u)
                    flat.append((u, int(rows[0]), len(rows)))
            cnt = Counter(v[0] for v in flat)
            for u in mine:
                require(cnt[u] <= nsub(lens[u]), '%s is read %d times', u, cnt[u])
                if S % k['batch'] == 0:
                    eq(cnt[u], nsub(lens[u]), 'times that %s is read' % u)
                seq = [(f, n) for w, f, n in flat if w == u]
                for i, (f, n) in enumerate(seq):
                    if k['mode'] == 'full':
                        eq((f, n), (0, lens[u]), 'whole sequence')
                    elif k['mode'] == 'sequential':
                        a = i * (hi - ov)
                        eq((f, n), (a, min(hi, lens[u] - a)), 'sub-sequence %d of %s' % (i, u))
                    else:
                        eq(n, min(hi, lens[u]), 'length of a sub-sequence of ' + u)
            if not k['shuffle'] and k['mode'] == 'full':
                eq([v[0] for v in flat], [u for u in mine if nsub(lens[u])][:len(flat)], 'order of the list')
            if e == 0:
                total.update(u for u, f, n in flat)
        s3 = mk(part)
        for u in mine:
            v = s3.read_next_seq()
            eq(str(v[-1]), u, 'next sequence')
            same((np.asarray(v[0]) - 1) / 2 if k['pre'] else v[0], data[u], 'next sequence: ' + u, rtol=1e-6, atol=1e-6)
            if post:
                same(v[1], dense[u], 'posteriors of the next sequence', rtol=1e-6)
    if P > 1:
        ctx.label('parts')
        eq(dict(total), {u: nsub(lens[u]) for u in names if nsub(lens[u])}, 'sequences read by all the parts')


@sub('P28', fd(seed=seeds, lens=st.lists(st.integers(3, 9), min_size=1, max_size=3), cls=st.lists(st.integers(0, 1), min_size=3, max_size=3), fmt=st.sampled_from(['h5', 'ark']), lo=st.integers(1, 5), span=st.integers(0, 3),
               who=st.sampled_from(['v1', 'v2', 'reader', 'reader_1seq']), sg=st.integers(0, 50)), quick=40, nontrivial=lambda k: max(k['lens']) > k['lo'] + k['span'])
def draws(k, ctx):
    """many random sub-sequences reach every length of the range and every first row"""
    r, names, cl, data, spec, lst = dataset(k, ctx)
    lens = dict(zip(names, k['lens']))
    lo, hi = k['lo'], k['lo'] + k['span']
    n = len(names)
    got = {u: Counter() for u in names}
    if k['who'].startswith('v'):
        B = 20
        g = {'v1': V1, 'v2': V2}[k['who']](spec, lst, batch_size=B, iters_per_epoch=50, min_seq_length=lo, max_seq_length=hi, sg_seed=k['sg'])
        for _ in range(-(-500 * n // B)):
            v = g.read(squeeze=False)
            for u, x in zip(v[0], v[1]):
                got[str(u)][locate(x, str(u), names, data, lo, hi, 'sub-sequence'), len(x)] += 1
    else:
        if k['fmt'] != 'h5':
            return
        mode = 'random_slice' + k['who'][6:]
        f = put(ctx.path('scp'), [('any', u) for u in names], '=')
        g = SequenceReader(ctx.path('v.h5'), f, batch_size=1, min_seq_length=1, max_seq_length=hi, seq_split_mode=mode, seqr_seed=k['sg'])
        while min(sum(c.values()) for c in got.values()) < 300:
            x, u = g.read()
            got[str(u[0])][locate(x[0], str(u[0]), names, data, hi, hi, 'sub-sequence'), len(x[0])] += 1
        lo = hi
    ctx.label(k['who'])
    for u in names:
        m = sum(got[u].values())
        if m < 150:
            # V2 draws classes: the utterances of a large class are drawn less
            require(k['who'] == 'v2' and m > 50, '%s was drawn %d times', u, m)
            ctx.label('few draws')
        a, b = min(lo, lens[u]), min(hi, lens[u])
        for L in range(a, b + 1):
            # each length has the same probability, then each first row
            for f in range(lens[u] - L + 1):
                p = 1. / (b - a + 1) / (lens[u] - L + 1)
                if (1 - p) ** m < 1e-9:
                    require(got[u][f, L] > 0, 'rows %d-%d of %s (%d rows, lengths %d to %d) are not in %d random sub-sequences', f, f + L, u, lens[u], a, b, m)
                    if f:
                        ctx.label('inner first row')
