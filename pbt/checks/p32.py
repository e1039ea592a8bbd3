"""P32: the command-line programs write what the library computes from their inputs."""
import contextlib
import io
import logging
import os
import runpy
import sys

import hyperion
from pbt.core import *
from hyperion.io import DataWriterFactory, HypDataWriter, SequentialDataReaderFactory, RandomAccessDataReaderFactory
from hyperion.transforms import TransformList, MVN, LNorm, LNormUP, CentWhiten, CentWhitenUP, PCA, LDA, NDA, NSbSw, Gaussianizer
from hyperion.helpers import VectorReader, VectorClassReader
from hyperion.classifiers import LinearGBE, LinearGBEUP, LinearSVMC, LogisticRegression, QScoringHomoGBE
from hyperion.pdfs.plda import PLDA, FRPLDA, SPLDA
from hyperion.utils.trial_ndx import TrialNdx
from hyperion.utils.trial_key import TrialKey
from hyperion.utils.trial_scores import TrialScores
from hyperion.utils import SegmentList, RTTM
from hyperion.metrics import compute_eer
from hyperion.feats.mfcc import MFCC
from hyperion.feats.energy_vad import EnergyVAD
from hyperion.pdfs import GMMDiagCov
from hyperion.score_norm import TNorm, ZNorm, ZTNorm, SNorm, AdaptSNorm

RULE = 'at least two options besides the files are given, or the inputs are split or reordered'
BIN = os.path.join(os.path.dirname(hyperion.__file__), 'bin')


def run(ctx, name, *args):
    """runs a program in this process; args: strings, numbers, or lists of them"""
    a = []
    for v in args:
        a += [str(x) for x in v] if isinstance(v, (list, tuple)) else [str(v)]
    if len(a) > 4 and len(a) % 3 == 0:
        # the same options from a file, one per line
        with open(ctx.path('args'), 'w') as f:
            f.write('\n'.join(a) + '\n')
        a = ['@' + ctx.path('args')]
    before = contents(ctx)
    old, out = sys.argv, io.StringIO()
    sys.argv = [name] + a
    level = logging.root.level
    hs = list(logging.root.handlers)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            logging.root.handlers[:] = []
            runpy.run_path(os.path.join(BIN, name + '.py'), run_name='__main__')
    except SystemExit as e:
        if e.code not in (0, None):
            raise Violation('%s %s: %s' % (name, a, out.getvalue().strip().split('\n')[-1]))
    finally:
        sys.argv = old
        logging.root.handlers[:] = hs
        logging.root.setLevel(level)
    # files that were there stay as they were, except those that are named as outputs
    written = []
    full = [str(x) for v in args for x in (v if isinstance(v, (list, tuple)) else [v])]
    for o, v in zip(full[:-1], full[1:]):
        if o.startswith('--output') or o in ('--score-file', '--vector-score-file', '--write-num-frames') and name not in ('eval-score-norm', 'eval-2class-performance'):
            written += v.replace(':', ',').split(',')
    after = contents(ctx)
    for f, b in before.items():
        if not any(f == w or len(w) > 6 and f.startswith(w) for w in written):
            require(f in after, '%s removed %s', name, os.path.basename(f))
            require(after[f] == b, '%s modified %s', name, os.path.basename(f))
    return out.getvalue()


def contents(ctx):
    out = {}
    for d, _, fs in os.walk(os.path.dirname(ctx.path('x'))):
        for f in fs:
            with open(os.path.join(d, f), 'rb') as h:
                out[os.path.join(d, f)] = h.read()
    return out


def put(path, rows, sep=' '):
    with open(path, 'w') as f:
        for row in rows:
            f.write(sep.join(str(v) for v in row) + '\n')
    return path


def archive(ctx, r, names, x, fmt, stem='v'):
    """archive in some other order; returns the read specifier"""
    o = r.permutation(len(names))
    ext = 'h5' if fmt == 'h5' else 'ark'
    with DataWriterFactory.create('%s,scp:%s,%s' % (ext, ctx.path(stem + '.' + ext), ctx.path(stem + '.scp'))) as w:
        w.write([names[i] for i in o], [x[i] for i in o])
    return {'h5': 'h5:' + ctx.path(stem + '.h5'), 'scp': 'scp:' + ctx.path(stem + '.scp'), 'ark': 'scp:' + ctx.path(stem + '.scp')}[fmt]


def preproc(k, r, ctx, d):
    """a saved list of transforms; returns (object or None, arguments)"""
    if not k['pre']:
        return None, []
    p = TransformList([MVN(mu=r.randn(d), s=1 + r.rand(d), name='first'), CentWhiten(mu=r.randn(d), T=mix(r, d), name='second')][:k['pre']])
    p.save(ctx.path('pre.h5'))
    return TransformList.load(ctx.path('pre.h5')), ['--preproc-file', ctx.path('pre.h5')]


def mix(r, d):
    return .4 * r.randn(d, d) + 2 * np.eye(d)


fmt_st = st.sampled_from(['h5', 'ark', 'scp'])
sep_st = st.sampled_from([' ', ' ', ',', '='])
verb_st = st.sampled_from([None, 0, 1, 2, 3])


def verb(k):
    return [] if k['verb'] is None else ['-v', k['verb']]


tr_st = fd(seed=seeds, kind=st.sampled_from(['mvn', 'cw', 'cw', 'cw-up', 'pca', 'lda', 'nda', 'gaussianizer']), n=st.integers(12, 40), d=st.integers(1, 4), fmt=fmt_st, sep=sep_st, pre=st.sampled_from([0, 0, 1, 2]),
           save=st.booleans(), app=st.booleans(), name=st.sampled_from([None, 'tr', 'second-stage']), dim=st.sampled_from([None, 1, 2]), ln=st.booleans(), inp=st.sampled_from([None, None, 'one', 'list']),
           K=st.sampled_from([None, 2, 4]), alpha=st.sampled_from([None, .5, 2.]), maxv=st.sampled_from([None, 10]), C=st.integers(2, 4), spc=st.sampled_from([None, 4]), verb=verb_st)


@sub('P32', tr_st, quick=200, nontrivial=lambda k: k['pre'] > 0 or k['inp'] is not None)
def transforms(k, ctx):
    """the programs that train transforms"""
    r = rng(k['seed'])
    kind, d, n = k['kind'], k['d'], k['n']
    if k['ln'] and kind.startswith('cw'):
        d = max(2, d)       # the length carries all there is in one dimension
    ctx.label(kind)
    up = kind == 'cw-up'
    names = ['u%02d' % i for i in range(n)]
    cls = r.randint(k['C'], size=n)
    cls[:3 * k['C']] = np.repeat(np.arange(k['C']), 3)
    x = r.randn(n, d).dot(mix(r, d)) + 2 * r.randn(k['C'], d)[cls] + r.randn(d)
    if up:
        x = np.hstack((x, .01 + .1 * r.rand(n, d)))
    x = x.astype('float32')
    spec = archive(ctx, r, names, x, k['fmt'])
    o = r.permutation(n)
    classed = kind in ('lda', 'nda')
    lst = put(ctx.path('list'), [(names[i], 'c%d' % cls[i]) for i in o], ' ' if classed else k['sep'])
    pre, a = (None, []) if up else preproc(k, r, ctx, d)
    p = lambda v: v if pre is None else TransformList.load(ctx.path('pre.h5')).predict(v)
    a += ['--iv-file', spec, '--train-list', lst, '--output-path', ctx.path('out.h5')] + verb(k)
    xs = p(x[o].astype(float))
    ids = cls[o]
    nm = k['name'] or dict(mvn='mvn', cw='lnorm', pca='pca', lda='lda', nda='nda', gaussianizer='gauss').get(kind, 'lnorm')
    if k['name']:
        a += ['--name', k['name']]
    if not k['save']:
        a.append('--no-save-tlist')
    if not k['app']:
        a.append('--no-append-tlist')
    if classed:
        if k['spc']:
            a += ['--max-spc', k['spc'], '--spc-pruning-mode', 'last']
            keep = [i for i in range(n) if (ids[:i] == ids[i]).sum() < k['spc']]
            xs, ids = xs[keep], ids[keep]
    elif k['sep'] != ' ':
        a += ['--vlist-sep', k['sep']]
    dim = min(k['dim'], d) if k['dim'] else None
    inp = None
    if kind == 'mvn':
        m = MVN(name=nm)
        m.fit(xs)
    elif kind in ('cw', 'cw-up', 'pca', 'gaussianizer'):
        if kind == 'gaussianizer':
            kw = dict(max_vectors=k['maxv']) if k['maxv'] else {}
            a += ['--max-vectors', k['maxv']] if k['maxv'] else []
            T = Gaussianizer
        elif kind == 'pca':
            kw = dict(pca_dim=dim) if dim else {}
            a += ['--pca-dim', dim] if dim else []
            T = PCA
        else:
            kw = {}
            T = {(False, False): CentWhiten, (False, True): LNorm, (True, False): CentWhitenUP, (True, True): LNormUP}[up, k['ln']]
            a += [] if k['ln'] else ['--no-lnorm']
        if k['inp'] and kind not in ('gaussianizer', 'pca'):
            # starts from a trained one of which only one of the parameters changes
            u = k['seed'] % 2 == 0
            kw.update(mu=r.randn(d), T=np.triu(mix(r, d)), update_mu=u, update_T=not u)
            inp = T(name=nm, **kw)
            if k['inp'] == 'list':
                inp = TransformList([MVN(mu=r.randn(d), s=1 + r.rand(d), name='zz'), inp])
            inp.save(ctx.path('in.h5'))
            a += ['--input-path', ctx.path('in.h5')]
            ctx.label('input')
        m = T(name=nm, **kw)
        m.fit(xs)
    elif kind == 'lda':
        dim = min(dim or 99, d, k['C'] - 1)
        m = LDA(lda_dim=dim, name=nm)
        a += ['--lda-dim', dim]
        m.fit(xs, ids)
    else:
        K = min(k['K'] or 3, np.bincount(ids).min())
        s = NSbSw(K=K, alpha=1 if k['alpha'] is None else k['alpha'])
        s.fit(xs, ids)
        m = NDA(name=nm)
        m.fit(mu=s.mu, Sb=s.Sb, Sw=s.Sw, nda_dim=dim)
        a += ['--k', K] + (['--alpha', k['alpha']] if k['alpha'] is not None else []) + (['--nda-dim', dim] if dim else [])
    run(ctx, 'train-' + kind, a)
    z = r.randn(9, d).astype('float32')
    if up:
        z = np.hstack((z, .1 + r.rand(9, d)))
    want = m.predict(np.array(z))
    if k['save']:
        got = TransformList.load(ctx.path('out.h5'))
        chain = k['app'] and pre is not None
        eq([t.name for t in got.transforms], ([t.name for t in pre.transforms] if chain else []) + [nm], 'names of the transforms')
        if chain:
            want = m.predict(p(np.array(z)))
            ctx.label('appended')
        same(got.predict(np.array(z)), want, 'output of the transforms', rtol=1e-4, atol=1e-4 * (1 + np.abs(want).max()))
    else:
        got = type(m).load(ctx.path('out.h5'))
        eq(got.name, nm, 'name')
        same(got.predict(np.array(z)), want, 'output of the transform', rtol=1e-4, atol=1e-4 * (1 + np.abs(want).max()))


cl_st = fd(seed=seeds, kind=st.sampled_from(['linear-gbe', 'linear-gbe', 'linear-gbe-up', 'linear-svmc', 'logistic-regression', 'q-scoring-homo-gbe']), n=st.integers(12, 40), ns=st.integers(1, 9), d=st.integers(1, 3), C=st.integers(3, 4),
           fmt=fmt_st, pre=st.sampled_from([0, 0, 1, 2]), opt=st.integers(0, 3), ev=st.integers(0, 4), norm=st.booleans(), vec=st.booleans(), parts=st.integers(1, 3), verb=verb_st, mapped=st.booleans(), ext=st.sampled_from(['.h5', '.txt']), min_spc=st.sampled_from([None, 4]))


@sub('P32', cl_st, quick=120, nontrivial=lambda k: k['parts'] > 1 or k['pre'] > 0 or k['opt'] > 0)
def classifiers(k, ctx):
    """the programs that train classifiers and score segments with them"""
    r = rng(k['seed'])
    kind, d, n, C = k['kind'], k['d'], k['n'], k['C']
    ctx.label(kind)
    up = kind.endswith('up') or kind.startswith('q-')     # means and variances
    names = ['u%02d' % i for i in range(n)]
    cls = r.randint(C, size=n)
    cls[:3 * C] = np.repeat(np.arange(C), 3)
    x = r.randn(n, d).dot(mix(r, d)) + 2 * r.randn(C, d)[cls]
    if up:
        x = np.hstack((x, .1 + .8 * r.rand(n, d)))
    x = x.astype('float32')
    spec = archive(ctx, r, names, x, k['fmt'])
    o = r.permutation(n)
    lst = put(ctx.path('list'), [(names[i], 'c%d' % cls[i]) for i in o])
    pre, pa = (None, []) if up else preproc(k, r, ctx, d)
    a = pa + ['--iv-file', spec, '--train-list', lst, '--output-path', ctx.path('m.h5')] + verb(k)
    xs, ids = x[o].astype(float) if pre is None else pre.predict(x[o].astype(float)), cls[o]
    cnames = ['c%d' % c for c in range(C)]
    if k['min_spc'] and len([c for c in range(C) if (cls == c).sum() >= k['min_spc']]) >= 3:
        a += ['--min-spc', k['min_spc']]
        big = [c for c in range(C) if (cls == c).sum() >= k['min_spc']]
        keep = np.array([c in big for c in ids])
        xs, ids = xs[keep], np.array([big.index(c) for c in ids[keep]])
        cnames = ['c%d' % c for c in big]
    op = k['opt']
    ea, pargs = [], ()
    if kind.startswith('linear-gbe'):
        T = LinearGBEUP if up else LinearGBE
        kw = [dict(balance_class_weight=False), dict(balance_class_weight=True), dict(balance_class_weight=False, post_beta=4.), dict(balance_class_weight=False, post_nu=2. + d)][op]
        a += [[], ['--balance-class-weight'], ['--post-beta', 4], ['--post-nu', 2 + d]][op]
        em = ['linear', 'llk', 'predictive'][0 if up else k['ev'] % 3]
        if em == 'predictive' or k['ev'] % 2:
            ea += ['--eval-method', em]
        else:
            em = 'linear'
        ea += ['--normalize'] if k['norm'] else []
        pargs = (em, k['norm'])
    elif kind == 'linear-svmc':
        T = LinearSVMC
        kw = dict([{}, dict(C=.1), dict(use_bias=False), dict(multi_class='crammer_singer')][op], balance_class_weight=False)
        a += [[], ['--c', .1], ['--no-use-bias'], ['--multi-class', 'crammer_singer']][op]
        et = ['logit', 'bin-logpost', 'bin-post', 'cat-logpost', 'cat-post'][k['ev']]
        ea += ['--eval-type', et] if k['ev'] else []
        pargs = (et,)
    elif kind == 'logistic-regression':
        T = LogisticRegression
        # one against the rest unless told
        kw = dict(dict(multi_class='ovr'), **[{}, dict(lambda_reg=.01), dict(multi_class='multinomial'), dict(use_bias=False, max_iter=500)][op])
        a += [[], ['--lambda-reg', .01], ['--multi-class', 'multinomial'], ['--no-use-bias', '--max-iter', 500]][op]
        et = ['logit', 'log-post', 'post'][k['ev'] % 3]
        ea += ['--eval-type', et] if k['ev'] % 3 else []
        pargs = (et,)
    else:
        T = QScoringHomoGBE
        kw = [dict(balance_class_weight=False), dict(balance_class_weight=True), dict(balance_class_weight=False, post_N=3.), dict(balance_class_weight=False)][op]
        a += [[], ['--balance-class-weight'], ['--post-n', 3], ['--name', 'qq']][op]
        ea += ['--normalize'] if k['norm'] else []
        pargs = (k['norm'],)
    # the optimizers stop early: the same numbers, to the last bit
    y, i = VectorClassReader(spec, lst, None if pre is None else TransformList.load(ctx.path('pre.h5')), min_spc=k['min_spc'] if '--min-spc' in a else 1).read()
    same(y, xs, 'vectors', rtol=1e-4, atol=1e-4)
    eqlist(i, ids, 'classes')
    m = T(**kw)
    m.fit(y, i)
    run(ctx, 'train-' + kind, a)
    score(k, ctx, r, kind, T, m, pre, pa, ea, pargs, d, up, cnames, len(cnames))


def score(k, ctx, r, kind, T, m, pre, pa, ea, pargs, d, up, cnames, C):
    segs = ['s%02d' % i for i in r.permutation(k['ns'])]
    y = r.randn(k['ns'], d)
    if up:
        y = np.hstack((y, .1 + .8 * r.rand(k['ns'], d)))
    y = y.astype('float32')
    w = HypDataWriter(ctx.path('t.h5'))
    w.write(segs, '', y)
    w.f.close()
    c2i = put(ctx.path('c2i'), [(c, i) for i, c in enumerate(cnames)])
    tl = put(ctx.path('test'), [(s, 'x') for s in segs])
    py = y.astype(float) if pre is None else TransformList.load(ctx.path('pre.h5')).predict(y.astype(float))
    want = m.predict(py, *pargs)
    parts = min(k['parts'], len(segs))
    seen = []
    for j in range(1, parts + 1):
        out = ctx.path('s%d%s' % (j, k['ext']))
        vs = ['--vector-score-file', ctx.path('vs%d.h5' % j)] if k['vec'] else []
        run(ctx, 'eval-' + kind, pa, ['--iv-file', ctx.path('t.h5'), '--class2int-file', c2i, '--test-file', tl, '--model-file', ctx.path('m.h5'), '--score-file', out] + ea + vs
            + (['--seg-part-idx', j, '--num-seg-parts', parts] if parts > 1 else []) + verb(k))
        s = TrialScores.load(out)
        ms, ss = [str(v) for v in s.model_set], [str(v) for v in s.seg_set]
        eq(sorted(ms), sorted(cnames), 'classes in the scores')
        for v in ss:
            i = segs.index(v)
            for c in range(C):
                same(s.scores[ms.index(cnames[c]), ss.index(v)], want[i, c], 'score of %s for %s' % (v, cnames[c]), rtol=1e-4, atol=1e-4 * (1 + np.abs(want).max()))
        require(np.all(s.score_mask), 'all the scores are there')
        if k['vec']:
            rd = RandomAccessDataReaderFactory.create('h5:' + ctx.path('vs%d.h5' % j))
            same(rd.read(ss, squeeze=True), want[[segs.index(v) for v in ss]], 'score vectors', rtol=1e-4, atol=1e-4 * (1 + np.abs(want).max()))
            rd.close()
        seen += ss
    eq(sorted(seen), sorted(segs), 'segments of all the parts')


pl_st = fd(seed=seeds, kind=st.sampled_from(['frplda', 'splda', 'plda']), n=st.integers(24, 40), d=st.integers(2, 4), C=st.integers(6, 8), fmt=fmt_st, pre=st.sampled_from([0, 0, 1, 2]), epochs=st.integers(1, 4),
           ml=st.sampled_from([None, 'ml', 'md', 'ml+md']), mde=st.booleans(), val=st.booleans(), opt=st.integers(0, 3), verb=verb_st, name=st.sampled_from([None, 'p']))


@sub('P32', pl_st, quick=60, nontrivial=lambda k: k['epochs'] > 1)
def plda_training(k, ctx):
    """train-plda: model and likelihoods of the epochs"""
    r = rng(k['seed'])
    kind, d, n, C = k['kind'], k['d'], k['n'], k['C']
    ctx.label(kind)
    names = ['u%02d' % i for i in range(n)]
    cls = r.randint(C, size=n)
    cls[:3 * C] = np.repeat(np.arange(C), 3)
    x = (r.randn(n, d).dot(mix(r, d)) + 2 * r.randn(C, d)[cls]).astype('float32')
    spec = archive(ctx, r, names, x, k['fmt'])
    o = r.permutation(n)
    lst = put(ctx.path('list'), [(names[i], 'c%d' % cls[i]) for i in o])
    pre, a = preproc(k, r, ctx, d)
    rd = lambda l: VectorClassReader(spec, l, None if pre is None else TransformList.load(ctx.path('pre.h5'))).read()
    y, ids = rd(lst)
    a += ['--iv-file', spec, '--train-list', lst, '--output-path', ctx.path('m.v1.h5'), '--plda-type', kind, '--epochs', k['epochs']] + verb(k)
    fit = dict(epochs=k['epochs'])
    kw = {}
    if kind == 'frplda':
        T = FRPLDA
        kw, e = [({}, []), (dict(fullcov_W=False), ['--diag-W']), (dict(update_mu=False), ['--no-update-mu']), ({}, [])][k['opt']]
        a += e
    elif kind == 'splda':
        T = SPLDA
        kw, e = [({}, []), (dict(fullcov_W=False), ['--diag-W']), (dict(update_V=False), ['--no-update-V']), ({}, [])][k['opt']]
        kw = dict(kw, y_dim=min(2, d))
        a += e + ['--y-dim', min(2, d)]
    else:
        T = PLDA
        kw, e = [({}, []), (dict(floor_iD=1e-3), ['--floor-id', 1e-3]), (dict(update_U=False), ['--no-update-U']), ({}, [])][k['opt']]
        kw = dict(kw, y_dim=1, z_dim=min(2, d - 1))
        a += e + ['--y-dim', 1, '--z-dim', min(2, d - 1)]
    if k['name']:
        a += ['--name', k['name']]
    m = T(name=k['name'] or 'plda', **kw)
    if k['ml']:
        a += ['--ml-md', k['ml']]
        fit['ml_md'] = k['ml']
    if k['mde']:
        a += ['--md-epochs', 0, 2]
        fit['md_epochs'] = [0, 2]
    if k['val']:
        vl = put(ctx.path('val'), [(names[i], 'c%d' % cls[i]) for i in o[:n // 2]])
        a += ['--val-list', vl]
        fit['x_val'], fit['class_ids_val'] = rd(vl)
    elbo = m.fit(y, ids, **fit)
    run(ctx, 'train-plda', a)
    g = T.load(ctx.path('m.v1.h5'))
    eq(g.name, m.name, 'name')
    m.save(ctx.path('mine.h5'))
    m = T.load(ctx.path('mine.h5'))
    z1, z2 = r.randn(4, d), r.randn(3, d)
    w = m.llr_1vs1(z1, z2)
    same(g.llr_1vs1(z1, z2), w, 'scores with the trained model', rtol=1e-5, atol=1e-5 * (1 + np.abs(w).max()))
    got = np.loadtxt(ctx.path('m.v1.csv'), delimiter=',', ndmin=2)
    e = elbo if isinstance(elbo, tuple) else (elbo,)
    eq(len(e), 4 if k['val'] else 2, 'likelihoods returned')
    same(got, np.vstack([np.arange(k['epochs'])] + [np.ravel(v) for v in e]).T, 'table of likelihoods', rtol=1e-6, atol=1e-6)


sc_st = fd(seed=seeds, prog=st.sampled_from(['cos-1vs1', 'plda-1vs1', 'plda-nvs1', 'plda-nvs1']), kind=st.sampled_from(['frplda', 'splda', 'plda']), nm=st.integers(1, 4), ns=st.integers(1, 5), per=st.lists(st.integers(1, 3), min_size=4, max_size=4), d=st.integers(2, 3),
           fmt=fmt_st, pre=st.sampled_from([0, 0, 1, 2]), mp=st.integers(1, 2), sp=st.integers(1, 3), method=st.sampled_from([None, 'book', 'vavg', 'vavg-lnorm', 'savg']), ext=st.sampled_from(['.h5', '.txt']),
           ndx=st.sampled_from(['.h5', '.txt', None]), verb=verb_st, dense=st.sampled_from([.6, 1.]))


@sub('P32', sc_st, quick=120, nontrivial=lambda k: k['mp'] * k['sp'] > 1)
def trials(k, ctx):
    """the programs that score trials: cosine and PLDA, one or several enrollment vectors, in parts"""
    r = rng(k['seed'])
    d = k['d']
    many = k['prog'].endswith('nvs1')
    ctx.label(k['prog'])
    models = ['m%d' % i for i in r.permutation(k['nm'])]
    segs = ['s%d' % i for i in r.permutation(k['ns'])]
    enroll = [('e%s-%d' % (m, j), m) for m, p in zip(models, k['per']) for j in range(p if many else 1)]
    enroll = [tuple(enroll[i]) for i in r.permutation(len(enroll))]
    names = [e[0] for e in enroll] + segs
    x = (r.randn(len(names), d) + .5).astype('float32')
    val = dict(zip(names, x.astype(float)))
    spec = archive(ctx, r, names, x, k['fmt'])
    pre, pa = preproc(k, r, ctx, d)
    p = lambda v: v if pre is None else TransformList.load(ctx.path('pre.h5')).predict(v)
    ef = put(ctx.path('enroll'), enroll)
    a = pa + ['--iv-file', spec, '--enroll-file', ef] + verb(k)
    mask = np.ones((len(models), len(segs)), dtype=bool)
    if k['ndx']:
        mask = r.rand(*mask.shape) < k['dense']
        mask[np.arange(len(models)), r.randint(len(segs), size=len(models))] = True
        mask[r.randint(len(models), size=len(segs)), np.arange(len(segs))] = True
        TrialNdx(models, segs, mask).save(ctx.path('ndx' + k['ndx']))
        a += ['--ndx-file', ctx.path('ndx' + k['ndx'])]
    else:
        a += ['--test-file', put(ctx.path('test'), [(s, s) for s in segs])]
        ctx.label('no index')
    xe = p(np.array([val[e[0]] for e in enroll]))
    xt = p(np.array([val[s] for s in segs]))
    if k['prog'] == 'cos-1vs1':
        n = lambda v: v / np.sqrt((v ** 2).sum(axis=1, keepdims=True))
        want = n(xe).dot(n(xt).T) * d
        who = [e[1] for e in enroll]
        tol = 1e-5
    else:
        T = dict(frplda=FRPLDA, splda=SPLDA, plda=PLDA)[k['kind']]
        A = r.randn(d, d)
        W = np.eye(d) + A.dot(A.T)
        kw = dict(frplda=dict(y_dim=d, B=np.eye(d) * 2, W=W), splda=dict(y_dim=1, V=r.randn(1, d), W=W), plda=dict(y_dim=1, z_dim=1, V=r.randn(1, d), U=r.randn(1, d), D=1 + r.rand(d)))[k['kind']]
        m = T(mu=r.randn(d), **kw)
        m.save(ctx.path('m.h5'))
        m = T.load(ctx.path('m.h5'))
        a += ['--model-file', ctx.path('m.h5'), '--plda-type', k['kind']]
        if many:
            who, idx = np.unique([e[1] for e in enroll], return_inverse=True)
            who = [str(v) for v in who]
            if k['method']:
                a += ['--pool-method', k['method']]
            want = m.llr_Nvs1(xe, xt, ids1=idx, method=k['method'] or 'vavg-lnorm')
        else:
            who = [e[1] for e in enroll]
            want = m.llr_1vs1(xe, xt)
        tol = 1e-4
    mp, sp = min(k['mp'], len(models)), min(k['sp'], len(segs))
    if not k['ndx']:
        mp = 1
    got = {}
    for i in range(1, mp + 1):
        for j in range(1, sp + 1):
            out = ctx.path('s%d_%d%s' % (i, j, k['ext']))
            run(ctx, 'eval-' + k['prog'], a, ['--score-file', out] + (['--model-part-idx', i, '--num-model-parts', mp] if mp > 1 else []) + (['--seg-part-idx', j, '--num-seg-parts', sp] if sp > 1 else []))
            s = TrialScores.load(out)
            for u, mo in enumerate(s.model_set):
                for v, se in enumerate(s.seg_set):
                    require((str(mo), str(se)) not in got, 'trial %s %s is in two parts', mo, se)
                    require(s.score_mask[u, v], 'score %s %s is missing', mo, se)
                    got[str(mo), str(se)] = s.scores[u, v]
    eq(sorted(got), sorted((m_, s_) for m_ in models for s_ in segs), 'trials scored')
    for i, m_ in enumerate(who):
        for j, s_ in enumerate(segs):
            same(got[m_, s_], want[i, j], 'score of %s %s' % (m_, s_), rtol=tol, atol=tol * (1 + np.abs(want).max()))


sn_st = fd(seed=seeds, norm=st.sampled_from([None, 's-norm', 't-norm', 'z-norm', 'zt-norm', 'adapt']), nm=st.integers(1, 4), ns=st.integers(1, 4), ce=st.integers(2, 6), ct=st.integers(2, 6), ext=st.sampled_from(['.h5', '.txt']), nb=st.integers(2, 8), extra=st.booleans(), verb=verb_st)


@sub('P32', sn_st, quick=100, nontrivial=lambda k: k['nm'] > 1 and k['ns'] > 1)
def normalisation(k, ctx):
    """eval-score-norm: files with the scores in any order, with more models and segments than needed"""
    r = rng(k['seed'])
    norm = k['norm'] or 's-norm'
    ctx.label(norm)
    M, S = ['m%d' % i for i in range(k['nm'])], ['s%d' % i for i in range(k['ns'])]
    # the cohort on the segment side (columns) and on the model side (rows)
    cs, cm = ['cs%d' % i for i in range(k['ce'])], ['cm%d' % i for i in range(k['ct'])]
    if norm == 'adapt':
        # the closest cohort segments of both sides
        cs = cm = ['c%d' % i for i in range(k['ce'])]

    def table(rows, cols, stem, keep):
        a = r.randn(len(rows), len(cols)) * 3 + 1
        rr = list(rows) + ([] if keep or not k['extra'] else ['zz'])
        cc = list(cols) + ([] if keep or not k['extra'] else ['zz'])
        b = r.randn(len(rr), len(cc))
        b[:len(rows), :len(cols)] = a
        i, j = r.permutation(len(rr)), r.permutation(len(cc))
        TrialScores([rr[q] for q in i], [cc[q] for q in j], b[np.ix_(i, j)]).save(ctx.path(stem + k['ext']))
        return a

    sc = table(M, S, 'sc', True)
    # extra models only where they are not cohort
    def table2(rows, cols, stem, xr, xc):
        a = r.randn(len(rows), len(cols)) * 3 + 1
        rr, cc = list(rows) + (['zz'] if xr and k['extra'] else []), list(cols) + (['zz'] if xc and k['extra'] else [])
        b = r.randn(len(rr), len(cc))
        b[:len(rows), :len(cols)] = a
        i, j = r.permutation(len(rr)), r.permutation(len(cc))
        TrialScores([rr[q] for q in i], [cc[q] for q in j], b[np.ix_(i, j)]).save(ctx.path(stem + k['ext']))
        return a
    ec = table2(M, cs, 'ec', True, False)
    ct = table2(cm, S, 'ct', False, True)
    cc = table2(cm, cs, 'cc', True, True)
    a = ['--score-file', ctx.path('sc' + k['ext']), '--output-file', ctx.path('out' + k['ext'])] + verb(k)
    if k['norm']:
        a += ['--norm-type', 's-norm' if norm == 'adapt' else norm]
    E, T, C = ['--enr-coh-file', ctx.path('ec' + k['ext'])], ['--coh-test-file', ctx.path('ct' + k['ext'])], ['--coh-coh-file', ctx.path('cc' + k['ext'])]
    if norm == 't-norm':
        a += T
        want = TNorm().predict(sc.copy(), ct.copy())
    elif norm == 'z-norm':
        a += E
        want = ZNorm().predict(sc.copy(), ec.copy())
    elif norm == 'zt-norm':
        a += E + T + C
        want = ZTNorm().predict(sc.copy(), ct.copy(), ec.copy(), cc.copy())
    elif norm == 's-norm':
        a += E + T
        want = SNorm().predict(sc.copy(), ct.copy(), ec.copy())
    else:
        a += E + T + ['--adapt-coh', k['nb']]
        want = AdaptSNorm(nbest=k['nb']).predict(sc.copy(), ct.copy(), ec.copy())
    run(ctx, 'eval-score-norm', a)
    g = TrialScores.load(ctx.path('out' + k['ext']))
    eq(sorted(map(str, g.model_set)), sorted(M), 'models')
    eq(sorted(map(str, g.seg_set)), sorted(S), 'segments')
    ms, ss = [str(v) for v in g.model_set], [str(v) for v in g.seg_set]
    same(g.scores[np.ix_([ms.index(v) for v in M], [ss.index(v) for v in S])], want, 'normalised scores', rtol=1e-4, atol=1e-4 * (1 + np.abs(want).max()))


@sub('P32', fd(seed=seeds, nm=st.integers(1, 5), ns=st.integers(2, 6), ext=st.sampled_from(['.h5', '.txt']), kext=st.sampled_from(['.h5', '.txt']), dens=st.sampled_from([.5, 1.]), where=st.sampled_from(['dir', 'new', 'here']), scale=st.sampled_from([.5, 2.]), verb=verb_st), quick=80,
     nontrivial=lambda k: k['nm'] > 1)
def performance(k, ctx):
    """eval-2class-performance"""
    r = rng(k['seed'])
    M, S = ['m%d' % i for i in r.permutation(k['nm'])], ['s%d' % i for i in r.permutation(k['ns'])]
    sc = r.randn(len(M), len(S))
    used = r.rand(*sc.shape) < k['dens']
    tar = used & (r.rand(*sc.shape) < .5)
    used[0, :2] = True
    tar[0, 0], tar[0, 1] = True, False
    non = used & ~tar
    sc[tar] += k['scale']
    kt, kn = tar, non
    o, q = r.permutation(len(M)), r.permutation(len(S))
    TrialScores([M[i] for i in o], [S[i] for i in q], sc[np.ix_(o, q)]).save(ctx.path('s' + k['ext']))
    TrialKey(M, S, kt, kn).save(ctx.path('k' + k['kext']))
    out = {'dir': ctx.path('res'), 'new': ctx.path('a', 'b', 'res'), 'here': 'res'}[k['where']]
    old = os.getcwd()
    os.chdir(ctx.dir)
    try:
        run(ctx, 'eval-2class-performance', '--score-file', ctx.path('s' + k['ext']), '--key-file', ctx.path('k' + k['kext']), '--output-path', out, verb(k))
        txt = open(out + '.res').read()
    finally:
        os.chdir(old)
    sc = sc.astype('float32')
    t, n = sc[tar].astype(float), sc[non].astype(float)
    v = dict(l.split() for l in txt.strip().split('\n'))
    eq(sorted(v), ['EER', 'NNON', 'NTAR'], 'lines')
    eq((int(v['NTAR']), int(v['NNON'])), (len(t), len(n)), 'number of trials')
    same(float(v['EER']), compute_eer(t, n), 'equal error rate', atol=1e-4)


def intervals(v):
    """runs of equal values: (first, end, value)"""
    out = []
    for i, b in enumerate(v):
        if out and out[-1][2] == bool(b):
            out[-1][1] = i + 1
        else:
            out.append([i, i + 1, bool(b)])
    return out


@sub('P32', fd(seed=seeds, n=st.integers(1, 4), prog=st.sampled_from(['arkvad2nist', 'h5vad2nist']), T=st.lists(st.integers(1, 400), min_size=4, max_size=4), run_=st.sampled_from([1, 3, 40]), new=st.booleans(), verb=verb_st), quick=80, nontrivial=lambda k: max(k['T'][:k['n']]) > 3)
def vad_to_nist(k, ctx):
    """VAD archives to tables of intervals"""
    r = rng(k['seed'])
    names = ['u%d' % i for i in range(k['n'])]
    vads = [np.repeat(r.randint(2, size=t), r.randint(1, k['run_'] + 1, size=t))[:t].astype('float32') for t in k['T'][:k['n']]]
    out = ctx.path('out', 'deep') if k['new'] else ctx.dir
    if k['prog'] == 'arkvad2nist':
        archive(ctx, r, names, vads, 'ark')
        run(ctx, k['prog'], '--input-file', ctx.path('v.scp'), '--output-dir', out, verb(k))
    else:
        w = HypDataWriter(ctx.path('v.h5'))
        w.write(names, '', vads)
        w.f.close()
        run(ctx, k['prog'], '--input-file', ctx.path('v.h5'), '--output-dir', out, verb(k))
    for n, v in zip(names, vads):
        got = [l.rstrip('\n').split('\t') for l in open(os.path.join(out, n + '.txt'))]
        want = [['X', 'X', 'X', 'SAD', n, '%.2f' % (a * .01), '%.2f' % (b * .01), 'speech' if s else 'non-speech', '1.00'] for a, b, s in intervals(v)]
        eq(got, want, 'intervals of ' + n)


vd_st = fd(seed=seeds, prog=st.sampled_from(['rttm-to-bin-vad', 'segments-to-bin-vad']), files=st.integers(1, 4), segs=st.integers(1, 8), fs=st.sampled_from([None, 10, 12.5, 20]), nf=st.booleans(), silent=st.booleans(), parts=st.integers(1, 3), fmt=st.sampled_from(['h5', 'ark']), verb=verb_st)


@sub('P32', vd_st, quick=120, nontrivial=lambda k: k['parts'] > 1 or k['nf'])
def bin_vad(k, ctx):
    """segments to frame decisions"""
    r = rng(k['seed'])
    fs = k['fs'] or 10
    files = ['f%d' % i for i in range(k['files'])]
    segs = []
    for f in files:
        b = np.cumsum(.2 + r.rand(2 * k['segs'])) + r.rand()
        segs += [(f, round(b[2 * i], 3), round(b[2 * i + 1], 3)) for i in range(r.randint(1, k['segs'] + 1))]
    # frame boundaries away from the ends of the segments
    c = lambda t: (np.floor(t * 1000 / fs) + .4) * fs / 1000
    segs = [(f, round(c(a), 4), round(max(c(b), c(a) + 2 * fs / 1000), 4)) for f, a, b in segs]
    if k['prog'].startswith('rttm'):
        inp = ['--rttm', put(ctx.path('in'), [('SPEAKER', f, 1, '%.4f' % a, '%.4f' % (b - a), '<NA>', '<NA>', 's%d' % (i % 2), '<NA>', '<NA>') for i, (f, a, b) in enumerate(segs)])]
        sl = RTTM.load(ctx.path('in')).to_segment_list()
    else:
        inp = ['--segments', put(ctx.path('in'), [('%s-%03d' % (f, i), f, '%.4f' % a, '%.4f' % b) for i, (f, a, b) in enumerate(segs)])]
        sl = SegmentList.load(ctx.path('in'))
    T = {f: int(max(b for g, a, b in segs if g == f) * 1000 / fs) + 2 + r.randint(50) for f in files}
    silent = ['quiet1', 'quiet2'] if k['silent'] and k['prog'].startswith('rttm') else []
    for f in silent:
        T[f] = r.randint(1, 60)
    a = inp + verb(k)
    if k['fs']:
        a += ['--frame-shift', k['fs']]
    if k['nf']:
        a += ['--num-frames', put(ctx.path('nf'), [(f, T[f]) for f in r.permutation(list(T))])]
    parts = min(k['parts'], len(files))
    got = {}
    for j in range(1, parts + 1):
        out = ctx.path('v%d.%s' % (j, k['fmt']))
        run(ctx, k['prog'], a, '--output-path', '%s:%s' % (k['fmt'], out), ['--part-idx', j, '--num-parts', parts] if parts > 1 else [])
        rd = SequentialDataReaderFactory.create('%s:%s' % (k['fmt'], out))
        ks, vs = rd.read(0)
        rd.close()
        for f, v in zip(ks, vs):
            require(f not in got, 'VAD of %s is in two parts', f)
            got[str(f)] = v
    eq(sorted(got), sorted(files + (silent if k['nf'] else [])), 'files')
    for f, v in got.items():
        if f in silent:
            same(v, np.ones(T[f]), 'VAD of a file without segments')
            continue
        want = np.asarray(sl.to_bin_vad(f, frame_shift=fs, num_frames=T[f] if k['nf'] else None), dtype=float)
        if k['nf']:
            eq(len(v), T[f], 'number of frames')
        same(np.asarray(v, dtype=float), want, 'VAD of ' + f)
        require(v.sum() > 0, 'VAD of %s has no speech', f)
        # middle of each segment is speech, times out of all of them are not
        for i in range(len(v)):
            t = (i + .5) * fs / 1000
            inside = [t > a + fs / 1000 and t < b - fs / 1000 for g, a, b in segs if g == f]
            near = [t > a - fs / 1000 and t < b + fs / 1000 for g, a, b in segs if g == f]
            if any(inside):
                require(v[i] == 1, 'frame %d of %s is speech', i, f)
            elif not any(near):
                require(v[i] == 0, 'frame %d of %s is not speech', i, f)


@sub('P32', fd(seed=seeds, nm=st.integers(1, 4), ns=st.integers(1, 5), ext=st.sampled_from(['.h5', '.txt']), cls=st.booleans(), tl=st.booleans(), add=st.booleans(), miss=st.booleans(), verb=verb_st), quick=80, nontrivial=lambda k: k['cls'] or k['tl'])
def lre_format(k, ctx):
    """scores2lre_format: a table of segments by classes, -100 where there is no score"""
    r = rng(k['seed'])
    M, S = ['c%d' % i for i in r.permutation(k['nm'])], ['s%d' % i for i in r.permutation(k['ns'])]
    sc = r.randn(len(M), len(S)) * 5
    mask = r.rand(*sc.shape) < (.7 if k['miss'] else 2)
    TrialScores(M, S, sc, mask).save(ctx.path('s' + k['ext']))
    if k['ext'] == '.txt':
        # models and segments without any score are not in the file
        M2, S2 = [m for i, m in enumerate(M) if mask[i].any()], [s for j, s in enumerate(S) if mask[:, j].any()]
        if not M2:
            return
    else:
        M2, S2 = M, S
    a = ['--input-file', ctx.path('s' + k['ext']), '--output-file', ctx.path('out')] + verb(k)
    om, os_ = None, None
    if k['cls']:
        om = [M[i] for i in r.permutation(len(M))]
        a += ['--class-file', put(ctx.path('cls'), [(m, 'x') for m in om])]
    add = k['add'] and k['tl']
    if k['tl']:
        os_ = [S[i] for i in r.permutation(len(S))]
        exts = {s: ['.sph', '.wav'][r.randint(2)] if add else '' for s in S}
        a += ['--test-list', put(ctx.path('tl'), [('segmentid', 'x')] + [(s + exts[s], 'y') for s in os_])]
        if add:
            a.append('--add-ext')
    run(ctx, 'scores2lre_format', a)
    rows = [l.rstrip('\n').split('\t') for l in open(ctx.path('out'))]
    eq(rows[0][0], 'segmentid', 'header')
    models = rows[0][1:]
    if om:
        eq(models, om, 'classes')
    else:
        eq(sorted(models), sorted(M2), 'classes')
    segs = [x[0] for x in rows[1:]]
    if os_:
        eq(segs, [s + exts[s] for s in os_], 'segments')
    else:
        eq(sorted(segs), sorted(S2), 'segments')
    for x in rows[1:]:
        eq(len(x), len(models) + 1, 'columns')
        s = os.path.splitext(x[0])[0] if add else x[0]
        for m, v in zip(models, x[1:]):
            i, j = M.index(m), S.index(s)
            same(float(v), np.float32(sc[i, j]) if mask[i, j] else -100., 'score of %s %s' % (m, s), rtol=1e-5, atol=2e-6)


@sub('P32', fd(seed=seeds, n=st.integers(1, 5), C=st.integers(2, 4), fmt=fmt_st, ext=st.sampled_from(['.h5', '.txt'])), quick=50, nontrivial=lambda k: k['n'] > 1)
def vectors_to_scores(k, ctx):
    """vectors2scores: archives of score vectors to scores"""
    r = rng(k['seed'])
    names = ['u%d' % i for i in range(k['n'])]
    x = r.randn(k['n'], k['C']).astype('float32')
    spec = archive(ctx, r, names, x, k['fmt'])
    cn = ['c%d' % i for i in r.permutation(k['C'])]
    run(ctx, 'vectors2scores', '--input-file', spec, '--output-file', ctx.path('o' + k['ext']), '--class-file', put(ctx.path('c'), [(c, 'x') for c in cn]))
    s = TrialScores.load(ctx.path('o' + k['ext']))
    ms, ss = [str(v) for v in s.model_set], [str(v) for v in s.seg_set]
    eq((sorted(ms), sorted(ss)), (sorted(cn), sorted(names)), 'classes and segments')
    same(s.scores[np.ix_([ms.index(c) for c in cn], [ss.index(n) for n in names])].T, x, 'scores', rtol=1e-5, atol=1e-5)


ft_st = fd(seed=seeds, prog=st.sampled_from(['mfcc', 'mfcc', 'mfcc-later', 'vad']), lens=st.lists(st.integers(400, 3000), min_size=1, max_size=4), fs=st.sampled_from([4000, 8000]), fl=st.sampled_from([None, 20, 16]), sh=st.sampled_from([None, 8]), snip=st.booleans(),
           out=st.sampled_from(['h5', 'ark', 'ark,scp', 'ark,scp,t']), comp=st.sampled_from([None, None, 'auto', 'speech-feat', '2byte-auto']), nc=st.sampled_from([None, 5]), energy=st.booleans(), step=st.sampled_from(['cepstrum', 'logfb', 'fft_mag']), nf=st.booleans(),
           inp=st.sampled_from(['fft_mag', 'logfb']), scale=st.sampled_from([None, '1', '0.5']), ctxt=st.integers(0, 3), verb=verb_st)


@sub('P32', ft_st, quick=120, nontrivial=lambda k: len(k['lens']) > 1)
def features(k, ctx):
    """compute-mfcc-feats and compute-energy-vad over recordings, or over features stored at a later stage"""
    r = rng(k['seed'])
    ctx.label(k['prog'])
    names = ['w%d' % i for i in r.permutation(len(k['lens']))]
    cfg = dict(fs=k['fs'], dither=0, snip_edges=k['snip'])
    a = ['--sample-frequency', k['fs'], '--dither', 0, '--snip-edges', 'true' if k['snip'] else 'false'] + verb(k)
    if k['fl']:
        cfg['frame_length'] = k['fl']
        a += ['--frame-length', k['fl']]
    if k['sh']:
        cfg['frame_shift'] = k['sh']
        a += ['--frame-shift', k['sh']]
    wavs = [np.round(3000 * r.randn(n)).clip(-32768, 32767).astype('int16') for n in k['lens']]
    spec = k['out'] + ':' + ctx.path('f.h5' if k['out'] == 'h5' else 'f.ark') + (',' + ctx.path('f.scp') if 'scp' in k['out'] else '')
    a += ['--output', spec]
    if k['prog'] != 'mfcc-later':
        import soundfile as sf
        for n, x in zip(names, wavs):
            sf.write(ctx.path(n + '.wav'), x, k['fs'], subtype='PCM_16')
        a += ['--input', put(ctx.path('wav.scp'), [(n, ctx.path(n + '.wav')) for n in names])]
    if k['prog'] == 'vad':
        e = [.5, .9, 1.1][k['seed'] % 3]
        a += ['--vad-energy-mean-scale', e, '--vad-energy-threshold', .5, '--vad-frames-context', k['ctxt'], '--vad-proportion-threshold', .4]
        v = EnergyVAD(vad_energy_mean_scale=e, vad_energy_threshold=.5, vad_frames_context=k['ctxt'], vad_proportion_threshold=.4, **cfg)
        want = []
        for x in wavs:
            want.append(v.compute(x.astype('float32')))
            v.reset()
        run(ctx, 'compute-energy-vad', a)
    else:
        cfg.update(fft_length=256, num_filters=12, low_freq=50, use_energy=k['energy'], output_step=k['step'])
        a += ['--fft-length', 256, '--num-filters', 12, '--low-freq', 50, '--use-energy', 'true' if k['energy'] else 'false', '--output-step', k['step'], '--fb-type', 'linear']
        cfg['fb_type'] = 'linear'
        if k['nc']:
            cfg['num_ceps'] = k['nc']
            a += ['--num-ceps', k['nc']]
        else:
            cfg['num_ceps'] = 12
            a += ['--num-ceps', 12]
        if k['comp']:
            a += ['--compress', '--compression-method', k['comp']]
        if k['nf']:
            a += ['--write-num-frames', ctx.path('nf')]
        if k['prog'] == 'mfcc-later':
            first = MFCC(**dict(cfg, output_step=k['inp']))
            wavs = []
            for n in k['lens']:
                wavs.append(first.compute(3000 * r.randn(n)))
                first.reset()
            wavs = [x.astype('float32') for x in wavs]
            cfg.update(input_step=k['inp'], output_step='cepstrum', use_energy=False)
            a += ['--input-step', k['inp'], '--output-step', 'cepstrum', '--use-energy', 'no', '--input', archive(ctx, r, names, wavs, 'scp', 'in')]
            names_in = [l.split()[0] for l in open(ctx.path('in.scp'))]
            wavs = [wavs[names.index(n)] for n in names_in]
            names = names_in
        m = MFCC(**cfg)
        want = []
        for x in wavs:
            want.append(m.compute(x if k['prog'] == 'mfcc-later' else x.astype('float32')))
            m.reset()
        run(ctx, 'compute-mfcc-feats', a)
        if k['nf']:
            eq([l.split() for l in open(ctx.path('nf'))], [[n, str(len(y))] for n, y in zip(names, want)], 'numbers of frames')
    with SequentialDataReaderFactory.create(('h5:' if k['out'] == 'h5' else 'ark:') + ctx.path('f.h5' if k['out'] == 'h5' else 'f.ark')) as rd:
        ks, xs = rd.read()
    got = dict(zip([str(v) for v in ks], xs))
    eq(sorted(got), sorted(names), 'recordings')
    for n, y in zip(names, want):
        eq(got[n].shape, y.shape, 'shape of ' + n)
        t = 1e-4 * (1 + np.abs(y).max())
        if k['comp'] and k['prog'] != 'vad':
            t = .15 * (y.max() - y.min()) + 1e-3 if y.size else 0
        same(got[n], y, 'features of ' + n, rtol=1e-4, atol=t)


@sub('P32', fd(seed=seeds, prog=st.sampled_from(['merge-h5-files', 'ark2hyp', 'copy-feats']), parts=st.integers(1, 3), per=st.integers(1, 4), chunk=st.sampled_from([None, 1, 2]), vec=st.booleans(), squeeze=st.booleans(), field=st.sampled_from(['', '.x']), dir=st.sampled_from(['new', 'here', 'full']), fmt=fmt_st, text=st.booleans(),
               comp=st.booleans(), verb=verb_st), quick=100, nontrivial=lambda k: k['parts'] * k['per'] > 1)
def copies(k, ctx):
    """the programs that copy, join and convert archives"""
    r = rng(k['seed'])
    ctx.label(k['prog'])
    P = k['parts'] if k['prog'] != 'ark2hyp' else 1
    names = [['u%d-%d' % (p, i) for i in r.permutation(k['per'])] for p in range(P)]
    data = {n: r.randn(*((3,) if k['vec'] else (r.randint(1, 6), 3))).astype('float32') for p in names for n in p}
    out = {'new': ctx.path('a', 'b', 'out.h5'), 'here': 'out.h5', 'full': ctx.path('out.h5')}[k['dir']]
    old = os.getcwd()
    os.chdir(ctx.dir)
    try:
        if k['prog'] == 'merge-h5-files':
            out = 'out.h5' if k['dir'] == 'here' else ctx.path('out.h5')
            for p, v in enumerate(names):
                archive(ctx, r, v, [data[n] for n in v], 'h5', 'p%d' % p)
            run(ctx, k['prog'], '--input-files', [ctx.path('p%d.h5' % p) for p in range(P)], '--output-path', out, ['--chunk-size', k['chunk']] if k['chunk'] else [])
        elif k['prog'] == 'ark2hyp':
            v = names[0]
            with DataWriterFactory.create('ark,scp%s:%s,%s' % (',t' if k['text'] and not k['vec'] else '', ctx.path('v.ark'), ctx.path('v.scp'))) as w:
                w.write(v, [data[n] for n in v])
            d = ['--input-dir', ctx.dir] if k['seed'] % 2 else []
            if d:
                t = open(ctx.path('v.scp')).read()
                open(ctx.path('v.scp'), 'w').write(t.replace(ctx.dir + '/', ''))
            run(ctx, k['prog'], d, '--input-file', ctx.path('v.scp'), '--output-file', out, ['--field', k['field']] if k['field'] else [], ['--chunk-size', k['chunk']] if k['chunk'] else [], ['--squeeze'] if k['squeeze'] else [], verb(k))
            data = {n + k['field']: x.squeeze() if k['squeeze'] else x for n, x in data.items()}
        else:
            out = 'out.h5' if k['dir'] == 'here' else ctx.path('out.h5')
            sp = [archive(ctx, r, v, [data[n] for n in v], k['fmt'], 'p%d' % p) for p, v in enumerate(names)]
            comp = k['comp'] and not k['vec']
            run(ctx, k['prog'], '--input', sp, '--output', 'h5:' + out, ['--compress', '--compression-method', 'auto'] if comp else [], verb(k))
        import h5py
        with h5py.File(out, 'r') as f:
            eq(sorted(f), sorted(data), 'records')
            for n, x in data.items():
                y = np.asarray(f[n])
                if k['prog'] == 'copy-feats' and comp:
                    continue
                eq(y.shape, x.shape, 'shape of ' + n)
                same(y, x, 'values of ' + n, rtol=1e-5, atol=1e-6)
        with SequentialDataReaderFactory.create('h5:' + out) as rd:
            ks, xs = rd.read()
        for n, y in zip(ks, xs):
            x = data[str(n)]
            same(y, x, 'values of ' + str(n), rtol=1e-5, atol=.2 * (x.max() - x.min()) if k['prog'] == 'copy-feats' and comp else 1e-6)
    finally:
        os.chdir(old)


@sub('P32', fd(seed=seeds, prog=st.sampled_from(['eval-elbo-ubm', 'compute-gmm-post']), K=st.integers(1, 5), d=st.integers(1, 3), n=st.integers(1, 4), T=st.integers(1, 12), kaldi=st.booleans(), pre=st.sampled_from([0, 0, 1, 2]), parts=st.integers(1, 2), nc=st.integers(1, 5), sep=st.sampled_from([None, ' ']), verb=verb_st),
     quick=80, nontrivial=lambda k: k['K'] > 1 and k['n'] > 1)
def mixtures(k, ctx):
    """posteriors and likelihood of sequences for a mixture"""
    r = rng(k['seed'])
    ctx.label(k['prog'])
    K, d = k['K'], k['d']
    pi, mu, iv = r.dirichlet(5 * np.ones(K)), r.randn(K, d) * 2, .5 + r.rand(K, d)
    m = GMMDiagCov(x_dim=d, num_comp=K, pi=pi, mu=mu, Lambda=iv)
    kaldi = k['kaldi'] or k['prog'] == 'compute-gmm-post'
    if kaldi:
        mat = lambda M: ' [\n' + '\n'.join('  ' + ' '.join('%.10g' % v for v in row) + ' ' for row in M) + ']\n'
        with open(ctx.path('m'), 'w') as h:
            h.write('<DiagGMM> \n<GCONSTS>  [ ' + ' '.join('%.10g' % v for v in r.randn(K)) + ' ]\n<WEIGHTS>  [ ' + ' '.join('%.10g' % v for v in pi) + ' ]\n')
            h.write('<MEANS_INVVARS> ' + mat(iv * mu) + '<INV_VARS> ' + mat(iv) + '</DiagGMM> \n')
    else:
        m.save(ctx.path('m'))
    names = ['u%d' % i for i in r.permutation(k['n'])]
    data = {n: r.randn(r.randint(1, k['T'] + 1), d).astype('float32') for n in names}
    w = HypDataWriter(ctx.path('v.h5'))
    w.write(names, '', [data[n] for n in names])
    w.f.close()
    pre, a = preproc(k, r, ctx, d)
    p = lambda v: v if pre is None else pre.predict(v)
    a += ['--seq-file', ctx.path('v.h5'), '--file-list', put(ctx.path('l'), [('any', n) for n in names], k['sep'] or '='), '--model-file', ctx.path('m')] + verb(k)
    if k['sep']:
        a += ['--scp-sep', k['sep']]
    P = min(k['parts'], len(names))
    # densities of the components
    def logp(x):
        x = x.astype(float)
        return np.stack([np.log(pi[c]) + .5 * np.sum(np.log(iv[c])) - .5 * d * np.log(2 * np.pi) - .5 * np.sum(iv[c] * (x - mu[c]) ** 2, axis=1) for c in range(K)], axis=1)
    lp = {n: logp(p(data[n])) for n in names}
    if k['prog'] == 'eval-elbo-ubm':
        tot = nf = 0
        for j in range(1, P + 1):
            run(ctx, k['prog'], a, '--output-file', ctx.path('o'), '--ubm-type', 'kaldi-diag-gmm' if kaldi else 'diag-gmm', ['--part-idx', j, '--num-parts', P] if P > 1 else [])
            v = [l.split(' ') for l in open(ctx.path('o')).read().strip().split('\n')]
            eq((v[0][:2], v[1][0]), (['Total', 'ELBO:'], 'ELBO_NORM'), 'lines of the output')
            tot += float(v[0][2])
            nf += float(v[0][2]) / float(v[1][1]) if float(v[1][1]) else 0
        # expectation of the log-density of data and components
        z = {n: np.sum(np.exp(v - np.logaddexp.reduce(v, axis=1)[:, None]) * v) for n, v in lp.items()}
        want = sum(z.values())
        same(tot, want, 'total lower bound', rtol=1e-4, atol=1e-4 * (1 + sum(abs(v) for v in z.values())))
        if P == 1:
            same(float(v[1][1]), want / sum(len(x) for x in data.values()), 'lower bound per frame', rtol=1e-4, atol=1e-4 * (1 + abs(want)))
        return
    nc = min(k['nc'], K)
    seen = []
    for j in range(1, P + 1):
        out = ctx.path('post%d.h5' % j)
        run(ctx, k['prog'], a, '--output-path', out, '--num-comp', nc, ['--part-idx', j, '--num-parts', P] if P > 1 else [])
        import h5py
        with h5py.File(out, 'r') as f:
            us = sorted(set(n.rsplit('.', 1)[0] for n in f))
            eq(sorted(f), sorted(u + e for u in us for e in ('.r', '.index')), 'records')
            seen += us
            for u in us:
                q, i = np.asarray(f[u + '.r']), np.asarray(f[u + '.index'])
                eq((q.shape, i.shape), ((len(data[u]), nc),) * 2, 'shape of the posteriors')
                z = np.exp(lp[u] - np.logaddexp.reduce(lp[u], axis=1)[:, None])
                for t in range(len(z)):
                    it = i[t].astype(int)
                    eq(len(set(it)), nc, 'different components')
                    best = np.sort(z[t])[::-1][:nc]
                    same(np.sort(z[t][it])[::-1], best, 'posteriors of the best components', rtol=1e-3, atol=1e-4)
                    same(q[t], z[t][it] / best.sum(), 'posteriors', rtol=1e-3, atol=1e-4)
    eq(sorted(seen), sorted(names), 'sequences of all the parts')
