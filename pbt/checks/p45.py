"""P45: training helpers of the Keras part (callbacks, optimizers, checkpoints, losses by sample) and its extraction and evaluation programs, on the numpy stand-in of Keras."""
import argparse
import contextlib
import io
import logging
import os
import warnings

import numpy as np

from pbt.core import *
from pbt.keraslib import K
import keras.callbacks as KC
import keras.optimizers as KO
import hyperion.keras.keras_utils as KU
from keras.models import Model
from hyperion.hyp_defs import float_cpu, set_float_cpu
from hyperion.io import DataWriterFactory, RandomAccessDataReaderFactory
from hyperion.keras.callbacks import HypModelCheckpoint, LearningRateSteps, ReduceLROnPlateauIncreaseOnImprovement
from hyperion.keras.embed import SeqEmbed, SeqQEmbed, SeqEmbedLDE
from hyperion.keras.vae import TiedDVAE_QY
from hyperion.keras.helpers import CallbacksFactory, OptimizerFactory
from hyperion.keras.keras_model_loader import KerasModelLoader
from hyperion.transforms import TransformList, CentWhiten, LNorm
from pbt.checks.p32 import run
from pbt.checks.p43 import to_prec, from_prec
from pbt.checks.p44 import encoder, pt_net, pooled, whole

RULE = 'more than one epoch with and without improvement, or options different from the defaults'
TOL = dict(rtol=1e-4, atol=1e-5)


class Opt(object):
    def __init__(self, lr):
        self.lr = K.variable(lr)


class Net(object):
    def __init__(self, lr=1.):
        self.optimizer = Opt(lr)


metric = st.lists(st.sampled_from([None, 0, 0.1, 0.2, 0.25, 0.3, 0.35, 0.5, 0.55, 1.5]), min_size=1, max_size=25)


def better(mode, monitor, delta=0):
    if mode == 'max' or mode == 'auto' and 'acc' in monitor:
        return (lambda a, b: a > b + delta), -np.inf
    return (lambda a, b: a < b - delta), np.inf


@sub('P45', fd(h=metric, again=metric, red=st.sampled_from([0.1, 0.5, 0.9]), inc=st.sampled_from([1, 1.1, 2]), patience=st.integers(1, 4), mode=st.sampled_from(['auto', 'min', 'max']), monitor=st.sampled_from(['val_loss', 'val_acc']), delta=st.sampled_from([0, 1e-4, 0.12]),
               cooldown=st.integers(0, 3), min_lr=st.sampled_from([0, 0.01, 0.3]), lr=st.sampled_from([0.002, 0.5, 1.])), quick=500, nontrivial=lambda c: len(c['h']) > c['patience'])
def plateau(c, ctx):
    """learning rate over the epochs of a training, that is reduced without and increased with improvements"""
    cb = ReduceLROnPlateauIncreaseOnImprovement(monitor=c['monitor'], red_factor=c['red'], inc_factor=c['inc'], patience=c['patience'], mode=c['mode'], min_delta=c['delta'], cooldown=c['cooldown'], min_lr=c['min_lr'])
    net = Net(c['lr'])
    cb.set_model(net)
    op, worst = better(c['mode'], c['monitor'], c['delta'])
    lr = c['lr']
    warnings.simplefilter('ignore')
    for h in (c['h'], c['again']):
        cb.on_train_begin()
        best, cool, bad, good = worst, 0, 0, 0
        for i, v in enumerate(h):
            logs = {'loss': 3.} if v is None else {'loss': 3., c['monitor']: v}
            cb.on_epoch_end(i, logs)
            same(logs['lr'], lr, 'learning rate of epoch %d in the logs' % i, rtol=1e-6)
            if v is not None:
                if cool > 0:
                    cool, bad = cool - 1, 0
                if op(v, best):
                    best, bad = v, 0
                    if not cool:
                        good += 1
                        if good >= c['patience']:
                            lr, cool, good = lr * c['inc'], c['cooldown'], 0
                            ctx.label('increased')
                elif not cool:
                    bad += 1
                    if bad >= c['patience'] and lr > c['min_lr']:
                        lr, cool, bad = max(lr * c['red'], c['min_lr']), c['cooldown'], 0
                        ctx.label('reduced')
            same(K.get_value(net.optimizer.lr), lr, 'learning rate after epoch %d' % i, rtol=1e-6)
    for f in (1., 1.5):
        raises(lambda: ReduceLROnPlateauIncreaseOnImprovement(red_factor=f), 'a factor of reduction of %g' % f, ValueError)
    eq(ReduceLROnPlateauIncreaseOnImprovement(epsilon=0.5).min_delta, 0.5, 'min_delta from epsilon')
    eq(ReduceLROnPlateauIncreaseOnImprovement(mode='other').mode, 'auto', 'unknown mode')


class Saved(object):
    def __init__(self):
        self.files = []

    def save(self, f):
        self.files.append(f)


@sub('P45', fd(h=metric, best_only=st.booleans(), mode=st.sampled_from(['auto', 'min', 'max']), monitor=st.sampled_from(['val_loss', 'val_acc', 'loss']), period=st.integers(1, 3), steps=st.dictionaries(st.integers(0, 12), st.sampled_from([0.1, 0.01, 2.]), max_size=4), first=st.integers(0, 3), seed=seeds), quick=300,
     nontrivial=lambda c: len(c['h']) > 2)
def checkpoints(c, ctx):
    """models saved over the epochs of a training, and the last one that is found to continue it"""
    m = Saved()
    d = ctx.path('exp')
    name = '/model.best' if c['best_only'] else '/model.{epoch:04d}'
    cb = HypModelCheckpoint(m, d + name, monitor=c['monitor'], verbose=1, save_best_only=c['best_only'], save_weights_only=False, mode=c['mode'], period=c['period'])
    net = Net(1.)
    ls = LearningRateSteps(c['steps'])
    ls.set_model(net)
    op, best = better(c['mode'], c['monitor'])
    want, lr = [], 1.
    warnings.simplefilter('ignore')
    last = None
    for i, v in enumerate(c['h']):
        e = i + c['first']
        ls.on_epoch_begin(e)
        lr = c['steps'].get(e, lr)
        same(K.get_value(net.optimizer.lr), lr, 'learning rate of epoch %d' % e, rtol=1e-6)
        cb.on_epoch_end(e, {} if v is None else {c['monitor']: v})
        if (i + 1) % c['period'] == 0:
            if not c['best_only']:
                want.append('%s/model.%04d' % (d, e))
                last = e
            elif v is not None and op(v, best):
                best = v
                want.append(d + '/model.best')
        eq(m.files, want, 'models saved until epoch %d' % e)
    if len(c['h']) > 8:
        return
    # a real model with the same names
    r = rng(c['seed'])
    nets = {}
    os.makedirs(d)
    eq(KerasModelLoader.load_checkpoint(d, 100), (None, 0), 'checkpoint of a training not started')
    e = dict(dx=2, dy=2, r=1, mp=True, layers=[1], pos=False)
    for f in m.files:
        s = SeqEmbed(encoder(e, r, 8), pt_net(r, 4, 3)) if c['seed'] % 3 else SeqQEmbed(encoder(e, r, 8, heads=2), 3)
        s.build()
        s.save(f)
        nets[f] = s
    if not m.files:
        return
    upto = c['first'] + len(c['h']) + 3 if c['seed'] % 2 or last is None else last
    got, ep = KerasModelLoader.load_checkpoint(d, upto)
    eq(ep, 0 if c['best_only'] else last, 'epoch of the last checkpoint')
    require(got is not None, 'the checkpoint is not found')
    x = r.randn(2, 8, 2)
    got.build()
    s = nets[m.files[-1]]
    eq(type(got), type(s), 'class of the model')
    same(enc_out(got, x), enc_out(s, x), 'model of the last checkpoint', rtol=1e-6)
    eq(got.get_config(), s.get_config(), 'configuration')
    if not c['best_only'] and len(m.files) > 1:
        got, ep = KerasModelLoader.load_checkpoint(d, last - 1)
        eq('%s/model.%04d' % (d, ep), m.files[-2], 'checkpoint before the last epoch')
        same(enc_out(got, x), enc_out(nets[m.files[-2]], x), 'model before the last', rtol=1e-6)


def body(m):
    return m.prepool_net if isinstance(m, SeqQEmbed) else m.qy_net if isinstance(m, TiedDVAE_QY) else m.enc_net


def enc_out(m, x):
    o = body(m).predict(x)
    return o[0] if isinstance(o, list) else o


OPTS = dict(opt_type=['sgd', 'nsgd', 'rmsprop', 'adam', 'nadam', 'adamax'], lr=[0.1, 0.5], momentum=[0.25, 0.75], lr_decay=[0.125, 0.], rho=[0.5, 0.75], epsilon=[0.25, 1e-3], beta_1=[0.5, 0.25], beta_2=[0.125, 0.5], clipnorm=[3., 7.], clipvalue=[11., 2.], amsgrad=[True])
CBS = dict(save_all_epochs=[True], monitor=['loss', 'val_acc'], monitor_mode=['min', 'max'], patience=[3, 7], min_delta=[0.5, 0.], lr_monitor=['loss', 'acc'], lr_monitor_mode=['max', 'min'], lr_patience=[2, 5], lr_factor=[0.5, 0.25], lr_red_factor=[0.5, 0.125], lr_inc_factor=[1.5, 2.], min_lr=[0.125, 0.], log_append=[True])


def some(d):
    return st.fixed_dictionaries({}, optional={k: st.sampled_from(v) for k, v in d.items()})


@sub('P45', fd(opt=some(OPTS), cb=some(CBS), prefix=st.sampled_from([None, 'x']), seed=seeds), quick=300, nontrivial=lambda c: len(c['opt']) > 1 and len(c['cb']) > 1)
def factories(c, ctx):
    """options of the command line in the optimizer and the callbacks that are made"""
    p = argparse.ArgumentParser()
    kw = dict(prefix=c['prefix']) if c['prefix'] else {}
    for F in (OptimizerFactory, CallbacksFactory):
        F.add_argparse_args(p, **kw)
    pre = '--' + (c['prefix'] + '-' if c['prefix'] else '')
    a = []
    for d in (c['opt'], c['cb']):
        for k, v in d.items():
            a.append(pre + {'opt_type': 'optimizer', 'beta_1': 'beta1', 'beta_2': 'beta2'}.get(k, k.replace('_', '-')))
            if v is not True:
                a.append(str(v))
    try:
        args = vars(p.parse_args(a))
    except SystemExit:
        raise Violation('the options %s are not accepted' % a)
    o = dict(opt_type='adam', lr=0.002, momentum=0.6, lr_decay=1e-6, rho=0.9, epsilon=1e-8, beta_1=0.9, beta_2=0.999, clipnorm=10., clipvalue=100., amsgrad=False)
    o.update(c['opt'])
    opt = OptimizerFactory.create_optimizer(**OptimizerFactory.filter_args(**dict(args, other=1, **kw)))
    t = o['opt_type']
    eq(type(opt).__name__, dict(sgd='SGD', nsgd='SGD', rmsprop='RMSprop', adam='Adam', nadam='Nadam', adamax='Adamax')[t], 'optimizer')
    names = dict(sgd=['momentum', 'decay'], nsgd=['momentum', 'decay'], rmsprop=['rho', 'epsilon', 'decay'], adam=['beta_1', 'beta_2', 'epsilon', 'decay', 'amsgrad'], nadam=['beta_1', 'beta_2', 'epsilon', 'schedule_decay'], adamax=['beta_1', 'beta_2', 'epsilon', 'decay'])[t]
    cfg = opt.get_config()
    for n in names + ['lr', 'clipnorm', 'clipvalue']:
        same(cfg[n], o['lr_decay' if n.endswith('decay') else n], '%s: %s' % (t, n), rtol=1e-6)
    if t in ('sgd', 'nsgd'):
        eq(cfg['nesterov'], t == 'nsgd', 'Nesterov momentum')

    o = dict(save_all_epochs=False, monitor='val_loss', monitor_mode='auto', patience=100, min_delta=1e-4, lr_monitor=None, lr_monitor_mode='auto', lr_patience=10, lr_factor=0.1, lr_red_factor=None, lr_inc_factor=None, min_lr=1e-5, log_append=False)
    o.update(c['cb'])
    d = ctx.path('exp/a')
    m = Saved()
    k = CallbacksFactory.filter_args(**dict(args, other=1, **kw))
    if o['lr_inc_factor'] is not None and o['lr_red_factor'] is None:
        k['lr_red_factor'] = o['lr_red_factor'] = 0.5
    if c['seed'] % 3 == 0:
        k['lr_steps'] = o['lr_steps'] = {3: 0.5}
    none = c['seed'] % 5 == 0
    if none:
        k.update(patience=None, lr_patience=None)
    cbs = CallbacksFactory.create_callbacks(m, d, **k)
    require(os.path.isdir(d), 'the directory of the experiment is not made')
    want = ['HypModelCheckpoint', 'CSVLogger'] + ([] if none else ['EarlyStopping']) + (['LearningRateSteps'] if 'lr_steps' in o else []) + ([] if none else ['ReduceLROnPlateau' if o['lr_inc_factor'] is None else 'ReduceLROnPlateauIncreaseOnImprovement'])
    eq([type(x).__name__ for x in cbs], want, 'callbacks')
    op, best = better(o['monitor_mode'], o['monitor'])
    lop, _ = better(o['lr_monitor_mode'], o['lr_monitor'] or o['monitor'])
    for x in cbs:
        n = type(x).__name__
        if n == 'HypModelCheckpoint':
            eq((x.monitor, x.save_best_only, x.filepath, x.period), (o['monitor'], not o['save_all_epochs'], d + ('/model.{epoch:04d}' if o['save_all_epochs'] else '/model.best'), 1), n)
            eq(bool(x.monitor_op(1, 2)), op(1, 2), 'direction of the metric of the checkpoints')
            require(x.hyp_model is m, 'model of the checkpoints')
        elif n == 'CSVLogger':
            eq((x.filename, x.sep, x.append), (d + '/train.log', ',', o['log_append']), n)
        elif n == 'EarlyStopping':
            eq((x.monitor, x.patience, abs(x.min_delta)), (o['monitor'], o['patience'], o['min_delta']), n)
            eq(bool(x.monitor_op(1, 2)), op(1, 2), 'direction of the metric of the early stopping')
        elif n == 'LearningRateSteps':
            eq(x.schedule, o['lr_steps'], n)
        else:
            eq((x.monitor, x.patience, x.min_delta, x.cooldown, x.min_lr, x.mode), (o['lr_monitor'] or o['monitor'], o['lr_patience'], o['min_delta'], 0, o['min_lr'], o['lr_monitor_mode']), n)
            if o['lr_inc_factor'] is None:
                eq(x.factor, o['lr_factor'] if o['lr_red_factor'] is None else o['lr_red_factor'], 'factor')
            else:
                eq((x.red_factor, x.inc_factor), (o['lr_red_factor'], o['lr_inc_factor']), 'factors')
                eq(bool(x.monitor_op(1, 5)), lop(1, 5), 'direction of the metric of the learning rate')


@sub('P45', fd(n=st.integers(1, 20), size=st.integers(1, 8), outs=st.integers(1, 3), listed=st.booleans(), flag=st.booleans(), dims=st.integers(1, 3), wdims=st.integers(1, 2), seed=seeds), quick=200, nontrivial=lambda c: c['n'] > c['size'])
def losses_by_sample(c, ctx):
    """losses of each sample, whatever the batches they are computed by"""
    r = rng(c['seed'])
    b = KU.make_batches(c['n'], c['size'])
    eq([i for s, e in b for i in range(s, e)], list(range(c['n'])), 'samples of the batches')
    eq([e - s for s, e in b[:-1]], [c['size']] * (len(b) - 1), 'sizes of the batches')
    x, y = r.randn(c['n'], 3), r.randn(c['n'])
    ins = [x, y] + ([0.] if c['flag'] else [])
    sizes = []

    def f(z):
        eq(len(z), len(ins), 'inputs of the function')
        if c['flag']:
            eq(z[-1], 0., 'flag of the training')
        sizes.append(len(z[0]))
        o = [z[0].sum(1) * (k + 1) + z[1] for k in range(c['outs'])]
        return o if c['listed'] or c['outs'] > 1 else o[0]
    got = KU._eval_loop(f, ins, batch_size=c['size'])
    eq(sizes, [e - s for s, e in b], 'batches')
    want = [x.sum(1) * (k + 1) + y for k in range(c['outs'])]
    if c['outs'] == 1:
        got = [got]
    eq(len(got), c['outs'], 'outputs')
    for g, w in zip(got, want):
        same(g, w, 'losses of the samples', rtol=1e-9)
    # weights by sample, or by sample and time
    nd = max(c['dims'], c['wdims'])
    shape = (c['n'], 4, 3)[:nd]
    t, p = r.randn(*shape), r.randn(*shape)
    w = r.rand(*shape[:c['wdims']]) + 0.1
    h = KU.weighted_objective_per_sample(lambda a, b: (a - b) ** 2)
    with unchanged('weighted objective', t, p, w):
        got = h(t, p, w)
    s = ((t - p) ** 2).reshape(w.shape + (-1,)).mean(-1)
    if c['wdims'] == 1:
        return          # the weight of a sample without time is that of the sample relative to itself
    same(got, (s * w).sum(1) / w.sum(1), 'losses of the samples with weights of the frames', rtol=1e-5, atol=1e-6)


@sub('P45', fd(outs=st.integers(1, 3), n=st.integers(1, 5), weights=st.sampled_from([None, 'dict', 'part', 'list', 'short', 'unknown', 'bad']), losses=st.sampled_from(['one', 'dict', 'list', 'short', 'missing', 'unknown']), phase=st.booleans(), fixed=st.booleans(), seed=seeds), quick=250,
     nontrivial=lambda c: c['outs'] > 1)
def total_loss(c, ctx):
    """the loss evaluated by sample is the weighted sum of the losses of the outputs"""
    r = rng(c['seed'])
    k = c['outs']
    names = ['o%d' % i for i in range(k)]
    fns = [lambda a, b, q=q: (a - b) ** 2 * (q + 1) for q in range(k)]

    class M(object):
        output_names = names
        inputs, outputs, targets = ['x'], [r.randn(c['n'], 4) for _ in names], [r.randn(c['n'], 4) for _ in names]
        sample_weights = [np.ones((c['n'], 4)) * (1 + r.rand(c['n'], 1)) for _ in names]
        uses_learning_phase, state_updates = c['phase'], ['update']
    W = list(np.round(r.rand(k) * 3, 2))
    kw, bad = {}, False
    w = c['weights']
    if w == 'dict':
        kw['loss_weights'] = dict(zip(names, W))
    elif w == 'part':
        kw['loss_weights'] = {names[-1]: W[-1]}
        W = [1.] * (k - 1) + W[-1:]
    elif w == 'list':
        kw['loss_weights'] = W
    elif w is None:
        W = [1.] * k
    else:
        bad = True
        kw['loss_weights'] = {'short': W + [1.], 'unknown': {'other': 1.}, 'bad': 3.}[w]
    l = c['losses']
    loss = {'one': fns[0], 'dict': dict(zip(names, fns)), 'list': fns, 'short': fns + fns, 'missing': dict(list(zip(names, fns))[1:]), 'unknown': dict(zip(names + ['other'], fns + fns[:1]))}[l]
    bad = bad or l in ('short', 'missing', 'unknown')
    used = [fns[0]] * k if l == 'one' else fns
    calls = []
    old = K.learning_phase
    K.function = lambda *a, **q: calls.append((a, q)) or 'function'
    K.learning_phase = (lambda: 0) if c['fixed'] else (lambda: 'phase')
    try:
        if bad:
            raises(lambda: KU.make_eval_function(M, loss, **kw), 'weights %s, losses %s' % (w, l), (ValueError, TypeError))
            return
        got = KU.make_eval_function(M, loss, **kw)
    finally:
        K.learning_phase = old
        del K.function
    eq(got, 'function', 'returned function')
    a, q = calls[0]
    ins = M.inputs + M.targets + M.sample_weights + (['phase'] if c['phase'] and not c['fixed'] else [])
    require(len(a[0]) == len(ins) and all(u is v for u, v in zip(a[0], ins)), 'inputs of the function')
    eq(q, dict(updates=['update']), 'options of the function')
    eq(len(a[1]), 1, 'outputs of the function')
    want = sum(u * np.mean(f(t, o) * s, axis=1) / np.mean(s, axis=1) for u, f, t, o, s in zip(W, used, M.targets, M.outputs, M.sample_weights))
    same(a[1][0], want, 'total loss of the samples', rtol=1e-6)


@contextlib.contextmanager
def restore():
    f = float_cpu()
    try:
        yield
    finally:
        set_float_cpu(f)


@sub('P45', fd(prog=st.sampled_from(['extract-seq-embed', 'eval-seq-embed', 'extract-seq-q-embed', 'eval-seq-q-embed']), n=st.integers(1, 4), preproc=st.booleans(), path_prefix=st.booleans(), ark=st.booleans(), maxlen=st.integers(6, 14), layers=st.sampled_from([['embed1'], ['embed2', 'embed1']]), fmt=st.sampled_from(['p1', 'p2', 'p1+p2', None]),
               out=st.sampled_from([None, 'nat+logvar', 'nat+prec', 'mean+logvar', 'mean+logprec', 'mean+prec']), dot=st.booleans(), part=st.booleans(), seed=seeds), quick=60, nontrivial=lambda c: c['n'] > 1)
def programs(c, ctx):
    """embeddings and scores that the programs of extraction and evaluation write"""
    r = rng(c['seed'])
    e = dict(dx=2, dy=2, r=1, mp=True, layers=[1], pos=False)
    q = 'seq-q-' in c['prog']
    if q:
        m = SeqQEmbed(encoder(e, r, None, heads=2), 3, left_context=1, right_context=1)
    else:
        m = SeqEmbed(encoder(e, r, None), pt_net(r, 4, 3), left_context=1, right_context=1)
    m.build(c['maxlen'])
    if q:
        m.score_net.set_weights([r.randn(3, 2), 1 + r.rand(2)])
    m.save(ctx.path('model'))
    keys = ['s%d' % i for i in r.permutation(c['n'])]
    X = {k: r.randn(r.randint(4, 30), 2).astype(np.float32) for k in keys}
    w = DataWriterFactory.create('ark,scp:%s,%s' % (ctx.path('f.ark'), ctx.path('f.scp')))
    w.write(keys, [X[k] for k in keys])
    w.close()
    spec = 'ark:' + ctx.path('f.ark') if c['ark'] else 'scp:' + ctx.path('f.scp')
    a = ['--seq-file', spec, '--model-file', ctx.path('model'), '--max-seq-length', c['maxlen']]
    T = None
    if c['preproc']:
        T = TransformList([CentWhiten(mu=r.randn(2), T=r.randn(2, 2), name='cw'), LNorm(update_T=False, name='ln')])
        T.save(ctx.path('pre.h5'))
        a += ['--preproc-file', ctx.path('pre.h5')]
    ext = c['prog'].startswith('extract')
    if ext and not q:
        a += ['--layer-names'] + c['layers']
    if ext and q:
        if c['fmt']:
            a += ['--write-format', c['fmt']]
        if c['out']:
            a += ['--pooling-output', c['out']]
    ctx.label(c['prog'])
    out = ctx.path('out')
    with restore(), np.errstate(all='ignore'):
        run(ctx, 'keras-' + c['prog'], a, '--output-path', 'ark,scp:%s.ark,%s.scp' % (out, out))
    rd = RandomAccessDataReaderFactory.create('scp:' + out + '.scp')
    got = dict(zip(keys, rd.read(keys)))
    eq([l.split()[0] for l in open(out + '.scp')], keys, 'keys of the output')
    for k in keys:
        x = X[k].astype(float)
        if T is not None:
            x = T.predict(x)
        if not q:
            f = whole(m.enc_net, e, 0, x, 1, len(x))
            v = pooled(f[1:len(x) - 1], slice(None), 'mean+std')
            if ext:
                want = np.concatenate([np.ravel(Model(m.pt_net.input, m.pt_net.get_layer(l).output).predict(v[None])) for l in c['layers']])
            else:
                want = np.log(np.ravel(m.pt_net.predict(v[None])) + 1e-10)
        else:
            p1, p2 = [z[1:len(x) - 1] for z in whole(m.prepool_net, e, 2, x, 1, len(x))]
            f1, f2 = m.pooling_input.split('+')
            pr = to_prec(p2, f2, m.min_var)
            eta = np.sum(p1 * (pr if f1 == 'mean' else 1), 0)
            prec = np.clip(1 + np.sum(pr - 1, 0), 1, 1e5)
            if ext:
                o1, o2 = (c['out'] or 'mean+var').split('+')
                y = [eta if o1 == 'nat' else eta / prec, from_prec(prec, o2, 0.1)]
                want = dict(p1=y[0], p2=y[1]).get(c['fmt'] or 'p1', np.concatenate(y))
            else:
                mu, L = m.score_net.get_weights()
                z = lambda h, p: 0.5 * np.sum(h ** 2 / p - np.log(p))
                want = np.array([z(L * mu[j] + eta, L + prec - 1) - z(L * mu[j], L) - z(eta, prec) for j in range(3)])
        same(np.ravel(got[k]), want, 'output of the program for %s' % k, rtol=5e-3, atol=5e-3)


KINDS = {'seq-embed-gen-v2': ('--enc-net', '--pt-net'), 'seq-embed-gen-v1': ('--prepool-net', '--postpool-net'), 'seq-embed-lde-gen-v1': ('--prepool-net', '--postpool-net'), 'seq-q-embed': ('--embed-net',), 'tied-dvae': ('--qy-net', '--pt-net')}


@sub('P45', fd(prog=st.sampled_from(sorted(KINDS)), opt=some({k: v for k, v in OPTS.items() if k in ('opt_type', 'lr', 'amsgrad', 'momentum')}), val=st.booleans(), preproc=st.booleans(), freeze=st.booleans(), freeze_layers=st.booleans(), all=st.booleans(), again=st.booleans(), init=st.booleans(), epochs=st.integers(1, 3),
               batch=st.integers(1, 3), loss=st.sampled_from([None, 'categorical_hinge', 'categorical_mbr']), maxlen=st.sampled_from([None, 4, 6]), ctxt=st.integers(0, 2), seed=seeds), quick=40, nontrivial=lambda c: c['epochs'] > 1 and (c['val'] or c['again']))
def training(c, ctx):
    """the data, options and models that the training programs hand to Keras, and the models they write"""
    r = rng(c['seed'])
    e = dict(dx=2, dy=2, r=1, mp=True, layers=[1], pos=False)
    two = c['prog'] in ('seq-q-embed', 'tied-dvae')
    lde = 'lde' in c['prog']
    nets = [encoder(e, r, None, heads=2 if two else 0)] + ([] if c['prog'] == 'seq-q-embed' else [pt_net(r, 2 if c['prog'] == 'tied-dvae' else 6 if lde else 4, 3)])
    a = []
    for o, n in zip(KINDS[c['prog']], nets):
        f = ctx.path('net' + o)
        KU.save_model_arch(f, n)
        a += [o, f]
    keys = ['u%d' % i for i in range(9)]
    X = {k: r.randn(r.randint(5, 12), 2).astype(np.float32) for k in keys}
    cl = {k: 'c%d' % (i % 3) for i, k in enumerate(keys)}
    w = DataWriterFactory.create('ark,scp:%s,%s' % (ctx.path('f.ark'), ctx.path('f.scp')))
    w.write(keys, [X[k] for k in keys])
    w.close()
    lists = dict(train=keys[:6], val=keys[6:])
    for n, ks in lists.items():
        with open(ctx.path(n), 'w') as f:
            f.write(''.join('%s %s\n' % (k, cl[k]) for k in ks))
    d = ctx.path('exp')
    a += ['--data-path', 'scp:' + ctx.path('f.scp'), '--train-list', ctx.path('train'), '--output-path', d, '--batch-size', c['batch'], '--left-context', c['ctxt'], '--monitor', 'loss']
    T = None
    if c['val']:
        a += ['--val-list', ctx.path('val')]
    if c['preproc']:
        T = TransformList([CentWhiten(mu=r.randn(2), T=np.eye(2) + 0.3 * r.randn(2, 2), name='cw')])
        T.save(ctx.path('pre.h5'))
        a += ['--preproc-file', ctx.path('pre.h5')]
    if c['maxlen']:
        a += ['--max-seq-length', c['maxlen'], '--min-seq-length', 3]
    if c['all']:
        a += ['--save-all-epochs']
    if lde:
        a += ['--lde-num-comp', 3]
    for k, v in c['opt'].items():
        a += ['--' + {'opt_type': 'optimizer'}.get(k, k)] + ([] if v is True else [v])
    if c['loss'] and not two:
        a += ['--loss', c['loss']]
    if two:
        a += ['--kl-weight', 0.25]
    layers = c['freeze_layers'] and not two
    if c['freeze']:
        a += ['--freeze-' + ('embed' if two else 'enc' if c['prog'].endswith('v2') else 'prepool')]
    if layers:
        e1, e2 = ('enc', 'pt') if c['prog'].endswith('v2') else ('prepool', 'postpool')
        a += ['--freeze-%s-layers' % e1, 'last', '--freeze-%s-layers' % e2, 'embed1', 'out']
    full = {k: (X[k] if T is None else T.predict(X[k].astype(float))) for k in keys}
    calls = []

    def fit_generator(m, gen, steps, validation_data=None, validation_steps=None, initial_epoch=0, epochs=1, callbacks=(), max_queue_size=10):
        n, args, k = m.calls[-1]
        eq(n, 'compile', 'call before the training')
        calls.append(dict(initial=initial_epoch, epochs=epochs, opt=k['optimizer'], loss=k['loss'], weights=k.get('loss_weights'), frozen=[bool(l.trainable) for l in find(m)]))
        eq(validation_data is not None, c['val'], 'validation data')
        for g, ks, s in ((gen, lists['train'], steps), (validation_data, lists['val'], validation_steps)):
            if g is None:
                continue
            require(s >= 1 and s == int(s), 'steps %s', s)
            for j in range(int(s) + 1):
                x, y = next(g)
                if two:
                    y, kl = y
                    eq((kl.shape, float(np.abs(kl).max())), ((len(y), 1), 0.), 'targets of the divergence')
                eq(len(x), c['batch'], 'sequences of the batch')
                eq(x.shape[1:], m.inputs[0]._keras_shape[1:], 'shape of the sequences')
                eq(y.shape, (len(x), 3), 'shape of the classes')
                for b in range(len(x)):
                    require(np.count_nonzero(y[b]) == 1 and y[b].max() == 1, 'classes %s', y[b])
                    z = x[b][np.any(x[b] != 0, axis=1)]
                    require(len(z) >= 1 and (not c['maxlen'] or len(z) <= c['maxlen']), 'sequence of %d frames', len(z))
                    require(any(cl[k] == 'c%d' % y[b].argmax() and part(z, full[k]) for k in ks), 'a sequence that is of no utterance of the list and class')
        for ep in range(initial_epoch, epochs):
            m.set_weights([v + 0.125 for v in m.get_weights()])
            for cb in callbacks:
                cb.set_model(m)
                cb.on_epoch_begin(ep)
                cb.on_epoch_end(ep, dict(loss=-float(ep)))

    def find(m):
        out = []
        for l in m.layers:
            if isinstance(l, Model) and any(x.name in ('last', 'out', 'p1') for x in l.layers):
                out += [l] + [x for x in l.layers if x.name in ('last', 'embed1', 'embed2', 'out')]
        return out
    old = Model.fit_generator
    Model.fit_generator = fit_generator
    try:
        with restore(), np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if c['init']:
                # a model to start from
                S = {'seq-q-embed': SeqQEmbed, 'tied-dvae': TiedDVAE_QY}.get(c['prog'], SeqEmbedLDE if lde else SeqEmbed)
                kw = dict(num_comp=3) if lde else {}
                s = S(nets[0], nets[1] if len(nets) > 1 else 3, left_context=c['ctxt'], loss=c['loss'] or 'categorical_crossentropy', **kw) if not two else S(nets[0], nets[1] if len(nets) > 1 else 3, left_context=c['ctxt'])
                if c['prog'] == 'seq-q-embed':
                    s.build(8)
                s.save(ctx.path('init'))
            run(ctx, 'keras-train-cat-' + c['prog'], a, ['--init-path', ctx.path('init')] if c['init'] else [], '--epochs', c['epochs'])
            first = KerasModelLoader.load(d + '/model')
            if c['again']:
                run(ctx, 'keras-train-cat-' + c['prog'], a, '--epochs', c['epochs'] + 2)
    finally:
        Model.fit_generator = old
    eq(len(calls), 2 if c['again'] else 1, 'trainings')
    k = calls[0]
    ctx.label(c['prog'])
    eq((k['initial'], k['epochs']), (0, c['epochs']), 'epochs')
    o = dict(opt_type='adam', lr=0.002)
    o.update(c['opt'])
    for k in calls:
        eq(type(k['opt']).__name__, dict(sgd='SGD', nsgd='SGD', rmsprop='RMSprop', adam='Adam', nadam='Nadam', adamax='Adamax')[o['opt_type']], 'optimizer')
        same(K.get_value(k['opt'].lr), o['lr'], 'learning rate', rtol=1e-6)
        if two:
            eq((k['loss'][0], k['weights']), ('categorical_crossentropy', [1, 0.25]), 'loss')
        else:
            l = c['loss'] or 'categorical_crossentropy'
            eq(k['loss'] if isinstance(k['loss'], str) else k['loss'].__name__, l, 'loss')
    # the model is the one given, trained
    net = body(first)
    if c['init']:
        for g, v in zip(net.get_weights(), nets[0].get_weights()):
            same(g, v + 0.125 * c['epochs'], 'weights of the model that is written', rtol=1e-5, atol=1e-6)
    eq([type(l).__name__ for l in net.layers], [type(l).__name__ for l in nets[0].layers], 'layers of the model')
    eq(first.left_context, c['ctxt'], 'context of the model')
    fr = calls[0]['frozen']
    names = []
    want = []
    if not two:
        want = [not c['freeze'], not layers, True, not layers, True, not layers]
        eq(fr, want, 'layers that are trained: encoder, last, classifier, embed1, embed2, out')
    else:
        require(fr[:1] == [not c['freeze']], 'the embedding network is%s trained', '' if c['freeze'] else ' not')
    if c['again']:
        at = (c['epochs'] if c['prog'].endswith('v2') else c['epochs'] - 1) if c['all'] else (1 if c['prog'].endswith('v2') else 0)
        require(calls[1]['initial'] in (at, at + 1) and calls[1]['epochs'] == c['epochs'] + 2, 'the training goes on from epoch %s until %s after %d epochs', calls[1]['initial'], calls[1]['epochs'], c['epochs'])
        last = KerasModelLoader.load(d + '/model')
        n = c['epochs'] + 2 - calls[1]['initial']
        net2 = body(last)
        for g, v in zip(net2.get_weights(), net.get_weights()):
            same(g, v + 0.125 * n, 'weights of the model after the second training', rtol=1e-5, atol=1e-6)
    f = sorted(x for x in os.listdir(d) if x.startswith('model.') and x.endswith('.json') and x != 'model.json')
    total = range(c['epochs'] + (2 if c['again'] else 0))
    eq(f, ['model.%04d.json' % i for i in total] if c['all'] else ['model.best.json'], 'checkpoints')


def part(z, x):
    """z is made of consecutive rows of x"""
    return any(np.allclose(z, x[i:i + len(z)], rtol=1e-4, atol=1e-5) for i in range(len(x) - len(z) + 1))
