"""P39: training runs, their logs and checkpoints."""
import csv
import glob
import logging
import os
from collections import OrderedDict

from pbt.core import *
from pbt import torchlib   # noqa: F401
import torch
from hyperion.torch.torch_trainer import TorchTrainer
from hyperion.torch.torch_model import TorchModel
from hyperion.torch.loggers import LoggerList, Logger, CSVLogger, ProgLogger
from hyperion.torch.lr_schedulers import ExponentialLR, CosineLR, ReduceLROnPlateau
from hyperion.torch.utils import MetricAcc

RULE = 'more than one epoch or batch, and batches of different sizes'
names = st.lists(st.sampled_from(['loss', 'acc', 'val_loss', 'val_acc', 'lr', 'eer']), min_size=1, max_size=4, unique=True)


# ------------------------------------------------------------------ metric accumulators
@sub('P39', fd(keys=names, sizes=st.lists(st.lists(st.integers(1, 9), min_size=1, max_size=6), min_size=1, max_size=3), seed=seeds, scale=st.sampled_from([1.0, 1e6]),
               shuffle=st.booleans(), reuse=st.booleans(), default=st.booleans()), quick=300, nontrivial=lambda c: len(c['sizes'][0]) > 1 and len(set(c['sizes'][0])) > 1)
def accumulators(c, ctx):
    """accumulated metrics are the averages over the samples of the epoch so far"""
    r = rng(c['seed'])
    acc = MetricAcc()
    eq(dict(acc.metrics), {}, 'metrics before the first batch')
    d = OrderedDict()
    for epoch in c['sizes']:
        acc.reset()
        tot, n = dict.fromkeys(c['keys'], 0.0), 0
        for i, b in enumerate(epoch):
            ks = list(c['keys'])
            if c['shuffle'] and n:
                r.shuffle(ks)
            if not c['reuse']:
                d = OrderedDict()
            for k in ks:
                d[k] = c['scale'] * float(r.randn())
            if c['default']:
                b = 1
                acc.update(d)
            else:
                acc.update(d, b)
            n += b
            for k in tot:
                tot[k] += b * d[k]
            if c['reuse']:
                copy = dict(d)
            m = acc.metrics
            eq(list(m), list(c['keys']), 'keys of the metrics')
            same([m[k] for k in c['keys']], [tot[k] / n for k in c['keys']], 'averages', rtol=1e-9, atol=1e-9 * c['scale'])
            m[c['keys'][0]] = 77.0                  # the returned dictionary is the caller's
            same(acc.metrics[c['keys'][0]], tot[c['keys'][0]] / n, 'averages after changing the returned dictionary', rtol=1e-9, atol=1e-9 * c['scale'])
            if c['reuse']:
                eq(dict(d), copy, 'metrics given')
                d['extra_%d' % i] = 1.0
                del d['extra_%d' % i]
                if i % 2:
                    d.clear()


# ------------------------------------------------------------------ lists of loggers
class Rec(Logger):
    def __init__(self, out, name):
        super(Rec, self).__init__()
        self.out, self.name = out, name

    def on_epoch_begin(self, epoch, logs=None, **k):
        super(Rec, self).on_epoch_begin(epoch, logs, **k)
        self.out.append((self.name, 'epoch_begin', epoch, dict(logs), k))

    def on_epoch_end(self, logs=None, **k):
        super(Rec, self).on_epoch_end(logs, **k)
        self.out.append((self.name, 'epoch_end', self.cur_epoch, dict(logs), k))

    def on_batch_begin(self, batch, logs=None, **k):
        super(Rec, self).on_batch_begin(batch, logs, **k)
        self.out.append((self.name, 'batch_begin', batch, dict(logs), k))

    def on_batch_end(self, logs=None, **k):
        super(Rec, self).on_batch_end(logs, **k)
        self.out.append((self.name, 'batch_end', self.cur_batch, dict(logs), k))

    def on_train_begin(self, logs=None, **k):
        super(Rec, self).on_train_begin(logs, **k)
        self.out.append((self.name, 'train_begin', None, dict(logs), k))

    def on_train_end(self, logs=None, **k):
        super(Rec, self).on_train_end(logs, **k)
        self.out.append((self.name, 'train_end', None, dict(logs), k))


EV = ['epoch_begin', 'epoch_end', 'batch_begin', 'batch_end', 'train_begin', 'train_end']


@sub('P39', fd(n=st.integers(0, 3), ops=st.lists(st.tuples(st.sampled_from(EV + ['append']), st.integers(0, 5), st.sampled_from(['none', 'empty', 'logs']), st.booleans()), min_size=1, max_size=12), none=st.booleans()),
     quick=150, nontrivial=lambda c: c['n'] > 1 and len(c['ops']) > 2)
def logger_lists(c, ctx):
    """every event reaches every logger, once, in order, with its arguments"""
    out, want = [], []
    names = ['l%d' % i for i in range(c['n'])]
    ll = LoggerList([Rec(out, x) for x in names]) if c['n'] or not c['none'] else LoggerList()
    e = b = 0
    for op, i, lg, kw in c['ops']:
        if op == 'append':
            names.append('a%d' % len(names))
            ll.append(Rec(out, names[-1]))
            e_ = 0
            continue
        logs = dict(none=None, empty={}, logs={'loss': 0.5 * i})[lg]
        k = dict(samples=i) if kw else {}
        k0 = {} if logs is None and i % 2 else dict(logs=logs)
        a = ()
        if op in ('epoch_begin', 'batch_begin'):
            a = (i,)
        getattr(ll, 'on_' + op)(*a, **dict(k0, **k))
        for x in names:
            want.append((x, op, logs or {}, k, i))
    eq(len(out), len(want), 'number of calls')
    for g, w in zip(out, want):
        eq((g[0], g[1], g[3], g[4]), w[:4], 'logger, event, logs and arguments')
        if g[1] in ('epoch_begin', 'batch_begin'):
            eq(g[2], w[4], 'index given to ' + g[1])
    eqlist([x.name for x in ll], names, 'iteration over the list')
    last_e = [i for op, i, _, _ in c['ops'] if op == 'epoch_begin']
    if last_e and c['n']:
        eq(list(ll)[0].cur_epoch, last_e[-1], 'epoch the logger is in')


# ------------------------------------------------------------------ CSV logs
def parse(path, sep):
    with open(path, newline='') as f:
        return list(csv.reader(f, delimiter=sep))


@sub('P39', fd(keys=names, runs=st.lists(fd(n=st.integers(0, 3), append=st.booleans(), same_obj=st.booleans()), min_size=1, max_size=4), sep=st.sampled_from([',', ';', '\t', ' ']), sub_=st.sampled_from(['', 'a/b', 'cwd']),
               pre=st.sampled_from(['none', 'none', 'empty', 'old']), seed=seeds, shuffle=st.booleans()), quick=300, nontrivial=lambda c: len(c['runs']) > 1 and sum(x['n'] for x in c['runs']) > 2)
def csv_logs(c, ctx):
    """one line per epoch under one header, kept when appending, replaced otherwise; readable after each epoch"""
    r = rng(c['seed'])
    sep = c['sep']
    path = ctx.path(*(c['sub_'].split('/') if c['sub_'] not in ('', 'cwd') else []), 'train.log')
    want = None
    if c['pre'] != 'none':
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            if c['pre'] == 'old':
                f.write(sep.join(['epoch'] + c['keys']) + '\r\n' + sep.join(['1'] + ['0.5'] * len(c['keys'])) + '\r\n')
        want = [['epoch'] + c['keys'], ['1'] + ['0.5'] * len(c['keys'])] if c['pre'] == 'old' else []
    cwd = os.getcwd()
    epoch = 1 if c['pre'] == 'old' else 0
    lg = None
    try:
        if c['sub_'] == 'cwd':
            os.chdir(ctx.dir)
        for run in c['runs']:
            if lg is None or not run['same_obj']:
                lg = CSVLogger('train.log' if c['sub_'] == 'cwd' else path, sep=sep, append=run['append'])
            if not lg.append:
                want = []
            want = want or []
            new = not want
            # logs of one object keep their columns; a second training of the same object
            lg.on_train_begin()
            require(os.path.exists(path), 'no log file after the training began')
            for i in range(run['n']):
                lg.on_epoch_begin(epoch, {})
                ks = list(c['keys'])
                if c['shuffle'] and i:
                    r.shuffle(ks)
                logs = OrderedDict((k, float(r.randn())) for k in ks)
                lg.on_batch_begin(0, {})
                lg.on_batch_end({'loss': 3.0})
                lg.on_epoch_end(logs)
                if new:
                    want.append(['epoch'] + c['keys'])
                    new = False
                epoch += 1
                want.append([str(epoch)] + [repr(logs[k]) for k in c['keys']])
                got = parse(path, sep)
                eq(len(got), len(want), 'lines in the log after epoch %d' % epoch)
                eq(got[0], want[0], 'header')
                for g, w in zip(got[1:], want[1:]):
                    eq(int(g[0]), int(w[0]), 'epoch of the line')
                    same(np.array(g[1:], dtype=float), np.array(w[1:], dtype=float), 'values of the epoch %s' % w[0], rtol=1e-12)
            lg.on_train_end()
            raises(lambda: lg.csv_file.write('x'), 'log file open after the training')
            eq(len(parse(path, sep)), len(want), 'lines at the end')
    finally:
        os.chdir(cwd)
        if lg is not None and lg.csv_file is not None:
            lg.csv_file.close()


# ------------------------------------------------------------------ progress
class Grab(logging.Handler):
    def __init__(self):
        super(Grab, self).__init__()
        self.lines = []

    def emit(self, rec):
        self.lines.append(rec.getMessage())


class grab(object):
    def __enter__(self):
        self.h = Grab()
        self.log = logging.getLogger()
        self.level, self.off = self.log.level, self.log.manager.disable
        logging.disable(logging.NOTSET)
        self.log.setLevel(logging.INFO)
        self.handlers, self.log.handlers = self.log.handlers, [self.h]
        return self.h.lines

    def __exit__(self, *a):
        self.log.handlers = self.handlers
        self.log.setLevel(self.level)
        logging.disable(self.off)
        return False


def fields(line):
    """'name: value' pairs of a line of the log"""
    t = line.split()
    out = OrderedDict()
    for i, x in enumerate(t[:-1]):
        if x.endswith(':'):
            out[x[:-1]] = t[i + 1]
    return out


@sub('P39', fd(keys=names, only=st.one_of(st.none(), names), interval=st.integers(1, 4), epochs=st.integers(1, 3), nb=st.integers(1, 7), bs=st.integers(1, 20), tell_b=st.booleans(), tell_s=st.booleans(), size=st.booleans(), through=st.booleans(), seed=seeds),
     quick=200, nontrivial=lambda c: c['nb'] > c['interval'])
def progress(c, ctx):
    """progress lines appear every interval of batches and at the end of epochs, with the counts and metrics"""
    r = rng(c['seed'])
    pl = ProgLogger(metrics=c['only'], interval=c['interval'])
    lg = LoggerList([pl]) if c['through'] else pl
    lg.on_train_begin(epochs=c['epochs'])
    shown = [k for k in c['keys'] if c['only'] is None or k in c['only']]

    def metrics_of(line, logs, what):
        f = fields(line)
        eq([k for k in f if k in c['keys']], shown, 'metrics in the line ' + what)
        for k in shown:
            require(abs(float(f[k]) - logs[k]) <= 0.51e-6 + 1e-9, '%s: %s is %s, not %r', what, k, f[k], logs[k])
        return f

    for e in range(c['epochs']):
        kw = {}
        if c['tell_b']:
            kw['batches'] = c['nb']
        if c['tell_s']:
            kw['samples'] = c['nb'] * c['bs']
        with grab() as lines:
            lg.on_epoch_begin(e, **kw)
        eq(len(lines), 1, 'lines at the beginning of the epoch')
        require('%d/%d' % (e + 1, c['epochs']) in lines[0], 'epoch not in %r', lines[0])
        for b in range(c['nb']):
            logs = OrderedDict((k, float(r.randn())) for k in c['keys'])
            with grab() as lines:
                lg.on_batch_begin(b)
                lg.on_batch_end(logs=logs, **(dict(batch_size=c['bs']) if c['size'] else {}))
            eq(len(lines), 1 if b % c['interval'] == 0 else 0, 'lines after batch %d' % b)
            if lines:
                f = metrics_of(lines[0], logs, 'of the batch')
                eq(f['epoch'], '%d/%d' % (e + 1, c['epochs']), 'epoch in the line')
                require('et' in f and 'batches' in f, 'no time or batches in %r', lines[0])
                require(f['batches'].split('/')[0].split('(')[0] in (str(b), str(b + 1)), 'batch in %r', lines[0])
                if c['tell_b']:
                    done = int(f['batches'].split('/')[0])
                    eq(f['batches'], '%d/%d(%d%%)' % (done, c['nb'], 100 * done // c['nb']), 'batches done')
                if c['size']:
                    eq(f['samples'].split('/')[0].split('(')[0], str((b + 1) * c['bs']), 'samples seen')
                    if c['tell_s']:
                        n = c['nb'] * c['bs']
                        eq(f['samples'], '%d/%d(%d%%)' % ((b + 1) * c['bs'], n, 100 * (b + 1) * c['bs'] // n), 'samples seen')
                else:
                    require('samples' not in f, 'samples in %r', lines[0])
                eq('eta' in f, c['tell_b'] or (c['tell_s'] and c['size']), 'time left in the line')
        logs = OrderedDict((k, float(r.randn())) for k in c['keys'])
        with grab() as lines:
            lg.on_epoch_end(logs)
        eq(len(lines), 1, 'lines at the end of the epoch')
        eq(metrics_of(lines[0], logs, 'of the epoch')['epoch'], '%d/%d' % (e + 1, c['epochs']), 'epoch in the line')
    lg.on_train_end({})


@sub('P39', fd(t=st.one_of(st.integers(0, 200), st.integers(0, 10 ** 5), st.integers(0, 10 ** 7)), f=st.sampled_from([0.0, 0.5, 0.999])), quick=300, nontrivial=lambda c: c['t'] > 60,
     examples=[dict(t=t, f=0.0) for t in (59, 60, 61, 3599, 3600, 86399, 86400, 31 * 86400, 31 * 86400 + 5, 370 * 86400)])
def durations(c, ctx):
    """printed durations are the seconds they stand for"""
    s = ProgLogger.sec2str(c['t'] + c['f'])
    p = [int(x) for x in s.rstrip('s').split(':')]
    p = [0] * (4 - len(p)) + p
    eq(((p[0] * 24 + p[1]) * 60 + p[2]) * 60 + p[3], c['t'], 'seconds in %r' % s)
    require(p[1] < 24 and p[2] < 60 and p[3] < 60, 'fields of %r', s)


@sub('P39', fd(nb=st.integers(1, 20), b=st.integers(0, 19), bs=st.integers(1, 9), by=st.sampled_from(['batches', 'samples', 'both', 'no']), t=st.floats(1.0, 5000.0)), quick=200, nontrivial=lambda c: c['b'] > 0)
def time_left(c, ctx):
    """the time left assumes that the batches (or samples) to come take as long as those seen"""
    import hyperion.torch.loggers.prog_logger as mod
    b = min(c['b'], c['nb'] - 1)
    now = [1000.0]

    import time as tm

    def clock():
        return now[0]
    real = {k: getattr(tm, k) for k in ('time', 'monotonic', 'perf_counter')}
    loc = {k: v for k, v in vars(mod).items() if any(v is f for f in real.values())}
    for k in real:
        setattr(tm, k, clock)
    for k in loc:
        setattr(mod, k, clock)
    try:
        pl = ProgLogger(interval=1000)
        pl.on_train_begin(epochs=2)
        kw = {}
        if c['by'] in ('batches', 'both'):
            kw['batches'] = c['nb']
        if c['by'] in ('samples', 'both'):
            kw['samples'] = c['nb'] * c['bs']
        pl.on_epoch_begin(0, {}, **kw)
        for i in range(b + 1):
            pl.on_batch_begin(i)
            if i == b:
                now[0] += c['t']
            pl.on_batch_end({}, batch_size=c['bs'])
        et, eta = pl.estimate_epoch_time()
    finally:
        for k, v in real.items():
            setattr(tm, k, v)
        for k, v in loc.items():
            setattr(mod, k, v)

    def sec(s):
        p = [int(x) for x in s.rstrip('s').split(':')]
        p = [0] * (4 - len(p)) + p
        return ((p[0] * 24 + p[1]) * 60 + p[2]) * 60 + p[3]
    require(abs(sec(et) - c['t']) <= 1.0, 'elapsed %s, not %.1f s', et, c['t'])
    if c['by'] == 'no':
        require(eta is None, 'time left %s', eta)
    else:
        w = c['t'] / (b + 1) * (c['nb'] - b - 1)
        require(abs(sec(eta) - w) <= 1.001, 'time left %s, not %.1f s', eta, w)


# ------------------------------------------------------------------ training
class Net(TorchModel):
    """y = x w + b; counts the modes it is called in"""

    def __init__(self, d, seed):
        super(Net, self).__init__()
        r = rng(seed)
        self.w = torch.nn.Parameter(r.randn(d))
        self.b = torch.nn.Parameter(r.randn(1))
        self.calls = []

    def forward(self, x):
        self.calls.append(self.training)
        self.x = np.array(x)
        return torch.tensor(self.x.dot(np.array(self.w)) + np.array(self.b))

    def get_config(self):
        return dict(TorchModel.get_config(self), d=len(self.w))


class LossValue(object):
    def __init__(self, owner, v, g):
        self.owner, self.v, self.g = owner, v, g

    def item(self):
        return float(self.v)

    def backward(self):
        if not torch.is_grad_enabled():
            raise RuntimeError('backward without gradients')
        net, opt = self.owner.net, self.owner.opt
        for j, g in enumerate([net.x.T.dot(self.g), np.array([self.g.sum()])]):
            opt.grads[(0, j)] = opt.grads.get((0, j), 0) + g


class Loss(torch.nn.Module):
    def __init__(self, net, opt, c):
        super(Loss, self).__init__()
        self.net, self.opt = net, opt
        self.c = torch.nn.Parameter(np.array([c]))

    def named_parameters(self, prefix=''):
        yield prefix + 'c', self.c

    def children(self):
        return []

    def __call__(self, out, tgt):
        e = np.array(out) - np.array(tgt)
        return LossValue(self, float(self.c[0]) * np.mean(e ** 2), float(self.c[0]) * 2 * e / len(e))


class Boom(Exception):
    pass


class Data(object):
    """batches of different sizes; may fail before a given batch of a given epoch"""

    def __init__(self, X, y, sizes, fail=None):
        self.dataset = range(len(X))
        self.X, self.y, self.sizes, self.fail = X, y, sizes, fail
        self.epoch = 0

    def __iter__(self):
        i = 0
        ep, self.epoch = self.epoch, self.epoch + 1
        for b, n in enumerate(self.sizes):
            if self.fail == (ep, b):
                raise Boom()
            yield torch.tensor(self.X[i:i + n]), torch.tensor(self.y[i:i + n])
            i += n


def mae(out, tgt):
    return float(np.mean(np.abs(np.array(out) - np.array(tgt))))


run_st = fd(d=st.integers(1, 3), sizes=st.lists(st.integers(1, 5), min_size=1, max_size=4), vsizes=st.lists(st.integers(1, 5), min_size=0, max_size=3), epochs=st.integers(1, 5), opt=st.sampled_from(['sgd', 'momentum', 'adam']),
            sched=st.sampled_from(['none', 'exp', 'exp_batch', 'cos', 'cos_batch', 'plateau']), warm=st.sampled_from([0, 0, 3]), metrics=st.booleans(), seed=seeds)


def build(c, folder, init=0, loggers=None, epochs=None):
    net = Net(c['d'], c['seed'] + init)
    lr = 0.02
    opt = torch.optim.Adam(net.parameters(), lr) if c['opt'] == 'adam' else torch.optim.SGD(net.parameters(), lr, momentum=0.9 if c['opt'] == 'momentum' else 0)
    loss = Loss(net, opt, 1.5 if init == 0 else 9.0)
    w = c['warm']
    sch = {'none': lambda: None, 'exp': lambda: ExponentialLR(opt, 0.5, 1, 1, warmup_steps=w), 'exp_batch': lambda: ExponentialLR(opt, 0.5, 3, 2, warmup_steps=w, update_lr_on_batch=True),
           'cos': lambda: CosineLR(opt, 2, 2, warm_restarts=True, warmup_steps=w), 'cos_batch': lambda: CosineLR(opt, 3, 2, warm_restarts=True, update_lr_on_batch=True, warmup_steps=w),
           'plateau': lambda: ReduceLROnPlateau(opt, monitor='loss', patience=0, threshold=0.3, warmup_steps=w)}[c['sched']]()
    kw = dict(metrics=OrderedDict([('mae', mae)])) if c['metrics'] else {}
    tr = TorchTrainer(net, opt, loss, epochs or c['epochs'], folder, lr_scheduler=sch, device=torch.device('cpu'), loggers=loggers, **kw)
    return net, opt, loss, sch, tr


def data(c, fail=None):
    r = rng(c['seed'] + 77)
    n, m = sum(c['sizes']), sum(c['vsizes'])
    X, y, V, v = r.randn(n, c['d']), r.randn(n), r.randn(m, c['d']), r.randn(m)
    return Data(X, y, c['sizes'], fail), (Data(V, v, c['vsizes']) if c['vsizes'] else None)


def reference(c, epochs):
    """the same training written out"""
    net, opt, loss, sch, _ = build(c, '/nonexistent', loggers=[])
    tr, va = data(c)
    hist = []
    for e in range(epochs):
        if sch is not None:
            sch.epoch_begin_step(e)
        acc = dict(loss=0.0, mae=0.0)
        rates = []
        for x, y in tr:
            if sch is not None:
                sch.batch_step()
            rates.append(opt.param_groups[0]['lr'])
            opt.grads.clear()
            out = net(x)
            l = loss(out, y)
            l.backward()
            opt.step()
            acc['loss'] += l.item() * len(x)
            acc['mae'] += mae(out, y) * len(x)
        row = OrderedDict(loss=acc['loss'] / sum(c['sizes']))
        if c['metrics']:
            row['mae'] = acc['mae'] / sum(c['sizes'])
        row['lr'] = rates[-1]
        if va is not None:
            vl = vm = 0.0
            for x, y in va:
                out = net(x)
                vl += loss(out, y).item() * len(x)
                vm += mae(out, y) * len(x)
            row['val_loss'] = vl / sum(c['vsizes'])
            if c['metrics']:
                row['val_mae'] = vm / sum(c['vsizes'])
        if sch is not None:
            sch.epoch_end_step(row)
        hist.append((row, np.array(net.w), np.array(net.b), rates))
    return hist


def check_log(path, hist, what):
    with open(path, newline='') as f:
        rows = list(csv.DictReader(f))
    eqlist([int(x['epoch']) for x in rows], range(1, len(hist) + 1), what + ': epochs in the log')
    for g, (w, _, _, _) in zip(rows, hist):
        eq(sorted(k for k in g if k != 'epoch'), sorted(w), what + ': columns of the log')
        for k in w:
            same(float(g[k]), w[k], '%s: %s of epoch %s' % (what, k, g['epoch']), rtol=1e-9)


def check_points(folder, hist, what):
    eqlist(sorted(os.path.basename(x) for x in glob.glob(os.path.join(folder, '*.pth'))), ['model_ep%04d.pth' % (i + 1) for i in range(len(hist))], what + ': checkpoints')
    for i, (row, w, b, _) in enumerate(hist):
        p = torch.load(os.path.join(folder, 'model_ep%04d.pth' % (i + 1)))
        eq(p['epoch'], i + 1, what + ': epoch of the checkpoint')
        same(p['model_state_dict']['w'], w, '%s: weights in checkpoint %d' % (what, i + 1), rtol=1e-9)
        same(p['model_state_dict']['b'], b, '%s: bias in checkpoint %d' % (what, i + 1), rtol=1e-9)
        eq(sorted(p['logs']), sorted(row), what + ': logs in the checkpoint')
        for k in row:
            same(p['logs'][k], row[k], '%s: %s in checkpoint %d' % (what, k, i + 1), rtol=1e-9)


@sub('P39', run_st, quick=250, nontrivial=lambda c: c['epochs'] > 1 and len(c['sizes']) > 1)
def training(c, ctx):
    """losses, metrics, rates, weights, logs and checkpoints of a whole training"""
    folder = ctx.path('exp', 'run')
    hist = reference(c, c['epochs'])
    out = []
    if c['seed'] % 3 == 0:      # the log of an older training does not stay
        os.makedirs(folder)
        with open(os.path.join(folder, 'train.log'), 'w') as f:
            f.write('epoch,loss\n1,0.5\n')
    net, opt, loss, sch, tr = build(c, folder)
    t, v = data(c)
    with grab():
        tr.fit(t, v)
    check_log(os.path.join(folder, 'train.log'), hist, 'training')
    check_points(folder, hist, 'training')
    eq(tr.cur_epoch, c['epochs'], 'epoch at the end')
    modes = [True] * len(c['sizes']) + [False] * len(c['vsizes'])
    eqlist(net.calls, modes * c['epochs'], 'training and evaluation mode of the model in every batch')
    require(torch.is_grad_enabled(), 'gradients disabled after the training')
    # loggers of the caller get every event of the training
    out = []
    for kind in (list, LoggerList):
        out = []
        net, opt, loss, sch, tr = build(c, ctx.path('other%s' % kind.__name__), loggers=kind([Rec(out, 'r')]))
        t, v = data(c)
        tr.fit(t, v)
        want = ['train_begin']
        for e in range(c['epochs']):
            want += ['epoch_begin'] + ['batch_begin', 'batch_end'] * len(c['sizes']) + ['epoch_end']
        eq([x[1] for x in out], want + ['train_end'], 'events of the training')
        eqlist([x[2] for x in out if x[1] == 'epoch_begin'], range(c['epochs']), 'epochs')
        eqlist([x[2] for x in out if x[1] == 'batch_begin'], list(range(len(c['sizes']))) * c['epochs'], 'batches')
        eqlist([x[4]['batch_size'] for x in out if x[1] == 'batch_end'], c['sizes'] * c['epochs'], 'batch sizes')
        rates = [x[3]['lr'] for x in out if x[1] == 'batch_end']
        same(rates, np.concatenate([h[3] for h in hist]), 'rates of the batches', rtol=1e-9)
        for x, h in zip([x for x in out if x[1] == 'epoch_end'], hist):
            same(x[3]['loss'], h[0]['loss'], 'loss of the epoch', rtol=1e-9)
            eq(sorted(x[3]), sorted(h[0]), 'logs of the epoch')
        require(not os.path.exists(ctx.path('other%s' % kind.__name__, 'train.log')), 'default log written though loggers were given')


@sub('P39', fd(c=run_st, stop=st.tuples(st.integers(0, 4), st.integers(0, 3)), again=st.booleans(), how=st.sampled_from(['last', 'file', 'same', 'longer', 'start'])), quick=350, nontrivial=lambda k: k['c']['epochs'] > 1 and k['stop'][0] > 0)
def interrupted(k, ctx):
    """a training stopped at any batch and resumed from its last checkpoint ends as if it had not been stopped"""
    c, how = k['c'], k['how']
    folder = ctx.path('exp')
    E = c['epochs']
    hist = reference(c, E)
    stop = (min(k['stop'][0], E - 1), min(k['stop'][1], len(c['sizes']) - 1))
    net, opt, loss, sch, tr = build(c, folder, epochs=stop[0] if how in ('same', 'longer') and stop[0] else None)
    if how in ('same', 'longer') and stop[0]:
        t, v = data(c)
        with grab():
            tr.fit(t, v)
    else:
        t, v = data(c, fail=stop)
        try:
            with grab():
                tr.fit(t, v)
            raise HarnessError('the training was not stopped')
        except Boom:
            pass
    done = stop[0]
    check_points(folder, hist[:done], 'stopped')
    if done:
        check_log(os.path.join(folder, 'train.log'), hist[:done], 'stopped')
    if how == 'same' and done:                              # the same trainer goes on
        tr.epochs = E
    else:
        start = dict()
        net, opt, loss, sch, tr = build(c, folder, init=5)  # other initial values
        if how == 'file' and done:
            logs = tr.load_checkpoint(os.path.join(folder, 'model_ep%04d.pth' % done))
        else:
            logs = tr.load_last_checkpoint()
        eq(tr.cur_epoch, done, 'epoch after loading')
        if done:
            for x in hist[done - 1][0]:
                same(logs[x], hist[done - 1][0][x], 'logs loaded: ' + x, rtol=1e-9)
            same(net.w, hist[done - 1][1], 'weights after loading', rtol=1e-9)
            same(loss.c[0], 1.5, 'parameter of the loss after loading')
        else:
            require(logs is None, 'logs of no checkpoint')
            return
    t, v = data(c)
    with grab():
        tr.fit(t, v)
    check_log(os.path.join(folder, 'train.log'), hist, 'resumed')
    check_points(folder, hist, 'resumed')
    same(net.w, hist[-1][1], 'weights at the end', rtol=1e-9)
    ctx.label(how)
    if k['again']:
        # nothing is left to do
        net, opt, loss, sch, tr = build(c, folder, init=6)
        tr.load_last_checkpoint()
        t, v = data(c)
        with grab():
            tr.fit(t, v)
        same(net.w, hist[-1][1], 'weights after a training without epochs', rtol=1e-9)
        check_log(os.path.join(folder, 'train.log'), hist, 'nothing left')


@sub('P39', fd(d=st.integers(1, 4), seed=seeds, where=st.sampled_from(['new/dir', '', 'cwd'])), quick=60)
def model_files(c, ctx):
    """saved models hold their configuration and parameters"""
    net = Net(c['d'], c['seed'])
    cwd = os.getcwd()
    try:
        p = ctx.path(*(c['where'].split('/') if c['where'] not in ('', 'cwd') else []), 'm.pth')
        os.chdir(ctx.dir)
        net.save('m.pth' if c['where'] == 'cwd' else p)
    finally:
        os.chdir(cwd)
    d = torch.load(p)
    eq(d['config'], dict(class_name='Net', d=c['d']), 'configuration in the file')
    n2 = Net(c['d'], c['seed'] + 1)
    n2.load_state_dict(d['model_state_dict'])
    same(n2.w, net.w, 'weights in the file')
    same(n2.b, net.b, 'bias in the file')
