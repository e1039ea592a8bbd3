"""P38: learning-rate schedules against their formulas, step by step."""
import argparse
import math
import pickle

from pbt.core import *
from pbt import torchlib   # noqa: F401
import torch
from hyperion.torch.lr_schedulers import LRScheduler, ReduceLROnPlateau, ExponentialLR, CosineLR, AdamCosineLR, LRSchedulerFactory

RULE = 'more epochs than the first period (or hold, or patience) and two or more batches per epoch'
TOL = 1e-9

lr_st = st.sampled_from([0.5, 0.1, 0.025, 1e-3])
frac = st.sampled_from([0.0, 0.01, 0.2])


def sched_st(kinds=('exp', 'cos', 'adamcos', 'plateau')):
    d = dict(
        exp=fd(kind='exp', rate=st.sampled_from([0.5, 0.1, 0.9, 1.0]), steps=st.integers(1, 7), hold=st.integers(0, 6), batch=st.booleans()),
        cos=fd(kind='cos', T=st.integers(1, 9), mul=st.integers(1, 3), restarts=st.booleans(), gamma=st.sampled_from([1, 0.5, 0.1]), batch=st.booleans()),
        adamcos=fd(kind='adamcos', T=st.integers(1, 9), mul=st.integers(1, 3), restarts=st.booleans(), gamma=st.sampled_from([1, 0.5]), batch=st.booleans()),
        plateau=fd(kind='plateau', monitor=st.sampled_from(['val_loss', 'loss', 'acc']), mode=st.sampled_from(['min', 'max']), factor=st.sampled_from([0.1, 0.5, 0.9]),
                   patience=st.integers(0, 3), thr=st.sampled_from([1e-4, 0.1, 0.0]), thr_mode=st.sampled_from(['rel', 'abs']), cooldown=st.integers(0, 3), eps=st.sampled_from([1e-8, 1e-2])))
    return st.one_of([d[k] for k in kinds])


case_st = fd(s=sched_st(), lrs=st.lists(lr_st, min_size=1, max_size=3), min_lr=st.one_of(frac, st.lists(frac, min_size=3, max_size=3)), warm=st.sampled_from([0, 0, 1, 2, 3, 5, 11]),
             epochs=st.integers(1, 14), nb=st.integers(1, 6), seed=seeds, explicit=st.booleans())


def nt(c):
    return c['nb'] > 1 and c['epochs'] > max(c['s'].get(k, 0) for k in ('T', 'hold', 'patience'))


def optimizer(lrs):
    return torch.optim.SGD([dict(params=[torch.nn.Parameter(np.zeros(1))], lr=l) for l in lrs], lr=1.0)


def min_lrs(c):
    m = c['min_lr'] if c['s']['kind'] != 'adamcos' else 0.0
    # floors are fractions of the smallest initial rate
    b = min(c['lrs'])
    return [x * b for x in m[:len(c['lrs'])]] if isinstance(m, list) else m * b


DEFAULTS = dict(min_lr=0.0, warmup_steps=0, warm_restarts=False, gamma=1, update_lr_on_batch=False, last_epoch=-1, last_batch=-1, cooldown=0, mode='min', eps=1e-8, threshold_mode='rel', threshold=1e-4, factor=0.1)


def short(cls, skip):
    """leaves out the settings that have their documented default"""
    def make(*a, **k):
        return cls(*a, **dict([(n, v) for n, v in k.items() if not (skip and n in DEFAULTS and v == DEFAULTS[n])]))
    return make


def create(c, opt):
    s, m, w = c['s'], min_lrs(c), c['warm']
    E, C, A, R = [short(x, c['seed'] % 2) for x in (ExponentialLR, CosineLR, AdamCosineLR, ReduceLROnPlateau)]
    if s['kind'] == 'exp':
        return E(opt, s['rate'], s['steps'], s['hold'], min_lr=m, warmup_steps=w, update_lr_on_batch=s['batch'])
    if s['kind'] == 'cos':
        return C(opt, s['T'], T_mul=s['mul'], min_lr=m, warmup_steps=w, warm_restarts=s['restarts'], gamma=s['gamma'], update_lr_on_batch=s['batch'])
    if s['kind'] == 'adamcos':
        return A(opt, s['T'], T_mul=s['mul'], warmup_steps=w, warm_restarts=s['restarts'], gamma=s['gamma'], update_lr_on_batch=s['batch'])
    return R(opt, monitor=s['monitor'], mode=s['mode'], factor=s['factor'], patience=s['patience'], threshold=s['thr'], threshold_mode=s['thr_mode'],
                             cooldown=s['cooldown'], min_lr=m, warmup_steps=w, eps=s['eps'])


class Model(object):
    """learning rates of every group before each batch, from the definitions"""

    def __init__(self, c):
        self.c, self.s = c, c['s']
        self.base = list(c['lrs'])
        m = min_lrs(c)
        self.floor = m if isinstance(m, list) else [m] * len(self.base)
        self.lr = list(self.base)
        self.batch, self.epoch = -1, -1
        self.start, self.T, self.restarts = 0, self.s.get('T'), 0
        self.best, self.bad, self.cool = None, 0, 0

    def schedule(self, t):
        s = self.s
        if s['kind'] == 'exp':
            if t < s['hold']:
                return list(self.base)
            return [max(f, b * s['rate'] ** ((t - s['hold']) / s['steps'])) for b, f in zip(self.base, self.floor)]
        if t - self.start >= self.T:
            if s['restarts'] and s['batch'] and self.epoch == 0:
                self.T = t - self.start + 1         # a period has at least one epoch
            elif s['restarts']:
                self.start, self.T, self.restarts = t, self.T * s['mul'], self.restarts + 1
            else:
                return list(self.floor)
        a = s['gamma'] ** self.restarts
        return [f + (a * b - f) * (1 + math.cos(math.pi * (t - self.start) / self.T)) / 2 for b, f in zip(self.base, self.floor)]

    def on_epoch(self, e):
        self.epoch = e
        if self.s['kind'] != 'plateau' and not self.s['batch']:
            self.lr = self.schedule(e)

    def on_batch(self):
        self.batch += 1
        w = self.c['warm']
        if w > 0 and self.batch <= w:
            self.lr = [f + (b - f) * self.batch / w for b, f in zip(self.base, self.floor)]
        elif self.s['kind'] != 'plateau' and self.s['batch']:
            self.lr = self.schedule(self.batch)

    def on_epoch_end(self, logs):
        s = self.s
        if s['kind'] in ('cos', 'adamcos') and s['batch'] and s['restarts'] and self.epoch == 0:
            n = self.batch + 1
            self.T = -(-self.T // n) * n            # the period is a number of whole epochs
        if s['kind'] != 'plateau':
            return
        x = logs[s['monitor']]
        if self.best is None:
            better = True
        else:
            d = s['thr'] * (self.best if s['thr_mode'] == 'rel' else 1)
            better = x < self.best - d if s['mode'] == 'min' else x > self.best + d
        if better:
            self.best, self.bad = x, 0
        else:
            self.bad += 1
        if self.cool > 0:
            self.cool -= 1
            self.bad = 0
        if self.bad > s['patience']:
            for i, l in enumerate(self.lr):
                n = max(l * s['factor'], self.floor[i])
                if l - n > s['eps']:
                    self.lr[i] = n
            self.cool, self.bad = s['cooldown'], 0


def metrics(c, r, e):
    # repeated values, small and large improvements; never at a threshold (0.9 * value has five decimals)
    return dict((k, float(np.round(2.0371 + r.choice([-1, -0.5, 0, 0, 0, 0.5, 1]) + 0.013 * e * r.choice([-1, 0, 1]), 4))) for k in ('val_loss', 'loss', 'acc'))


def drive(c, sch, opt, m, r, epochs, trace, what=''):
    for e in epochs:
        sch.epoch_begin_step(*([e] if c['explicit'] else []))
        m.on_epoch(e)
        same([g['lr'] for g in opt.param_groups], m.lr, '%srates at the beginning of epoch %d' % (what, e), rtol=TOL, atol=1e-15)
        for b in range(c['nb']):
            sch.batch_step()
            m.on_batch()
            same([g['lr'] for g in opt.param_groups], m.lr, '%srates at batch %d of epoch %d' % (what, b, e), rtol=TOL, atol=1e-15)
            trace.append((e, b, list(m.lr)))
        logs = metrics(c, r, e)
        sch.epoch_end_step(logs)
        m.on_epoch_end(logs)
        same([g['lr'] for g in opt.param_groups], m.lr, '%srates after epoch %d' % (what, e), rtol=TOL, atol=1e-15)


@sub('P38', case_st, quick=1200, nontrivial=nt, examples=[
    dict(s=dict(kind='cos', T=5, mul=2, restarts=True, gamma=0.5, batch=True), lrs=[0.1], min_lr=0.01, warm=0, epochs=14, nb=3, seed=0, explicit=True),
    dict(s=dict(kind='cos', T=4, mul=2, restarts=True, gamma=0.5, batch=False), lrs=[0.1, 0.5], min_lr=[0.01, 0.2, 0.0], warm=5, epochs=14, nb=2, seed=0, explicit=False),
    dict(s=dict(kind='exp', rate=0.5, steps=3, hold=2, batch=True), lrs=[0.1], min_lr=0.2, warm=3, epochs=14, nb=3, seed=0, explicit=True),
    dict(s=dict(kind='plateau', monitor='val_loss', mode='min', factor=0.5, patience=1, thr=0.1, thr_mode='rel', cooldown=2, eps=1e-8), lrs=[0.1], min_lr=0.01, warm=0, epochs=14, nb=2, seed=5, explicit=True)])
def schedules(c, ctx):
    """every rate of every group at every step of the training"""
    r = rng(c['seed'])
    opt = optimizer(c['lrs'])
    m = Model(c)
    sch = create(c, opt)
    same([g['lr'] for g in opt.param_groups], c['lrs'], 'rates before the training')
    trace = []
    first = 0
    if c['explicit'] and not c['s'].get('restarts') and c['s']['kind'] != 'plateau' and c['seed'] % 3 == 0:
        first = c['seed'] % 5       # the epoch is told: the training starts later
    drive(c, sch, opt, m, r, range(first, first + c['epochs']), trace)
    ctx.label(c['s']['kind'])
    s = c['s']
    floor = m.floor
    # what follows needs no model
    if first == 0 and s['kind'] in ('cos', 'adamcos') and s['batch'] and s['restarts'] and s['gamma'] == 1 and c['warm'] < c['nb']:
        b = [(e, i, l) for e, i, l in trace if e > 0 and e * c['nb'] + i > c['warm']]
        for (e0, i0, l0), (e1, i1, l1) in zip(b[:-1], b[1:]):
            if any(y > x * (1 + 1e-9) for x, y in zip(l0, l1)):
                eq(i1, 0, 'batch of the restart in epoch %d' % e1)
    if s['kind'] == 'exp' and first == 0:
        ls = [l for e, i, l in trace if e * c['nb'] + i > c['warm'] and (s['batch'] or e * c['nb'] > c['warm'])]
        for l0, l1 in zip(ls[:-1], ls[1:]):
            require(all(y <= x * (1 + 1e-9) for x, y in zip(l0, l1)), 'the exponential schedule rises')
    if c['warm'] == 0 or s['kind'] != 'plateau':
        for e, i, l in trace:
            require(all(x >= min(f, s.get('gamma', 1) ** 99 * bb) - 1e-12 for x, f, bb in zip(l, floor, c['lrs'])), 'rate under the floor')


@sub('P38', fd(c=case_st, k=st.integers(0, 13), fresh=st.booleans()), quick=500, nontrivial=lambda c: nt(c['c']) and 0 < c['k'] < c['c']['epochs'])
def resumed(c, ctx):
    """a schedule that is stopped after an epoch, saved and loaded continues as if it had not been stopped"""
    k, c, fresh = c['k'], c['c'], c['fresh']
    k = min(k, c['epochs'])
    r = rng(c['seed'])
    opt = optimizer(c['lrs'])
    m = Model(c)
    sch = create(c, opt)
    drive(c, sch, opt, m, r, range(k), [])
    state = sch.state_dict()
    require('optimizer' not in state, 'the state of the schedule contains the optimizer')
    blob = pickle.dumps((state, opt.state_dict()))
    s1, o1 = pickle.loads(blob)
    opt2 = optimizer(c['lrs'] if fresh else [7.0] * len(c['lrs']))
    sch2 = create(c, opt2)
    opt2.load_state_dict(o1)
    sch2.load_state_dict(s1)
    require(sch2.optimizer is opt2, 'the loaded schedule drives another optimizer')
    c2 = dict(c)
    drive(c2, sch2, opt2, m, r, range(k, c['epochs']), [], 'after loading: ')
    if k:
        same([g['lr'] for g in opt.param_groups], [g['lr'] for g in o1['param_groups']], 'rates of the first optimizer changed with the second one', rtol=0)


@sub('P38', fd(c=case_st, via=st.sampled_from(['args', 'create', 'prefix', 'defaults']), extra=st.booleans()), quick=500, nontrivial=lambda c: nt(c['c']))
def from_options(c, ctx):
    """schedules made from command lines or by the factory are those of the options"""
    via, extra, c = c['via'], c['extra'], dict(c['c'])
    c['min_lr'] = c['min_lr'] if not isinstance(c['min_lr'], list) else c['min_lr'][0]
    s, m = c['s'], min_lrs(c)
    typ = dict(exp='exp_lr', cos='cos_lr', adamcos='adamcos_lr', plateau='red_lr_on_plateau')[s['kind']]
    o = dict(lrsch_type=typ, min_lr=m, warmup_steps=c['warm'])
    flags = []
    if s['kind'] == 'exp':
        o.update(decay_rate=s['rate'], decay_steps=s['steps'], hold_steps=s['hold'])
    elif s['kind'] in ('cos', 'adamcos'):
        o.update(T=s['T'], T_mul=s['mul'], gamma=s['gamma'])
        flags += ['warm-restarts'] if s['restarts'] else []
    else:
        o.update(monitor=s['monitor'], mode=s['mode'], factor=s['factor'], patience=s['patience'], threshold=s['thr'], threshold_mode=s['thr_mode'], cooldown=s['cooldown'], eps=s['eps'])
    flags += ['update-lr-on-batch'] if s.get('batch') else []
    opt = optimizer(c['lrs'])
    if via == 'create':
        sch = LRSchedulerFactory.create(opt, update_lr_on_batch=bool(s.get('batch')), **dict(o, **(dict(warm_restarts=s['restarts']) if 'restarts' in s else {})))
    else:
        pre = 'lrs' if via == 'prefix' else None
        p = argparse.ArgumentParser()
        p.add_argument('--lr', type=float, default=3.0)
        LRSchedulerFactory.add_argparse_args(p, prefix=pre)
        d = '--' + (pre + '-' if pre else '')
        argv = []
        for k, v in o.items():
            name = {'T': 't', 'T_mul': 't-mul', 'threshold_mode': 'threshold_mode'}.get(k, k.replace('_', '-'))
            argv += [d + name, repr(v) if not isinstance(v, str) else v]
        argv += [d + f for f in flags]
        ns = vars(p.parse_args(argv if via != 'defaults' else []))
        kw = LRSchedulerFactory.filter_args(prefix=pre, **dict(ns, **(dict(other=1) if extra else {})))
        require('lr' not in kw and 'other' not in kw, 'arguments of others selected: %s', sorted(kw))
        sch = LRSchedulerFactory.create(opt, **kw)
        if via == 'defaults':
            require(sch is None, 'a schedule is made without being asked for')
            return
    eq(type(sch).__name__, dict(exp='ExponentialLR', cos='CosineLR', adamcos='AdamCosineLR', plateau='ReduceLROnPlateau')[s['kind']], 'class of the schedule')
    drive(c, sch, opt, Model(c), rng(c['seed']), range(c['epochs']), [])


@sub('P38', fd(c=case_st, bad=st.sampled_from(['optimizer', 'min_lr', 'factor', 'mode', 'threshold_mode', 'resume', 'none'])), quick=60)
def refused(c, ctx):
    """settings that make no sense are refused"""
    bad, c = c['bad'], c['c']
    opt = optimizer(c['lrs'])
    if bad == 'optimizer':
        raises(lambda: create(c, object()), 'an object that is no optimizer', TypeError)
    elif bad == 'min_lr':
        raises(lambda: ExponentialLR(opt, 0.5, 1, 1, min_lr=[0.0] * (len(c['lrs']) + 1)), 'wrong number of floors', ValueError)
    elif bad == 'factor':
        raises(lambda: ReduceLROnPlateau(opt, factor=1.0), 'factor 1', ValueError)
    elif bad == 'mode':
        raises(lambda: ReduceLROnPlateau(opt, mode='best'), 'unknown mode', ValueError)
    elif bad == 'threshold_mode':
        raises(lambda: ReduceLROnPlateau(opt, threshold_mode='some'), 'unknown threshold mode', ValueError)
    elif bad == 'resume':
        raises(lambda: CosineLR(opt, 3, last_epoch=2), 'resuming with an optimizer without initial rates', KeyError)
    else:
        require(LRSchedulerFactory.create(opt, 'none') is None, "'none' makes a schedule")
        raises(lambda: LRScheduler(opt).epoch_begin_step(), 'schedule of the base class')
