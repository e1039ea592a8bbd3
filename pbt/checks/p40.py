"""P40: metrics, activations, optimizers and networks of the PyTorch part, on the numpy stand-in of PyTorch."""
import argparse
import os
import stat

from pbt.core import *
from pbt import torchlib   # noqa: F401
import torch
from hyperion.torch.metrics import CategoricalAccuracy, BinaryAccuracy, BinaryAccuracyWithLogits, categorical_accuracy, binary_accuracy, binary_accuracy_with_logits
from hyperion.torch.helpers import ActivationFactory as AF, OptimizerFactory as OF
from hyperion.torch.archs import FCNetV1
from hyperion.torch.layers import Dropout1d
from hyperion.torch.transforms import Reshape
from hyperion.torch.utils import open_device

RULE = 'more than one sample, class and layer, or an option away from its default'
red = st.sampled_from(['mean', 'sum', 'none'])


def f32(x):
    return torch.tensor(np.asarray(x, dtype=np.float32))


@sub('P40', fd(n=st.integers(1, 12), k=st.integers(2, 5), onehot=st.booleans(), weight=st.booleans(), red=red, seed=seeds, cls=st.booleans(), bad=st.sampled_from([None, None, None, 'dim', 'size', 'weight'])), quick=300,
     nontrivial=lambda c: c['n'] > 1)
def class_accuracy(c, ctx):
    """weighted proportion of samples whose largest score is that of their class"""
    r = rng(c['seed'])
    x, y = r.randn(c['n'], c['k']), r.randint(c['k'], size=c['n'])
    y[r.rand(c['n']) < 0.5] = np.argmax(x, axis=1)[:1]
    w = (r.rand(c['n']) + 0.1).astype(np.float32) if c['weight'] else None
    X, Y = f32(x), torch.tensor(np.eye(c['k'], dtype=np.float32)[y] if c['onehot'] else y)
    W = None if w is None else torch.tensor(w)
    if c['bad']:
        if c['bad'] == 'dim':
            X = f32(x[:, 0])
        elif c['bad'] == 'size':
            Y = torch.tensor(np.concatenate((np.array(Y), np.array(Y)[:1])))
        elif W is None or c['red'] == 'none':
            return
        else:
            W = torch.tensor(np.append(w, 1).astype(np.float32))
        raises(lambda: categorical_accuracy(X, Y, W, c['red']), 'wrong ' + c['bad'], ValueError)
        return
    ok = (np.argmax(x, axis=1) == y).astype(float)
    with unchanged('categorical_accuracy', X, Y, W):
        got = CategoricalAccuracy(weight=W, reduction=c['red'])(X, Y) if c['cls'] else categorical_accuracy(X, Y, weight=W, reduction=c['red'])
    if c['red'] == 'none':
        same(got, ok, 'correct samples')
        return
    require(isinstance(got, float), 'accuracy is %r', type(got))
    ww = np.ones(c['n']) if w is None else w.astype(float)
    same(got, np.sum(ww * ok) / (np.sum(ww) if c['red'] == 'mean' else 1), 'accuracy', rtol=1e-5, atol=1e-6)


@sub('P40', fd(n=st.integers(1, 9), k=st.integers(1, 4), weight=st.sampled_from([None, 'sample', 'all']), red=red, thr=st.sampled_from([None, 0.5, 0.2, 0.9]), logits=st.booleans(), seed=seeds, cls=st.booleans(), bad=st.sampled_from([None, None, None, 'dim', 'size', 'weight'])), quick=400,
     nontrivial=lambda c: c['n'] > 1)
def binary_accuracies(c, ctx):
    """weighted proportion of decisions (score over the threshold; logit over its logit) that agree with the targets"""
    r = rng(c['seed'])
    p = r.rand(c['n'], c['k'])
    p[r.rand(c['n'], c['k']) < 0.3] = 0.55          # between the default threshold of probabilities and that of some logits
    y = (r.rand(c['n'], c['k']) < 0.5).astype(np.float32)
    x = np.log(p / (1 - p)) if c['logits'] else p
    thr = c['thr']
    t = 0.5 if thr is None else thr
    lim = np.log(t / (1 - t)) if c['logits'] else t
    x = np.where(np.abs(x - lim) < 1e-4, x + 1e-3, x)
    W = None
    if c['weight']:
        W = f32(r.rand(*((c['n'],) if c['weight'] == 'sample' else (c['n'], c['k']))) + 0.1)
    X, Y = f32(x), f32(y)
    fn, cl = (binary_accuracy_with_logits, BinaryAccuracyWithLogits) if c['logits'] else (binary_accuracy, BinaryAccuracy)
    kw = {} if thr is None else dict(thr=lim)
    if c['bad']:
        if c['bad'] == 'dim':
            X = Y = f32(x[:, 0])
        elif c['bad'] == 'size':
            Y = f32(np.concatenate((y, y)))
        elif W is None or c['red'] == 'none':
            return
        else:
            W = f32(np.ones(c['n'] + 1))
        raises(lambda: fn(X, Y, W, c['red'], **kw), 'wrong ' + c['bad'], ValueError)
        return
    ok = ((x > lim) == (y > 0.5)).astype(float)
    with unchanged('binary accuracy', X, Y, W):
        got = cl(weight=W, reduction=c['red'], **kw)(X, Y) if c['cls'] else fn(X, Y, weight=W, reduction=c['red'], **kw)
    if c['red'] == 'none':
        same(got, ok, 'correct decisions')
        return
    require(isinstance(got, float), 'accuracy is %r', type(got))
    w = np.ones_like(ok) if W is None else np.broadcast_to(np.array(W, dtype=float).reshape(c['n'], -1), ok.shape)
    same(got, np.sum(w * ok) / (np.sum(w) if c['red'] == 'mean' else 1), 'accuracy', rtol=1e-5, atol=1e-6)


num = st.sampled_from([0.05, 0.3, 0.7, 1.5])
ACT = {
    'elu': ('ELU', fd(alpha=num, inplace=st.booleans())), 'hardshrink': ('Hardshrink', fd(lambd=num)),
    'hardtanh': ('Hardtanh', fd(min_val=st.sampled_from([-2.0, -0.5]), max_val=num, inplace=st.booleans())),
    'leakyrelu': ('LeakyReLU', fd(negative_slope=num, inplace=st.booleans())), 'logsigmoid': ('LogSigmoid', fd()),
    'prelu': ('PReLU', fd(num_parameters=1, init=num)), 'relu': ('ReLU', fd(inplace=st.booleans())), 'relu6': ('ReLU6', fd(inplace=st.booleans())),
    'rrelu': ('RReLU', fd(lower=num, upper=st.sampled_from([1.6, 2.0]), inplace=st.booleans())), 'selu': ('SELU', fd(inplace=st.booleans())),
    'celu': ('CELU', fd(alpha=num, inplace=st.booleans())), 'sigmoid': ('Sigmoid', fd()), 'softplus': ('Softplus', fd(beta=num, threshold=st.sampled_from([0.5, 20]))),
    'softshrink': ('Softshrink', fd(lambd=num)), 'softsign': ('Softsign', fd()), 'tanh': ('Tanh', fd()), 'tanhshrink': ('Tanhshrink', fd()),
    'threshold': ('Threshold', fd(threshold=num, value=num, inplace=st.booleans())), 'softmin': ('Softmin', fd(dim=st.sampled_from([0, 1, -1]))),
    'softmax': ('Softmax', fd(dim=st.sampled_from([0, 1, -1]))), 'logsoftmax': ('LogSoftmax', fd(dim=st.sampled_from([0, 1, -1]))), 'softmax2d': ('Softmax2d', fd()),
}


@st.composite
def act_st(draw):
    n = draw(st.sampled_from(sorted(ACT)))
    kw = draw(ACT[n][1])
    if n not in ('threshold',) and draw(st.booleans()):
        kw = {k: v for k, v in kw.items() if draw(st.booleans())} if n not in ('softmin', 'softmax', 'logsoftmax', 'rrelu', 'hardtanh') else kw
    return dict(name=n, kw=kw)


@sub('P40', fd(a=act_st(), seed=seeds), quick=400, nontrivial=lambda c: bool(c['a']['kw']), examples=[dict(a=dict(name=n, kw=dict(threshold=0.3, value=0.7) if n == 'threshold' else {}), seed=1) for n in sorted(ACT)])
def activations(c, ctx):
    """an activation made from its name or configuration is the function of that name, with its settings"""
    name, kw = c['a']['name'], c['a']['kw']
    r = rng(c['seed'])
    x = f32(3 * r.randn(3, 4, 2, 2))
    ref = getattr(torch.nn, ACT[name][0])(**kw)
    a = AF.create(name, **kw)
    require(type(a) is type(ref), '%s gives %s', name, type(a).__name__)
    same(a(x), ref(x), name, rtol=1e-6)
    d = dict(kw, name=name)
    b = AF.create(d)
    eq(d, dict(kw, name=name), 'configuration given')
    same(b(x), ref(x), name + ' from a dictionary', rtol=1e-6)
    cfg = AF.get_config(a)
    require(isinstance(cfg, dict), 'configuration of %s is %r', name, cfg)
    e = AF.create(cfg)
    same(e(x), ref(x), '%s from its configuration %s' % (name, cfg), rtol=1e-6)
    eq(getattr(e, 'inplace', None), getattr(ref, 'inplace', None), 'inplace of ' + name)
    require(AF.create(a) is a, 'a ready activation is replaced')
    require(AF.create(None) is None, 'an activation is made of None')
    require(AF.get_config(None) is None, 'configuration of no activation')


def arg(k, v):
    return k.replace('_', '-'), v


OPTS = ['sgd', 'adam', 'adadelta', 'adagrad', 'sparse_adam', 'adamax', 'asgd', 'lbfgs', 'rmsprop', 'rprop']
V = dict(lr=st.sampled_from([0.3, 0.01]), momentum=st.sampled_from([0.0, 0.7]), beta1=st.sampled_from([0.8, 0.95]), beta2=st.sampled_from([0.9, 0.98]), rho=st.sampled_from([0.6, 0.8]), eps=st.sampled_from([1e-3, 1e-5]),
         weight_decay=st.sampled_from([0.0, 0.02]), amsgrad=st.booleans(), nesterov=st.booleans(), lambd=st.sampled_from([1e-3, 1e-2]), asgd_alpha=st.sampled_from([0.5, 0.6]), t0=st.sampled_from([10.0, 1e3]),
         rmsprop_alpha=st.sampled_from([0.5, 0.9]), centered=st.booleans(), lr_decay=st.sampled_from([0.1, 0.2]), init_acc_val=st.sampled_from([0.3, 0.4]), max_iter=st.sampled_from([3, 7]))


def expected(o):
    t = o['opt_type']
    w = dict(lr=o['lr'], weight_decay=o['weight_decay'])
    b = dict(betas=(o['beta1'], o['beta2']), eps=o['eps'])
    return {'sgd': ('SGD', dict(w, momentum=o['momentum'], dampening=0, nesterov=o['nesterov'])), 'adam': ('Adam', dict(w, amsgrad=o['amsgrad'], **b)),
            'adadelta': ('Adadelta', dict(w, rho=o['rho'], eps=o['eps'])), 'adagrad': ('Adagrad', dict(w, lr_decay=o['lr_decay'], initial_accumulator_value=o['init_acc_val'])),
            'sparse_adam': ('SparseAdam', dict(b, lr=o['lr'])), 'adamax': ('Adamax', dict(w, **b)), 'asgd': ('ASGD', dict(w, lambd=o['lambd'], alpha=o['asgd_alpha'], t0=o['t0'])),
            'lbfgs': ('LBFGS', dict(lr=o['lr'], max_iter=o['max_iter'])), 'rmsprop': ('RMSprop', dict(w, alpha=o['rmsprop_alpha'], eps=o['eps'], momentum=o['momentum'], centered=o['centered'])),
            'rprop': ('Rprop', dict(lr=o['lr']))}[t]


@sub('P40', fd(t=st.sampled_from(OPTS), v=fd(**V), via=st.sampled_from(['create', 'args', 'prefix']), upper=st.booleans()), quick=400)
def optimizers(c, ctx):
    """the optimizer asked for, with every setting in its place"""
    o = dict(c['v'], opt_type=c['t'])
    params = [torch.nn.Parameter(np.zeros(2))]
    if c['via'] == 'create':
        d = dict(momentum=0, weight_decay=0, amsgrad=False, nesterov=False, centered=False)
        opt = OF.create(params, **dict((k, v) for k, v in o.items() if not (c['upper'] and k in d and v == d[k])))
    else:
        pre = 'opt' if c['via'] == 'prefix' else None
        p = argparse.ArgumentParser()
        if pre:
            p.add_argument('--lr', type=float, default=99.0)
        OF.add_argparse_args(p, prefix=pre)
        d = '--' + (pre + '-' if pre else '')
        argv = [d + 'optimizer', c['t'].upper() if c['upper'] else c['t']]
        for k, v in c['v'].items():
            if v is True:
                argv.append(d + k.replace('_', '-'))
            elif v is not False:
                argv += [d + k.replace('_', '-'), repr(v)]
        ns = vars(p.parse_args(argv))
        kw = OF.filter_args(prefix=pre, other=3, **ns)
        eq(kw, o, 'selected arguments')
        opt = OF.create(params, **kw)
    name, want = expected(o)
    eq(type(opt).__name__, name, 'class of the optimizer')
    for k, v in want.items():
        eq(opt.defaults[k], v, '%s of %s' % (k, name))
    require(opt.param_groups[0]['params'][0] is params[0], 'parameters of the optimizer')


# ------------------------------------------------------------------ networks
@st.composite
def net_st(draw):
    n = draw(st.integers(1, 3))
    u = draw(st.one_of(st.integers(1, 5), st.lists(st.integers(1, 5), min_size=n, max_size=n)))
    return dict(num_hid_layers=n, input_units=draw(st.integers(1, 4)), hid_units=u, output_units=draw(st.integers(1, 4)), hid_act=draw(st.sampled_from(['relu', 'tanh', None, 'cfg'])), output_act=draw(st.sampled_from([None, 'sigmoid', 'cfg'])),
                use_batchnorm=draw(st.booleans()), dropout_rate=draw(st.sampled_from([0, 0.3])), without_output_layer=draw(st.booleans()), use_output_batchnorm=draw(st.booleans()), use_output_dropout=draw(st.booleans()))


NET_DEF = dict(hid_act='relu', output_act=None, use_batchnorm=True, dropout_rate=0, without_output_layer=False, use_output_batchnorm=False, use_output_dropout=False)


def mods(net, cls):
    """every module of a class inside the network, once"""
    out, seen = [], set()

    def walk(m):
        if id(m) in seen:
            return
        seen.add(id(m))
        if isinstance(m, cls):
            out.append(m)
        for x in m.children():
            walk(x)
    walk(net)
    return out


@sub('P40', fd(a=net_st(), n=st.integers(2, 6), seed=seeds), quick=300, nontrivial=lambda c: c['a']['num_hid_layers'] > 1)
def networks(c, ctx):
    """fully connected networks are the composition of their layers, and are rebuilt by their configuration"""
    a = dict(c['a'])
    if a['hid_act'] == 'cfg':
        a['hid_act'] = dict(name='leakyrelu', negative_slope=0.3)
    if a['output_act'] == 'cfg':
        a['output_act'] = dict(name='elu', alpha=0.4)
    L = a['num_hid_layers']
    hu = a['hid_units'] if isinstance(a['hid_units'], list) else [a['hid_units']] * L
    units = [a['input_units']] + hu
    outs = units + ([] if a['without_output_layer'] else [a['output_units']])
    np.random.seed(c['seed'] % 1000)
    short = dict((k, v) for k, v in a.items() if not (c['seed'] % 2 and k in NET_DEF and v == NET_DEF[k]))     # settings with their default are left out
    net = FCNetV1(**short)
    net.eval()
    r = rng(c['seed'])
    x = r.randn(c['n'], a['input_units'])

    def act(s):
        return {None: lambda v: v, 'relu': lambda v: np.maximum(v, 0), 'tanh': np.tanh, 'sigmoid': lambda v: 1 / (1 + np.exp(-v)), 'leakyrelu': lambda v: np.where(v > 0, v, 0.3 * v),
                'elu': lambda v: np.where(v > 0, v, 0.4 * np.expm1(np.minimum(v, 0)))}[s['name'] if isinstance(s, dict) else s]

    def bn(m, v):
        return (v - np.array(m.running_mean)) / np.sqrt(np.array(m.running_var) + m.eps) * np.array(m.weight) + np.array(m.bias)

    lin = mods(net, torch.nn.Linear)
    bns = mods(net, torch.nn.BatchNorm1d)
    eqlist([(m.in_features, m.out_features) for m in lin], list(zip(outs[:-1], outs[1:])), 'layers')
    want_bn = (units[:L] + ([] if a['without_output_layer'] else [units[-1]]) if a['use_batchnorm'] else []) + ([outs[-1]] if a['use_output_batchnorm'] else [])
    eqlist([m.num_features for m in bns], want_bn, 'batch normalisation layers')

    def compose(drop):
        y, b = x, 0
        for i in range(L + (0 if a['without_output_layer'] else 1)):
            if a['use_batchnorm']:
                y, b = bn(bns[b], y), b + 1
            y = y.dot(np.array(lin[i].weight).T) + np.array(lin[i].bias)
            y = act(a['hid_act'] if i < L else a['output_act'])(y)
            if a['dropout_rate'] > 0 and (i < L or a['use_output_dropout']):
                y = drop(y)
        return bn(bns[b], y) if a['use_output_batchnorm'] else y
    y = compose(lambda v: v)
    X = f32(x)
    with unchanged('network', X):
        got = net(X)
    same(got, y, 'output of the network', rtol=1e-3, atol=1e-4)
    cfg = net.get_config()
    eq(cfg.get('class_name'), 'FCNetV1', 'class in the configuration')
    kw = {k: v for k, v in cfg.items() if k != 'class_name'}
    eq(sorted(kw), sorted(a), 'settings in the configuration')
    for k in a:
        if k not in ('hid_act', 'output_act'):
            eq(kw[k], a[k], 'setting %s in the configuration' % k)
    import pickle
    pickle.dumps(kw)
    net2 = FCNetV1(**kw)
    net2.eval()
    # the rebuilt network takes the parameters of the first one
    net2.load_state_dict(net.state_dict())
    same(net2(X), got, 'output of the network rebuilt from its configuration', rtol=1e-6, atol=1e-7)
    # while training, dropped units change the output, and only where there is dropout
    net.train()
    if a['dropout_rate'] == 0 and not want_bn:
        same(net(X), got, 'output while training', rtol=1e-6)
    drop = mods(net, torch.nn.Dropout)
    eq(len(drop), (L + (1 if a['use_output_dropout'] and not a['without_output_layer'] else 0)) if a['dropout_rate'] else 0, 'dropout layers')
    for m in drop:
        eq(m.p, a['dropout_rate'], 'dropout rate')
    # the place of the dropout, seen with a function in its place
    real = torch.nn.Dropout.forward
    torch.nn.Dropout.forward = lambda self, v: torch.tensor(0.5 * np.array(v) - 0.3)
    try:
        net.eval()
        same(net(X), compose(lambda v: 0.5 * v - 0.3), 'output with another function in the place of the dropout', rtol=1e-3, atol=1e-4)
        net.train()
    finally:
        torch.nn.Dropout.forward = real
    net(X)


@sub('P40', fd(n=st.integers(1, 4), k=st.integers(1, 5), t=st.integers(1, 6), p=st.sampled_from([0.0, 0.3, 0.9]), train=st.booleans(), seed=seeds), quick=150, nontrivial=lambda c: c['train'] and c['p'] > 0)
def dropout_and_reshape(c, ctx):
    """one-dimensional dropout removes whole channels in training and nothing otherwise; reshape keeps the values"""
    r = rng(c['seed'])
    x = r.randn(c['n'], c['k'], c['t']) + 10
    d = Dropout1d(c['p'])
    d.train(c['train'])
    np.random.seed(c['seed'] % 999)
    y = np.array(d(torch.tensor(x)))
    eq(y.shape, x.shape, 'shape')
    if not c['train'] or c['p'] == 0:
        same(y, x, 'values without dropout')
    else:
        q = y / x * (1 - c['p'])
        require(np.all(np.isclose(q, 0) | np.isclose(q, 1)), 'values neither dropped nor scaled')
        require(np.allclose(q, q[:, :, :1]), 'channels dropped in part')
    s = (c['t'], c['n'] * c['k'])
    same(Reshape(s)(torch.tensor(x)), x.reshape(s), 'reshaped')


@sub('P40', fd(n=st.integers(1, 4), ids=st.one_of(st.none(), st.lists(st.integers(0, 9), min_size=1, max_size=4), st.sampled_from(['3', '1,2'])), tool=st.sampled_from(['works', 'absent', 'works'])), quick=60, nontrivial=lambda c: c['n'] > 1)
def devices(c, ctx):
    """the devices made visible are those named, or as many free ones as asked for"""
    d = ctx.path('bin')
    os.makedirs(d)
    if c['tool'] == 'works':
        with open(os.path.join(d, 'free-gpu'), 'w') as f:
            f.write('#!/bin/sh\nn=1\nwhile getopts ":n:" o; do case $o in n) n=$OPTARG;; esac; done\ns=7\ni=1\nwhile [ $i -lt $n ]; do s=$s,$((7+i)); i=$((i+1)); done\necho $s\n')
        os.chmod(os.path.join(d, 'free-gpu'), 0o755)
    old = {k: os.environ.get(k) for k in ('PATH', 'CUDA_VISIBLE_DEVICES', 'CUDA_DEVICE_ORDER')}
    try:
        os.environ['PATH'] = d + ':/bin:/usr/bin'
        if c['ids'] is None:
            dev = open_device(c['n'])
            want = ','.join(str(7 + i) for i in range(c['n'])) if c['tool'] == 'works' else '0'
        else:
            dev = open_device(c['n'], gpu_ids=c['ids'])
            want = c['ids'] if isinstance(c['ids'], str) else ','.join(str(i) for i in c['ids'])
        eq(os.environ['CUDA_VISIBLE_DEVICES'], want, 'visible devices')
        eq(os.environ['CUDA_DEVICE_ORDER'], 'PCI_BUS_ID', 'order of the devices')
        eq(dev.type, 'cpu', 'device without CUDA')
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
