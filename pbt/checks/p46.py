"""P46: network architectures of the Keras part, on the numpy stand-in of Keras.

The weights of a network are set to values made from the name and shape of each layer, so that a reference composition can be computed from the configuration alone."""
import zlib

import numpy as np

from pbt.core import *
from pbt.keraslib import K
from keras import layers as L
from keras.models import load_model
from hyperion.keras.archs import tdnn, ffnet, convnet, vgg, resnet

near = same


def need(cond, msg):
    require(cond, '%s', msg)


RULE = 'more than one hidden layer'
TOL = dict(rtol=1e-6, atol=1e-6)
ACT = {None: lambda x: x, 'linear': lambda x: x, 'relu': lambda x: np.maximum(x, 0), 'tanh': np.tanh, 'sigmoid': lambda x: 1 / (1 + np.exp(-x)),
       'softmax': lambda x: np.exp(x - x.max(-1, keepdims=True)) / np.exp(x - x.max(-1, keepdims=True)).sum(-1, keepdims=True)}


def W(name, kind, shape):
    r = np.random.RandomState(zlib.crc32(('%s %s %s' % (name, kind, tuple(shape))).encode()))
    v = r.randn(*shape)
    return v / np.sqrt(max(1, np.prod(shape[:-1]))) if len(shape) > 1 else 0.3 * v


def core(l):
    return l.layer if isinstance(l, L.TimeDistributed) else l


def bn_of(n):
    return [1 + 0.5 * W('bn', 'g', (n,)), W('bn', 'b', (n,)), W('bn', 'm', (n,)), 1 + np.abs(W('bn', 'v', (n,)))]


def fill(m):
    """named weights for all the layers"""
    for l in m.layers:
        l = core(l)
        if isinstance(l, L.BatchNormalization):
            l.set_weights(bn_of(l.weights[0].shape[0]))
        elif len(l.weights):
            l.set_weights([W(l.name, 'w' if w.ndim > 1 else 'b', w.shape) for w in l.weights])
    return m


class Net(object):
    """reference layers, in the order in which a network of the given configuration composes them; counts what it applied"""

    def __init__(self, bn, act):
        self.bn, self.a, self.names, self.nbn = bn, ACT[act], [], 0

    def norm(self, x):
        if not self.bn:
            return x
        self.nbn += 1
        g, b, m, v = bn_of(x.shape[-1])
        return (x - m) / np.sqrt(v + 1e-3) * g + b

    def dense(self, x, n, name):
        self.names.append((name, (x.shape[-1], n)))
        return x @ W(name, 'w', (x.shape[-1], n)) + W(name, 'b', (n,))

    def conv1(self, x, n, k, d, pad, name, out=None):
        s = (k, x.shape[-1], n)
        self.names.append((name, s))
        w, b = W(name, 'w', s), W(name, 'b', (n,))
        left = (k - 1) * d // 2 if pad == 'same' else 0
        T = x.shape[1] if pad == 'same' else x.shape[1] - (k - 1) * d
        y = np.zeros((x.shape[0], T, n))
        for t in range(T):
            for i in range(k):
                q = t - left + i * d
                if 0 <= q < x.shape[1]:
                    y[:, t] += x[:, q] @ w[i]
        return y + b

    def tconv1(self, x, n, k, d, pad, name):
        s = (k, 1, n, x.shape[-1])
        self.names.append((name, s))
        w, b = W(name, 'w', s), W(name, 'b', (n,))
        left = (k - 1) * d // 2 if pad == 'same' else 0
        T = x.shape[1] if pad == 'same' else x.shape[1] + (k - 1) * d
        y = np.zeros((x.shape[0], T, n))
        for t in range(x.shape[1]):
            for i in range(k):
                q = t - left + i * d
                if 0 <= q < T:
                    y[:, q] += x[:, t] @ w[i, 0].T
        return y + b

    @staticmethod
    def places(n, k, s, d, pad):
        e = (k - 1) * d + 1
        if pad == 'valid':
            return [(j * s) for j in range((n - e) // s + 1)]
        m = (n + s - 1) // s
        tot = max(0, (m - 1) * s + e - n)
        return [j * s - tot // 2 for j in range(m)]

    def conv2(self, x, n, k, st, d, pad, name):
        s = tuple(k) + (x.shape[-1], n)
        self.names.append((name, s))
        w, b = W(name, 'w', s), W(name, 'b', (n,))
        P, Q = [self.places(x.shape[i + 1], k[i], st[i], d[i], pad) for i in (0, 1)]
        y = np.zeros((x.shape[0], len(P), len(Q), n))
        for a, p in enumerate(P):
            for c, q in enumerate(Q):
                for i in range(k[0]):
                    for j in range(k[1]):
                        u, v = p + i * d[0], q + j * d[1]
                        if 0 <= u < x.shape[1] and 0 <= v < x.shape[2]:
                            y[:, a, c] += x[:, u, v] @ w[i, j]
        return y + b

    def pool2(self, x, k, st, pad):
        P, Q = [self.places(x.shape[i + 1], k[i], st[i], 1, pad) for i in (0, 1)]
        y = np.empty((x.shape[0], len(P), len(Q), x.shape[-1]))
        for a, p in enumerate(P):
            for c, q in enumerate(Q):
                y[:, a, c] = x[:, max(0, p):p + k[0], max(0, q):q + k[1]].max(axis=(1, 2))
        return y


def cst(v):
    return lambda shape, dtype=None: np.full(shape, v)


def watched():
    """settings of the layers that have to arrive at all of them"""
    class Reg(object):
        def __call__(self, x):
            return 0.

    class Con(object):
        def __call__(self, x):
            return x
    return dict(kernel_initializer=cst(3.), bias_initializer=cst(5.), kernel_regularizer=Reg(), bias_regularizer=Reg(), kernel_constraint=Con(), bias_constraint=Con())


def check_settings(m, opts):
    for l in m.layers:
        l = core(l)
        if isinstance(l, L.BatchNormalization) or not l.weights:
            continue
        for w in l.weights:
            near(w, np.full(w.shape, 3. if w.ndim > 1 else 5.), '%s: initial weights' % l.name)
        for k in ('kernel_regularizer', 'bias_regularizer', 'kernel_constraint', 'bias_constraint'):
            got = l._rest.get(k) if hasattr(l, '_rest') else getattr(l, k)
            need(got is opts[k], '%s: %s is %r' % (l.name, k, got))


def hidden(m):
    return sorted((core(l).name, tuple(core(l).weights[0].shape)) for l in m.layers if len(l.weights) and not isinstance(core(l), L.BatchNormalization))


def check_net(c, ctx, m, net, xs, want, drops, name):
    want = want if isinstance(want, list) else [want]
    same(m.name, name, 'name of the network')
    same(hidden(m), sorted(net.names), 'layers with weights')
    same(sum(isinstance(l, L.BatchNormalization) for l in m.layers), net.nbn, 'number of normalisation layers')
    same(sorted((type(l).__name__, l.rate) for l in m.layers if isinstance(l, L.Dropout)), sorted(drops), 'dropout layers')
    same(len(m.inputs), len(xs), 'inputs')
    fill(m)
    got = m.predict(xs if len(xs) > 1 else xs[0])
    got = got if isinstance(got, list) else [got]
    same(len(got), len(want), 'outputs')
    sh = m.compute_output_shape([x.shape for x in xs] if len(xs) > 1 else xs[0].shape)
    sh = sh if isinstance(sh, list) else [sh]
    st_ = m.output_shape if isinstance(m.output_shape, list) else [m.output_shape]
    for g, w, s, t in zip(got, want, sh, st_):
        near(g, w, 'output', **TOL)
        same(tuple(s), w.shape, 'announced shape')
        need(len(t) == w.ndim and all(a in (None, b) for a, b in zip(t, w.shape)) and t[-1] is not None, 'static shape %s for an output of %s' % (t, w.shape))
    if c['save']:
        fn = ctx.path('net')
        m.save(fn)
        m2 = load_model(fn)
        g2 = m2.predict(xs if len(xs) > 1 else xs[0])
        g2 = g2 if isinstance(g2, list) else [g2]
        for a, b in zip(g2, got):
            near(a, b, 'output of the saved network', rtol=1e-12, atol=0)


def per_layer(v, n):
    return v if isinstance(v, list) else [v] * n


def outputs(c, f):
    """the output layers: f(units, name suffix) -> values before the activation"""
    ou, oa = c['out'], c['oact']
    if not isinstance(ou, list):
        return ACT[oa](f(ou, ''))
    oa = oa if isinstance(oa, list) else [oa] * len(ou)
    return [ACT[a](f(u, '-%d' % i)) for i, (u, a) in enumerate(zip(ou, oa))]


def fix(c):
    """consistent lists"""
    c = dict(c)
    r = np.random.RandomState(c['seed'])
    n = 2 * c['td'] if c['kind'] == 'ResTDNNV1' else c['td']
    ks = [1, 2, 3, 4, 5] if c['even'] else [1, 3, 5]
    c['ks'] = [int(r.choice(ks)) for _ in range(n)] if c['klist'] else int(r.choice(ks))
    c['dil'] = [int(r.randint(1, 4)) for _ in range(n)] if c['dlist'] else c['rate']
    k, d = per_layer(c['ks'], n), c['dil'] if c['dlist'] else None
    if d is None:
        d = [c['rate'] + c['factor'] * (n - i if 'Transpose' in c['kind'] else i) for i in range(n)]
    c['k'], c['d'], c['n'] = k, d, n
    c['out'] = [int(r.randint(1, 4)) for _ in range(r.randint(1, 4))] if c['many'] else int(r.randint(1, 4))
    acts = [None, 'tanh', 'sigmoid', 'softmax', 'linear']
    c['oact'] = acts[r.randint(5)]
    if c['many'] and c['alist']:
        c['oact'] = [acts[r.randint(5)] for _ in c['out']]
    return c


KINDS = ['TDNNV1', 'TDNNV2', 'ResTDNNV1', 'TDNNV1WithEmbedInputV1', 'TDNNV1Transpose', 'TDNNV2Transpose', 'TDNNV1TransposeWithEmbedInputV1', 'TDNNV2TransposeWithEmbedInputV1']
td_st = dict(kind=st.sampled_from(KINDS), td=st.integers(1, 3), fc=st.integers(1, 3), even=st.booleans(), klist=st.booleans(), dlist=st.booleans(), ulist=st.booleans(), rate=st.integers(1, 2), factor=st.integers(0, 2), pad=st.sampled_from(['same', 'same', 'valid']),
             many=st.booleans(), alist=st.booleans(), act=st.sampled_from(['relu', 'tanh', None]), bn=st.booleans(), dtd=st.sampled_from([0, 0, 0.2, 0.5]), dfc=st.sampled_from([0, 0, 0.1, 0.4]), spatial=st.booleans(), hu=st.integers(1, 3), hf=st.integers(1, 3),
             dx=st.integers(1, 3), de=st.integers(1, 2), every=st.booleans(), name=st.sampled_from([None, 'net']), save=st.booleans(), seed=seeds)
NAMES = dict(TDNNV1='tdnn-v1', TDNNV2='tdnn-v1', ResTDNNV1='res-tdnn-v1', TDNNV1WithEmbedInputV1='tdnn-v1-e-v1', TDNNV1Transpose='t-tdnn-v1', TDNNV2Transpose='t-tdnn-v2', TDNNV1TransposeWithEmbedInputV1='t-tdnn-v1-e-v1', TDNNV2TransposeWithEmbedInputV1='t-tdnn-v1-e-v1')


def fc_units(c):
    """number of hidden fully connected layers and their option"""
    kind, fc = c['kind'], c['fc']
    nh = fc if 'Transpose' in kind else fc - 1
    r = np.random.RandomState(c['seed'] ^ 1)
    if c['ulist'] and kind != 'ResTDNNV1':
        u = [int(r.randint(1, 4)) for _ in range(fc if 'Embed' in kind or 'Transpose' in kind else nh)]
        return u[:nh], u
    return [c['hf']] * nh, c['hf']


def make_td(c, **kw):
    units = fc_units(c)[1]
    kind = c['kind']
    a = dict(output_units=c['out'], hidden_td_units=c['hu'], hidden_fc_units=units, input_units=c['dx'], kernel_size=c['ks'], dilation_rate=c['dil'], dilation_rate_factor=c['factor'], padding=c['pad'], output_activation=c['oact'], hidden_activation=c['act'],
             use_batchnorm=c['bn'], td_dropout_rate=c['dtd'], fc_dropout_rate=c['dfc'], spatial_dropout=c['spatial'], **kw)
    if kind == 'ResTDNNV1':
        a.update(num_td_blocks=c['td'], num_fc_blocks=c['fc'])
    else:
        a.update(num_td_layers=c['td'], num_fc_layers=c['fc'])
    if 'Embed' in kind:
        a.update(embed_units=c['de'], cat_embed_to_all_fc_layers=c['every'])
    if c['name']:
        a['name'] = c['name']
    return getattr(tdnn, kind)(**a)


def ref_td(c, xs):
    net = Net(c['bn'], c['act'])
    kind, pad, k, d = c['kind'], c['pad'], c['k'], c['d']
    D = 'SpatialDropout1D' if c['spatial'] else 'Dropout'
    drops = []
    h = xs[0]
    fcs = fc_units(c)[0]
    emb = 'Embed' in kind
    conv = net.tconv1 if 'V2Transpose' in kind else net.conv1

    def drop(w):
        if c[w]:
            drops.append((D, c[w]))
    if kind == 'ResTDNNV1':
        for i in range(c['td']):
            h = net.norm(h)
            res = net.conv1(h, c['hu'], 1, 1, 'same', 'res-td-0') if i == 0 else h
            y = h
            for j in (0, 1):
                y = net.a(net.conv1(y, c['hu'], k[2 * i + j], d[2 * i + j], pad, 'td-%d-%d' % (i, j + 1)))
                drop('dtd')
            h = y + res
        for i in range(c['fc']):
            h = net.norm(h)
            res = net.conv1(h, c['hf'], 1, 1, 'same', 'res-fc-0') if i == 0 and c['hu'] != c['hf'] else h
            y = h
            for j in (0, 1):
                y = net.a(net.conv1(y, c['hf'], 1, 1, pad, 'fc-%d-%d' % (i, j + 1)))
                drop('dfc')
            h = y + res
        h = net.norm(h)
        return net, drops, outputs(c, lambda u, s: net.dense(h, u, 'fc-%d%s' % (2 * c['fc'], s)))
    if 'Transpose' in kind:
        for i, u in enumerate(fcs):
            if emb and (i == 0 or c['every']):
                h = np.concatenate((h, xs[1]), axis=-1)
            h = net.a(net.dense(net.norm(h), u, 'fc-%d' % i))
            drop('dfc')
        for i in range(c['td'] - 1):
            h = net.a(conv(net.norm(h), c['hu'], k[i], d[i], pad, 'td-%d' % i))
            drop('dtd')
        h = net.norm(h)
        return net, drops, outputs(c, lambda u, s: conv(h, u, k[-1], d[-1], pad, 'td-%d%s' % (c['td'] - 1, s)))
    for i in range(c['td']):
        h = net.a(net.conv1(net.norm(h), c['hu'], k[i], d[i], pad, 'td-%d' % i))
        drop('dtd')
    for i, u in enumerate(fcs):
        if emb and (i == 0 or c['every']):
            h = np.concatenate((h, xs[1]), axis=-1)
        h = net.a(net.dense(net.norm(h), u, 'fc-%d' % i))
        drop('dfc')
    if emb and not fcs:
        h = np.concatenate((h, xs[1]), axis=-1)
    h = net.norm(h)
    return net, drops, outputs(c, lambda u, s: net.dense(h, u, 'fc-%d%s' % (c['fc'] - 1, s)))


@sub('P46', fd(**td_st), quick=400, nontrivial=lambda c: c['td'] > 1 and c['fc'] > 1)
def time_delay(c, ctx):
    c = fix(c)
    span = sum(d * (k - 1) for k, d in zip(c['k'], c['d']))
    if c['pad'] == 'valid' and (c['kind'] == 'ResTDNNV1' and span or 'Embed' in c['kind']):
        c['pad'] = 'same'
    r = np.random.RandomState(c['seed'])
    T = int(span + r.randint(1, 6)) if c['pad'] == 'valid' else int(r.randint(1, 9))
    T = min(T, 60)
    xs = [r.randn(2, T, c['dx'])]
    if c['pad'] == 'valid' and T <= span and 'V2Transpose' not in c['kind']:
        c['pad'] = 'same'
    if 'Embed' in c['kind']:
        xs.append(r.randn(2, T, c['de']))
    opts = watched()
    check_settings(make_td(c, **opts), opts)
    m = make_td(c)
    net, drops, want = ref_td(c, xs)
    check_net(c, ctx, m, net, xs, want, drops, c['name'] or NAMES[c['kind']])


def influence(m, T, others, D, value=1.):
    """frames of the output that each frame of the input reaches (found by NaN, which no layer stops)"""
    rows = []
    for t in range(T):
        x = np.full((1, T, D), value)
        x[0, t] = np.nan
        with np.errstate(all='ignore'):
            y = m.predict([x] + others if others else x)
        y = y[0] if isinstance(y, list) else y
        bad = np.isnan(y[0])
        need((bad.all(-1) == bad.any(-1)).all(), 'a part of the units of an output frame depends on input frame %d' % t)
        rows.append(bad.any(-1))
    return np.array(rows)


@sub('P46', fd(**td_st), quick=250, nontrivial=lambda c: c['td'] > 1 and c['klist'])
def contexts(c, ctx):
    c = dict(c, even=False, save=False)
    c['td'] = min(c['td'], 2)
    c = fix(c)
    span = sum(d * (k - 1) for k, d in zip(c['k'], c['d']))
    if c['pad'] == 'valid' and ('Embed' in c['kind'] or c['kind'] == 'ResTDNNV1') or 'softmax' in (c['oact'] if isinstance(c['oact'], list) else [c['oact']]) or span > 50:
        c['pad'] = 'same'
    m, got = make_td(c, return_context=True)
    same(got, span // 2, 'context')
    need(isinstance(got, int), 'context is %r' % (got,))
    T = span + 5
    if T > 45:
        return
    inf = influence(fill(m), T, [np.ones((1, T, c['de']))] if 'Embed' in c['kind'] else [], c['dx'])
    if c['pad'] == 'valid' and 'V2Transpose' not in c['kind']:
        same(inf.shape[1], T - 2 * got, 'output frames')
        off = got
    elif c['pad'] == 'valid':
        same(inf.shape[1], T + 2 * got, 'output frames')
        off = -got
    else:
        same(inf.shape[1], T, 'output frames')
        off = 0
    # the outermost kernel taps always reach exactly the context on both sides
    for t in range(inf.shape[1]):
        f = np.nonzero(inf[:, t])[0]
        lo, hi = max(0, t + off - got), min(T - 1, t + off + got)
        need(len(f) and f[0] >= lo and f[-1] <= hi, 'output frame %d depends on input frames %s, outside of %d to %d' % (t, f, lo, hi))
        if t + off - got >= 0 and t + off + got < T:
            same((int(f[0]), int(f[-1])), (lo, hi), 'first and last input frame that output frame %d depends on' % t)


@sub('P46', fd(nl=st.integers(1, 4), ulist=st.booleans(), hu=st.integers(1, 3), out=st.integers(1, 4), dx=st.integers(1, 4), oact=st.sampled_from([None, 'softmax', 'sigmoid']), act=st.sampled_from(['relu', 'tanh', None]), bn=st.booleans(), drop=st.sampled_from([0, 0.3]),
               name=st.sampled_from([None, 'net']), save=st.booleans(), seed=seeds), quick=150, nontrivial=lambda c: c['nl'] > 2)
def feed_forward(c, ctx):
    r = np.random.RandomState(c['seed'])
    us = [int(r.randint(1, 4)) for _ in range(c['nl'] - 1)] if c['ulist'] else [c['hu']] * (c['nl'] - 1)
    a = dict(output_activation=c['oact'], hidden_activation=c['act'], use_batchnorm=c['bn'], dropout_rate=c['drop'], **({'name': c['name']} if c['name'] else {}))

    def make(**kw):
        return ffnet.FFNetV1(c['nl'], c['out'], us if c['ulist'] else c['hu'], c['dx'], **dict(a, **kw))
    opts = watched()
    check_settings(make(**opts), opts)
    x = r.randn(5, c['dx'])
    net = Net(c['bn'], c['act'])
    h = x
    for i, u in enumerate(us):
        h = net.a(net.dense(net.norm(h), u, 'fc-%d' % i))
    want = ACT[c['oact']](net.dense(net.norm(h), c['out'], 'fc-%d' % len(us)))
    check_net(c, ctx, make(), net, [x], want, [('Dropout', c['drop'])] * (len(us) if c['drop'] else 0), c['name'] or 'ffnn-v1')


two = st.sampled_from
K2 = [(5, 3), (3, 3), (3, 2), (1, 3), (2, 5)]


@sub('P46', fd(kind=st.sampled_from(['zhang', 'td', 'vgg', 'tdvgg']), nb=st.integers(1, 3), fc=st.integers(1, 3), flist=st.booleans(), klist=st.booleans(), dlist=st.booleans(), tup=st.booleans(), blist=st.booleans(), ulist=st.booleans(), rate=st.integers(1, 2), factor=st.integers(0, 2),
               pool=two([(1, 3), (1, 2), (1, 1)]), np_=st.integers(0, 4), kf=st.integers(1, 3), ff=st.integers(1, 3), mx=st.integers(2, 6), pk=two([2, 3, (2, 1), (1, 3)]), ps=two([2, 1, (1, 2), (2, 3)]), hf=st.integers(1, 3), out=st.integers(1, 3), oact=st.sampled_from([None, 'softmax', 'sigmoid']),
               act=st.sampled_from(['relu', 'tanh', None]), bn=st.booleans(), dc=st.sampled_from([0, 0.3]), df=st.sampled_from([0, 0.4]), T=st.integers(2, 7), F=st.integers(2, 8), ch=st.integers(1, 2), name=st.sampled_from([None, 'net']), save=st.booleans(), seed=seeds), quick=300,
     nontrivial=lambda c: c['nb'] > 1 and c['fc'] > 1)
def convolutional(c, ctx):
    r = np.random.RandomState(c['seed'])
    kind, nb, fc, T, F = c['kind'], c['nb'], c['fc'], c['T'], c['F']
    pick = lambda o: o[r.randint(len(o))]
    ks = [pick(K2) for _ in range(nb)] if c['klist'] else pick(K2)
    a = dict(output_activation=c['oact'], hidden_activation=c['act'], use_batchnorm=c['bn'], conv_dropout_rate=c['dc'], fc_dropout_rate=c['df'], num_fc_layers=fc, **({'name': c['name']} if c['name'] else {}))
    k = per_layer(ks, nb)
    rates = [(int(r.randint(1, 3)),) + ((int(r.randint(1, 3)),) if c['tup'] else (1,)) for _ in range(nb)]
    if c['dlist']:
        dil = [q if c['tup'] else q[0] for q in rates]
    else:
        dil = c['rate']
        rates = [(c['rate'] + c['factor'] * i, 1) for i in range(nb)]
    filters = [int(r.randint(1, 4)) for _ in range(nb)] if c['flist'] else c['kf']
    uf = [int(r.randint(1, 4)) for _ in range(fc - 1)] if c['ulist'] else c['hf']
    drops = []
    net = Net(c['bn'], c['act'])

    def drop(p):
        if p:
            drops.append(('Dropout', p))

    def tail(h):
        for i, u in enumerate(per_layer(uf, fc - 1)):
            h = net.a(net.dense(net.norm(h), u, 'fc-%d' % i))
            drop(c['df'])
        return ACT[c['oact']](net.dense(net.norm(h), c['out'], 'fc-%d' % (fc - 1)))
    pair = lambda v: (v, v) if isinstance(v, int) else v
    if kind in ('zhang', 'td'):
        uf = c['hf']
        a.update(num_conv_layers=nb, conv_filters=filters, hidden_fc_units=uf, kernel_size=ks, pool_size=c['pool'])
        if kind == 'td':
            a.update(num_poolings=c['np_'], dilation_rate=dil, dilation_rate_factor=c['factor'])
        x = r.randn(2, T, F)
        h = x[..., None]
        for i in range(nb):
            h = net.a(net.conv2(net.norm(h), per_layer(filters, nb)[i], k[i], (1, 1), rates[i] if kind == 'td' else (1, 1), 'same', 'conv-%d' % i))
            if i < (c['np_'] if kind == 'td' else 1):
                h = net.pool2(h, c['pool'], c['pool'], 'same')
            drop(c['dc'])
        h = h.reshape(2, T, -1)
        fn, dflt = (convnet.ConvNetZhang17V1, 'zhang17-v1') if kind == 'zhang' else (convnet.TDConv2DNetV1, 'tdconv2dnet-v1')
    else:
        nbl = [int(r.randint(1, 3)) for _ in range(nb)] if c['blist'] else int(r.randint(1, 3))
        ks = pick([3, 2, (3, 1)])
        pk, ps = (c['pk'], c['ps']) if kind == 'vgg' else ((1, 2), (1, pick([1, 2])))
        a.update(num_conv_blocks=nb, num_block_layers=nbl, conv_filters=filters, conv_filters_factor=c['ff'], max_conv_filters=c['mx'], hidden_fc_units=uf, kernel_size=ks, pool_size=pk, pool_strides=ps)
        if kind == 'tdvgg':
            a.update(dilation_rate=dil, dilation_rate_factor=c['factor'])
        x = r.randn(*((2, T, F, c['ch']) if kind == 'vgg' else (2, T, F)))
        h = x if kind == 'vgg' else x[..., None]
        fs = filters if c['flist'] else [min(c['mx'], c['kf'] * c['ff'] ** i) for i in range(nb)]
        for b in range(nb):
            for i in range(per_layer(nbl, nb)[b]):
                h = net.a(net.conv2(net.norm(h), fs[b], pair(ks), (1, 1), rates[b] if kind == 'tdvgg' else (1, 1), 'same', 'conv-%d-%d' % (b, i)))
                drop(c['dc'])
            h = net.pool2(h, pair(pk), pair(ps), 'same')
        h = h.reshape(2, -1) if kind == 'vgg' else h.reshape(2, T, -1)
        fn, dflt = (vgg.VGGNetV1, 'vgg-v1') if kind == 'vgg' else (vgg.TDVGGNetV1, 'tdvgg-v1')
    want = tail(h)
    opts = watched()
    check_settings(fn(c['out'], x.shape[1:], **dict(a, **opts)), opts)
    check_net(c, ctx, fn(c['out'], x.shape[1:], **a), net, [x], want, drops, c['name'] or dflt)


res_st = dict(nb=st.integers(2, 3), sub=st.integers(1, 2), slist=st.booleans(), fc=st.integers(1, 2), flist=st.booleans(), kf=st.integers(1, 2), ff=st.integers(1, 2), mx=st.integers(2, 4), bott=st.booleans(), bf=st.integers(1, 3), bmx=st.integers(2, 6), ks=st.sampled_from([1, 3]),
              ik=st.sampled_from([1, 3, 5]), istr=st.integers(1, 2), ip=st.sampled_from([1, 3]), ips=st.integers(1, 2), istrides=st.integers(1, 2), seq=st.booleans(), hf=st.integers(1, 3), ulist=st.booleans(), out=st.integers(1, 3), oact=st.sampled_from([None, 'sigmoid']),
              act=st.sampled_from(['relu', 'tanh', None]), bn=st.booleans(), dc=st.sampled_from([0, 0.3]), df=st.sampled_from([0, 0.4]), F=st.integers(3, 8), ch=st.integers(1, 2), T=st.integers(3, 10), name=st.sampled_from([None, 'net']), save=st.booleans(), seed=seeds)


def res_args(c):
    r = np.random.RandomState(c['seed'])
    nb = c['nb']
    filters = [int(r.randint(1, 4)) for _ in range(nb)] if c['flist'] else c['kf']
    nsub = [int(r.randint(1, 3)) for _ in range(nb)] if c['slist'] else c['sub']
    uf = [int(r.randint(1, 4)) for _ in range(c['fc'] - 1)] if c['ulist'] else c['hf']
    fs = filters if c['flist'] else [min(c['mx'], c['kf'] * c['ff'] ** i) for i in range(nb)]
    a = dict(num_blocks=nb, num_subblocks=nsub, num_fc_layers=c['fc'], conv_filters=filters, conv_filters_factor=c['ff'], max_conv_filters=c['mx'], hidden_fc_units=uf, kernel_size=c['ks'], interblock_strides=c['istrides'], input_kernel_size=c['ik'], input_strides=c['istr'],
             input_pool_size=(c['ip'], c['ip']), input_pool_strides=c['ips'], bottleneck_blocks=c['bott'], bottleneck_filter_factor=c['bf'], max_bottleneck_filters=c['bmx'], output_activation=c['oact'], hidden_activation=c['act'], use_batchnorm=c['bn'], conv_dropout_rate=c['dc'],
             fc_dropout_rate=c['df'], is_sequence=c['seq'], **({'name': c['name']} if c['name'] else {}))
    return a, fs, per_layer(nsub, nb), per_layer(uf, c['fc'] - 1)


def ref_res(c, x):
    a, fs, nsub, uf = res_args(c)
    net, drops = Net(c['bn'], c['act']), []

    def drop(p):
        if p:
            drops.append(('Dropout', p))
    h = x[..., None] if c['seq'] and x.ndim == 3 else x
    h = net.a(net.conv2(net.norm(h), fs[0], (c['ik'],) * 2, (c['istr'],) * 2, (1, 1), 'same', 'conv-0'))
    drop(c['dc'])
    h = net.pool2(h, (c['ip'],) * 2, (c['ips'],) * 2, 'same')
    k = (c['ks'],) * 2
    for b in range(c['nb']):
        for i in range(nsub[b]):
            s = c['istrides'] if b > 0 and i == 0 else 1
            nm = 'conv-%d-%d' % (b + 1, i)
            h = net.norm(h)
            out = min(c['bmx'], c['bf'] * fs[b]) if c['bott'] else fs[b]
            if c['bott']:
                y = net.a(net.conv2(h, fs[b], (1, 1), (s, s), (1, 1), 'same', nm + '-1'))
                drop(c['dc'])
                y = net.a(net.conv2(net.norm(y), fs[b], k, (1, 1), (1, 1), 'same', nm + '-2'))
                drop(c['dc'])
                y = net.conv2(net.norm(y), out, (1, 1), (1, 1), (1, 1), 'same', nm + '-3')
            else:
                y = net.a(net.conv2(h, fs[b], k, (s, s), (1, 1), 'same', nm + '-1'))
                drop(c['dc'])
                y = net.conv2(net.norm(y), out, k, (1, 1), (1, 1), 'same', nm + '-2')
            z = h
            if h.shape[-1] != out or s > 1:
                z = net.conv2(h, out, (1, 1), (s, s), (1, 1), 'same', nm + '-s')
            h = net.a(y + z)
            drop(c['dc'])
    h = h.reshape(h.shape[0], h.shape[1], -1) if c['seq'] else h.reshape(h.shape[0], -1)
    for i, u in enumerate(uf):
        h = net.a(net.dense(net.norm(h), u, 'fc-%d' % i))
        drop(c['df'])
    return net, drops, ACT[c['oact']](net.dense(net.norm(h), c['out'], 'fc-%d' % (c['fc'] - 1)))


@sub('P46', fd(**res_st), quick=250, nontrivial=lambda c: c['sub'] > 1)
def residual(c, ctx):
    r = np.random.RandomState(c['seed'])
    a = res_args(c)[0]
    x = r.randn(*((2, c['T'], c['F']) if c['seq'] else (2, c['T'], c['F'], c['ch'])))
    opts = watched()
    check_settings(resnet.ResNetV1(c['out'], x.shape[1:], **dict(a, **opts)), opts)
    net, drops, want = ref_res(c, x)
    check_net(c, ctx, resnet.ResNetV1(c['out'], x.shape[1:], **a), net, [x], want, drops, c['name'] or 'resnet-v1')


@sub('P46', fd(**res_st), quick=60, nontrivial=lambda c: c['ks'] > 1 and c['istrides'] > 1)
def residual_contexts(c, ctx):
    """the frames that an output far from the ends depends on are as many as the context says"""
    c = dict(c, seq=True, save=False, F=2, fc=1)
    a, fs, nsub, _ = res_args(c)
    red, span = 1, 0        # reduction of frames and receptive field, layer by layer
    span += red * (c['ik'] - 1)
    red *= c['istr']
    span += red * (c['ip'] - 1)
    red *= c['ips']
    for b in range(c['nb']):
        for i in range(nsub[b]):
            s = c['istrides'] if b > 0 and i == 0 else 1
            if not c['bott']:
                span += red * (c['ks'] - 1)
            red *= s
            span += red * (c['ks'] - 1)
    T = red * (-(-(2 * span + 1) // red) + 3)
    if T > 400:
        return
    m, got = resnet.ResNetV1(c['out'], (T, 2), return_context=True, **a)
    same(got, span // 2, 'context')
    fill(m)
    mid = m.output_shape[1] // 2
    f = []
    for t in range(max(0, mid * red - span - 2 * red), min(T, mid * red + span + 2 * red)):
        x = np.ones((1, T, 2))
        x[0, t] = np.nan
        with np.errstate(all='ignore'):
            if np.isnan(m.predict(x)[0, mid]).any():
                f.append(t)
    need(f and f[-1] - f[0] <= 2 * got, 'an output depends on input frames %d to %d with a context of %d' % (f[0], f[-1], got))
    same(f[-1] - f[0], span, 'span of the input frames that an output depends on')


VGGS = dict(VGG16=[2, 2, 3, 3, 3], VGG19=[2, 2, 4, 4, 4], TDVGG16=[2, 2, 3, 3, 3], TDVGG19=[2, 2, 4, 4, 4])
RESNETS = dict(ResNet18V1=([2, 2, 2, 2], False), ResNet34V1=([3, 4, 6, 3], False), ResNet50V1=([3, 4, 6, 3], True), ResNet101V1=([3, 4, 23, 3], True), ResNet152V1=([3, 8, 36, 3], True))


@sub('P46', fd(kind=st.sampled_from(sorted(VGGS) + sorted(RESNETS)), out=st.integers(1, 3), T=st.sampled_from([32, 33, 40, 64]), F=st.sampled_from([32, 36]), kf=st.sampled_from([2, 4, 8]), mx=st.sampled_from([16, 512]), bmx=st.sampled_from([2048, 32]), rate=st.integers(1, 2), factor=st.integers(0, 1),
               bn=st.booleans(), oact=st.sampled_from([None, 'softmax', 'sigmoid']), act=st.sampled_from(['relu', 'tanh']), d1=st.sampled_from([0, 0.2]), d2=st.sampled_from([0.5, 0, 0.1]), name=st.sampled_from([None, 'net']), dflt=st.booleans()), quick=45,
     nontrivial=lambda c: True)
def published_networks(c, ctx):
    """the networks of the publications: layers, sizes and options, without running them"""
    kind = c['kind']
    td = kind.startswith('TD')
    isvgg = kind in VGGS
    z = cst0
    a = dict(kernel_initializer=z, bias_initializer=z, hidden_activation=c['act'], use_batchnorm=c['bn'], output_activation=c['oact'], **({'name': c['name']} if c['name'] else {}))
    shape = (c['T'], c['F']) if td else (c['T'], c['F'], 3)
    kf, mx, bmx = (64, 512, 2048)
    if isvgg:
        a.update(conv_dropout_rate=c['d1'], fc_dropout_rate=c['d2'])
        if td:
            kf = c['kf']
            a.update(conv_filters=kf, dilation_rate=c['rate'], dilation_rate_factor=c['factor'])
        m = getattr(vgg, kind)(c['out'], shape, **a)
        nbl = VGGS[kind]
        want, ch = [], 1 if td else 3
        t, f = shape[:2]
        for b, n in enumerate(nbl):
            for i in range(n):
                w = min(512, kf * 2 ** b)
                want.append(('conv-%d-%d' % (b, i), (3, 3, ch, w)))
                ch = w
            t, f = (t if td else -(-t // 2)), -(-f // 2)
        n = f * ch * (1 if td else t)
        want += [('fc-0', (n, 4096)), ('fc-1', (4096, 4096)), ('fc-2', (4096, c['out']))]
        drops = [c['d1']] * (sum(nbl) if c['d1'] else 0) + [c['d2']] * (2 if c['d2'] else 0)
        dil = {core(l).name: l.dilation_rate for l in m.layers if isinstance(l, L.Conv2D)}
        for b, q in enumerate(nbl):
            for i in range(q):
                same(tuple(dil['conv-%d-%d' % (b, i)]), (c['rate'] + c['factor'] * b, 1) if td else (1, 1), 'dilation of block %d' % b)
        same(m.output_shape[1:], (shape[0], c['out']) if td else (c['out'],), 'output')
        name = kind.lower()
        nbn = sum(nbl) + 3
    else:
        nsub, bott = RESNETS[kind]
        if not c['dflt']:
            kf, mx = c['kf'], c['mx']
            a.update(conv_filters=kf, max_conv_filters=mx)
            if bott:
                bmx = c['bmx']
                a.update(max_bottleneck_filters=bmx)
        a['dropout_rate'] = c['d1']
        m = getattr(resnet, kind)(c['out'], shape, **a)
        want, ch = [('conv-0', (7, 7, 3, min(mx, kf)))], min(mx, kf)
        t, f = [-(-(-(-v // 2)) // 2) for v in shape[:2]]
        for b, n in enumerate(nsub):
            w = min(mx, kf * 2 ** b)
            o = min(bmx, 4 * w) if bott else w
            if b:
                t, f = -(-t // 2), -(-f // 2)
            for i in range(n):
                nm = 'conv-%d-%d' % (b + 1, i)
                want += [(nm + '-1', (1, 1, ch, w)), (nm + '-2', (3, 3, w, w)), (nm + '-3', (1, 1, w, o))] if bott else [(nm + '-1', (3, 3, ch, w)), (nm + '-2', (3, 3, w, w))]
                if ch != o or b and i == 0:
                    want.append((nm + '-s', (1, 1, ch, o)))
                ch = o
        want.append(('fc-0', (t * f * ch, c['out'])))
        drops = [c['d1']] * ((1 + sum(nsub) * (3 if bott else 2)) if c['d1'] else 0)
        same(m.output_shape[1:], (c['out'],), 'output')
        name = kind[:-2].lower() + '-v1'
        nbn = sum(nsub) * (3 if bott else 2) + 2
    same(hidden(m), sorted(want), 'layers')
    same(sorted(l.rate for l in m.layers if isinstance(l, L.Dropout)), sorted(drops), 'dropout rates')
    same(m.name, c['name'] or name, 'name')
    same(sum(isinstance(l, L.BatchNormalization) for l in m.layers), nbn if c['bn'] else 0, 'normalisation layers')
    acts = [l.activation for l in m.layers if isinstance(l, L.Activation)]
    from keras import activations
    need(activations.get(c['act']) in acts and acts[-1] is activations.get(c['oact']), 'activations')


def cst0(shape, dtype=None):
    return np.zeros(shape)
