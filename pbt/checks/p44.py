"""P44: sequence embedding networks of the Keras part (chunks, contexts, masks, pooling, files, options), on the numpy stand-in of Keras."""
import argparse
import contextlib
import io

import numpy as np
from scipy.special import expit, logsumexp

from pbt.core import *
from pbt.keraslib import K, noise
from keras.layers import Input, Dense, Conv1D, MaxPooling1D, Activation
from keras.models import Model
from hyperion.keras.embed import SeqEmbed, SeqMetaEmbed, SeqQEmbed, SeqEmbedLDE
from hyperion.keras.vae import TiedDVAE_QY
from hyperion.keras.losses import categorical_mbr
from pbt.checks.p43 import to_prec, from_prec

RULE = 'a sequence of more than one chunk with contexts on both sides'
TOL = dict(rtol=1e-4, atol=1e-5)        # the sequences and embeddings are kept in single precision
POOL = ['mean+std', 'mean+logvar', 'mean']


def encoder(c, r, length, heads=0, name='enc'):
    """convolutions over time whose outputs depend on c['rf'] frames (after the downsampling) on each side"""
    x = Input(shape=(length, c['dx']))
    h = x
    if c['r'] > 1:
        h = MaxPooling1D(c['r'])(h) if c['mp'] else Conv1D(3, c['r'], strides=c['r'], padding='same')(h)
    for rf in c['layers']:
        h = Conv1D(3, 2 * rf + 1, padding='same', activation='tanh', dilation_rate=1)(h)
    if heads:
        y = [Conv1D(c['dy'], 1, name='p1', activation=None)(h), Conv1D(c['dy'], 1, name='p2', activation='sigmoid' if c['pos'] else None)(h)]
        if c['pos']:
            from hyperion.keras.layers import Add01
            y[1] = Add01(name='positive')(y[1])
    else:
        y = Conv1D(c['dy'], 1, name='last')(h)
    m = Model(x, y, name=name)
    m.set_weights([r.randn(*w.shape) * (1 if w.ndim > 1 else 0.3) for w in m.get_weights()])
    return m


def whole(net, c, heads, x, r, n):
    """outputs of an encoder for the whole sequence followed by some frames of zeros"""
    w = net.get_weights()
    net = encoder(c, np.random, None, heads)
    net.set_weights(w)
    pad = (-len(x)) % r
    z = np.concatenate((x, np.zeros((pad + 40 * r, x.shape[1]))))
    o = net.predict(z[None])
    return [a[0][:n] for a in o] if isinstance(o, list) else o[0][:n]


def pt_net(r, d, classes, name='pt'):
    x = Input(shape=(d,))
    h = Dense(4, activation='tanh', name='embed1')(x)
    h = Dense(3, activation='relu', name='embed2')(h)
    y = Dense(classes, activation='softmax', name='out')(h)
    m = Model(x, y, name=name)
    m.set_weights([r.randn(*w.shape) for w in m.get_weights()])
    return m


chunk = dict(r=st.sampled_from([1, 1, 2, 3]), layers=st.lists(st.integers(0, 2), min_size=0, max_size=2), dx=st.integers(1, 3), dy=st.integers(1, 3), mp=st.booleans(), shift=st.integers(1, 6), extra_l=st.integers(0, 2), extra_r=st.integers(0, 2),
             begin=st.sampled_from([None, None, 0, 1, 2]), end=st.sampled_from([None, None, 0, 1, 2]), n=st.integers(0, 30), var=st.booleans(), seed=seeds)


def setup(c):
    """contexts and lengths, in frames of the input"""
    rf, q = sum(c['layers']), c['r']
    left, right = (rf + c['extra_l']) * q, (rf + c['extra_r']) * q
    begin = None if c['begin'] is None else c['begin'] * q
    end = None if c['end'] is None else c['end'] * q
    if end is not None and end < rf * q and (len(c['layers']) > 1 or c['r'] > 1):
        end = rf * q       # the frames at the edge of several layers are those of no sequence
    b, e = left if begin is None else begin, right if end is None else end
    seq = left + right + c['shift'] * q
    T = b + e + q * 2 + c['n']
    return dict(left_context=left, right_context=right, begin_context=begin, end_context=end), b, e, seq, T


def pooled(f, keep, pooling):
    z = f[keep]
    mu = z.mean(0)
    s = np.sqrt(np.mean((z - mu) ** 2, 0)) if pooling == 'mean+std' else np.log(np.mean((z - mu) ** 2, 0) + 1e-10)
    return mu if pooling == 'mean' else np.concatenate((mu, s))


@sub('P44', fd(pooling=st.sampled_from(POOL + ['lde']), cls=st.sampled_from(['SeqEmbed', 'LDE']), embeds=st.sampled_from([['embed1'], ['embed2', 'embed1'], ['embed1', 'out']]), comp=st.integers(1, 3), order=st.sampled_from([1, 2]), save=st.booleans(), ev=st.booleans(), **chunk), quick=250,
     nontrivial=lambda c: c['n'] > c['shift'] and sum(c['layers']) > 0)
def embeddings_by_chunks(c, ctx):
    """embeddings of a sequence are those of its frames away from the borders, whatever the chunks they are computed by"""
    r = rng(c['seed'])
    if c['cls'] == 'SeqEmbed' and c['pooling'] == 'lde':
        c = dict(c, pooling='mean+std')
    kw, b, e, seq, T = setup(c)
    q = c['r']
    enc = encoder(c, r, None if c['var'] else seq)
    dp = c['dy'] * (1 if c['pooling'] == 'mean' else c['comp'] if c['pooling'] == 'lde' else 2)
    pt = pt_net(r, dp, 3)
    cls = SeqEmbed if c['cls'] == 'SeqEmbed' else SeqEmbedLDE
    if c['cls'] == 'LDE':
        kw.update(num_comp=c['comp'], lde_order=c['order'])
    m = cls(enc, pt, pooling=c['pooling'], **kw)
    eq((m.x_dim, m.num_classes, m.pool_in_dim, m.pool_out_dim), (c['dx'], 3, c['dy'], dp), 'dimensions')
    m.build(seq) if c['var'] or c['seed'] % 2 else m.build()
    eq((m.in_length, m.pool_in_length, m.enc_downsampling), (seq, seq // q, q), 'lengths')
    ctx.label(c['pooling'], 'several chunks' if T > seq else 'one chunk')
    if c['pooling'] == 'lde':
        m.lde_net.set_weights([r.randn(c['comp'], c['dy']), r.rand(c['comp'])])
    if c['save']:
        p = ctx.path('m')
        m.save(p)
        m2 = cls.load(p)
        eq(m2.get_config(), m.get_config(), 'configuration of the model from the file')
        if not c['var']:
            m2.build()
        else:
            m2.build(seq)
        m = m2
    x = r.randn(T, c['dx']).astype(np.float32)
    n = T // q
    full = np.zeros(n, dtype=bool)
    full[b // q:n - e // q] = True
    # frames beyond the last whole step of the downsampling are not used
    f = whole(enc, c, 0, x.astype(float), q, n)
    if c['pooling'] == 'lde':
        mu, s = m.lde_net.get_weights()
        d = f[full][:, None] - mu
        a = -s * (np.abs(d).sum(-1) if c['order'] == 1 else (d ** 2).sum(-1))
        w = np.exp(a - logsumexp(a, axis=1, keepdims=True))
        want = np.concatenate([(w[:, k, None] * f[full]).sum(0) / w[:, k].sum() - mu[k] for k in range(c['comp'])])
    else:
        want = pooled(f, full, c['pooling'])
    tol = dict(rtol=2e-3, atol=2e-3) if 'logvar' in c['pooling'] else TOL
    if 'logvar' in c['pooling'] and np.any(want[c['dy']:] < -6):
        return      # variances of single precision noise
    if c['ev']:
        m.build_eval()
        with unchanged('predict_eval', x):
            got = m.predict_eval(x)
        same(np.ravel(got), np.log(np.ravel(pt.predict(want[None])) + 1e-10), 'log-posteriors of the classes', rtol=5e-3, atol=5e-3)
        eq(m.embed_dim, 3, 'dimension of the scores')
        return
    m.build_embed(c['embeds'])
    with unchanged('predict_embed', x):
        got = m.predict_embed(x)
    emb = np.concatenate([np.ravel(Model(pt.input, pt.get_layer(l).output).predict(want[None])) for l in c['embeds']])
    same(np.ravel(got), emb, 'embedding', **tol)
    eq(m.embed_dim, emb.size, 'dimension of the embedding')


@sub('P44', fd(cls=st.sampled_from(['Q', 'DVAE']), fmt=st.sampled_from(['mean+logvar', 'nat+logitvar', 'nat+logprec-1', 'mean+logprec', 'nat+prec', 'mean+var', 'mean+prec-1']), out=st.sampled_from([None, 'nat+prec', 'mean+var', 'mean+logvar', 'nat+logprec']), pout=st.sampled_from(['nat+prec', 'mean+var']),
               min_var=st.sampled_from([0.1, 0.01, 0.4]), pen=st.sampled_from([1, 0.5, 0.2]), save=st.booleans(), ev=st.booleans(), **chunk), quick=250, nontrivial=lambda c: c['n'] > c['shift'] and sum(c['layers']) > 0)
def posteriors_by_chunks(c, ctx):
    """posterior of the identity of a sequence, whatever the chunks its frames are processed by"""
    r = rng(c['seed'])
    kw, b, e, seq, T = setup(c)
    q = c['r']
    c['pos'] = c['fmt'].split('+')[1] in ('prec', 'var', 'prec-1')
    net = encoder(c, r, None if c['var'] else seq, heads=2)
    Q = c['cls'] == 'Q'
    pout = 'nat+prec' if Q else c['pout']
    kw.update(pooling_input=c['fmt'], pooling_output=pout, min_var=c['min_var'], frame_corr_penalty=c['pen'], kl_weight=0.5)
    if Q:
        m = SeqQEmbed(net, 3, **kw)
    else:
        m = TiedDVAE_QY(net, pt_net(r, c['dy'], 3), loss='binary_crossentropy', **kw)
    eq((m.x_dim, m.embed_dim), (c['dx'], c['dy']), 'dimensions')
    m.build(seq) if c['var'] or c['seed'] % 2 else m.build()
    eq((m.in_length, m.pool_in_length, m.prepool_downsampling), (seq, seq // q, q), 'lengths')
    ctx.label(c['cls'], c['fmt'], 'several chunks' if T > seq else 'one chunk')
    if Q:
        m.score_net.set_weights([r.randn(3, c['dy']), 1 + r.rand(c['dy'])])
        sw = m.score_net.get_weights()
    if c['save']:
        p = ctx.path('m')
        m.save(p)
        m2 = type(m).load(p)
        eq(m2.get_config(), m.get_config(), 'configuration of the model from the file')
        m2.build(seq)
        m = m2
    x = r.randn(T, c['dx']).astype(np.float32)
    n = T // q
    keep = slice(b // q, n - e // q)
    p1, p2 = whole(net, c, 2, x.astype(float), q, n)
    f1, f2 = c['fmt'].split('+')
    pr = to_prec(p2[keep], f2, c['min_var'])
    eta = c['pen'] * np.sum(p1[keep] * (pr if f1 == 'mean' else 1), 0)
    prec = np.clip(1 + c['pen'] * np.sum(pr - 1, 0), 1, 1e5)
    if c['ev'] and Q:
        m.build_eval()
        got = m.predict_eval(x)
        mu, L = sw
        s = np.zeros(3)
        z = lambda h, p: 0.5 * np.sum(h ** 2 / p - np.log(p))
        for k in range(3):
            s[k] = z(L * mu[k] + eta, L + prec - 1) - z(L * mu[k], L) - z(eta, prec)
        same(np.ravel(got), s, 'scores of the classes', rtol=2e-3, atol=2e-3)
        return
    m.build_embed(c['out']) if c['out'] else m.build_embed()
    o1, o2 = (c['out'] or pout).split('+')
    with unchanged('predict_embed', x):
        got = m.predict_embed(x)
    eq(len(got), 2, 'parameters of the posterior')
    same(got[0][0], eta if o1 == 'nat' else eta / prec, 'posterior: ' + o1, **TOL)
    same(got[1][0], from_prec(prec, o2, 0.1), 'posterior: ' + o2, **TOL)


@sub('P44', fd(cls=st.sampled_from(['SeqEmbed', 'LDE', 'Q', 'DVAE', 'Meta']), pooling=st.sampled_from(POOL), B=st.integers(1, 3), dx=st.integers(1, 3), dy=st.integers(1, 3), r=st.sampled_from([1, 2, 3]), L=st.integers(1, 4), mp=st.just(True), layers=st.lists(st.integers(0, 1), max_size=1), tail=st.booleans(),
               fmt=st.sampled_from(['mean+logvar', 'nat+logitvar', 'mean+var']), seed=seeds), quick=200, nontrivial=lambda c: c['B'] > 1 and c['L'] > 1)
def training_network(c, ctx):
    """the network trained with batches of padded sequences gives for each sequence the outputs of its frames that are not zero"""
    r = rng(c['seed'])
    q, L = c['r'], c['L'] * c['r'] * 2
    c['pos'] = c['fmt'].endswith('+var')
    two = c['cls'] in ('Q', 'DVAE', 'Meta')
    if c['cls'] == 'Meta':
        q = c['r'] = 1
    net = encoder(c, r, L, heads=2 if two else 0)
    x = r.randn(c['B'], L, c['dx'])
    lens = r.randint(1, L + 1, size=c['B'])
    for b in range(c['B']):
        if c['tail']:
            x[b, lens[b]:] = 0
        else:
            x[b, r.permutation(L)[:L - lens[b]]] = 0
    mask = np.any(x != 0, axis=-1)
    mk = mask.reshape(c['B'], L // q, q).any(-1)
    f = net.predict(x)
    ctx.label(c['cls'])
    if not two:
        pt = pt_net(r, c['dy'] * (1 if c['pooling'] == 'mean' else 2), 4)
        m = (SeqEmbed if c['cls'] == 'SeqEmbed' else SeqEmbedLDE)(net, pt, pooling=c['pooling'], loss='categorical_mbr' if c['seed'] % 2 else 'categorical_crossentropy')
        m.build()
        want = np.stack([pt.predict(pooled(f[b], mk[b], c['pooling'])[None])[0] for b in range(c['B'])])
        same(m.model.predict(x), want, 'posteriors of the classes', rtol=1e-5, atol=1e-6)
        m.compile(optimizer='adam')
        k = m.model.calls[-1][2]
        eq(k['loss'] is categorical_mbr or k['loss'], True if c['seed'] % 2 else 'categorical_crossentropy', 'loss')
        require('metrics' not in k and k['optimizer'] == 'adam', 'compile: %s', k)
        m.compile(metrics=['accuracy'])
        eq((m.model.calls[-1][2]['metrics'], m.model.calls[-1][2]['weighted_metrics']), (['accuracy'], ['accuracy']), 'metrics')
        m.fit(x, want, epochs=3)
        n, a, k = m.model.calls[-1]
        eq((n, k), ('fit', dict(epochs=3)), 'options of the training')
        require(a[0] is x and a[1] is want, 'fit: data')
        m.freeze_enc_net_layers(['last'])
        m.freeze_pt_net_layers(['embed1'])
        eq([net.get_layer('last').trainable, pt.get_layer('embed1').trainable, pt.get_layer('embed2').trainable, net.trainable], [False, False, True, True], 'frozen layers')
        m.freeze_enc_net()
        require(not net.trainable and pt.trainable, 'frozen encoder')
        return
    p1, p2 = f
    f1, f2 = c['fmt'].split('+')
    b0 = 0.1
    pr = to_prec(p2, f2, b0)
    W = mk[..., None]
    eta = np.sum(W * p1 * (pr if f1 == 'mean' else 1), 1)
    prec = 1 + np.sum(W * (pr - 1), 1)
    if c['cls'] == 'DVAE':
        pt = pt_net(r, c['dy'], 4)
        m = TiedDVAE_QY(net, pt, pooling_input=c['fmt'])
    else:
        m = (SeqQEmbed if c['cls'] == 'Q' else SeqMetaEmbed)(net, 4, pooling_input=c['fmt'])
    with contextlib.redirect_stdout(io.StringIO()):
        m.build(L)
    kl = 0.5 * np.sum(np.log(prec) - 1 + (eta / prec) ** 2 + 1 / prec, -1)
    if c['cls'] == 'DVAE':
        e = r.randn(c['B'], c['dy'])
        with noise(lambda s: e):
            y, k = m.predict(x)
        same(y, pt.predict(eta / prec + e / np.sqrt(prec)), 'posteriors of the classes', rtol=1e-5, atol=1e-6)
        same(np.ravel(k), kl, 'divergence from the prior', rtol=1e-5, atol=1e-6)
    else:
        mu, P = r.randn(4, c['dy']), 1 + r.rand(c['dy'])
        m.score_net.set_weights([mu, P])
        o = m.predict(x)
        y = o[0] if c['cls'] == 'Q' else o
        z = lambda h, p: 0.5 * np.sum(h ** 2 / p - np.log(p))
        s = np.array([[z(P * mu[j] + eta[b], P + prec[b] - 1) - z(P * mu[j], P) - z(eta[b], prec[b]) for j in range(4)] for b in range(c['B'])])
        same(y, np.exp(s - logsumexp(s, axis=1, keepdims=True)), 'posteriors of the classes', rtol=1e-5, atol=1e-6)
        if c['cls'] == 'Q':
            same(np.ravel(o[1]), kl, 'divergence from the prior', rtol=1e-5, atol=1e-6)
        else:
            p = ctx.path('m')
            m.save(p)
            m2 = SeqMetaEmbed.load(p)
            eq(m2.get_config(), m.get_config(), 'configuration of the model from the file')
            with contextlib.redirect_stdout(io.StringIO()):
                m2.build(L)
            same(m2.predict(x), y, 'outputs of the model from the file', rtol=1e-6)
    m.compile(optimizer='sgd') if c['cls'] != 'Meta' else m.compile(optimizer='sgd')
    k = m.model.calls[-1][2]
    eq(k['optimizer'], 'sgd', 'optimizer')
    if c['cls'] != 'Meta':
        eq((k['loss'][0], k['loss_weights']), ('categorical_crossentropy', [1, 0]), 'losses and their weights')
        eq(k['loss'][1]('true', 'pred'), 'pred', 'loss of the divergence')
    if c['cls'] in ('Q', 'DVAE'):
        (m.freeze_embed_layers if hasattr(m, 'freeze_embed_layers') else m.freeze_layers)(['p1'])
        eq([net.get_layer('p1').trainable, net.get_layer('p2').trainable, net.trainable], [False, True, True], 'frozen layers')
        m.freeze_embed()
        require(not net.trainable, 'frozen encoder')
    m.fit(x=x, epochs=2)
    eq((m.model.calls[-1][0], m.model.calls[-1][2]['epochs']), ('fit', 2), 'training')


@sub('P44', fd(cls=st.sampled_from(['SeqEmbed', 'LDE', 'Q', 'DVAE']), prefix=st.sampled_from([None, 'emb']), given=st.booleans(), pi=st.sampled_from(['nat+logitvar', 'mean+logvar', 'mean+prec-1']), po=st.sampled_from(['nat+logvar', 'mean+logvar', 'nat+prec', 'mean+var', 'nat+logprec']),
               pool=st.sampled_from(POOL), n=st.integers(0, 9), seed=seeds), quick=120, nontrivial=lambda c: c['given'])
def options(c, ctx):
    """the options of the command line arrive at the constructor"""
    cl = {'SeqEmbed': SeqEmbed, 'LDE': SeqEmbedLDE, 'Q': SeqQEmbed, 'DVAE': TiedDVAE_QY}[c['cls']]
    two = c['cls'] in ('Q', 'DVAE')
    p = argparse.ArgumentParser()
    cl.add_argparse_args(p, prefix=c['prefix']) if c['prefix'] else cl.add_argparse_args(p)
    n = c['n']
    want = dict(left_context=n, right_context=n + 1, begin_context=n + 2, end_context=n + 3)
    want.update(dict(pooling_input=c['pi'], pooling_output=c['po'], min_var=0.25, kl_weight=0.5, frame_corr_penalty=0.75, post_pdf='diag_normal') if two else dict(pooling=c['pool']))
    names = {k: k.replace('_', '-') for k in want}
    if c['cls'] == 'LDE':
        want.update(num_comp=n + 1, lde_order=1)
        names.update(num_comp='lde-num-comp', lde_order='lde-order')
    a = []
    pre = '--' + (c['prefix'] + '-' if c['prefix'] else '')
    if c['given']:
        for k, v in want.items():
            a += [pre + names[k], str(v)]
    else:
        want = dict(left_context=0, right_context=0, begin_context=None, end_context=None)
    try:
        got = cl.filter_args(**dict(vars(p.parse_args(a)), **(dict(prefix=c['prefix']) if c['prefix'] else {}), other=1))
    except SystemExit:
        raise Violation('the options %s are not accepted' % a)
    require('other' not in got, 'foreign option kept')
    for k in want:
        require(k in got, 'option %s is lost', k)
        eq(got[k], want[k], 'option ' + k)
    r = rng(c['seed'])
    d = dict(dx=2, dy=2, r=1, mp=True, layers=[], pos=False)
    if two:
        net = encoder(d, r, 20, heads=2)
        m = cl(net, 3, **got) if c['cls'] == 'Q' else cl(net, pt_net(r, 2, 3), **got)
    else:
        m = cl(encoder(d, r, 20), pt_net(r, 4, 3), **got)
    cfg = m.get_config()
    for k in want:
        v = want[k]
        if v is None:
            v = got[{'begin_context': 'left_context', 'end_context': 'right_context'}[k]]
        eq(cfg[k], v, 'configuration: ' + k)
