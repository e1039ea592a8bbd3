"""P17: mean/variance normalisation, energy VAD and frame selection against direct evaluation frame by frame."""
import argparse
from pbt.core import *
from pbt.checks.p16 import ref_front, frames
from hyperion.feats.feature_normalization import MeanVarianceNorm
from hyperion.feats.energy_vad import EnergyVAD
from hyperion.feats.frame_selector import FrameSelector

RULE = 'a window is truncated by the utterance and another one is not (normalisation); some but not all frames are speech (VAD, selection)'

ctx_st = st.one_of(st.none(), st.integers(0, 6), st.integers(0, 50))


@sub('P17', fd(n=st.integers(2, 40), d=st.integers(1, 4), seed=seeds, left=ctx_st, right=ctx_st, mean=st.booleans(), var=st.booleans(), dc=st.sampled_from([0., 5., -20.]),
               dtype=st.sampled_from(['float64', 'float64', 'float32'])), quick=700,
     nontrivial=lambda c: (c['mean'] or c['var']) and ((c['left'] is not None and c['left'] < c['n']) or (c['right'] is not None and c['right'] < c['n'])))
def normalisation(c, ctx):
    """all algorithms equal the statistics of the frames of each window"""
    r = rng(c['seed'])
    n = c['n']
    if c['var']:        # cancellation in single precision
        c['dtype'] = 'float64'
    x = (r.randn(n, c['d']) * np.exp(r.randn(c['d'])) + c['dc'] + 0.1 * np.arange(n)[:, None]).astype(c['dtype'])
    x64 = x.astype(float)
    L = n if c['left'] is None else c['left']
    R = n if c['right'] is None else c['right']
    gs = np.std(x64, axis=0) if c['var'] else np.ones(c['d'])
    want = np.zeros_like(x64)
    for i in range(n):
        w = x64[max(0, i - L):i + R + 1]
        want[i] = x64[i]
        if c['mean']:
            want[i] -= np.mean(w, axis=0)
        if c['var']:
            want[i] /= np.maximum(np.std(w, axis=0), gs * np.sqrt(1e-5))
    tol = dict(rtol=1e-6, atol=1e-6 * np.max(np.abs(x64))) if c['dtype'] == 'float64' else dict(rtol=2e-2, atol=2e-3 * np.max(np.abs(x64)))
    m = MeanVarianceNorm(norm_mean=c['mean'], norm_var=c['var'], left_context=c['left'], right_context=c['right'])
    for name in ('normalize', 'normalize_cumsum', 'normalize_conv', 'normalize_slow'):
        with unchanged(name, x):
            y = getattr(m, name)(x)
        same(y, want, name, **tol)
    y = m.normalize_global(x)
    want = x64 - (np.mean(x64, axis=0) if c['mean'] else 0)
    same(y, want / gs, 'normalize_global', **tol)


@st.composite
def vad_st(draw, snip=None):
    fs = draw(st.sampled_from([1000, 2000, 4000, 2205]))
    fl = draw(st.sampled_from([5, 10, 20, 25]))
    sh = min(draw(st.sampled_from([5, 8, 10, 20])), fl)
    snip = draw(st.booleans()) if snip is None else snip
    L, s = fs * fl // 1000, fs * sh // 1000
    n = L + s * draw(st.integers(0, 15)) + draw(st.integers(0, s - 1))
    return dict(cfg=dict(fs=fs, frame_length=fl, frame_shift=sh, snip_edges=snip, remove_dc_offset=True, preemph_coeff=0.), n=n, seed=draw(seeds),
                scale=draw(st.floats(-0.5, 1.5).map(lambda x: round(x, 3))), thr=draw(st.floats(-6, 6).map(lambda x: round(x, 3))), context=draw(st.integers(0, 4)),
                prop=draw(st.sampled_from([0.05, 0.3, 0.5, 0.6, 0.8, 0.97])))


def vad_wave(c):
    r = rng(c['seed'])
    x = r.randn(c['n'])
    k = 1 + r.randint(3)
    for _ in range(k):
        a = r.randint(c['n'])
        x[a:a + 1 + r.randint(c['n'])] *= np.exp(3 * r.rand() + 1)
    return 10 * x


def vote(logE, c, ctx):
    """expected decisions (None where a tie allows both)"""
    thr = c['thr'] + max(c['scale'], 0) * np.mean(logE)
    v = [None if abs(e - thr) < 1e-4 else bool(e > thr) for e in logE]
    if None in v:
        return None
    out = []
    k = c['context']
    for i in range(len(v)):
        w = v[max(0, i - k):i + k + 1]
        q = sum(w) / float(len(w))
        out.append(v[i] if k == 0 else None if abs(q - c['prop']) < 1e-4 else q > c['prop'])
    return out


def make_vad(c, dither=0):
    g = c['cfg']
    return EnergyVAD(fs=g['fs'], frame_length=g['frame_length'], frame_shift=g['frame_shift'], dither=dither, snip_edges=g['snip_edges'],
                     vad_energy_mean_scale=max(c['scale'], 0), vad_energy_threshold=c['thr'], vad_frames_context=c['context'],
                     vad_proportion_threshold=c['prop'])


def check_vad(got, want, what):
    eq(len(got), len(want), what + ': number of frames')
    for i, (g, w) in enumerate(zip(got, want)):
        require(w is None or bool(g) == w, '%s: frame %d is %s, want %s (%s)', what, i, bool(g), w, want)


@sub('P17', vad_st(), quick=400, nontrivial=lambda c: frames(c) is not None and frames(c)[1] >= 2)
def vad(c, ctx):
    """decisions equal the threshold and the vote over the context"""
    if frames(c) is None:
        return ctx.label('rounding tie')
    x = vad_wave(c)
    raw, _ = ref_front(c, x)
    logE = np.log(np.sum(raw ** 2, axis=1) + 1e-15)
    want = vote(logE, c, ctx)
    m = make_vad(c)
    with unchanged('compute', x):
        got, e = m.compute(x, return_loge=True)
    same(e, logE, 'log energy', rtol=1e-7, atol=1e-7)
    if want is None:
        return ctx.label('threshold tie')
    check_vad(got, want, 'decisions')
    ctx.nontrivial = True in want and False in want
    m.reset()
    check_vad(m.compute(x), want, 'decisions after reset')
    same(make_vad(c, 1.).compute(x), make_vad(c, 1.).compute(x), 'decisions with dither')


@sub('P17', fd(c=vad_st(), d=st.sampled_from([.25, .5, 3., 100.])), quick=100, nontrivial=lambda k: True)
def vad_dither(k, ctx):
    """dither is white noise of the given standard deviation that is added to the signal"""
    c, d = k['c'], k['d']
    if frames(c) is None:
        return ctx.label('rounding tie')
    L = c['cfg']['fs'] * c['cfg']['frame_length'] // 1000
    E = [make_vad(c, v).compute(np.zeros(c['n']), return_loge=True)[1] for v in (1., d)]
    same(E[1], E[0] + 2 * np.log(d), 'log energies of the dither', rtol=1e-5, atol=1e-5)
    if L >= 40:
        require(np.all(np.abs(E[0] - np.log(L)) < 2 + 7 * np.sqrt(2. / L)), 'log energies %s of dither, expected about %s', E[0], np.log(L))
    x = vad_wave(c)
    a, b = (make_vad(c, v).compute(x, return_loge=True)[1] for v in (0, d))
    require(np.any(a != b), 'no dither is added to the signal')


@sub('P17', fd(c=vad_st(snip=True), cut=st.integers(1, 5)), quick=150, nontrivial=lambda k: True)
def vad_streaming(k, ctx):
    """the DC-removal state continues across calls until it is reset"""
    c = k['c']
    g = c['cfg']
    L, s = g['fs'] * g['frame_length'] // 1000, g['fs'] * g['frame_shift'] // 1000
    a = (-(-L // s) + k['cut']) * s
    c['n'] += a
    x = vad_wave(c) + 5
    e = make_vad(c).compute(x, return_loge=True)[1]
    m = make_vad(c)
    e1 = m.compute(x[:a], return_loge=True)[1]
    e2 = m.compute(x[a:], return_loge=True)[1]
    same(e1, e[:len(e1)], 'log energies of the first chunk', rtol=1e-7, atol=1e-7)
    same(e2, e[a // s:a // s + len(e2)], 'log energies of the second chunk', rtol=1e-7, atol=1e-7)
    m.reset()
    same(m.compute(x, return_loge=True)[1], e, 'log energies after reset')


@sub('P17', fd(c=vad_st(), n=st.integers(1, 25), d=st.integers(1, 3)), quick=200, nontrivial=lambda k: k['n'] > 1)
def vad_features(k, ctx):
    """decisions from features whose first coefficient is the log energy"""
    c = k['c']
    r = rng(c['seed'])
    x = r.randn(k['n'], k['d']) * 3
    want = vote(x[:, 0], c, ctx)
    if want is None:
        return ctx.label('threshold tie')
    with unchanged('compute', x):
        got = make_vad(c).compute(x)
    check_vad(got, want, 'decisions')
    ctx.nontrivial = True in want and False in want


@sub('P17', fd(n=st.integers(1, 20), diff=st.integers(-6, 6), tol=st.sampled_from([None, 0, 1, 2, 5]), d=st.integers(1, 3), seed=seeds, p=st.sampled_from([0., 0.5, 1.]),
               dtype=st.sampled_from(['bool', 'bool', 'int64', 'float32'])), quick=400, nontrivial=lambda c: c['n'] > 2 and c['p'] == 0.5)
def selection(c, ctx):
    """exactly the selected frames, in order, with at most the tolerated length mismatch"""
    r = rng(c['seed'])
    n, m = c['n'], max(0, c['n'] + c['diff'])
    x = r.randn(n, c['d'])
    sel = (r.rand(m) < c['p']).astype(c['dtype'])
    f = FrameSelector() if c['tol'] is None else FrameSelector(c['tol'])
    tol = 3 if c['tol'] is None else c['tol']
    if abs(n - m) > tol:
        ctx.label('mismatch')
        return raises(lambda: f.select(x, sel), 'length mismatch over the tolerance')
    with unchanged('select', x, sel):
        y = f.select(x, sel)
    same(y, np.array([x[i] for i in range(min(n, m)) if sel[i]]).reshape(-1, c['d']), 'selected frames')


@sub('P17', fd(tol=st.integers(0, 9), prefix=st.sampled_from([None, 'fs']), ctx=st.integers(0, 9), left=st.integers(0, 500), right=st.integers(0, 500), var=st.booleans(),
               nomean=st.booleans()), quick=60, nontrivial=lambda c: True)
def options(c, ctx):
    """command-line options reach the objects"""
    p = argparse.ArgumentParser()
    q = p1 = '--' + (c['prefix'] + '-' if c['prefix'] else '')
    for cls in (FrameSelector, MeanVarianceNorm, EnergyVAD):
        cls.add_argparse_args(p, c['prefix'])
    argv = [q + 'tol-num-frames', str(c['tol']), q + 'vad-frames-context', str(c['ctx']), q + 'left-context', str(c['left']), q + 'right-context', str(c['right'])]
    argv += [q + 'norm-var'] if c['var'] else []
    argv += [q + 'no-norm-mean'] if c['nomean'] else []
    a = vars(p.parse_args(argv))
    eq(FrameSelector(**FrameSelector.filter_args(c['prefix'], **a)).tol_num_frames, c['tol'], 'tolerance')
    m = MeanVarianceNorm(**MeanVarianceNorm.filter_args(c['prefix'], **a))
    eq((m.norm_mean, m.norm_var, m.left_context, m.right_context), (not c['nomean'], c['var'], c['left'], c['right']), 'normalisation options')
    v = EnergyVAD(**EnergyVAD.filter_args(c['prefix'], **a))
    eq(v.vad_frames_context, c['ctx'], 'context')
