"""P16: the acoustic feature pipeline against a stage-by-stage reference and against itself entered at later stages."""
from pbt.core import *
from pbt.checks.p15 import window
from hyperion.feats.mfcc import MFCC
from hyperion.feats.filter_banks import FilterBankFactory as FBF

RULE = 'the configuration differs from the defaults and gives at least two frames'


@st.composite
def cfg_st(draw, snip=None):
    fs = draw(st.sampled_from([4000, 8000, 8000, 16000, 16000, 11025]))
    fl = draw(st.sampled_from([5, 8, 10, 16, 20, 25]))
    c = dict(fs=fs, frame_length=fl, frame_shift=draw(st.sampled_from([2, 4, 5, 8, 10, 12])), fft_length=draw(st.sampled_from([64, 128, 256, 512])),
             remove_dc_offset=draw(st.booleans()), preemph_coeff=draw(st.sampled_from([0.97, 0.5, 0.])),
             window_type=draw(st.sampled_from(['povey', 'hamming', 'hanning', 'blackman', 'rectangular'])), use_fft2=draw(st.booleans()), dither=0,
             fb_type=draw(st.sampled_from(['mel_kaldi', 'mel_etsi', 'linear'])), low_freq=draw(st.sampled_from([0, 20, 100, 321])),
             high_freq=draw(st.sampled_from([0, 1900, -150])), num_filters=draw(st.integers(2, 30)), norm_filters=draw(st.booleans()),
             num_ceps=draw(st.integers(1, 30)), snip_edges=draw(st.booleans()) if snip is None else snip,
             energy_floor=draw(st.sampled_from([0, 0, 1e5])), raw_energy=draw(st.booleans()), use_energy=draw(st.booleans()),
             cepstral_lifter=draw(st.sampled_from([22, 0, 10, 5.5])))
    c['num_ceps'] = min(c['num_ceps'], c['num_filters'])
    if not c['snip_edges']:
        c['frame_shift'] = min(c['frame_shift'], fl)
    return c


@st.composite
def case_st(draw, snip=None):
    cfg = draw(cfg_st(snip))
    L, sh = cfg['fs'] * cfg['frame_length'] // 1000, cfg['fs'] * cfg['frame_shift'] // 1000
    n = L + sh * draw(st.integers(0, 8)) + draw(st.integers(0, sh - 1))
    return dict(cfg=cfg, n=n, seed=draw(seeds), scale=draw(st.sampled_from([0.05, 100., 1000.])))


def dims(c):
    g = c['cfg']
    return g['fs'] * g['frame_length'] // 1000, g['fs'] * g['frame_shift'] // 1000


def wave(c):
    r = rng(c['seed'])
    t = np.arange(c['n']) / c['cfg']['fs']
    return c['scale'] * (r.randn(c['n']) + np.cos(2 * np.pi * 440 * t) + 0.5)


def make(c, **kw):
    d = dict(c['cfg'])
    d.update(kw)
    return MFCC(**d)


def fft_len(g, L):
    n = g['fft_length']
    if L > n:
        n = 1
        while n < L:
            n *= 2
    return n


def lin2mel(x):
    return 1127. * np.log(1 + np.asarray(x, dtype=float) / 700)


def grid_shift():
    """0 if the Mel filters are evaluated at the DFT bin frequencies, 1 while the known finding (mel_grid below) is there"""
    B = FBF.create('mel_kaldi', 10, 64, 8000, 20, 0, False)
    m = lin2mel(np.arange(32) * 8000 / 64.)
    e = np.linspace(lin2mel(20), lin2mel(4000.), 12)
    W = np.array([np.maximum(0, np.minimum((m - e[k]) / (e[k + 1] - e[k]), (e[k + 2] - m) / (e[k + 2] - e[k + 1]))) for k in range(10)]).T
    return 0. if np.allclose(B[:32], W, atol=1e-6) else 1.


def ref_fb(g, nfft):
    """filter bank, or None if a filter edge is too close to a rounding tie"""
    hi = g['high_freq'] if g['high_freq'] > 0 else g['fs'] / 2. + g['high_freq']
    lo, nf, fs = g['low_freq'], g['num_filters'], g['fs']
    B = np.zeros((nfft // 2 + 1, nf))
    if g['fb_type'] == 'mel_kaldi':
        e = np.linspace(lin2mel(lo), lin2mel(hi), nf + 2)
        m = lin2mel(np.arange(nfft) * fs / (nfft - grid_shift()))[:nfft // 2]
        if np.min(np.abs(m[:, None] - e)) < 1e-9 and lo > 0:
            return None
        for k in range(nf):
            up, dn = (m - e[k]) / (e[k + 1] - e[k]), (e[k + 2] - m) / (e[k + 2] - e[k + 1])
            B[:nfft // 2, k] = np.maximum(0, np.minimum(up, dn))
    else:
        if g['fb_type'] == 'mel_etsi':
            f = 700 * (np.exp(np.linspace(lin2mel(lo), lin2mel(hi), nf + 2) / 1127.) - 1)
        else:
            f = np.linspace(lo, hi, nf + 2)
        b = f / fs * nfft
        if np.min(np.abs(b - np.floor(b) - 0.5)) < 1e-6:
            return None
        b = np.floor(b + 0.5).astype(int)
        for k in range(nf):
            for j in range(b[k], b[k + 2] + 1):
                if j <= b[k + 1]:
                    B[j, k] = (j - b[k] + 1.) / (b[k + 1] - b[k] + 1.)
                else:
                    B[j, k] = (b[k + 2] - j + 1.) / (b[k + 2] - b[k + 1] + 1.)
    if g['norm_filters']:
        B = B / np.sum(B, axis=0)
    return B


def valid_fb(g, nfft):
    B = ref_fb(g, nfft)
    return B if B is not None and np.all(np.isfinite(B)) else None


def frames(c):
    """(first sample, number of frames), None when the number of frames is a rounding tie"""
    L, sh = dims(c)
    if c['cfg']['snip_edges']:
        return 0, (c['n'] - L) // sh + 1
    q = c['n'] / float(sh)
    if abs(q - np.floor(q) - 0.5) < 1e-9:
        return None
    return -((L - sh) // 2), int(np.floor(q + 0.5))


def ref_front(c, x, st0=(0., 0.)):
    """frames of the signal after DC removal and after pre-emphasis"""
    g = c['cfg']
    L, sh = dims(c)
    fr = frames(c)
    if not g['snip_edges']:
        n = (fr[1] - 1) * sh + L
        i = np.arange(fr[0], max(fr[0] + n, len(x)))
        p = 2 * (len(x) - 1)
        i = np.abs(i) % p
        i = np.where(i >= len(x), p - i, i)
        x = x[i]
    if g['remove_dc_offset']:
        y = np.zeros(len(x))
        prev, acc = 0., 0.
        for k in range(len(x)):
            acc = x[k] - prev + 0.999 * acc
            y[k], prev = acc, x[k]
        x = y
    raw = x
    if g['preemph_coeff'] > 0:
        x = x - g['preemph_coeff'] * np.concatenate([[0.], x[:-1]])
    cut = lambda v: np.array([v[k * sh:k * sh + L] for k in range(fr[1])])
    return cut(raw), cut(x)


def nt(c):
    f = frames(c)
    return f is not None and f[1] >= 2


@sub('P16', case_st(), quick=300, nontrivial=nt)
def stages(c, ctx):
    """every stage equals its definition"""
    g = c['cfg']
    L, sh = dims(c)
    nfft = fft_len(g, L)
    fb = valid_fb(g, nfft)
    if frames(c) is None or fb is None:
        ctx.nontrivial = False
        return ctx.label('excluded')
    x = wave(c)
    raw, fr = ref_front(c, x)
    nf = frames(c)[1]
    X = np.fft.rfft(fr * window(g['window_type'], L), n=nfft)
    with unchanged('compute', x):
        P, gX, gF, gB = make(c).compute(x, return_fft=True, return_fft_mag=True, return_logfb=True)
    same(gX, X, 'FFT', rtol=1e-5, atol=2e-6 * np.max(np.abs(X)))
    mag = np.abs(gX).astype(float)
    F = mag ** 2 if g['use_fft2'] else mag
    same(gF, F, 'magnitude', rtol=2e-6, atol=1e-10 * np.max(F))
    if g['raw_energy']:
        logE = np.log(np.sum(raw ** 2, axis=1) + 1e-15)
    else:
        logE = np.log(np.mean(np.abs(X) ** 2, axis=1) + 1e-10)
    if g['energy_floor'] > 0:
        if np.any(logE < np.log(g['energy_floor'])):
            ctx.label('floored energy')
        logE = np.maximum(logE, np.log(g['energy_floor']))
    B = np.log(gF.dot(fb) + 1e-10)
    same(np.exp(gB), np.exp(B), 'filter-bank output', rtol=1e-6, atol=1e-8 * np.max(gF))
    same(gB, B, 'log filter bank', rtol=1e-6, atol=1e-4)
    n = g['num_filters']
    k = np.arange(g['num_ceps'])[:, None]
    D = np.sqrt(2. / n) * np.cos(np.pi * k * (np.arange(n) + 0.5) / n)
    D[0] /= np.sqrt(2)
    C = gB.dot(D.T)
    if g['cepstral_lifter'] > 0:
        C = C * (1 + 0.5 * g['cepstral_lifter'] * np.sin(np.pi * np.arange(g['num_ceps']) / g['cepstral_lifter']))
    if g['use_energy']:
        C[:, 0] = logE
    eq(P.shape, (nf, g['num_ceps']), 'shape')
    same(P, C, 'cepstra', rtol=1e-5, atol=1e-5)
    # output stages
    tol = dict(rtol=1e-4, atol=1e-4)
    O = make(c, output_step='logfb').compute(x)
    same(O, np.hstack([logE[:, None], gB]) if g['use_energy'] else gB, 'log filter-bank output', **tol)
    O = make(c, output_step='fft_mag').compute(x)
    W = np.array(gF, dtype=float)
    if g['use_energy']:
        W[:, 0] = logE
    same(O, W, 'magnitude output', rtol=1e-4, atol=1e-4)
    O = make(c, output_step='log_spec').compute(x)
    W = np.log(gF + 1e-10)
    if g['use_energy']:
        W[:, 0] = logE
    same(O, W, 'log spectrum output', **tol)
    O = make(c, output_step='fft').compute(x)
    W = np.array(gX)
    if g['use_energy']:
        W[:, 0] = logE
    same(O, W, 'FFT output', rtol=1e-4, atol=1e-4)


STEPS = ['fft', 'fft_mag', 'log_spec', 'logfb', 'cepstrum']


@sub('P16', fd(c=case_st(), a=st.integers(0, 3), b=st.integers(0, 4)), quick=400, nontrivial=lambda k: nt(k['c']))
def later_entry(k, ctx):
    """entering the pipeline with the output of an earlier stage gives the same features"""
    c = k['c']
    a, b = k['a'], max(k['b'], k['a'] + 1)
    g = c['cfg']
    fb = valid_fb(g, fft_len(g, dims(c)[0]))
    if fb is None or (g['use_energy'] and a < 3 and np.any(fb[0] != 0)):
        # the energy takes the place of the first bin, which these filters would use
        ctx.nontrivial = False
        return ctx.label('excluded')
    ctx.label('%s->%s' % (STEPS[a], STEPS[b]))
    x = wave(c)
    want = make(c, output_step=STEPS[b]).compute(x)
    mid = make(c, output_step=STEPS[a]).compute(x)
    with unchanged('compute', mid):
        got = make(c, input_step=STEPS[a], output_step=STEPS[b]).compute(mid)
    if STEPS[b] == 'fft_mag':
        same(got, want, 'features', rtol=1e-4, atol=1e-6 * np.max(np.abs(want)))
    elif STEPS[b] == 'log_spec':
        same(np.exp(got), np.exp(want), 'features', rtol=1e-3, atol=1e-6 * np.max(np.exp(want)))
    else:
        same(got, want, 'features', rtol=1e-3, atol=2e-3)


@sub('P16', fd(c=case_st(), dither=st.sampled_from([0, 1.])), quick=150, nontrivial=lambda k: nt(k['c']))
def repeatable(k, ctx):
    """equal inputs give equal outputs, with a new extractor or after a reset"""
    c = k['c']
    x = wave(c)
    m = make(c, dither=k['dither'])
    a = m.compute(x)
    m.reset()
    same(m.compute(x), a, 'features after reset')
    same(make(c, dither=k['dither']).compute(x), a, 'features of another extractor')
    eq(np.all(np.isfinite(a)), True, 'finite features') if valid_fb(c['cfg'], fft_len(c['cfg'], dims(c)[0])) is not None else None


@sub('P16', fd(c=case_st(), d=st.sampled_from([.25, .5, 3., 100.])), quick=100, nontrivial=lambda k: True)
def dither(k, ctx):
    """dither is white noise of the given standard deviation that is added to the signal"""
    c, d = k['c'], k['d']
    if frames(c) is None:
        return ctx.label('rounding tie')
    L, _ = dims(c)
    x = np.zeros(c['n'])
    A = [make(c, dither=v, output_step='fft', use_energy=False).compute(x) for v in (1., d)]
    require(np.max(np.abs(A[0])) > 0, 'no dither')
    same(A[1], d * A[0], 'spectrum of the dither', rtol=1e-4, atol=1e-5 * d * np.max(np.abs(A[0])))
    E = make(c, dither=d, use_energy=True, raw_energy=True, energy_floor=0, remove_dc_offset=False, output_step='cepstrum').compute(x)[:, 0]
    w = L * d * d
    require(np.all(np.abs(E - np.log(w)) < 2 + 7 * np.sqrt(2. / L)) if L >= 40 else True, 'log energy of the dither %s, expected about %s', E, np.log(w))
    y = wave(c)
    B = [make(c, dither=v, output_step='fft', use_energy=False).compute(y) for v in (0, d)]
    require(np.max(np.abs(B[1] - B[0])) > 0, 'no dither is added to the signal')


@sub('P16', fd(c=case_st(snip=True), cut=st.lists(st.integers(1, 6), min_size=1, max_size=3), extra=st.integers(0, 40)), quick=200, nontrivial=lambda k: len(k['cut']) > 0)
def streaming(k, ctx):
    """DC removal and pre-emphasis continue across consecutive calls as if there were one call"""
    c = k['c']
    g = c['cfg']
    L, sh = dims(c)
    # every chunk starts at a multiple of the frame shift
    q = -(-L // sh)
    starts = [0]
    for s in k['cut']:
        starts.append(starts[-1] + (q + s) * sh)
    c['n'] = starts[-1] + L + k['extra']
    x = wave(c)
    whole = make(c, output_step='fft', use_energy=False).compute(x)
    wholeE = make(c, output_step='cepstrum').compute(x)
    m, mE = make(c, output_step='fft', use_energy=False), make(c)
    ends = starts[1:] + [len(x)]
    for s, e in zip(starts, ends):
        A, E = m.compute(x[s:e]), mE.compute(x[s:e])
        i = s // sh
        n = (e - s - L) // sh + 1
        eq(A.shape[0], n, 'frames of a chunk')
        same(A, whole[i:i + n], 'spectra of the chunk at %d' % s, rtol=1e-4, atol=1e-5 * np.max(np.abs(whole)))
        same(E, wholeE[i:i + n], 'cepstra of the chunk at %d' % s, rtol=1e-3, atol=1e-2)


@sub('P16', cfg_st(), quick=300, nontrivial=lambda g: True)
def filter_bank(g, ctx):
    """filter banks equal their definition"""
    nfft = g['fft_length']
    want = valid_fb(g, nfft)
    if want is None:
        ctx.nontrivial = False
        return ctx.label('excluded')
    B = FBF.create(g['fb_type'], g['num_filters'], nfft, g['fs'], g['low_freq'], g['high_freq'], g['norm_filters'])
    same(B, want, 'filters', rtol=1e-8, atol=1e-8)


@sub('P16:known', fd(nfft=st.just(512), fs=st.just(16000)), quick=1, thorough=1)
def mel_grid(c, ctx):
    """triangular Mel filters evaluated at the DFT bin frequencies"""
    nfft, fs = c['nfft'], c['fs']
    B = FBF.create('mel_kaldi', 23, nfft, fs, 20, 0, False)
    m = lin2mel(np.arange(nfft // 2) * fs / float(nfft))
    e = np.linspace(lin2mel(20), lin2mel(fs / 2.), 25)
    W = np.array([np.maximum(0, np.minimum((m - e[k]) / (e[k + 1] - e[k]), (e[k + 2] - m) / (e[k + 2] - e[k + 1]))) for k in range(23)]).T
    same(B[:nfft // 2], W, 'filters', atol=1e-6)
