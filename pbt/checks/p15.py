"""P15: short-time Fourier analysis against a direct DFT of every frame, and inversion."""
from pbt.core import *
from hyperion.feats.stft import stft, istft, strft, istrft, st_logE
from hyperion.feats.feature_windows import FeatureWindowFactory as FWF

RULE = 'the signal has at least two frames, or the window has at least three samples'

WIN = ['povey', 'hamming', 'hanning', 'blackman', 'rectangular']
win_st = st.sampled_from([None] + WIN)


@st.composite
def frames_st(draw):
    L = draw(st.integers(2, 40))
    shift = draw(st.one_of(st.integers(1, L), st.integers(1, L + 5)))
    extra = draw(st.integers(0, 30))
    nfft = L + extra
    nfft += nfft % 2
    n = draw(st.integers(0, 12)) * shift + L + draw(st.integers(0, max(0, shift - 1)))
    return dict(L=L, shift=shift, nfft=nfft, n=n, win=draw(win_st), seed=draw(seeds), scale=draw(st.sampled_from([1e-3, 1., 1e4])),
                dc=draw(st.sampled_from([0., 3.])))


def window(name, N):
    """periodic windows from their definitions"""
    t = 2 * np.pi * np.arange(N) / N
    return {'povey': lambda: (0.5 - 0.5 * np.cos(t)) ** 0.85, 'hanning': lambda: 0.5 - 0.5 * np.cos(t), 'hamming': lambda: 0.54 - 0.46 * np.cos(t),
            'blackman': lambda: 0.42 - 0.5 * np.cos(t) + 0.08 * np.cos(2 * t), 'rectangular': lambda: np.ones(N)}[name]()


def nframes(c):
    return (c['n'] - c['L']) // c['shift'] + 1


def signal(c, cplx):
    r = rng(c['seed'])
    x = c['scale'] * (r.randn(c['n']) + c['dc'])
    return x + 1j * c['scale'] * r.randn(c['n']) if cplx else x


def dft(v, nfft):
    k = np.arange(nfft)
    return np.exp(-2j * np.pi * np.outer(k, np.arange(len(v))) / nfft).dot(v)


def nt(c):
    return nframes(c) >= 2


@sub('P15', frames_st(), quick=300, nontrivial=nt)
def forward(c, ctx):
    """spectra equal the DFT of each windowed frame"""
    L, sh, nfft = c['L'], c['shift'], c['nfft']
    w = None if c['win'] is None else FWF.create(c['win'], L)
    ww = np.ones(L) if w is None else window(c['win'], L)
    for cplx in (False, True):
        x = signal(c, cplx)
        with unchanged('stft', x, w):
            X = stft(x, L, sh, nfft) if w is None else stft(x, L, sh, nfft, w)
        want = np.array([dft(x[i * sh:i * sh + L] * ww, nfft) for i in range(nframes(c))])
        tol = 1e-6 * np.max(np.abs(want)) + 1e-12
        same(X, want, 'spectrum', rtol=1e-5, atol=tol)
        if not cplx:
            with unchanged('strft', x, w):
                X = strft(x, L, sh, nfft) if w is None else strft(x, L, sh, nfft, w)
            same(X, want[:, :nfft // 2 + 1], 'half spectrum', rtol=1e-5, atol=tol)


@sub('P15', frames_st(), quick=300, nontrivial=nt)
def inverse(c, ctx):
    """the inverse recovers the signal wherever the overlapped windows do not vanish"""
    L, sh, nfft = c['L'], c['shift'], c['nfft']
    w = None if c['win'] is None else FWF.create(c['win'], L)
    ww = np.ones(L) if w is None else window(c['win'], L)
    m = (nframes(c) - 1) * sh + L
    ov = np.zeros(m)
    for i in range(nframes(c)):
        ov[i * sh:i * sh + L] += ww
    ok = ov > 1e-9
    for name in ('complex', 'real'):
        x = signal(c, name == 'complex')
        fwd, inv = (stft, istft) if name == 'complex' else (strft, istrft)
        X = fwd(x, L, sh, nfft, w)
        with unchanged('inverse', X, w):
            y = inv(X, L, sh) if w is None else inv(X, L, sh, w)
        eq(len(y), m, 'number of samples')
        same((y * ov)[ok], (x[:m] * ov)[ok], 'recovered signal (%s)' % name, rtol=1e-5, atol=3e-6 * np.max(np.abs(x)) * max(1, np.max(ov)))
    if np.all(ok):
        ctx.label('full recovery')


@sub('P15', frames_st(), quick=200, nontrivial=nt)
def log_energy(c, ctx):
    """short-time log energies"""
    x = signal(c, False)
    x[:c['L'] // 2] = 0
    with unchanged('st_logE', x):
        e = st_logE(x, c['L'], c['shift'])
    want = [np.log(np.sum(x[i * c['shift']:i * c['shift'] + c['L']] ** 2) + 1e-15) for i in range(nframes(c))]
    same(e, want, 'log energy', rtol=1e-9, atol=1e-9)


@sub('P15', fd(seed=seeds, L=st.integers(2, 20), shift=st.integers(1, 20), n=st.integers(0, 19)), quick=60, nontrivial=lambda c: c['n'] > 0)
def short(c, ctx):
    """a signal shorter than one frame has no frames"""
    n = min(c['n'], c['L'] - 1)
    if n < c['L'] - c['shift']:
        return ctx.label('much shorter')
    x = rng(c['seed']).randn(n)
    eq(stft(x, c['L'], c['shift'], c['L']).shape[0], 0, 'frames')
    eq(strft(x, c['L'], c['shift'], c['L']).shape[0], 0, 'frames')
    eq(st_logE(x, c['L'], c['shift']).shape[0], 0, 'frames')


@sub('P15', fd(win=st.sampled_from(WIN), N=st.integers(2, 700), sym=st.sampled_from([None, False, True])), quick=300, nontrivial=lambda c: c['N'] > 2)
def windows(c, ctx):
    """length, shape and symmetry of the analysis windows"""
    N = c['N']
    w = FWF.create(c['win'], N) if c['sym'] is None else FWF.create(c['win'], N, c['sym'])
    if c['sym']:
        want = window(c['win'], N - 1)
        want = np.concatenate([want, want[:1]])
    else:
        want = window(c['win'], N)
    same(w, want, 'window', rtol=1e-9, atol=1e-9)
    same(w[1:][::-1] if not c['sym'] else w[::-1], w[1:] if not c['sym'] else w, 'symmetry', rtol=1e-9, atol=1e-9)


@sub('P15', frames_st(), quick=100, nontrivial=nt)
def linear(c, ctx):
    """linearity, and shifting the signal by a frame shift moves the frames"""
    L, sh, nfft = c['L'], c['shift'], c['nfft']
    w = None if c['win'] is None else FWF.create(c['win'], L)
    x = signal(c, False)
    y = rng(c['seed'] + 1).randn(c['n']) * c['scale']
    X, Y, Z = [strft(v, L, sh, nfft, w) for v in (x, y, 2 * x - 3 * y)]
    same(Z, 2 * X - 3 * Y, 'spectrum of a combination', rtol=1e-4, atol=1e-5 * np.max(np.abs(X)) + 1e-5 * np.max(np.abs(Y)))
    if nframes(c) > 1:
        same(strft(x[sh:], L, sh, nfft, w), X[1:], 'spectrum of the delayed signal')
