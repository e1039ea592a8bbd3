"""P41: frames, spliced contexts and padded tensors."""
from pbt.core import *
from hyperion.utils.framing import Framing
from hyperion.utils.splicing import Splicing
from hyperion.utils.tensors import to3D_by_class, to3D_by_seq

RULE = 'more than one frame or sequence, and frames or contexts longer than one'
F32 = dict(rtol=1e-6, atol=0)


def padded(x, left, right, mode, kw):
    """the padded rows, written out"""
    n = len(x)
    out = []
    for i in range(-left, n + right):
        if 0 <= i < n:
            out.append(x[i])
        elif mode == 'constant':
            out.append(np.full_like(x[0], kw.get('constant_values', 0)) if np.ndim(x[0]) else kw.get('constant_values', 0))
        elif mode == 'edge':
            out.append(x[0] if i < 0 else x[-1])
        elif mode == 'wrap':
            out.append(x[i % n])
        elif mode == 'symmetric':
            j = i % (2 * n)
            out.append(x[j] if j < n else x[2 * n - 1 - j])
        elif mode == 'reflect':
            p = max(2 * (n - 1), 1)
            j = i % p
            out.append(x[j] if j < n else x[p - j])
    return np.array(out).reshape((n + left + right,) + x.shape[1:])


def outside(c, pad):
    """mirrored and cyclic padding are only specified up to the length of the signal"""
    return (c['mode'] == 'reflect' and max(pad, 1) > c['n'] - 1) or (c['mode'] in ('wrap', 'symmetric') and pad > c['n'])


mode_st = st.sampled_from([None, None, 'constant', 'edge', 'reflect', 'symmetric', 'wrap'])


@sub('P41', fd(L=st.integers(1, 9), S=st.integers(1, 9), n=st.integers(1, 40), dim=st.sampled_from([0, 1, 3]), mode=mode_st, side=st.sampled_from(['symmetric', 'left', 'right']), value=st.sampled_from([None, 7]), seed=seeds, order=st.sampled_from(['C', 'F', 'step', 'int'])),
     quick=800, nontrivial=lambda c: c['L'] > c['S'] and c['n'] > c['L'] + c['S'])
def frames(c, ctx):
    """frame i has the samples i*shift .. i*shift+length-1 of the (padded) signal, and every frame that fits is there"""
    r = rng(c['seed'])
    L, S = c['L'], min(c['S'], c['L'])
    if c['mode'] is None:
        S = c['S']
    shape = (c['n'],) if c['dim'] == 0 else (c['n'], c['dim'])
    x = r.randn(*shape)
    if c['order'] == 'int':
        x = np.round(100 * x).astype(int)
    elif c['order'] == 'F':
        x = np.asfortranarray(x)
    elif c['order'] == 'step':
        x = np.repeat(x, 2, axis=0)[::2]
    if outside(c, L - S):
        return
    kw = dict(constant_values=c['value']) if c['mode'] == 'constant' and c['value'] is not None else {}
    if c['mode'] is None and c['side'] == 'left':
        f = Framing(L, S)
    else:
        f = Framing(L, S, pad_mode=c['mode'], pad_side=c['side'], **kw)
    with unchanged('create_frames', x):
        y = f.create_frames(x)
    o = L - S
    left, right = dict(symmetric=(o - o // 2, o // 2), left=(o, 0), right=(0, o))[c['side']] if c['mode'] else (0, 0)
    z = padded(x, left, right, c['mode'], kw)
    want = [z[i:i + L].ravel() for i in range(0, len(z) - L + 1, S)]
    same(y, np.array(want).reshape(len(want), L * max(c['dim'], 1)), 'frames', **F32)
    if c['mode']:
        eq(len(y), c['n'] // S, 'number of frames of the padded signal')
    with unchanged('create_frames', x):
        same(f.create_frames(x), y, 'frames made again')
    ctx.label(c['mode'], c['side'])
    if c['mode'] == 'edge':
        raises(lambda: Framing(L, S, pad_mode='edge', pad_side='top'), 'unknown side')


@sub('P41', fd(left=st.integers(0, 4), right=st.integers(0, 4), S=st.integers(1, 4), n=st.integers(1, 25), dim=st.integers(1, 3), mode=mode_st, pattern=st.one_of(st.none(), st.lists(st.integers(-4, 4), min_size=0, max_size=4)),
               arr=st.booleans(), value=st.sampled_from([None, 7]), seed=seeds), quick=800, nontrivial=lambda c: c['n'] > 9 and c['left'] + c['right'] > 0)
def contexts(c, ctx):
    """every output row has the frames at the stated offsets around its own frame, in order"""
    r = rng(c['seed'])
    x = r.randn(c['n'], c['dim'])
    S = c['S']
    kw = dict(constant_values=c['value']) if c['mode'] == 'constant' and c['value'] is not None else {}
    if c['pattern'] is None:
        left, right, off = c['left'], c['right'], list(range(-c['left'], c['right'] + 1))
        s = Splicing(left, right, pad_mode=c['mode'], **kw) if S == 1 else Splicing(left, right, frame_shift=S, pad_mode=c['mode'], **kw)
    else:
        off = sorted(set(c['pattern'] + [0]))
        left, right = -off[0], off[-1]
        s = Splicing(c['left'], c['right'], frame_shift=S, splice_pattern=np.array(off) if c['arr'] else off, pad_mode=c['mode'], **kw)
    if outside(c, max(left, right)):
        return
    for _ in range(2):
        with unchanged('splice', x):
            y = s.splice(x)
        z = padded(x, left, right, c['mode'], kw) if c['mode'] else x
        want = [np.concatenate([z[t + o] for o in off]) for t in range(left, len(z) - right, S)]
        same(y, np.array(want).reshape(len(want), len(off) * c['dim']), 'spliced frames', **F32)
        if c['mode']:
            eq(len(y), -(-c['n'] // S), 'number of frames')
        x = r.randn(c['n'], c['dim'])       # the object does not depend on what it has seen


@sub('P41', fd(ids=st.lists(st.integers(0, 4), min_size=1, max_size=12), dim=st.integers(1, 3), extra=st.sampled_from([None, 0, 1, 5]), f32=st.booleans(), seed=seeds), quick=300, nontrivial=lambda c: len(set(c['ids'])) > 1)
def by_class(c, ctx):
    """the vectors of each class, in order, with weight one, and zeros with weight zero after them"""
    r = rng(c['seed'])
    ids = np.array(c['ids'])
    x = r.randn(len(ids), c['dim']).astype('float32' if c['f32'] else 'float64')
    top = max(np.sum(ids == k) for k in set(c['ids']))
    kw = {} if c['extra'] is None else dict(max_length=int(top + c['extra']))
    with unchanged('to3D_by_class', x, ids):
        y, w = to3D_by_class(x, ids, **kw)
    n = kw.get('max_length', top)
    eq(y.shape, (max(c['ids']) + 1, n, c['dim']), 'shape')
    eq(w.shape, y.shape[:2], 'shape of the weights')
    for k in range(len(y)):
        m = ids == k
        same(y[k, :m.sum()], x[m], 'vectors of class %d' % k)
        same(y[k, m.sum():], np.zeros((n - m.sum(), c['dim'])), 'padding of class %d' % k)
        same(w[k], np.arange(n) < m.sum(), 'weights of class %d' % k)
    eq((str(y.dtype), str(w.dtype)), (str(x.dtype),) * 2, 'types')


@sub('P41', fd(lens=st.lists(st.integers(0, 6), min_size=1, max_size=6), dim=st.integers(1, 3), extra=st.sampled_from([None, 0, 1, 5]), f32=st.booleans(), seed=seeds), quick=300, nontrivial=lambda c: len(set(c['lens'])) > 1)
def by_sequence(c, ctx):
    """the frames of each sequence with weight one, and zeros with weight zero after them"""
    r = rng(c['seed'])
    x = [r.randn(n, c['dim']).astype('float32' if c['f32'] else 'float64') for n in c['lens']]
    top = max(c['lens'])
    kw = {} if c['extra'] is None else dict(max_length=top + c['extra'])
    with unchanged('to3D_by_seq', *x):
        y, w = to3D_by_seq(x, **kw)
    n = kw.get('max_length', top)
    eq(y.shape, (len(x), n, c['dim']), 'shape')
    for k, v in enumerate(x):
        same(y[k, :len(v)], v, 'frames of sequence %d' % k)
        require(not np.any(y[k, len(v):]), 'padding of sequence %d is not zero', k)
        same(w[k], np.arange(n) < len(v), 'weights of sequence %d' % k)
    eq((str(y.dtype), str(w.dtype)), (str(x[0].dtype),) * 2, 'types')
