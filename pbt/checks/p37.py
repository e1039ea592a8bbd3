"""P37: hidden Markov models against the enumeration of all state sequences."""
import itertools

from pbt.core import *
from hyperion.pdfs.hmm import HMM

RULE = 'at least two states and three frames'


@st.composite
def case_st(draw):
    S = draw(st.integers(1, 4))
    return dict(S=S, n=draw(st.integers(1, 6 if S < 4 else 5)), seed=draw(seeds), scale=draw(st.sampled_from([0.0, 1.0, 5.0, 30.0])), off=draw(st.sampled_from([0.0, -1000.0, 400.0])),
                zero=draw(st.sampled_from([0.0, 0.0, 0.4])))


def nt(c):
    c = c.get('c', c)
    return c['S'] > 1 and c['n'] > 2


def dist(r, shape, zero):
    p = 0.02 + r.dirichlet(np.ones(shape[-1]), size=shape[:-1] or None) if shape[:-1] else 0.02 + r.dirichlet(np.ones(shape[-1]))
    if zero:
        z = r.rand(*shape) < zero
        k = r.randint(shape[-1], size=shape[:-1] or None)
        if shape[:-1]:
            z[np.arange(shape[0]), k] = False
        else:
            z[k] = False
        p = np.where(z, 0, p)
    return p / p.sum(axis=-1, keepdims=True)


def mk(c):
    r = rng(c['seed'])
    pi, A = dist(r, (c['S'],), c['zero']), dist(r, (c['S'], c['S']), c['zero'])
    return r, pi, A


def obs(r, c, n=None):
    return c['off'] + c['scale'] * r.randn(n or c['n'], c['S'])


def paths(pi, A, x):
    """all state sequences and log p(x, sequence)"""
    n, S = x.shape
    Z = np.array(list(itertools.product(range(S), repeat=n)))
    with np.errstate(divide='ignore'):
        lp, lA = np.log(pi), np.log(A)
    l = lp[Z[:, 0]] + x[0, Z[:, 0]]
    for t in range(1, n):
        l = l + lA[Z[:, t - 1], Z[:, t]] + x[t, Z[:, t]]
    return Z, l


def lse(l):
    m = np.max(l)
    return m + np.log(np.sum(np.exp(l - m))) if np.isfinite(m) else -np.inf


def near(got, want, what, floor):
    """log values; those of impossible or almost impossible events only have to be low"""
    g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    eq(g.shape, w.shape, what + ': shape')
    require(not np.any(np.isnan(g)), '%s: NaN', what)
    hi = w > floor
    t = 1e-7 * max(1, np.max(np.abs(w[hi]))) if np.any(hi) else 0
    same(g[hi], w[hi], what, rtol=1e-8, atol=t + 1e-6)
    require(np.all(g[~hi] < floor + 1), '%s: %s, want less than %s', what, g[~hi], floor)


@sub('P37', case_st(), quick=600, nontrivial=nt)
def inference(c, ctx):
    """forward and backward values, posteriors, transition counts, likelihood and predictions"""
    r, pi, A = mk(c)
    S, n = c['S'], c['n']
    x = obs(r, c)
    m = HMM(pi=pi.copy(), trans=A.copy())
    Z, l = paths(pi, A, x)
    L = lse(l)
    # with forbidden transitions, all sequences that fit the data may be forbidden ones
    if not np.isfinite(L) or L < c['off'] * n + np.max(x - c['off'], axis=1).sum() - 18:
        ctx.label('improbable')
        return
    ctx.label('probable')
    q = np.exp(l - L)
    pz = np.array([[q[Z[:, t] == s].sum() for s in range(S)] for t in range(n)])
    nzz = np.array([[sum(q[(Z[:, t] == i) & (Z[:, t + 1] == j)].sum() for t in range(n - 1)) for j in range(S)] for i in range(S)], dtype=float).reshape(S, S)
    with unchanged('inference', x):
        a, b = m.forward(x), m.backward(x)
        top = np.cumsum(np.max(x, axis=1))
        for t in range(n):
            Zt, lt = paths(pi, A, x[:t + 1])
            near(a[t], [lse(lt[Zt[:, t] == s]) for s in range(S)], 'forward values of frame %d' % t, top[t] - 20)
        rest = np.append(np.cumsum(np.max(x, axis=1)[::-1])[::-1][1:], 0)
        for t in range(n - 1):
            w = []
            for s in range(S):
                w.append(lse(paths(A[s], A, x[t + 1:])[1]))
            near(b[t], w, 'backward values of frame %d' % t, rest[t] - 20)
        same(b[-1], np.zeros(S), 'backward values of the last frame', atol=1e-12)
        same(m.compute_pz(x), pz, 'posteriors', atol=1e-6)
        p, Nz = m.compute_pz(x, return_Nzz=True)
        same(p, pz, 'posteriors', atol=1e-6)
        same(Nz, nzz, 'transition counts', atol=1e-6 * n)
        p, lx = m.compute_pz(x, return_log_px=True)
        same(p, pz, 'posteriors', atol=1e-6)
        same(lx, L, 'log-likelihood', rtol=1e-8, atol=1e-5)
        p, Nz, lx = m.compute_pz(x, return_Nzz=True, return_log_px=True)
        same(Nz, nzz, 'transition counts', atol=1e-6 * n)
        same(lx, L, 'log-likelihood', rtol=1e-8, atol=1e-5)
        same(m.elbo(x), L, 'bound', rtol=1e-8, atol=1e-5)
        if n > 1:
            lt = np.array([lse(paths(pi, A, x[:t + 1])[1]) for t in range(n)])
            same(m.log_predictive(x), np.diff(lt), 'log p(x[t+1]|x[:t])', rtol=1e-7, atol=1e-4)


@sub('P37', fd(c=case_st(), nbest=st.integers(1, 5)), quick=500, nontrivial=nt)
def decoding(k, ctx):
    """best state sequences, one for each of the best last states"""
    c = k['c']
    r, pi, A = mk(dict(c, zero=0.0))
    x = obs(r, c)
    m = HMM(pi=pi.copy(), trans=A.copy())
    Z, l = paths(pi, A, x)
    n, S = c['n'], c['S']
    nb = min(k['nbest'], S)
    with unchanged('decoding', x):
        P, lp = m.viterbi_decode(x) if nb == 1 else m.viterbi_decode(x, nb)
    eq(np.shape(P), (nb, n), 'shape of the paths')
    idx = {tuple(z): i for i, z in enumerate(Z)}
    t = 1e-8 * max(1, np.max(np.abs(l))) + 1e-7
    best = sorted((np.max(l[Z[:, -1] == s]) for s in range(S)), reverse=True)
    same(lp, best[:nb], 'log-probabilities of the paths', atol=t)
    eq(len({int(p[-1]) for p in P}), nb, 'number of different last states')
    for p, v in zip(P, lp):
        same(l[idx[tuple(int(z) for z in p)]], v, 'probability of the decoded path', atol=t)
    same(lp[0], np.max(l), 'probability of the best path', atol=t)


@sub('P37', fd(c=case_st(), kind=st.sampled_from(['free', 'free', 'mask', 'left_to_right', 'tied']), upi=st.booleans(), utr=st.booleans(), R=st.integers(1, 4), epochs=st.integers(1, 4), val=st.booleans(), ns=st.lists(st.integers(2, 6), min_size=8, max_size=8)),
     quick=300, nontrivial=nt)
def training(k, ctx):
    """EM over several sequences: parameters of every iteration from exact expected counts, likelihoods never fall"""
    c = dict(k['c'], zero=0.0, scale=min(k['c']['scale'], 5.0))
    S = c['S']
    if S == 4:
        k = dict(k, ns=[min(n, 4) for n in k['ns']])
    r, pi, A = mk(c)
    kw = dict(update_pi=k['upi'], update_trans=k['utr'])
    M = None
    if k['kind'] == 'mask':
        M = (r.rand(S, S) < 0.6).astype(float)
        M[np.arange(S), np.arange(S)] = 1
        kw['trans_mask'] = M
    elif k['kind'] == 'left_to_right':
        M = np.triu(np.ones((S, S)))
        kw['left_to_right'] = True
    if M is not None:
        A = A * M
        A /= A.sum(axis=1, keepdims=True)
    if k['kind'] == 'tied':
        kw['tied_trans'] = True
    ctx.label(k['kind'])
    X = [obs(r, c, n) for n in k['ns'][:k['R']]]
    V = [obs(r, c, n) for n in k['ns'][4:4 + k['R']]] if k['val'] else None
    m = HMM(pi=pi.copy(), trans=A.copy(), **kw)
    require(m.is_init, 'model with parameters is not initialised')
    eq(m.num_states, S, 'number of states')
    # reference
    p, B = pi, A
    l, lv = [], []
    for e in range(k['epochs']):
        nz, nzz, s = np.zeros(S), np.zeros((S, S)), 0
        for x in X:
            Z, lp = paths(p, B, x)
            L = lse(lp)
            q = np.exp(lp - L)
            s += L
            for i in range(S):
                nz[i] += q[Z[:, 0] == i].sum()
                for j in range(S):
                    nzz[i, j] += sum(q[(Z[:, t] == i) & (Z[:, t + 1] == j)].sum() for t in range(len(x) - 1))
        l.append(s)
        if np.any(nzz.sum(axis=1) < 1e-6):
            ctx.label('state without data')
            return
        if k['upi']:
            p = nz / nz.sum()
        if k['utr']:
            B = nzz / nzz.sum(axis=1, keepdims=True)
            if k['kind'] == 'tied' and S > 1:
                a = np.mean(np.diag(B))
                B = np.full((S, S), (1 - a) / (S - 1))
                B[np.arange(S), np.arange(S)] = a
        if V:
            lv.append(sum(lse(paths(p, B, x)[1]) for x in V))
    with unchanged('fit', *X):
        out = m.fit(X, x_val=V, epochs=k['epochs'])
    eq(len(out), 4 if V else 2, 'number of results')
    same(m.pi, p, 'initial probabilities', atol=1e-6)
    same(m.trans, B, 'transition probabilities', atol=1e-5)
    same(np.sum(m.trans, axis=1), np.ones(S), 'sums of transition probabilities', atol=1e-9)
    if M is not None:
        require(np.all(np.asarray(m.trans)[M == 0] < 1e-12), 'forbidden transition with probability')
    t = 1e-5 + 1e-7 * max(np.abs(l))
    same(out[0], l, 'likelihoods', atol=t)
    same(out[1], np.array(l) / sum(len(x) for x in X), 'likelihoods per frame', atol=t)
    if V:
        t = 1e-4 + 1e-6 * max(np.abs(lv))
        same(out[2], lv, 'validation likelihoods', atol=t)
        same(out[3], np.array(lv) / sum(len(x) for x in V), 'validation likelihoods per frame', atol=t)
    if k['kind'] != 'tied':
        for e in range(len(l) - 1):
            require(out[0][e + 1] >= out[0][e] - t - 1e-4, 'epoch %d: likelihood fell from %.10g to %.10g', e, out[0][e], out[0][e + 1])


@sub('P37', fd(c=case_st(), num=st.sampled_from([1, 5, 400]), steps=st.integers(1, 6), lr=st.booleans(), tied=st.booleans(), upi=st.booleans(), utr=st.booleans(), mask=st.booleans(), name=st.sampled_from([None, 'h'])), quick=150, nontrivial=lambda k: k['c']['S'] > 1 and k['steps'] > 1)
def samples_and_files(k, ctx):
    """sampled sequences follow the chain; saved models come back"""
    c = k['c']
    r, pi, A = mk(c)
    S = c['S']
    m = HMM(pi=pi.copy(), trans=A.copy())
    z = m.sample(k['num'], k['steps'], seed=c['seed'] % 997)
    eq(np.shape(z), (k['num'], k['steps'], S), 'shape of the samples')
    require(np.all((z == 0) | (z == 1)) and np.all(z.sum(axis=-1) == 1), 'samples are not one state per step')
    same(m.sample(k['num'], k['steps'], seed=c['seed'] % 997), z, 'same seed')
    i = np.argmax(z, axis=-1)
    require(np.all(pi[i[:, 0]] > 0), 'sequence starts in a state of probability zero')
    n0 = z[:, 0].sum(axis=0)
    same(n0, k['num'] * pi, 'counts of first states', atol=6 * np.sqrt(k['num'] * 0.25) + 4)
    nt_ = np.einsum('nti,ntj->ij', z[:, :-1], z[:, 1:])
    require(np.all((nt_ == 0) | (A > 0)), 'transition of probability zero')
    tot = nt_.sum(axis=1)
    for s in range(S):
        same(nt_[s], tot[s] * A[s], 'transition counts from state %d' % s, atol=6 * np.sqrt(tot[s] * 0.25) + 4)
    if k['num'] == 400 and k['steps'] > 2 and S > 1 and np.max(pi) < 0.9:
        require(len(np.unique(i, axis=0)) > 1, 'all the sequences are the same')
    M = (r.rand(S, S) < 0.5).astype(float) if k['mask'] else None
    kw = {} if M is None else dict(trans_mask=M)
    m = HMM(pi=pi.copy(), trans=A.copy(), left_to_right=k['lr'], tied_trans=k['tied'], update_pi=k['upi'], update_trans=k['utr'], name=k['name'], **kw)
    p = ctx.path('m.h5')
    m.save(p)
    w = HMM.load(p)
    same(w.pi, pi, 'loaded initial probabilities', atol=1e-6)
    same(w.trans, A, 'loaded transitions', atol=1e-6)
    eq((w.num_states, w.left_to_right, w.tied_trans, w.update_pi, w.update_trans, w.name), (S, k['lr'], k['tied'], k['upi'], k['utr'], k['name']), 'loaded configuration')
    if M is None and not k['lr']:
        require(w.trans_mask is None, 'loaded model has a mask')
    else:
        same(w.trans_mask, np.triu(np.ones((S, S))) if M is None else M, 'loaded mask')
