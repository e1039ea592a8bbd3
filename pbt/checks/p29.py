"""P29: audio written is read back, whole or by segments, sequentially or by key, in parts."""
import argparse
import os

import soundfile as sf

from pbt.core import *
from hyperion.io import AudioReader as AR, AudioWriter as AW, SequentialAudioReader as SAR, RandomAccessAudioReader as RAR
from hyperion.utils import SCPList, SegmentList

RULE = 'at least two recordings with different lengths, with more than one sampling rate or with segments'

# format, subtype, kind of samples, quantum in units of the written samples (full scale 2**15, 2**31 or 1)
FORMATS = [('wav', None, 'i16', 1), ('wav', 'PCM_16', 'i16', 1), ('wav', 'PCM_U8', 'i16', 256), ('wav', 'PCM_24', 'i32', 256), ('wav', 'PCM_32', 'i32', 1), ('wav', 'FLOAT', 'f', 0), ('wav', 'DOUBLE', 'f', 0),
           ('wav', 'ULAW', 'i16', 'law'), ('wav', 'ALAW', 'i16', 'law'), ('flac', None, 'i16', 1), ('flac', 'PCM_S8', 'i16', 256), ('flac', 'PCM_24', 'i32', 256), ('au', None, 'i16', 1), ('au', 'PCM_32', 'i32', 1),
           ('au', 'DOUBLE', 'f', 0), ('w64', None, 'i16', 1), ('rf64', 'FLOAT', 'f', 0), ('caf', None, 'i16', 1)]
FULL = {'i16': 2. ** 15, 'i32': 2. ** 31, 'f': 1.}
RATES = [8000, 16000, 16000, 11025, 22050, 44100]


def signal(r, n, kind, ch, frac):
    shape = (n,) if ch == 1 else (n, ch)
    if kind == 'f':
        x = r.uniform(-1, 1, size=shape)
        return x.astype('float32') if r.rand() < .5 else x
    top = 2 ** 15 if kind == 'i16' else 2 ** 31
    x = np.round(r.uniform(-top, top, size=shape) * r.choice([1, .01]))
    x = np.clip(x, -top, top - 1)
    m = r.rand(*shape)
    x[m < .05] = 0
    x[(m > .05) & (m < .08)] = -top
    x[(m > .08) & (m < .11)] = top - 1
    if frac and kind == 'i16':
        return np.clip(x + r.uniform(-.4, .4, size=shape), -top, top - 1)
    return x.astype({'i16': 'int16', 'i32': 'int32'}[kind]) if r.rand() < .5 else x


def close(got, x, what):
    """x: samples at the scale of the reader, got must be as near as the file format allows"""
    want, tol = x
    got = np.asarray(got)
    require(got.shape == want.shape, '%s has shape %s instead of %s', what, got.shape, want.shape)
    bad = np.abs(got - want) > tol
    require(not np.any(bad), '%s differs: %s instead of %s', what, got[bad][:3], want[bad][:3])


def cases(**extra):
    return fd(seed=seeds, lens=st.lists(st.integers(1, 400), min_size=1, max_size=6), fmt=st.integers(0, len(FORMATS) - 1), mixfs=st.booleans(), ch=st.sampled_from([1, 1, 1, 2]), frac=st.booleans(),
              scale=st.sampled_from([None, None, 1., 2. ** 15, 2. ** 31, 3.]), slash=st.booleans(), single=st.booleans(), pipe=st.sampled_from([False, False, False, True]), **extra)


def prepare(k, ctx):
    r = rng(k['seed'])
    fmt, sub_, kind, q = FORMATS[k['fmt']]
    n = len(k['lens'])
    keys = [('spk%d/' % (i % 2) if k['slash'] else '') + 'u%02d' % i for i in r.permutation(n)]
    fs = [int(r.choice(RATES)) for _ in keys] if k['mixfs'] else [int(r.choice(RATES))] * n
    x = [signal(r, L, kind, k['ch'], k['frac']) for L in k['lens']]
    scale = 2. ** 15 if k['scale'] is None else k['scale']
    with AW(ctx.path('audio'), ctx.path('wav.scp'), fmt, sub_) as w:
        if k['single']:
            for a, b, c in zip(keys, x, fs):
                w.write(a, b, c)
        elif not k['mixfs']:
            w.write(keys, x, fs[0])
        elif k['seed'] % 2:
            w.write(keys, x, np.array(fs))
        else:
            w.write(np.array(keys), x, fs)
    wanted, rates = {}, {}
    scp = [l.rstrip('\n').split(' ', 1) for l in open(ctx.path('wav.scp'))]
    eqlist([s[0] for s in scp], keys, 'keys of the script')
    for (key, p), xi, f in zip(scp, x, fs):
        xi = np.asarray(xi, dtype='float64')
        z = xi / FULL[kind] * scale
        tol = (np.abs(xi) / 16 + 40 if q == 'law' else np.full(xi.shape, float(q))) + (k['frac'] and kind == 'i16')
        tol = tol / FULL[kind] * scale + np.abs(z) * 2e-7 + 1e-12
        if q == 1 and not k['frac']:
            tol = np.abs(z) * 2e-7
        wanted[key] = z, tol
        rates[key] = f
        info = sf.info(p)
        same(info.samplerate, f, 'rate in the file')
        same(info.frames, len(xi), 'samples in the file')
        same(info.subtype, sub_ or 'PCM_16', 'subtype of the file')
    if k['pipe']:
        with open(ctx.path('wav.scp'), 'w') as f:
            for key, p in scp:
                f.write('%s cat %s |\n' % (key, p))
    args = {} if k['scale'] is None else {'wav_scale': scale}
    return r, keys, wanted, rates, args


def drain(rd, how, r):
    """read everything, in the given way"""
    out = []
    if how == 'all':
        out = list(zip(*rd.read()))
    elif how == 'iter':
        out = [v for v in rd]
    elif how == 'batches':
        while not rd.eof():
            b = rd.read(int(r.randint(1, 4)))
            require(len(b[0]) == len(b[1]) == len(b[2]) > 0, 'batch of %d keys, %d signals and %d rates', *map(len, b))
            out += list(zip(*b))
    else:
        out = list(zip(*rd.read(1)))
        out += list(zip(*rd.read()))
    require(rd.eof(), 'not at the end after reading everything')
    same(rd.read(2)[0], [], 'records after the end')
    return out


HOW = st.sampled_from(['all', 'iter', 'batches', 'mixed'])
nt = lambda k: len(set(k['lens'])) > 1 and (k['mixfs'] or 'segs' in k)


@sub('P29', cases(how=HOW, parts=st.integers(1, 4), cli=st.booleans(), obj=st.booleans(), again=st.booleans()), quick=400, thorough=6000, nontrivial=nt)
def recordings(k, ctx):
    r, keys, wanted, rates, args = prepare(k, ctx)
    src = SCPList.load(ctx.path('wav.scp')) if k['obj'] else ctx.path('wav.scp')
    P = min(k['parts'], len(keys))
    got = []
    for p in range(1, P + 1):
        a = dict(args)
        if P > 1:
            a.update(part_idx=p, num_parts=P)
        if k['cli']:
            ps = argparse.ArgumentParser()
            SAR.add_argparse_args(ps, 'au')
            a = SAR.filter_args('au', junk=1, **vars(ps.parse_args(sum([['--au-' + n.replace('_', '-'), str(v)] for n, v in a.items()], []))))
        with SAR(src, **a) as rd:
            part = drain(rd, k['how'], r)
            if k['again']:
                rd.reset()
                require(not rd.eof(), 'at the end after reset')
                b = drain(rd, 'all', r)
                same([v[0] for v in b], [v[0] for v in part], 'keys after reset')
                for u, v in zip(b, part):
                    eq(u[1], v[1], 'signal after reset')
            got.append(part)
    sizes = [len(g) for g in got]
    require(max(sizes) - min(sizes) <= 1, 'parts of %s recordings', sizes)
    if P == 1:
        eqlist([v[0] for v in got[0]], keys, 'recordings read')
    same(sorted(v[0] for g in got for v in g), sorted(keys), 'recordings of all the parts')
    for g in got:
        for key, x, f in g:
            close(x, wanted[key], 'signal ' + key)
            same(f, rates[key], 'rate of ' + key)
    # by key
    rd = RAR(src, **args)
    o = [keys[i] for i in r.randint(0, len(keys), size=4)]
    x, f = rd.read(o if r.rand() < .5 else np.array(o))
    require(len(x) == len(f) == 4, 'signals read by key')
    for key, xi, fi in zip(o, x, f):
        close(xi, wanted[key], 'signal %s by key' % key)
        same(fi, rates[key], 'rate of ' + key)
    x, f = rd.read(o[0])
    close(x[0], wanted[o[0]], 'signal %s read alone' % o[0])
    raises(lambda: rd.read(['zz']), 'unknown recording')
    if P > 1:
        ctx.label('parts')
    ctx.label('pipe' if k['pipe'] else 'file')
    ctx.label(str(FORMATS[k['fmt']][:2]))


def bounds(t, f, n):
    """samples at which a time may cut: the sample the time falls in"""
    v = t * f
    return {min(int(v), n), min(int(round(v)), n)} if abs(v - round(v)) < 1e-6 else {min(int(v), n)}


@sub('P29', cases(segs=st.lists(st.tuples(st.integers(0, 5), st.floats(0, 1), st.floats(0, 1.2), st.sampled_from(['sample', 'ms', 'free'])), min_size=1, max_size=7),
                  how=HOW, parts=st.integers(1, 4), asobj=st.booleans(), obj=st.booleans()), quick=500, thorough=8000, nontrivial=nt)
def segments(k, ctx):
    r, keys, wanted, rates, args = prepare(k, ctx)
    rows, exp = [], {}
    for i, (u, a, b, grid) in enumerate(k['segs']):
        u = keys[u % len(keys)]
        n, f = len(wanted[u][0]), rates[u]
        a, b = min(a, b), max(a, b)
        a, b = a * n / f, b * n / f
        if grid == 'sample':
            a, b = int(a * f) / f, int(b * f) / f
        elif grid == 'ms':
            a, b = int(a * 1000) / 1000., int(b * 1000) / 1000.
        if k['asobj']:
            sa, sb = a, b
        else:
            sa, sb = '%.7f' % a, '%.7f' % b
            a, b = float(sa), float(sb)
        sid = 'seg%02d' % (i * 7 % 10)
        B = {v for v in bounds(a, f, n + 1)}
        if max(B) >= n:   # out of the file, checked apart
            continue
        rows.append((sid, u, sa, sb))
        exp[sid] = (u, B, bounds(b, f, n))
    segf = ctx.path('segments')
    if not rows:
        rows, exp = [('seg00', keys[0], '0.0', '100.0')], {'seg00': (keys[0], {0}, {len(wanted[keys[0]][0])})}
    with open(segf, 'w') as h:
        for row in rows:
            h.write('%s %s %s %s\n' % row)
    if k['asobj']:
        mk = lambda: SegmentList.create(*[[row[j] if j < 2 else float(row[j]) for row in rows] for j in range(4)], index_by_file=False)
    else:
        mk = lambda: segf
    src = SCPList.load(ctx.path('wav.scp')) if k['obj'] else ctx.path('wav.scp')

    def verify(sid, x, f, what):
        u, B, E = exp[sid]
        same(f, rates[u], 'rate of %s' % sid)
        z, tol = wanted[u]
        for b in sorted(B):
            for e in sorted(E):
                if len(x) == max(e - b, 0) and (len(B) + len(E) == 2 or np.all(np.abs(x - z[b:e]) <= tol[b:e])):
                    close(x, (z[b:e], tol[b:e]), what + ' ' + sid)
                    return
        require(False, '%s %s (%s, samples %s to %s of %d) has %d samples', what, sid, u, B, E, len(z), len(x))

    P = min(k['parts'], len(rows))
    got = []
    for p in range(1, P + 1):
        a = dict(args)
        if P > 1:
            a.update(part_idx=p, num_parts=P)
        got.append(drain(SAR(src, mk(), **a), k['how'], r))
    sizes = [len(g) for g in got]
    require(max(sizes) - min(sizes) <= 1, 'parts of %s segments', sizes)
    eqlist([v[0] for g in got for v in g], [row[0] for row in rows], 'segments of all the parts')
    for g in got:
        for sid, x, f in g:
            verify(sid, x, f, 'segment')
    rd = RAR(src, mk(), **args)
    o = [rows[i][0] for i in r.randint(0, len(rows), size=3)]
    for sid, x, f in zip(o, *rd.read(o)):
        verify(sid, x, f, 'segment by key')
    x, f = rd.read(o[1])
    verify(o[1], x[0], f[0], 'single segment')
    raises(lambda: rd.read(['zz']), 'unknown segment')
    raises(lambda: rd.read([keys[0]]), 'recording name as segment')
    # a segment which starts after the end of its recording is rejected
    with open(segf + '2', 'w') as h:
        h.write('late %s %.6f %.6f\n' % (keys[0], (len(wanted[keys[0]][0]) + 2.5) / rates[keys[0]], 50.))
    raises(lambda: SAR(src, segf + '2', **args).read(), 'segment after the end of its recording')
    if any(max(v[2]) < len(wanted[v[0]][0]) and min(v[1]) > 0 for v in exp.values()):
        ctx.label('inner segment')
    if P > 1:
        ctx.label('parts')


@sub('P29', cases(), quick=250, thorough=4000, nontrivial=lambda k: len(k['lens']) > 1)
def edges(k, ctx):
    """single recordings, no script, what has to be refused"""
    r, keys, wanted, rates, args = prepare(k, ctx)
    scp = dict(l.rstrip('\n').split(' ', 1) for l in open(ctx.path('wav.scp')))
    u = keys[int(r.randint(len(keys)))]
    z, tol = wanted[u]
    # one recording from its specifier, with the same default scale as the readers
    x, f = AR.read_wavspecifier(' ' * (k['seed'] % 2) + scp[u] + ' ' * (k['seed'] % 3), *args.values())
    close(x, wanted[u], 'signal from its specifier')
    same(f, rates[u], 'rate from the specifier')
    # without script, and with a script which is complete after every recording
    fmt, sub_, kind, q = FORMATS[k['fmt']]
    data = signal(r, 10, kind, 1, False)
    AW(ctx.path('plain'), None, fmt, sub_).write('spk/a', data, 8000)
    same(os.listdir(ctx.path('plain')), ['spk-a.' + fmt], 'files written without script')
    w = AW(ctx.path('plain'), ctx.path('plain.scp'), fmt, sub_)
    for i in range(3):
        w.write('k%d' % i, data, 8000)
        got, _, _ = SAR(ctx.path('plain.scp'), **args).read()
        same(got, ['k%d' % j for j in range(i + 1)], 'recordings in the script of the open writer')
    before = data.copy()
    for bad in ('', 'a b', 'a\tb', 'a\n'):
        raises(lambda: w.write([bad], [data], 8000), 'recording name %r' % bad)
    eq(data, before, 'samples given to the writer')
    w.close()
    same([l.split()[0] for l in open(ctx.path('plain.scp'))], ['k0', 'k1', 'k2'], 'script after names were refused')
    raises(lambda: AW(ctx.path('bad'), None, 'wav', 'PCM_S8'), 'subtype which the format does not have')
    raises(lambda: AW(ctx.path('bad'), None, 'xyz'), 'unknown format')
    # recordings which cannot be read
    for spec in (ctx.path('none.wav'), ctx.path('wav.scp'), 'exit 3 |', 'cat %s ; exit 2 |' % scp[u].replace('cat ', '').replace(' |', '')):
        with open(ctx.path('bad.scp'), 'w') as h:
            h.write('bad %s\n' % spec)
        raises(lambda: SAR(ctx.path('bad.scp'), **args).read(), 'reading from %s' % spec)
        raises(lambda: RAR(ctx.path('bad.scp'), **args).read('bad'), 'reading by key from %s' % spec)
    # options of the reader by key
    ps = argparse.ArgumentParser()
    pre = [None, 'x'][k['seed'] % 2]
    RAR.add_argparse_args(ps, pre)
    name = 'wav_scale' if pre is None else 'x_wav_scale'
    same(vars(ps.parse_args([])), {name: 2 ** 15}, 'options of the reader by key')
    same(vars(ps.parse_args(['--' + name.replace('_', '-'), '3.5'])), {name: 3.5}, 'options of the reader by key')
