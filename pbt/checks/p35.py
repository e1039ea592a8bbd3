"""P35: the shell tools for data directories keep exactly the utterances they promise, the same in every file."""
import os
import pwd
import shutil
import signal
import subprocess

import hyperion
from pbt.core import *

RULE = 'some entries are removed and some are kept'
REPO = os.path.dirname(os.path.dirname(os.path.abspath(hyperion.__file__)))
HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'standins')
KEEP = 5        # recordings per directory at most
UTT = ['feats.scp', 'text', 'vad.scp', 'utt2lang', 'utt2uniq', 'utt2dur', 'utt2num_frames']
NARROW = ['feats.scp', 'text', 'utt2lang']     # utterances have to be in these files, if there are


class Box(object):
    """A scratch directory owned by an unprivileged user, with copies of the scripts and stand-ins of what they call."""

    def __init__(self, ctx):
        self.dir = ctx.path('box')
        for d in ('', 'hyp_utils', 'utils', 'utils/data', 'bin', 'tmp', 'data'):
            os.makedirs(self.p(d), exist_ok=True)
        for f in os.listdir(os.path.join(REPO, 'hyp_utils')):
            self.copy(os.path.join(REPO, 'hyp_utils', f), 'hyp_utils/' + f)
        for d in ('utils', 'utils/data', 'bin'):
            for f in os.listdir(os.path.join(HERE, d)):
                if os.path.isfile(os.path.join(HERE, d, f)):
                    self.copy(os.path.join(HERE, d, f), d + '/' + f)
        self.copy(os.path.join(REPO, 'hyp_utils', 'fix_data_dir.sh'), 'utils/fix_data_dir.sh')
        for f in ('rttm', 'segments'):
            self.copy(os.path.join(HERE, 'bin', 'to-bin-vad'), 'bin/%s-to-bin-vad.py' % f)
        self.write('path.sh', '')

    def copy(self, a, b):
        shutil.copyfile(a, self.p(b))
        os.chmod(self.p(b), 0o755)

    def p(self, f):
        return os.path.join(self.dir, f) if f else self.dir

    def write(self, f, text):
        os.makedirs(os.path.dirname(self.p(f)), exist_ok=True)
        with open(self.p(f), 'w') as h:
            h.write(text)

    def read(self, f):
        if not os.path.isfile(self.p(f)):
            return None
        with open(self.p(f)) as h:
            return h.read().split('\n')[:-1]

    def run(self, *cmd, **kw):
        """(return code, output)"""
        d = self.dir
        while len(d) > 5:                 # the user has to reach the directory
            os.chmod(d, os.stat(d).st_mode | 0o011)
            d = os.path.dirname(d)
        who = pwd.getpwnam('nobody')
        try:
            for r, ds, fs in os.walk(self.dir):
                os.chown(r, who.pw_uid, who.pw_gid)
                for f in fs:
                    os.chown(os.path.join(r, f), who.pw_uid, who.pw_gid)
        except OSError:               # no such user in this namespace: only the stand-ins of rm, mv and mktemp contain the scripts
            who = None

        def low():
            if who is not None:
                os.setgroups([])
                os.setgid(who.pw_gid)
                os.setuid(who.pw_uid)
        env = dict(PATH='%s:%s:/usr/bin:/bin' % (self.p('bin'), self.p('utils')), HOME=self.dir, TMPDIR=self.p('tmp'), STANDIN_SEED=str(kw.get('seed', 1)))
        p = subprocess.Popen([str(x) for x in cmd], cwd=self.dir, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             preexec_fn=low, start_new_session=True, universal_newlines=True)
        try:
            out, _ = p.communicate(timeout=20)
        except subprocess.TimeoutExpired:
            raise Violation('%s does not end' % ' '.join(str(x) for x in cmd))
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        return p.returncode, out


def ok(r, what):
    require(r[0] == 0, '%s: exit code %s: %s', what, r[0], r[1][-300:])


# ------------------------------------------------------------------ data directories
spks = st.lists(st.text('abAB12', min_size=1, max_size=2), min_size=1, max_size=4, unique=True)
dir_st = fd(spks=spks, nutt=st.lists(st.integers(1, 4), min_size=4, max_size=4), files=st.lists(st.booleans(), min_size=12, max_size=12), seed=seeds,
            gaps=st.booleans(), more=st.booleans(), shuffled=st.booleans(), twice=st.booleans(), segments=st.booleans())


def make(box, name, c, full=False, tag=''):
    """writes a data directory; {file: {key: line}}"""
    r = rng(c['seed'])
    fl = dict(zip(['wav.scp', 'cmvn.scp', 'spk2gender', 'reco2file_and_channel', 'reco2dur'] + UTT, c['files']))
    u2s = [('%s-%s%s' % (s, tag, 'abcd'[i]), s) for s, n in zip(c['spks'], c['nutt']) for i in range(n)]
    utts = [u for u, _ in u2s]
    D = {'utt2spk': dict((u, '%s %s' % t) for u, t in zip(utts, u2s))}
    rec = {u: (tag + 'rec%d' % r.randint(KEEP) if c['segments'] else u) for u in utts}

    def part(keys):
        """some of the keys, and keys that are not in the list"""
        keys = sorted(set(keys))
        if c['gaps'] and not full:
            keys = [k for k in keys if r.rand() < 0.85] or keys[:1]
        if c['more'] and not full:
            keys = keys + ['zz%s%d' % (tag, i) for i in range(r.randint(3))]
        return keys
    if c['segments']:
        D['segments'] = {u: '%s %s %.2f %.2f' % (u, rec[u] if u in rec else 'rec0', i, i + 0.5) for i, u in enumerate(part(utts))}
    if c['segments'] or fl['wav.scp']:
        D['wav.scp'] = {k: '%s sox %s.wav -t wav - |' % (k, k) for k in part(rec.values())}
    for f in ('reco2file_and_channel', 'reco2dur'):
        if fl[f]:
            D[f] = {k: '%s %s 1' % (k, k) if f[4] == '2' and 'chan' in f else '%s %.1f' % (k, r.rand()) for k in part(rec.values())}
    for f in ('cmvn.scp', 'spk2gender'):
        if fl[f]:
            D[f] = {k: '%s %s' % (k, f[0] + k) for k in (part(c['spks']) if r.rand() < 0.4 else c['spks'])}
    for f in UTT:
        if fl[f]:
            D[f] = {k: '%s %s' % (k, {'text': 'hello  %s world' % k, 'utt2uniq': k[:-1], 'utt2dur': '%.2f' % (5 * r.rand() + 1), 'utt2num_frames': str(r.randint(1, 9) * 100),
                                      'feats.scp': '/x/%s.ark:%d' % (k, r.randint(1, 9) * 10)}.get(f, '/x/%s%s' % (f[0], k))) for k in part(utts)}
    for f, v in D.items():
        lines = [v[k] for k in sorted(v)]
        if c['twice'] and lines and not full and r.rand() < 0.4:
            lines.append(lines[r.randint(len(lines))])
        if c['shuffled'] and not full:
            lines = [lines[i] for i in r.permutation(len(lines))]
        box.write(name + '/' + f, ''.join(x + '\n' for x in lines))
    s2u = {}
    for u, s in u2s:
        s2u.setdefault(s, []).append(u)
    box.write(name + '/spk2utt', ''.join('%s %s\n' % (s, ' '.join(sorted(s2u[s]))) for s in sorted(s2u)))
    return D


def second(line):
    return line.split()[1]


def fixed(D):
    """what fixing a data directory leaves; None if nothing remains"""
    D = {f: dict(v) for f, v in D.items()}
    seg = D.get('segments')
    if seg is not None:
        D['segments'] = seg = {u: l for u, l in seg.items() if second(l) in D['wav.scp']}
    ss = set(second(l) for l in D['utt2spk'].values())
    for f in ('cmvn.scp', 'spk2gender'):
        if f in D:
            ss &= set(D[f])
    us = set(u for u, l in D['utt2spk'].items() if second(l) in ss)
    for f in NARROW + (['segments'] if seg is not None else ['wav.scp']):
        if f in D:
            us &= set(D[f])
    if not us:
        return None
    for f in ['utt2spk', 'segments'] + UTT + ([] if seg is not None else ['wav.scp', 'reco2dur']):
        if f in D:
            D[f] = {u: l for u, l in D[f].items() if u in us}
    ss = set(second(l) for l in D['utt2spk'].values())
    for f in ('cmvn.scp', 'spk2gender'):
        if f in D:
            D[f] = {s: l for s, l in D[f].items() if s in ss}
    if seg is not None:
        rs = set(second(l) for l in D['segments'].values())
        for f in ('wav.scp', 'reco2file_and_channel', 'reco2dur'):
            if f in D:
                D[f] = {k: l for k, l in D[f].items() if k in rs}
    return D


def agree(box, name, D, what, others=()):
    for f in sorted(D):
        got = box.read(name + '/' + f)
        require(got is not None, '%s: no file %s', what, f)
        eqlist(got, [D[f][k] for k in sorted(D[f])], '%s: %s' % (what, f))
    s2u = {}
    for u in sorted(D['utt2spk']):
        s2u.setdefault(second(D['utt2spk'][u]), []).append(u)
    eqlist([x.rstrip() for x in box.read(name + '/spk2utt') or []], ['%s %s' % (s, ' '.join(s2u[s])) for s in sorted(s2u)], what + ': spk2utt')
    for f in others:
        require(box.read(name + '/' + f) is None, '%s: unexpected file %s', what, f)


def snapshot(box, name):
    return {f: box.read(name + '/' + f) for f in sorted(os.listdir(box.p(name))) if os.path.isfile(box.p(name + '/' + f))}


def untouched(box, name, snap, what):
    now = snapshot(box, name)
    eqlist(sorted(now), sorted(snap), what + ': files of ' + name)
    for f in snap:
        eqlist(now[f], snap[f], '%s: %s/%s' % (what, name, f))


@sub('P35', fd(d=dir_st, extra=st.sampled_from([None, 'utt', 'spk'])), quick=40, thorough=700)
def fix(c, ctx):
    """only the utterances that are in all the files stay, in all the files, sorted and once; the originals are kept"""
    box = Box(ctx)
    D = make(box, 'data/d', c['d'])
    opts = []
    if c['extra']:
        x = [(k, '%s extra' % k) for k in sorted(D['utt2spk'] if c['extra'] == 'utt' else c['d']['spks'])] + [('zz', 'zz extra')]
        box.write('data/d/extra', ''.join(l + '\n' for _, l in x))
        opts = ['--%s-extra-files' % c['extra'], 'extra']
    orig = snapshot(box, 'data/d')
    W = fixed(D)
    r = box.run('hyp_utils/fix_data_dir.sh', *(opts + ['data/d']))
    if W is None:
        ctx.label('nothing left')
        require(r[0] != 0, 'fixing a directory without common utterances succeeds')
        return
    ok(r, 'fix_data_dir.sh')
    ctx.nontrivial = any(len(W[f]) < len(D[f]) for f in W)
    if c['extra']:
        keys = W['utt2spk'] if c['extra'] == 'utt' else set(second(l) for l in W['utt2spk'].values())
        W['extra'] = {k: '%s extra' % k for k in keys}
    agree(box, 'data/d', W, 'fixed')
    for f in orig:
        require(sorted(box.read('data/d/.backup/' + f) or []) == sorted(orig[f]), 'backup of %s: got %s, want %s', f, box.read('data/d/.backup/' + f), orig[f])
    left = set(os.listdir(box.p('data/d'))) - set(orig) - {'.backup', 'spk2utt'}
    require(not left, 'files left in the directory: %s', sorted(left))
    # fixing again changes nothing
    snap = snapshot(box, 'data/d')
    ok(box.run('hyp_utils/fix_data_dir.sh', 'data/d'), 'fix_data_dir.sh again')
    untouched(box, 'data/d', snap, 'fixed again')


@sub('P35', fd(ds=st.lists(dir_st, min_size=1, max_size=3), skip=st.booleans(), old=st.booleans(), extra=st.booleans(), same=st.booleans()), quick=30, thorough=500,
     nontrivial=lambda c: len(c['ds']) > 1)
def combine(c, ctx):
    """the files that all the directories have are joined; the sources stay as they are"""
    box = Box(ctx)
    Ds = []
    for i, d in enumerate(c['ds']):
        d = dict(d, twice=False)
        if c['same']:
            d = dict(d, files=c['ds'][0]['files'], segments=c['ds'][0]['segments'])
        if len(set(x['segments'] for x in c['ds'])) > 1 and not d['segments'] and not c['same']:
            d = dict(d, files=[True] + d['files'][1:10] + [True] + d['files'][11:], gaps=False, more=False)
        D = make(box, 'data/s%d' % i, d, tag=str(i))
        if c['extra']:
            D['extra'] = {k: '%s extra%d' % (k, i) for k in D['utt2spk']}
            box.write('data/s%d/extra' % i, ''.join(D['extra'][k] + '\n' for k in D['extra']))
        Ds.append(D)
    if any('segments' in D for D in Ds):
        for D in Ds:
            if 'segments' not in D:
                D['segments'] = {u: '%s %s 0 %s' % (u, u, second(l)) for u, l in D['utt2dur'].items()}
                ctx.label('segments made')
    if any('utt2uniq' in D for D in Ds):
        for D in Ds:
            D.setdefault('utt2uniq', {u: '%s %s' % (u, u) for u in D['utt2spk']})
    want = {f: {} for f in Ds[0] if all(f in D for D in Ds)}
    for f in want:
        for D in Ds:
            want[f].update(D[f])
    if c['old']:
        box.write('data/out/vad.scp', 'old old\n')
        box.write('data/out/other', 'old old\n')
    snaps = [snapshot(box, 'data/s%d' % i) for i in range(len(Ds))]
    if 'segments' in want and 'wav.scp' not in want:
        return
    r = box.run('hyp_utils/combine_data.sh', *((['--skip-fix', 'true'] if c['skip'] else []) + (['--extra-files', 'extra'] if c['extra'] else [])
                                               + ['data/out'] + ['data/s%d' % i for i in range(len(Ds))]))
    for i, s in enumerate(snaps):
        untouched(box, 'data/s%d' % i, s, 'combined')
    others = ['other'] + [f for f in ['wav.scp', 'segments', 'cmvn.scp', 'spk2gender', 'reco2file_and_channel', 'reco2dur'] + UTT if f not in want and f != 'utt2num_frames']
    want.pop('utt2num_frames', None)      # not in the list of files that are combined
    if c['skip']:
        ok(r, 'combine_data.sh')
        for f in want:
            eqlist(sorted(set(box.read('data/out/' + f) or [])), sorted(want[f].values()), 'joined ' + f)
        for f in others:
            require(box.read('data/out/' + f) is None, 'joined: unexpected file %s', f)
        return
    extra = want.pop('extra', None)
    W = fixed(want)
    if W is None:
        require(r[0] != 0, 'combining directories without common utterances succeeds')
        return
    ok(r, 'combine_data.sh')
    agree(box, 'data/out', W, 'combined', others)
    if extra:
        eqlist(box.read('data/out/extra'), [extra[k] for k in sorted(extra)], 'extra files')


HOW = ['--first', '--last', '', '--per-spk', '--speakers', '--utt-list', '--spk-list', '--shortest']


@sub('P35', fd(d=dir_st, how=st.sampled_from(HOW), n=st.integers(1, 8), pick=st.lists(st.booleans(), min_size=16, max_size=16), extra=st.booleans(), order=seeds), quick=40, thorough=700)
def subset(c, ctx):
    """a subset has the utterances that were asked for, each with all that the source has about it"""
    box = Box(ctx)
    d = dict(c['d'], shuffled=False, twice=False, more=False, gaps=c['d']['gaps'] and c['how'] != '--shortest')
    if c['how'] == '--shortest':
        d['files'] = d['files'][:5] + [True] + d['files'][6:]
    D = make(box, 'data/s', d)
    if c['extra']:
        D['extra'] = {k: '%s extra' % k for k in D['utt2spk']}
        box.write('data/s/extra', ''.join(D['extra'][k] + '\n' for k in sorted(D['extra'])))
    utts = sorted(D['utt2spk'])
    sp = {u: second(D['utt2spk'][u]) for u in utts}
    n = c['n']
    opts = [c['how']] if c['how'] else []
    if c['extra']:
        opts += ['--extra-files', 'extra']
    if c['how'] in ('--utt-list', '--spk-list'):
        pool = utts if c['how'] == '--utt-list' else sorted(set(sp.values()))
        ids = [k for k, b in zip(pool, c['pick']) if b]
        box.write('list', ''.join(k + (' x\n' if i % 2 else '\n') for i, k in enumerate(ids + ['zz'])))
        args = ['list', 'data/s', 'data/out']
        keep = [u for u in utts if (u if c['how'] == '--utt-list' else sp[u]) in ids]
    else:
        args = ['data/s', n, 'data/out']
        keep = None
    snap = snapshot(box, 'data/s')
    r = box.run('hyp_utils/subset_data_dir.sh', *(opts + args), seed=c['order'])
    untouched(box, 'data/s', snap, 'subset')
    if keep is None and c['how'] not in ('--per-spk', '--speakers') and n > len(utts):
        require(r[0] != 0, 'a subset of more utterances than there are succeeds')
        require(not box.read('data/out/utt2spk'), 'a refused subset is written')
        return
    ok(r, 'subset_data_dir.sh ' + c['how'])
    got = [x.split()[0] for x in box.read('data/out/utt2spk') or []]
    require(len(set(got)) == len(got) and set(got) <= set(utts), 'utterances of the subset: %s', got)
    by = {s: [u for u in utts if sp[u] == s] for s in sp.values()}
    if c['how'] == '--first':
        keep = utts[:n]
    elif c['how'] == '--last':
        keep = utts[-n:]
    elif c['how'] == '':
        require(len(got) == n, '%d utterances, want %d', len(got), n)
        keep = sorted(got)
    elif c['how'] == '--per-spk':
        for s, u in by.items():
            k = len([x for x in got if x in u])
            require(k == min(n, len(u)), '%d utterances of speaker %s, want %d of %d', k, s, n, len(u))
        keep = sorted(got)
    elif c['how'] == '--speakers':
        ss = set(sp[u] for u in got)
        keep = [u for u in utts if sp[u] in ss]
        require(len(keep) >= min(n, len(utts)), 'the speakers of the subset have %d utterances, want %d', len(keep), n)
        require(any(len(keep) - len(by[s]) < n for s in ss), 'the subset has more speakers than needed')
    elif c['how'] == '--shortest':
        ln = {u: int(D['feats.scp'][u].split(':')[1]) for u in utts}
        require(sorted(ln[u] for u in got) == sorted(ln.values())[:n], 'lengths of the shortest utterances')
        keep = sorted(got)
    ctx.nontrivial = 0 < len(keep) < len(utts)
    K, S = set(keep), set(sp[u] for u in keep)
    W = {f: {u: l for u, l in v.items() if u in K} for f, v in D.items()}
    for f in ('cmvn.scp', 'spk2gender'):
        if f in D:
            W[f] = {s: l for s, l in D[f].items() if s in S}
    if 'segments' in D:
        R = set(second(l) for l in W['segments'].values())
        for f in ('wav.scp', 'reco2file_and_channel'):
            if f in D:
                W[f] = {k: l for k, l in D[f].items() if k in R}
    elif 'reco2file_and_channel' in D:
        if 'wav.scp' in D:
            W['reco2file_and_channel'] = {k: l for k, l in D['reco2file_and_channel'].items() if k in W['wav.scp']}
        else:
            W.pop('reco2file_and_channel')
    W.pop('reco2dur', None)
    agree(box, 'data/out', W, 'subset ' + c['how'])


@sub('P35', fd(d=dir_st, what=st.sampled_from(['short', 'few', 'vad']), n=st.integers(1, 10)), quick=30, thorough=500)
def remove(c, ctx):
    """short utterances, utterances without activity labels, or speakers with few utterances are removed, and nothing else"""
    box = Box(ctx)
    d = dict(c['d'], shuffled=False, twice=False, gaps=c['d']['gaps'] and c['what'] == 'vad', more=c['d']['more'] and c['what'] == 'vad')
    d['files'] = d['files'][:7] + [True] + d['files'][8:11] + [True]       # vad.scp and utt2num_frames
    D = make(box, 'data/d', d)
    W = {f: dict(v) for f, v in D.items()}
    if c['what'] == 'short':
        m = c['n'] * 100
        r = box.run('hyp_utils/remove_short_utts.sh', '--min-len', m, 'data/d')
        W['utt2spk'] = {u: l for u, l in D['utt2spk'].items() if u in D['utt2num_frames'] and int(second(D['utt2num_frames'][u])) >= m}
    elif c['what'] == 'few':
        m = (c['n'] + 1) // 2
        r = box.run('hyp_utils/remove_spk_few_utts.sh', '--min-num-utts', m, 'data/d')
        cnt = {}
        for l in D['utt2spk'].values():
            cnt[second(l)] = cnt.get(second(l), 0) + 1
        W['utt2spk'] = {u: l for u, l in D['utt2spk'].items() if cnt[second(l)] >= m}
    else:
        r = box.run('hyp_utils/remove_utts_wo_vad.sh', 'data/d')
        W['utt2spk'] = {u: l for u, l in D['utt2spk'].items() if u in D['vad.scp']}
        if len(W['utt2spk']) == len(D['utt2spk']):
            ctx.label('nothing to remove')
            ok(r, 'remove_utts_wo_vad.sh')
            eqlist(box.read('data/d/utt2spk'), [D['utt2spk'][u] for u in sorted(D['utt2spk'])], 'utt2spk of a directory where all have labels')
            return
    removed = len(W['utt2spk']) < len(D['utt2spk'])
    W = fixed(W) if W['utt2spk'] else None
    if W is None:
        ctx.label('nothing left')
        return
    ctx.nontrivial = removed
    ok(r, 'remove_*.sh')
    agree(box, 'data/d', W, 'removed ' + c['what'])


tok = st.text('abc12', min_size=1, max_size=2)


@sub('P35', fd(trials=st.lists(st.tuples(tok, tok, st.sampled_from(['', ' target', ' nontarget']), st.sampled_from([' ', '  ', '\t'])), max_size=20),
               models=st.one_of(st.none(), st.lists(tok, max_size=5)), utts=st.one_of(st.none(), st.lists(tok, max_size=5)), cols=st.booleans(),
               missing=st.booleans()), quick=60, thorough=900)
def filter_trials(c, ctx):
    """the trials of the listed models and segments, as they are written and in their order"""
    box = Box(ctx)
    lines = [a + s + b + x for a, b, x, s in c['trials']]
    box.write('trials', ''.join(l + '\n' for l in lines))
    opts = []
    for f, v in (('fmodels', c['models']), ('futts', c['utts'])):
        if v is not None:
            opts += ['-v', '%s=%s' % (f, f)]
            box.write(f, ''.join(k + (' other\n' if c['cols'] else '\n') for k in v))
    if c['missing']:
        # a list that does not exist: nothing passes, and the program ends
        ctx.label('no list')
        r = box.run('awk', '-v', 'futts=nolist', '-f', 'hyp_utils/filter_trials.awk', 'trials')
        require(r[0] != 0 or r[1] == '', 'trials pass a filter that does not exist: %s', r[1])
    r = box.run('awk', *(opts + ['-f', 'hyp_utils/filter_trials.awk', 'trials']))
    ok(r, 'filter_trials.awk')
    want = [l for l, (a, b, _, _) in zip(lines, c['trials']) if (c['models'] is None or a in c['models']) and (c['utts'] is None or b in c['utts'])]
    ctx.nontrivial = 0 < len(want) < len(lines)
    eqlist(r[1].split('\n')[:-1], want, 'filtered trials')


@sub('P35', fd(d=dir_st, nj=st.integers(1, 12), kind=st.sampled_from(['rttm', 'segments']), shift=st.sampled_from([None, 5, 10]), rel=st.booleans(), stage=st.booleans()), quick=15, thorough=200,
     nontrivial=lambda c: c['nj'] > 1)
def vad_jobs(c, ctx):
    """activity labels made in parallel jobs are those of all the utterances, in order"""
    box = Box(ctx)
    d = dict(c['d'], files=c['d']['files'][:11] + [True])
    make(box, 'data/d', d)
    box.write('labels', '')
    vad = 'vad' if c['rel'] else box.p('vad')
    opts = ['--nj', c['nj']] + (['--frame-shift', c['shift']] if c['shift'] else [])
    keys = [x.split()[0] for x in box.read('data/d/utt2num_frames')]
    ok(box.run('hyp_utils/%s_to_bin_vad.sh' % c['kind'], *(opts + ['labels', 'data/d', vad])), c['kind'] + '_to_bin_vad.sh')
    rows = [x.split() for x in box.read('data/d/vad.scp') or []]
    eqlist([x[0] for x in rows], keys, 'utterances of vad.scp')
    n, nj = len(keys), c['nj']
    i = 0
    for j in range(1, nj + 1):
        for i in range((j - 1) * n // nj, j * n // nj):
            eq(rows[i][1], '%s/vad_d.%d.ark:%d:%s:labels' % (box.p('vad'), j, i, c['shift'] or 10), 'labels of ' + keys[i])
    if c['stage']:
        # the second stage alone puts the parts together again
        os.unlink(box.p('data/d/vad.scp'))
        ok(box.run('hyp_utils/%s_to_bin_vad.sh' % c['kind'], *(opts + ['--stage', 2, 'labels', 'data/d', vad])), c['kind'] + '_to_bin_vad.sh stage 2')
        eqlist([x.split() for x in box.read('data/d/vad.scp') or []], rows, 'vad.scp of stage 2')
    os.unlink(box.p('data/d/utt2num_frames'))
    require(box.run('hyp_utils/%s_to_bin_vad.sh' % c['kind'], *(opts + ['labels', 'data/d', vad]))[0] != 0, 'labels without the numbers of frames')


@sub('P35', fd(n=st.integers(0, 12), busy=st.lists(st.integers(0, 11), max_size=14), ask=st.one_of(st.none(), st.integers(1, 6)), audio=st.integers(0, 2)), quick=30, thorough=400,
     nontrivial=lambda c: c['n'] > 1 and bool(c['busy']))
def free_gpu(c, ctx):
    """as many different free devices as asked for, or -1 and an error"""
    box = Box(ctx)
    n, k = c['n'], c['ask'] or 1
    busy = [b for b in c['busy'] if b < n]
    box.write('lspci.txt', '00:00.0 Host bridge: Intel\n' + ''.join('0%x:00.0 3D controller: NVIDIA Corporation GK210\n' % i for i in range(n))
              + ''.join('0%x:00.1 Audio device: NVIDIA Corporation\n' % i for i in range(c['audio'])))
    bar = '+' + '-' * 77 + '+\n'
    box.write('nvidia-smi.txt', bar + '| NVIDIA-SMI 396.44   Driver Version: 396.44   |\n' + ''.join('|   %d  Tesla K80   Off  | 0000 |\n' % i for i in range(n)) + bar + '\n' + bar
              + '| Processes:                                                       GPU Memory |\n|  GPU       PID   Type   Process name                             Usage      |\n|' + '=' * 77 + '|\n'
              + (''.join('|  %3d     %5d      C   python                                     10915MiB |\n' % (b, 1000 + i) for i, b in enumerate(sorted(busy)))
                 or '|  No running processes found                                                 |\n') + bar)
    r = box.run('bash', 'hyp_utils/free-gpu', *(['-n', k] if c['ask'] else []))
    free = set(range(n)) - set(busy)
    if len(free) < k:
        eq(r[1].strip(), '-1', 'devices when there are not enough')
        require(r[0] != 0, 'exit code when there are not enough devices')
        return
    ok(r, 'free-gpu')
    got = [int(x) for x in r[1].strip().split(',')]
    require(len(set(got)) == k == len(got) and set(got) <= free, 'devices %s, want %d of %s', got, k, sorted(free))
