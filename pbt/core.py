"""Small framework on top of Hypothesis: registered sub-checks over JSON-able cases.

A sub-check is (strategy, function).  The strategy yields a JSON-able case; the function drives the public API of the
code under test and raises Violation (through the helpers below) when the oracle disagrees.
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback

import numpy as np

HYP = os.environ.get('PBT_HYP')
if HYP and HYP not in sys.path:
    sys.path.append(HYP)

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
from hypothesis import strategies as st

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ.get('PBT_SCRATCH', '/tmp')
TIER = os.environ.get('VERIF_TIER', 'quick')
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = int(hashlib.sha1(os.environ['VERIF_SEED'].encode()).hexdigest()[:8], 16)

CASE_TIMEOUT = 60        # seconds; only a hang can reach it (cases take milliseconds)
SHRINK_SECONDS = 15


class Violation(AssertionError):
    pass


class HarnessError(Exception):
    """The check itself is wrong (never reported as a violation)."""


class Stop(BaseException):
    """Leaves Hypothesis (shrinking budget used up, or a case hung)."""


class Hang(BaseException):
    pass


class Sub(object):
    def __init__(self, prop, name, strategy, fn, quick, thorough, nontrivial, examples):
        self.prop, self.name, self.strategy, self.fn = prop, name, strategy, fn
        self.quick, self.thorough = quick, thorough
        self.nontrivial, self.examples = nontrivial, examples


REG = {}


def sub(prop, strategy, quick=150, thorough=None, nontrivial=None, examples=(), name=None):
    """Decorator registering fn(case, ctx)."""
    def deco(fn):
        s = Sub(prop, name or fn.__name__, strategy, fn, quick, thorough or quick * 15, nontrivial, list(examples))
        if s.name in [x.name for x in REG.setdefault(prop, [])]:
            raise HarnessError('duplicate sub ' + s.name)
        REG[prop].append(s)
        return fn
    return deco


class Ctx(object):
    """Per-case context: scratch directory and labels."""
    _n = 0

    def __init__(self, base):
        self.base = base
        self.labels = []
        self._dir = None
        self.nontrivial = None

    @property
    def dir(self):
        if self._dir is None:
            Ctx._n += 1
            self._dir = os.path.join(self.base, 'c%d_%d' % (os.getpid(), Ctx._n))
            os.makedirs(self._dir)
        return self._dir

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def label(self, *labels):
        self.labels.extend(str(x) for x in labels)

    def close(self):
        if self._dir is not None:
            assert self._dir.startswith(self.base) and len(self.base) > 8
            for r, d, f in os.walk(self._dir, topdown=False):
                for x in f:
                    os.unlink(os.path.join(r, x))
                for x in d:
                    p = os.path.join(r, x)
                    if os.path.islink(p):
                        os.unlink(p)
                    else:
                        os.rmdir(p)
            os.rmdir(self._dir)
            self._dir = None


# ---------------------------------------------------------------- oracles
def require(cond, msg='', *args):
    if not cond:
        raise Violation(msg % args if args else str(msg))


def same(got, want, what='', rtol=0, atol=0, dtype=None):
    """Array comparison with shape; rtol=atol=0 means exact (NaN equal)."""
    if got is None:
        raise Violation('%s: got None, want array' % what)
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        raise Violation('%s: shape %s, want %s' % (what, g.shape, w.shape))
    if dtype is not None and g.dtype != np.dtype(dtype):
        raise Violation('%s: dtype %s, want %s' % (what, g.dtype, dtype))
    if g.size == 0:
        return
    if rtol == 0 and atol == 0:
        if g.dtype.kind in 'fc' and w.dtype.kind in 'fc':
            ok = (g == w) | (np.isnan(g) & np.isnan(w))
        else:
            ok = (g == w)
    else:
        if not np.issubdtype(g.dtype, np.number) and g.dtype != bool:
            raise Violation('%s: dtype %s is not numeric' % (what, g.dtype))
        ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
    if not np.all(ok):
        i = np.argwhere(~np.atleast_1d(ok))[0]
        gg, ww = np.atleast_1d(g)[tuple(i)], np.atleast_1d(w)[tuple(i)]
        raise Violation('%s: at %s got %r, want %r (rtol %g atol %g; %d of %d differ)' % (
            what, tuple(int(k) for k in i), gg, ww, rtol, atol, int(np.sum(~ok)), g.size))


def eq(got, want, what=''):
    """Exact equality for scalars / lists / tuples / strings."""
    if isinstance(got, np.ndarray) or isinstance(want, np.ndarray):
        return same(got, want, what)
    if got != want:
        raise Violation('%s: got %r, want %r' % (what, _short(got), _short(want)))


def eqlist(got, want, what=''):
    if got is None:
        raise Violation('%s: got None, want %s' % (what, _short(list(want))))
    g, w = [_py(x) for x in got], [_py(x) for x in want]
    if g != w:
        raise Violation('%s: got %s, want %s' % (what, _short(g), _short(w)))


def _py(x):
    return x.item() if isinstance(x, np.generic) else x


def _short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def raises(fn, what='', exc=Exception):
    """fn() has to raise (assertion or any exception)."""
    try:
        fn()
    except exc:
        return
    raise Violation('%s: no error raised' % what)


class unchanged(object):
    """with unchanged(a, b): ... ; the arrays must not be modified."""

    def __init__(self, what, *arrays):
        self.what, self.arrays = what, [a for a in arrays if a is not None]

    def __enter__(self):
        self.copies = [np.array(a, copy=True) for a in self.arrays]

    def __exit__(self, t, v, tb):
        if t is None:
            for a, c in zip(self.arrays, self.copies):
                same(a, c, self.what + ': input modified')
        return False


# ---------------------------------------------------------------- runner
def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


REPO_PKG = os.path.join('/repo', 'hyperion') + os.sep


def classify_exc(e):
    """'violation' or 'harness'."""
    if isinstance(e, HarnessError):
        return 'harness'
    if isinstance(e, MemoryError):
        return 'harness'
    if isinstance(e, OSError) and getattr(e, 'errno', None) in (28, 24, 12, 23):
        return 'harness'
    return 'violation'


def describe_exc(e):
    if isinstance(e, Violation):
        return str(e)
    tb = traceback.extract_tb(e.__traceback__)
    inrepo = [f for f in tb if f.filename.startswith(REPO_PKG)]
    where = inrepo[-1] if inrepo else (tb[-1] if tb else None)
    kind = 'crash in the code under test' if inrepo else 'unusable result'
    return '%s: %s: %s (%s:%s %s)' % (kind, type(e).__name__, str(e)[:300],
                                      where.filename if where else '?', where.lineno if where else 0, where.name if where else '')


def stand_in_lacks(e):
    """the code under test uses a part of a library that the stand-in for it does not have"""
    while e is not None:
        if type(e).__name__ == 'NotInStandIn':
            return True
        e = e.__cause__ or e.__context__
    return False


def run_case(s, case, base):
    """Runs one case; returns (ctx). Raises what the check raises."""
    ctx = Ctx(base)
    c = json.loads(json.dumps(case))

    def on_alarm(signum, frame):
        raise Hang()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    try:
        np.random.seed(0)
        with np.errstate(all='ignore'):
            s.fn(c, ctx)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        ctx.close()
    return ctx


def run_sub(s, seed, tier, scale=1.0, shard=0):
    """Runs a sub-check (one shard of it); returns a result dict."""
    base = os.path.join(SCRATCH, 'sub_%s_%s_%d' % (s.prop, s.name, shard))
    os.makedirs(base, exist_ok=True)
    res = dict(sub=s.name, evaluations=0, nontrivial=0, samples=[], labels={}, violation=None, harness_error=None)
    distinct = set()
    t0 = time.time()
    st_ = dict(best=None, first=None)

    def one(case):
        res['evaluations'] += 1
        try:
            ctx = run_case(s, case, base)
        except Hang:
            st_['best'] = (case, 'did not terminate within %d s' % CASE_TIMEOUT)
            raise Stop()
        except Exception as e:
            if isinstance(e, hypothesis.errors.UnsatisfiedAssumption):
                raise
            if stand_in_lacks(e):
                res['labels']['not decided: %s is not in the stand-in' % e] = res['labels'].get('not decided: %s is not in the stand-in' % e, 0) + 1
                return
            if classify_exc(e) == 'harness':
                raise
            size = len(json.dumps(case))
            if st_['best'] is None or size <= st_['size']:
                st_['best'], st_['size'] = (case, describe_exc(e)), size
            if os.environ.get('PBT_FAST'):   # mutation runs: the first failure is enough
                raise Stop()
            if st_['first'] is None:
                st_['first'] = time.time()
            elif time.time() - st_['first'] > SHRINK_SECONDS:
                raise Stop()
            raise
        if st_['best'] is None:
            for l in ctx.labels:
                res['labels'][l] = res['labels'].get(l, 0) + 1
            nt = ctx.nontrivial if ctx.nontrivial is not None else (s.nontrivial(case) if s.nontrivial else True)
            if nt:
                k = case_key(case)
                if k not in distinct:
                    distinct.add(k)
                    if len(res['samples']) < 3 and (len(distinct) % 7 == 3):
                        res['samples'].append(case)
            elif not res['samples'] and res['evaluations'] > 20:
                pass

    try:
        for case in s.examples if shard == 0 else []:
            one(case)
        n = int((s.quick if tier == 'quick' else s.thorough) * scale)
        h = int(hashlib.sha1(('%s/%s/%d%s' % (s.prop, s.name, seed, '/%d' % shard if shard else '')).encode()).hexdigest()[:12], 16)

        @hypothesis.seed(h)
        @settings(max_examples=max(1, n), deadline=None, database=None, derandomize=False,
                  phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
                  suppress_health_check=list(HealthCheck), print_blob=False,
                  verbosity=hypothesis.Verbosity.quiet)
        @given(s.strategy)
        def test(case):
            one(case)
        test()
    except (Stop, Exception) as e:
        if st_['best'] is not None:
            res['violation'] = dict(case=st_['best'][0], message=st_['best'][1])
        else:
            res['harness_error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    if not res['samples'] and distinct is not None and res['violation'] is None:
        res['samples'] = res['samples'] or []
    res['nontrivial'] = len(distinct)
    res['distinct_keys'] = sorted(distinct)
    res['wall_s'] = round(time.time() - t0, 2)
    try:
        os.rmdir(base)
    except OSError:
        pass
    return res


# ---------------------------------------------------------------- common strategies
seeds = st.integers(0, 2 ** 31 - 1)


def fd(**kw):
    return st.fixed_dictionaries({k: (v if isinstance(v, st.SearchStrategy) else st.just(v)) for k, v in kw.items()})


def rng(seed):
    return np.random.RandomState(seed)


KEYCHARS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-./'
key_st = st.text(alphabet='abcXYZ019_-.', min_size=1, max_size=8).filter(lambda s: s.strip('.-_') != '')


def keys_st(min_size=1, max_size=8, elements=key_st):
    return st.lists(elements, min_size=min_size, max_size=max_size, unique=True)


def rand_pd(r, d, lo=0.1, hi=3.0):
    """random positive definite matrix with eigenvalues in [lo, hi]."""
    q, _ = np.linalg.qr(r.randn(d, d))
    w = lo + (hi - lo) * r.rand(d)
    a = (q * w) @ q.T
    return 0.5 * (a + a.T)
