"""P13: confusion matrices and accuracies against counting loops."""
import io
from pbt.core import *
from hyperion.metrics.confusion_matrix import compute_confusion_matrix, compute_xlabel_confusion_matrix, write_confusion_matrix, print_confusion_matrix
from hyperion.metrics.acc import compute_accuracy

RULE = 'at least two classes and one error'
pools = [list(range(4)), [5, 7, 100, 6], [-3, 0, 2, 9], ['a', 'bb', 'ccc', 'd'], ['x1', 'y', 'zz', 'w-long'], [3, 1, 2, 0]]


@st.composite
def case_st(draw, cross=False):
    pool = draw(st.sampled_from(pools))
    pred = pool
    if cross:
        pred = draw(st.sampled_from([p for p in pools if isinstance(p[0], str) == isinstance(pool[0], str)]))
    n = draw(st.integers(1, 14))
    k, q = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    c = dict(y=draw(st.lists(st.sampled_from(pool[:k]), min_size=n, max_size=n)), p=draw(st.lists(st.sampled_from(pred[:q]), min_size=n, max_size=n)),
             norm=draw(st.booleans()), w=draw(st.one_of(st.none(), st.lists(st.sampled_from([0.5, 1.0, 2.0, 3.25]), min_size=n, max_size=n))),
             given_=draw(st.booleans()), arr=draw(st.booleans()))
    c['drop'] = draw(st.lists(st.integers(0, 5), max_size=2))
    c['lab_y'] = draw(st.permutations(sorted(set(c['y']) | (set() if cross else set(c['p'])))))
    c['lab_p'] = draw(st.permutations(sorted(set(c['p']) | set(draw(st.lists(st.sampled_from(pred), max_size=2))))))
    if c['given_']:         # only some of the classes
        for k in c['drop']:
            for f, z in (('lab_y', 'y'), ('lab_p', 'p')):
                l = list(c[f])
                if l[k % len(l)] != c[z][0]:
                    del l[k % len(l)]
                c[f] = l
    return c


def nt(c):
    return len(set(c['y'])) > 1 and c['y'] != c['p']


def count(c, ly, lp):
    w = c['w'] or [1] * len(c['y'])
    C = np.array([[sum(v for a, b, v in zip(c['y'], c['p'], w) if a == i and b == j) for j in lp] for i in ly], dtype=float)
    if c['norm']:
        C = C / C.sum(axis=1, keepdims=True)
    return C


def norm_(c):
    return dict(normalize=False) if not c['norm'] else {} if c['arr'] else dict(normalize=True)


@sub('P13', case_st(), quick=500, nontrivial=nt)
def confusion(c, ctx):
    """entry (i, j): samples of class i predicted as j, in the requested class order"""
    y, p = (np.array(c['y']), np.array(c['p'])) if c['arr'] else (list(c['y']), list(c['p']))
    y0, p0 = list(y), list(p)
    lab = list(c['lab_y']) if c['given_'] else sorted(set(c['y']) | set(c['p']))
    C = compute_confusion_matrix(y, p, labels=list(lab) if c['given_'] else None, sample_weight=None if c['w'] is None else np.array(c['w']), **norm_(c))
    W = count(c, lab, lab)
    same(C, W, 'confusion matrix', rtol=1e-12, atol=1e-12)
    eqlist(list(y), y0, 'true labels after the call')
    eqlist(list(p), p0, 'predicted labels after the call')


@sub('P13', case_st(cross=True), quick=700, nontrivial=nt)
def cross_label(c, ctx):
    """rows are test classes, columns train classes, even if the two label sets share values"""
    y, p = (np.array(c['y']), np.array(c['p'])) if c['arr'] else (list(c['y']), list(c['p']))
    y0, p0 = list(y), list(p)
    ly, lp = (list(c['lab_y']), list(c['lab_p'])) if c['given_'] else (sorted(set(c['y'])), sorted(set(c['p'])))
    conv = np.array if c['arr'] else list
    a, b = conv(ly), conv(lp)
    C = compute_xlabel_confusion_matrix(y, p, labels_train=b if c['given_'] else None, labels_test=a if c['given_'] else None,
                                        sample_weight=None if c['w'] is None else np.array(c['w']), **norm_(c))
    same(C, count(c, ly, lp), 'cross-label confusion matrix', rtol=1e-12, atol=1e-12)
    eqlist(list(y), y0, 'true labels after the call')
    eqlist(list(p), p0, 'predicted labels after the call')
    eqlist(list(a), ly, 'test labels after the call')
    eqlist(list(b), lp, 'train labels after the call')
    ctx.label('strings' if isinstance(c['y'][0], str) else 'integers')


@sub('P13', case_st(), quick=300, nontrivial=nt)
def accuracy(c, ctx):
    """accuracy is the (weighted) fraction or number of correct samples"""
    y, p = np.array(c['y']), np.array(c['p'])
    w = np.array(c['w'] or [1.] * len(y))
    with unchanged('compute_accuracy', w):
        a = compute_accuracy(y, p, sample_weight=None if c['w'] is None else w, **norm_(c))
    ok = np.array([s == t for s, t in zip(c['y'], c['p'])], dtype=float)
    same(a, np.sum(ok * w) / (np.sum(w) if c['norm'] else 1), 'accuracy', rtol=1e-12)
    eqlist(y, c['y'], 'labels after the call')


@sub('P13', case_st(cross=True), quick=200, nontrivial=nt)
def printed(c, ctx):
    """the printed matrix has a row per true class with the entries in column order"""
    ly, lp = sorted(set(c['y'])), list(c['lab_p'])
    C = compute_xlabel_confusion_matrix(c['y'], c['p'], labels_train=lp, normalize=c['norm'], sample_weight=None if c['w'] is None else np.array(c['w']))
    if c['arr'] and c['norm']:
        C[-1] = np.nan          # a class without samples
    ny, np_ = [str(x) for x in ly], [str(x) for x in lp]
    if len(ny) == len(np_) and c['arr']:
        np_ = None              # the same labels
    old, sys.stdout = sys.stdout, io.StringIO()
    try:
        print_confusion_matrix(C, ny, np_)
        out = sys.stdout.getvalue()
    finally:
        sys.stdout = old
    f = io.StringIO()
    write_confusion_matrix(f, C, ny, np_)
    eq(f.getvalue(), out, 'printed and written matrix')
    lines = out.strip('\n').split('\n')
    rows = [l.split() for l in lines]
    eqlist(rows[0], np_ or ny, 'header')
    for i, r in enumerate(rows[1:]):
        eq(r[0], ny[i], 'row label')
        same(np.array([float(x) for x in r[1:]]), C[i].astype(float), 'row ' + r[0], atol=0.00501)
        if not c['norm'] and c['w'] is None and np.any(C > 1):
            require(all('.' not in x for x in r[1:]), 'counts %s', r[1:])
    eq(len(rows), len(ly) + 1, 'rows')
    eq(len(set(len(l) for l in lines)), 1, 'aligned columns')
    raises(lambda: print_confusion_matrix(C, ny + ['x'], np_ or ny), 'more labels than rows')
    raises(lambda: print_confusion_matrix(C, ny, (np_ or ny) + ['x']), 'more labels than columns')
