"""Generators and models shared by the archive checks."""
import os
import numpy as np
from pbt.core import *  # noqa

SPECIALS = np.array([np.nan, np.inf, -np.inf, -0.0, 0.0, 1e-45, 3.4028235e38, -3.4028235e38, 1.1754944e-38, 1e-40, 16777217.0, 0.1])

val_kind = st.sampled_from(['normal', 'normal', 'int', 'const', 'special', 'big', 'tiny'])


def make_values(seed, shape, kind, text=False):
    r = rng(seed)
    if kind == 'normal':
        a = r.randn(*shape)
    elif kind == 'int':
        a = r.randint(-1000, 1000, size=shape).astype(float)
    elif kind == 'const':
        a = np.full(shape, float(r.randint(-5, 6)) / 4)
    elif kind == 'big':
        a = r.randn(*shape) * (1e4 if text else 1e30)
    elif kind == 'tiny':
        a = r.randn(*shape) * (1e-3 if text else 1e-35)
    else:
        if text:
            a = r.randn(*shape) * 10.0 ** r.randint(-6, 6)
        else:
            a = SPECIALS[r.randint(0, len(SPECIALS), size=shape)] * np.ones(shape)
    return np.asarray(a, dtype='float64')


def item_st(matrix_only=False, min_rows=0, max_rows=9, max_cols=6, min_cols=0):
    m = fd(kind='m', r=st.integers(min_rows, max_rows), c=st.integers(min_cols, max_cols), seed=seeds, val=val_kind)
    v = fd(kind='v', c=st.integers(min_cols, 12), seed=seeds, val=val_kind)
    return m if matrix_only else st.one_of(m, v)


def make_item(it, text=False):
    shape = (it['r'], it['c']) if it['kind'] == 'm' else (it['c'],)
    return make_values(it['seed'], shape, it['val'], text)


def as_stored(a):
    return a.astype('float32')


def check_value(got, want64, text, what):
    got = np.asarray(got)
    if text:
        w = want64.astype('float32').astype('float64')
        if w.size == 0:
            require(got.size == 0, '%s: empty text array read as %s', what, got.shape)
            return
        same(got.astype('float64'), w, what, rtol=1.3e-7, atol=5.1e-7)
    else:
        same(got, as_stored(want64), what)


def batches_of(n, cuts):
    """Cuts [0, n) at the (sorted, clipped) positions."""
    pts = sorted(set([0, n] + [min(n, c) for c in cuts]))
    return [(a, b) for a, b in zip(pts[:-1], pts[1:])]
