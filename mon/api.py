"""Calls of the code under test, as its users make them; failures become verdicts."""
import copy
import io
import os

import numpy as np

from .core import Violation, load_pyuff, quiet
from . import cmp, gen

pyuff = load_pyuff()


def attempt(fn, *a, **k):
    """(value, None) or (None, exception); what is printed is swallowed."""
    try:
        with quiet():
            return fn(*a, **k), None
    except Exception as e:
        return None, e


def must(what, fn, *a, **k):
    v, e = attempt(fn, *a, **k)
    if e is not None:
        raise Violation('%s raised %s: %s' % (what, type(e).__name__, e), witness=(a, k))
    return v


def fresh(v, memo=None):
    """A deep copy in which arrays keep their layout in memory, and one object stays one object."""
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, dict):
        memo[id(v)] = c = {}
        c.update((k, fresh(q, memo)) for k, q in v.items())
        return c
    if isinstance(v, list):
        memo[id(v)] = c = []
        c.extend(fresh(q, memo) for q in v)
        return c
    if isinstance(v, tuple):
        return tuple(fresh(q, memo) for q in v)
    if isinstance(v, np.ndarray) and v.dtype != object:
        if v.size and v.ndim and v.strides[0] == 2 * v.itemsize * int(np.prod(v.shape[1:], dtype=int)):
            c = np.zeros((2 * len(v),) + v.shape[1:], v.dtype)[::2]
            c[...] = v
        elif v.size and v.ndim and v.strides[0] < 0:
            c = v[::-1].copy()[::-1]
        else:
            c = v.copy(order='K')
        c.flags.writeable = v.flags.writeable
        return c
    return copy.deepcopy(v)


def asked(dsets, mode, force_double):
    """The arguments of a writing call, spelled in one of the ways that mean the same."""
    k = sum(len(d) for d in dsets) if isinstance(dsets, list) else len(dsets)
    k = (k * 7 + len(mode)) % 12
    if k == 0:
        mode = mode.upper()
    elif k == 1:
        mode = mode.title()
    elif k == 2 and mode == 'add':
        return (), {'force_double': force_double}
    elif k == 3 and force_double is True:
        return (mode,), {}
    elif k == 4 and force_double is True and mode == 'add':
        return (), {}
    elif k == 5:
        return (), {'force_double': force_double, 'mode': mode}
    elif k == 6:
        return (mode, force_double), {}
    return (mode,), {'force_double': force_double}


def opened(rng, path):
    """The object of a file, the name given in one of the ways."""
    c = rng.random()
    if c < 0.7:
        return must('opening', pyuff.UFF, path)
    if c < 0.9:
        return must('opening', pyuff.UFF, filename=path)
    return must('opening', pyuff.UFF, fileName=path)     # the older name of the argument


def write(path, dsets, mode='add', force_double=True, uff=None):
    """UFF.write_sets on copies (the caller's dictionaries stay as generated)."""
    given = fresh(dsets)

    def go():
        a, k = asked(dsets, mode, force_double)
        (uff or pyuff.UFF(path)).write_sets(given, *a, **k)
    try:
        with quiet():
            go()
    except Exception as e:
        raise Violation('writing a correct data-set raised %s: %s' % (type(e).__name__, e), witness=dsets)


def read_all(path, uff=None):
    """All sets of the file as a list."""
    u = uff or must('opening the file', pyuff.UFF, path)
    n = must('get_n_sets', u.get_n_sets)
    r = must('read_sets', u.read_sets)
    return listed(r, n)


def listed(r, n):
    """read_sets returns the only set itself, otherwise a list."""
    if n == 1:
        if not isinstance(r, dict):
            raise Violation('reading the only set returned %s instead of one dictionary' % type(r).__name__)
        return [r]
    if not isinstance(r, list) or len(r) != n:
        raise Violation('reading all sets returned %s entries, the file has %d sets' % (
            len(r) if hasattr(r, '__len__') else r, n))
    return r


def slurp(path):
    with open(path, 'rb') as f:
        return f.read()


def spill(path, data):
    with open(path, 'wb') as f:
        f.write(data)


def some_sets(ctx, n, kinds=gen.KINDS, **kw):
    """n random sets: [(what is written, what is expected)]"""
    return [gen.make(ctx.rng, kinds[int(ctx.rng.integers(len(kinds)))], **kw) for _ in range(n)]


def fd(e):
    return e.get('_force_double', True)


def prefile(ctx, path, sets):
    """Write [(w, e)] one after another, each in its own precision."""
    for i, (w, e) in enumerate(sets):
        write(path, w, 'overwrite' if i == 0 else 'add', fd(e))
