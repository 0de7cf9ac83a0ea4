"""See DESIGN.md, C25."""
import collections

import numpy as np

from mon import api, gen
from mon.core import Violation

RULE = ('each generated set is written once with its values in one plain form and then in three others that hold equal '
        'values (lists, tuples, ranges, arrays of other number types, kinds, byte orders and memory layouts, numpy numbers and texts, '
        'keys in another order, another kind of dictionary, further keys that mean nothing); the files are compared byte '
        'by byte; distinct = distinct (file, forms) pairs')
CASES = {'quick': 6000, 'thorough': 120000}
FORMS = ('list', 'tuple', 'list of numbers', 'list of rows', 'narrower integers', 'unsigned integers', 'whole reals',
         'single precision', 'whole numbers for reals', 'other byte order', 'every second value', 'from the back', 'by columns',
         'read-only', 'inner part', 'long reals', 'half precision', 'memory map', 'mixed numbers', 'range',
         'other arrays', 'masked arrays')
REQUIRED = dict({'sets compared': 17900, 'keys in another order': 7000, 'other dictionaries': 3000, 'keys without meaning': 3000,
                 'numpy numbers': 5000, 'numpy texts': 4000, 'lists of sets': 1500, 'numpy keys': 150},
                **{f: 300 for f in FORMS if f not in ('half precision', 'range')})
REQUIRED.update({'half precision': 60, 'range': 60, 'arrays of texts': 40, 'whole reals for numbers': 3000})


class Array(np.ndarray):
    """An array as other programs derive them."""


class Keyed(dict):
    """A dictionary as other programs derive them."""


def plain(v):
    """Values in one form: native arrays, built-in numbers, texts and lists of texts."""
    if isinstance(v, dict):
        return {int(k) if isinstance(k, np.integer) else k: plain(x) for k, x in v.items()}
    if isinstance(v, np.ndarray):
        return v.tolist() if v.dtype.kind in 'UO' else np.array(v, dtype=v.dtype.newbyteorder('='))
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, (list, tuple)):
        v = list(v)
        try:
            a = np.array(v)
        except ValueError:
            a = None
        if a is None or a.dtype.kind not in 'iufc' or any(isinstance(x, (list, np.ndarray)) for x in v):
            return [plain(x) for x in v]
        return a
    return v


def rounded(rng, v):
    """Reals that single precision, or whole numbers, hold exactly (so that these forms apply)."""
    c = rng.random()
    if isinstance(v, dict):
        return {k: x if k == 'type' else rounded(rng, x) for k, x in v.items()}
    if isinstance(v, list):
        return [rounded(rng, x) for x in v]
    if c > 0.3 or not isinstance(v, (float, np.ndarray)) or isinstance(v, np.ndarray) and v.dtype.kind not in 'fc':
        return v
    with np.errstate(all='ignore'):
        if isinstance(v, float) or v.dtype.kind == 'f':
            a = np.asarray(v)
            a = np.rint(np.clip(a, -1e9, 1e9)) + 0.0 if c < 0.15 else np.nan_to_num(np.clip(a, -1e38, 1e38).astype('f4')) + 0.0
            return float(a) if isinstance(v, float) else a.astype(float)
        return (np.clip(v.real, -1e38, 1e38).astype('f4') + 1j * np.clip(v.imag, -1e38, 1e38).astype('f4')).astype(complex)


def held(rng, v, said):
    """An equal value, held in another way."""
    if isinstance(v, dict):
        return mapping(rng, v, said, nested=True)
    if isinstance(v, np.ndarray) and v.ndim:
        f = FORMS[int(rng.integers(len(FORMS)))]
        out, k = v, v.dtype.kind
        if k == 'f' and v.size < 300 and not np.any(v != np.rint(v)) and rng.random() < 0.3:
            f = 'whole numbers for reals'
        if v.ndim > 1 and rng.random() < 0.3:
            f = ('list of rows', 'by columns')[int(rng.integers(2))]
        if f == 'list':
            out = v.tolist()
        elif f == 'tuple':
            out = tuple(v.tolist())
        elif f == 'list of numbers' and v.ndim == 1:
            out = [x for x in v]
        elif f == 'list of rows' and v.ndim > 1:
            out = [np.array(x) for x in v]
        elif f in ('narrower integers', 'unsigned integers') and k == 'i':
            t = ('i4', 'i2', 'i1') if f[0] == 'n' else ('u8', 'u4', 'u2')
            t = t[int(rng.integers(3))]
            lim = np.iinfo(t)
            if v.size and not (v.min() >= lim.min and v.max() <= lim.max):
                return v
            out = v.astype(t)
        elif f == 'whole reals' and k == 'i':
            out = v.astype(float)
        elif f == 'single precision' and k in 'fc':
            with np.errstate(all='ignore'):
                out = v.astype('f4' if k == 'f' else 'c8')
            if not np.array_equal(out.astype(v.dtype), v):
                return v
        elif f == 'whole numbers for reals' and k == 'f':
            if np.any(np.abs(v) > 2e9) or np.any(v != np.rint(v)) or np.any(np.signbit(v) & (v == 0)):
                return v
            out = v.astype(int)
            for t in ('u1', 'i1', 'u2', 'i2', 'u4', 'i4'):      # in the narrowest type, often
                if v.size and v.min() >= np.iinfo(t).min and v.max() <= np.iinfo(t).max and rng.random() < 0.5:
                    out = v.astype(t)
                    break
        elif f == 'other byte order':
            out = v.astype(v.dtype.newbyteorder('>'))
        elif f == 'every second value':
            out = np.zeros((2 * len(v),) + v.shape[1:], v.dtype)[::2]
            out[...] = v
        elif f == 'from the back':
            out = v[::-1].copy()[::-1]
        elif f == 'by columns' and v.ndim > 1:
            out = np.asfortranarray(v)
        elif f == 'read-only':
            out = v.copy()
            out.flags.writeable = False
        elif f == 'inner part':
            out = np.concatenate([v[:1], v, v[-1:]])[1 - (not len(v)):len(v) + 1]
        elif f == 'long reals' and k in 'fc':
            out = v.astype(np.longdouble if k == 'f' else np.clongdouble)
        elif f == 'half precision' and k == 'f':
            with np.errstate(all='ignore'):
                out = v.astype('f2')
            if not np.array_equal(out.astype(v.dtype), v):
                return v
        elif f == 'mixed numbers' and k == 'i' and v.ndim == 1:
            out = [(x, int(x), float(x))[int(rng.integers(3))] for x in v]
        elif f == 'range' and k == 'i' and v.ndim == 1 and len(v) and np.array_equal(v, v[0] + np.arange(len(v))):
            out = range(int(v[0]), int(v[-1]) + 1)
        elif f == 'memory map':
            out = v.view(np.memmap)
        elif f == 'other arrays':
            out = v.view(Array)
        elif f == 'masked arrays':
            out = np.ma.array(v)
        if out is not v:
            said[f] += 1
        return out
    if isinstance(v, list):
        if v and all(isinstance(x, str) for x in v):
            c = rng.random()
            if c < 0.3:
                return tuple(v)
            if c < 0.35:
                said['arrays of texts'] += 1
                return np.array(v)
            if c < 0.4:
                return [np.str_(x) for x in v]
            return v
        if v and isinstance(v[0], dict) or any(isinstance(x, (list, np.ndarray)) for x in v):
            return [held(rng, x, said) for x in v]
        return v
    c = rng.random()
    if c > 0.4 or isinstance(v, bool):
        return v
    if type(v) is int:
        if c < 0.05:
            said['whole reals for numbers'] += 1
            return (float, np.float64)[int(rng.integers(2))](v)
        t = (np.int64, np.int32, np.int16, np.uint32, np.int8)[int(rng.integers(5))]
        if np.iinfo(t).min <= v <= np.iinfo(t).max:
            said['numpy numbers'] += 1
            return t(v)
    elif type(v) is float:
        if c < 0.1 and v == int(v) and abs(v) < 2e9 and not (v == 0 and np.signbit(v)):
            said['whole numbers for reals'] += 1
            return int(v)
        said['numpy numbers'] += 1
        with np.errstate(all='ignore'):
            return np.float32(v) if float(np.float32(v)) == v and c < 0.2 else np.float64(v)
    elif type(v) is complex:
        said['numpy numbers'] += 1
        return np.complex128(v)
    elif type(v) is str and c < 0.15:
        said['numpy texts'] += 1
        return np.str_(v)
    return v


def mapping(rng, d, said, nested=False):
    keys = list(d)
    own = [k for k in keys if isinstance(k, (int, np.integer)) or k in ('triangle', 'quad')]    # the order of the elements
    if rng.random() < 0.6:
        free = [k for k in keys if k not in own]
        rng.shuffle(free)
        keys = free[:len(free) // 2] + own + free[len(free) // 2:]
        said['keys in another order'] += 1
    out = {k: d[k] if k == 'type' and rng.random() < 0.7 else held(rng, d[k], said) for k in keys}
    if any(type(k) is int for k in out) and rng.random() < 0.3:
        t = (np.int64, np.int32, np.int16)[int(rng.integers(3))]
        out = {t(k) if type(k) is int and rng.random() < 0.7 else k: x for k, x in out.items()}
        said['numpy keys'] += 1
    if not nested and rng.random() < 0.25:
        for k in ('comment', 'source_file', '_private', 'Type', 'x_label')[int(rng.integers(3)):][:int(rng.integers(1, 4))]:
            out[k] = (1, 'something', None, [1, 2], np.arange(3))[int(rng.integers(5))]
        said['keys without meaning'] += 1
    c = rng.random()
    if c < 0.3:
        said['other dictionaries'] += 1
        return collections.OrderedDict(out) if c < 0.12 else Keyed(out) if c < 0.24 else collections.defaultdict(lambda: 7, out)
    return out


def case(ctx):
    rng = ctx.rng
    kind = gen.KINDS[ctx.index % len(gen.KINDS)]
    w, e = gen.make(rng, kind, odd=False, big=0.003)
    w = rounded(rng, plain(w))
    if kind == 58 and rng.random() < 0.2:       # a small abscissa of whole numbers
        n = len(w['x'])
        if n <= 250 and 'abscissa_inc' not in w:
            step = int(rng.integers(1, 250 // n + 1)) * (1 if rng.random() < 0.5 else -1)
            w['x'] = (np.arange(n) * step + float(rng.integers(0, 6)) - min(0, step * (n - 1))
                      - (125 if rng.random() < 0.5 else 0)) * 1.0
            w['abscissa_spacing'] = int(rng.random() < 0.7)
            for k in ('abscissa_min', 'num_pts'):
                w.pop(k, None)
    before = b''
    path = ctx.path()
    if rng.random() < 0.3:
        api.write(path, [gen.make(rng, k, odd=False)[0] for k in (151, 82)], 'overwrite')
        before = api.slurp(path)
    mode = 'add' if before or rng.random() < 0.5 else 'overwrite'
    double = api.fd(e)

    def go(d, what):
        api.spill(path, before)
        api.must(what, api.pyuff.UFF(path).write_sets, d, mode, force_double=double)
        return api.slurp(path)
    ref = go(api.fresh(w), 'writing a set with its values in a plain form')
    for _ in range(3):
        said = collections.Counter()
        d = mapping(rng, w, said)
        if rng.random() < 0.12:
            d = [d]
            said['lists of sets'] += 1
        what = 'writing a set of type %d (%s)' % (kind, ', '.join(sorted(said)) or 'as it was')
        shown = repr(d)[:6000]
        got = go(d, what)
        if got != ref and got.replace(b'-0.00000e+00', b' 0.00000e+00') != ref.replace(b'-0.00000e+00', b' 0.00000e+00'):
            # (a derived zero has the sign of the number it is derived from, if that can have a signed zero)
            a, b = ref.split(b'\n'), got.split(b'\n')
            i = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
            raise Violation('%s gives another file than the same values in a plain form: line %d is %r instead of %r' % (
                what, i + 1, b[i:i + 1], a[i:i + 1]), witness={'plain': w, 'given': shown})
        for k, n in said.items():
            ctx.count(k, n)
        ctx.count('sets compared')
        ctx.seen(ref + repr(sorted(said.items())).encode())
    if ctx.sample is None:
        ctx.sample = {'type': kind, 'bytes': len(ref), 'forms': sorted(said)}
