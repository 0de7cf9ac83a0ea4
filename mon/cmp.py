"""Comparison of what was read with what must be read."""
import numbers
import re

import numpy as np

# relative half width of the last digit that the format of the real fields keeps
REL = {15: 5.0001e-6, 18: 5.0001e-6, 55: 5.0001e-6, 58: 5.0001e-6, 1858: 5.0001e-8, 2414: 5.0001e-6,
       164: 0, 2411: 0, 2420: 0}


def _is_num(v):
    return isinstance(v, (numbers.Number, np.generic)) and not isinstance(v, (str, np.str_, bool))


def _parts_close(got, want, tol):
    """Element by element, real and imaginary part each to its own precision."""
    for g, w in ((got.real, want.real), (got.imag, want.imag)):
        with np.errstate(all='ignore'):
            lim = tol[1] if isinstance(tol, tuple) else tol * np.abs(w)
            bad = ~((g == w) | (np.abs(g - w) <= lim) | (np.isnan(g) & np.isnan(w)))
        if np.any(bad):
            return int(np.argmax(np.atleast_1d(bad)))
    return None


def _numeric(v):
    try:
        a = np.asarray(v)
    except ValueError:
        return None
    if a.dtype.kind in 'biufc':
        return a
    return None


def differ(got, want, rel=0, path='', tols=None, exact_keys=False):
    """None, or a text that tells where got is not want. Keys of want only."""
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return '%s: %s instead of a dictionary' % (path, type(got).__name__)
        if exact_keys:
            a = {k for k in got}
            b = {k for k in want if not (isinstance(k, str) and k.startswith('_'))}
            if a != b:
                return '%s: keys %r' % (path, sorted(map(str, a ^ b)))
        tols = want.get('_tol', {})
        for k, w in want.items():
            if isinstance(k, str) and k.startswith('_'):
                continue
            if k not in got:
                return '%s[%r] is missing' % (path, k)
            m = differ(got[k], w, tols.get(k, rel), '%s[%r]' % (path, k), exact_keys=exact_keys)
            if m:
                return m
        return None
    if want is None:
        return None if got is None else '%s is %r instead of None' % (path, got)
    if isinstance(want, (str, np.str_)):
        if not isinstance(got, (str, np.str_)) or str(got) != str(want):
            return '%s is %r instead of %r' % (path, got, want)
        return None
    w = _numeric(want)
    if w is not None:
        g = _numeric(got)
        if g is None:
            return '%s is %s instead of numbers' % (path, repr(got)[:120])
        if w.ndim == 0 and g.ndim != 0 or g.shape != w.shape:
            if not (w.size == 0 and g.size == 0):
                return '%s has shape %r instead of %r' % (path, g.shape, w.shape)
            return None
        if w.size == 0:
            return None
        i = _parts_close(g, w, rel)
        if i is not None:
            return '%s, value %d of %d: %r instead of %r' % (path, i, w.size, g.ravel()[i].item(), w.ravel()[i].item())
        return None
    if isinstance(want, (list, tuple, np.ndarray)):
        if not isinstance(got, (list, tuple, np.ndarray)) or len(got) != len(want):
            n = len(got) if hasattr(got, '__len__') else repr(got)
            return '%s has %s entries instead of %d' % (path, n, len(want))
        for i, w in enumerate(want):
            m = differ(got[i], w, rel, '%s[%d]' % (path, i), exact_keys=exact_keys)
            if m:
                return m
        return None
    return None if got == want else '%s is %r instead of %r' % (path, got, want)


# whole numbers are legal values of these real fields
REALS = re.compile(r'record1[23]_|modal_|eig|freq|z_axis|abscissa_|time|damp|convert|temp|[xyz]$')


def whole(got, want, path):
    """A field of one whole number is handed out as an integer (a count, a label, an index)."""
    for k, w in want.items():
        if k not in got or isinstance(k, str) and (k.startswith('_') or REALS.match(k)):
            continue
        if isinstance(w, dict) and isinstance(got[k], dict):
            m = whole(got[k], w, '%s[%r]' % (path, k))
            if m:
                return m
        elif isinstance(w, (int, np.integer)) and not isinstance(got[k], numbers.Integral):
            return '%s[%r] is the %s %r instead of an integer' % (path, k, type(got[k]).__name__, got[k])
    return None


NODES = ('node_nums', 'def_cs', 'disp_cs', 'color', 'x', 'y', 'z')
# fields that are handed out as NumPy arrays ("all array-type data are read using np.array");
# in a list of records, every record or every entry
ARRAYS = {18: ('cs_num', 'cs_type', 'ref_cs_num', 'color', 'method', 'ref_o', 'x_point', 'xz_point'),
          55: ('node_nums',) + tuple('r%d' % i for i in range(1, 13)), 58: ('x', 'data'), 82: ('nodes',), 2411: NODES,
          2414: ('node_nums', 'element_nums', 'x', 'y', 'z', 'number_of_nodes', 'number_of_values_per_node'),
          2429: ('entity_type_code', 'entity_tag'),
          2467: ('entity_type_code', 'entity_tag', 'entity_node_leaf_id', 'entity_component_id')}


def arrays(got):
    """None, or which array of a set that was read is no NumPy array."""
    kind = got['type']
    records = got['groups'] if kind in (2429, 2467) else [got]
    for i, r in enumerate(records):
        for k in ARRAYS.get(kind, ()):
            if k in r and not isinstance(r[k], np.ndarray):
                return '%d[%r] is handed out as a %s' % (kind, k, type(r[k]).__name__)
    for k in ('CS_matrices', 'data_at_node', 'data_at_element') if kind in (2420, 2414) else ():
        if not all(isinstance(v, np.ndarray) for v in got.get(k, ())):
            return '%d[%r] holds entries that are no arrays' % (kind, k)
    return None


def check_set(got, want, read=True):
    """Compare one data-set with the expectation of gen.make; read: it is what the package handed out."""
    kind = want['type']
    m = differ(got, want, REL.get(kind, 0), str(kind))
    if m:
        return m
    if kind == 2412 and isinstance(got, dict):
        extra = {k for k in got if isinstance(k, (int, np.integer))} - {k for k in want if isinstance(k, int)}
        if extra:
            return '2412 has elements of kinds %r that were not given' % sorted(extra)
    return whole(got, want, str(kind)) or (arrays(got) if read else None)


def same(a, b, path=''):
    """Exactly equal dictionaries (both directions); None or where they differ."""
    if isinstance(a, dict) or isinstance(b, dict):
        return differ(a, b, 0, path, exact_keys=True)
    return differ(a, b, 0, path, exact_keys=True)
