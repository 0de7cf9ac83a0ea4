"""See DESIGN.md, C08."""
import os

import numpy as np

from mon import api, cmp, corpus, gen, spec, trip
from mon.core import Violation

RULE = ('files made by an independent encoder of the published layout in every permitted style (line end, padding, '
        'exponent, mantissa, final newline, precision, byte order, unsupported sets between) and the shipped '
        'measurement files: what the package reads is compared exactly with an independent decoding of the same '
        'bytes; distinct = distinct file contents')
CASES = {'quick': 7000, 'thorough': 250000}
REQUIRED = {'sets compared': 10000, 'unsupported sets': 500, 'shipped sets compared': 50, 'style crlf': 1000,
            'style padded': 1000, 'style trimmed': 1000, 'style no final newline': 500, 'style 0.ddd': 500,
            'style plain decimals': 200, 'style long exponents': 200, 'bytes of no UTF-8 text': 500}


def compare(ctx, got, want, witness, name):
    if want['type'] == 58 and want['abscissa_spacing']:
        x = np.asarray(want['x'])
        want = dict(want, _tol={'x': ('abs', 1e-13 * (np.abs(x) + abs(want['abscissa_min']) +
                                                      abs(want['abscissa_inc']) * np.arange(len(x))))})
    bad = cmp.differ(got, want, 0, str(want['type']))
    if not bad and want['type'] == 2412:
        if {k for k in got if isinstance(k, (int, np.integer))} != {k for k in want if isinstance(k, int)}:
            bad = '2412: kinds of elements differ'
    if bad:
        raise Violation('%s is not read as the published layout says: %s' % (name, bad),
                        witness={'file': witness, 'read': got})


def shipped(ctx, path):
    data = api.slurp(path)
    try:
        blocks = spec.blocks(data)
    except spec.BadLayout:
        ctx.count('shipped files of a layout of their own')
        return
    u = api.must('opening %s' % path, api.pyuff.UFF, path)
    types = [b[2] for b in blocks]
    if list(u.get_set_types()) != types:
        raise Violation('%s: types %r instead of %r' % (path, list(u.get_set_types()), types))
    for i, (_, _, kind, binary, body) in enumerate(blocks):
        try:
            want = spec.decode_block(kind, binary, body, blank=True)
        except spec.BadLayout:
            ctx.count('shipped sets of a layout of their own')
            continue
        got = api.must('reading set %d of %s' % (i, path), u.read_sets, i)
        compare(ctx, got, want, os.path.basename(path), 'set %d of %s' % (i, os.path.basename(path)))
        ctx.count('shipped sets compared')


def texts(v, change):
    """Every text of a set, changed."""
    if isinstance(v, dict):
        for k in v:
            if not (isinstance(k, str) and (k.startswith('_') or k in ('lines', 'type'))):
                v[k] = texts(v[k], change)
    elif isinstance(v, list):
        v[:] = [texts(q, change) for q in v]
    elif isinstance(v, str):
        return change(v)
    return v


def one_byte(ctx, rng, sets, st):
    """The file with some letters of its texts in a one-byte encoding (Latin-1): each is one character that
    cannot be known, in the place of one character."""
    def accent(t):
        at = [i for i, c in enumerate(t) if c.isalpha()]
        for i in rng.permutation(len(at))[:int(rng.integers(0, 3))]:
            if all(ord(c) < 128 for c in t[max(at[i] - 1, 0):at[i] + 2]):
                t = t[:at[i]] + 'äßéÀÿ\xb5'[int(rng.integers(6))] + t[at[i] + 1:]
                ctx.count('bytes of no UTF-8 text')
        return t
    for e in sets:
        texts(e, accent)
    st.encoding = 'latin-1'
    data = spec.encode(sets, st)
    for e in sets:
        texts(e, lambda t: ''.join(c if ord(c) < 128 else '\ufffd' for c in t))
    return data


def case(ctx):
    files = corpus.files()
    if ctx.index < len(files):
        shipped(ctx, files[ctx.index])
        return
    rng = ctx.rng
    st = gen.style(rng)
    data, sets = gen.foreign_file(rng, st, big=0.004)
    if rng.random() < 0.1:
        data = one_byte(ctx, rng, sets, st)
    path = ctx.path()
    api.spill(path, data)
    want = spec.decode(data)
    for d, e in zip(want, sets):        # the oracle against itself
        if cmp.differ(d, dict(e, _tol={}) if e['type'] not in (58,) else {'type': 58, 'num_pts': e['num_pts']},
                      5.1e-5 if 'lines' not in e else 0, 'self') and 'lines' not in e:
            raise AssertionError('the encoder and the decoder disagree: %s' % cmp.differ(d, e, 5.1e-5))
    got = api.read_all(path)
    if len(got) != len(want):
        raise Violation('the file has %d sets, %d were found' % (len(want), len(got)), witness=data)
    for i, (g, w) in enumerate(zip(got, want)):
        if 'lines' in sets[i]:
            if g.get('type') != w['type']:
                raise Violation('type %r instead of %r' % (g.get('type'), w['type']), witness=data)
            ctx.count('unsupported sets')
            continue
        compare(ctx, g, w, data, 'set %d (%r)' % (i, st))
        ctx.count('sets compared')
        ctx.count(trip.features(sets[i]))
    for name, on in (('crlf', st.eol != '\n'), ('padded', st.pad), ('trimmed', st.trim),
                     ('no final newline', not st.final_eol), ('0.ddd', st.mantissa == 'f'),
                     ('plain decimals', st.mantissa == 'g'), ('long exponents', st.mantissa == 'm'),
                     ('D exponent', st.d_exponent in 'Dd'), ('big endian', st.byte_order == '>')):
        if on:
            ctx.count('style ' + name)
    ctx.seen(data)
    if ctx.sample is None:
        ctx.sample = {'style': repr(st), 'sets': [e['type'] for e in sets], 'bytes': len(data)}
