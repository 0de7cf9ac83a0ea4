"""See DESIGN.md, C02."""
import numpy as np

from mon import api, cmp, gen, spec, trip
from mon.core import Violation

RULE = ('binary function records with arbitrary payload bits (random bit patterns, spelled delimiters, line ends, '
        'denormals), real/complex, even/uneven, single/double, in both modes and among sets of any kind: samples '
        'compared exactly, the payload on disk bit by bit, neighbours with their reading alone; both byte orders '
        'from an independent encoder; distinct = distinct file contents')
CASES = {'quick': 6000, 'thorough': 200000}
REQUIRED = {'sets compared': 3000, 'payloads compared bit by bit': 3000, 'payloads that spell structure': 1000,
            'neighbours compared': 1000, 'big endian records read': 500, 'little endian records read': 500}


def case(ctx):
    if ctx.index % 3 == 2:
        foreign_order(ctx)
    else:
        written(ctx)


def bits(e):
    cols = [] if e['abscissa_spacing'] else [np.asarray(e['x'], float)]
    data = np.asarray(e['data'])
    cols += [data.real, data.imag] if e['ord_data_type'] in (5, 6) else [data.real]
    return np.column_stack(cols).astype('<f8' if e['ord_data_type'] in (4, 6) else '<f4').tobytes()


def written(ctx):
    rng = ctx.rng
    w, e = gen.make(rng, 58, binary=True, big=0.01, huge=True)
    alone = ctx.path()
    mode = 'overwrite' if rng.random() < 0.5 else 'add'
    api.write(alone, w, mode, api.fd(e))
    data = api.slurp(alone)
    try:
        blocks = spec.blocks(data)
    except spec.BadLayout as b:
        raise Violation('the binary record is not laid out as its header says: %s' % b, witness=w)
    if len(blocks) != 1 or blocks[0][2] != 58 or not blocks[0][3]:
        raise Violation('%r was written for one binary record' % [x[2:4] for x in blocks], witness=w)
    head, _, payload = blocks[0][4]
    want = bits(e)
    if head[5] != len(want):
        raise Violation('the byte count of the header is %d, the payload has %d bytes' % (head[5], len(want)), witness=w)
    if payload != want:
        at = next(i for i in range(len(want)) if payload[i] != want[i])
        raise Violation('byte %d of the payload is %#x instead of %#x' % (at, payload[at], want[at]), witness=w)
    ctx.count('payloads compared bit by bit')
    ctx.count('payload bytes', len(want))
    if e['_spelled']:
        ctx.count('payloads that spell structure')
    ctx.count(trip.features(e))

    # among others
    plan = [(w, e)]
    for _ in range(int(rng.integers(0, 4))):
        plan.insert(int(rng.integers(0, len(plan) + 1)), gen.make(rng, 58, binary=True) if rng.random() < 0.4 else
                    gen.make(rng, gen.KINDS[int(rng.integers(len(gen.KINDS)))]))
    done, path = [], ctx.path()
    if rng.random() < 0.3:
        api.spill(path, b'    -1\n    58\nold\n    -1\n')
    refs = []
    for w2, e2 in plan:
        mine = e2['type'] == 58 and e2['binary']
        one = ctx.path()
        try:
            api.write(one, w2, 'overwrite', api.fd(e2))
            ref = api.read_all(one)
            if len(ref) != 1:
                raise Violation('%d sets for one' % len(ref))
        except Violation:
            if mine:
                raise
            continue
        api.write(path, w2, 'add' if done else 'overwrite', api.fd(e2))
        done.append((w2, e2))
        refs.append(ref[0])
    got = api.read_all(path)
    if len(got) != len(done):
        raise Violation('%d sets were written, the file is said to have %d' % (len(done), len(got)),
                        witness=[q for q, _ in done])
    for i, (w2, e2) in enumerate(done):
        if e2['type'] == 58 and e2['binary']:
            bad = cmp.check_set(got[i], e2)
            if bad:
                raise Violation('record %d of %d does not read back: %s' % (i, len(done), bad),
                                witness={'written': w2, 'read': got[i]})
            if e2['ord_data_type'] in (2, 4) and np.any(np.signbit(got[i]['data']) != np.signbit(e2['data'])):
                raise Violation('the sign of a zero is lost', witness=w2)
            ctx.count('sets compared')
        else:
            bad = cmp.same(got[i], refs[i], str(e2['type']))
            if bad:
                raise Violation('a neighbour of a binary record reads differently from alone: %s' % bad,
                                witness={'written': [q for q, _ in done], 'read': got[i]})
            ctx.count('neighbours compared')
    ctx.seen(api.slurp(path))
    if ctx.sample is None:
        ctx.sample = {'record': trip.features(e), 'payload bytes': len(want), 'spells structure': e['_spelled'],
                      'file': [e2['type'] for _, e2 in done]}


def foreign_order(ctx):
    """Files in either byte order, made by the independent encoder."""
    rng = ctx.rng
    sets, styles = [], []
    data = b''
    style0 = dict(eol='\r\n' if rng.random() < 0.4 else '\n', pad=bool(rng.random() < 0.4))
    for _ in range(int(rng.integers(1, 4))):
        kind = 58 if rng.random() < 0.7 else gen.KINDS[int(rng.integers(len(gen.KINDS)))]
        _, e = gen.make(rng, kind, ascii_only=True, **({'binary': True} if kind == 58 else {}))
        style = spec.Style(byte_order='<>'[int(rng.integers(2))], **style0)
        data += spec.encode_set(e, style)
        sets.append((e, style.byte_order))
    path = ctx.path()
    api.spill(path, data)
    want = spec.decode(data)
    got = api.read_all(path)
    if len(got) != len(want):
        raise Violation('the file has %d sets, %d were found' % (len(want), len(got)), witness=data)
    for i, (e, order) in enumerate(sets):
        if not (e['type'] == 58 and e['binary']):
            continue
        for k in ('x', 'data', 'n_bytes', 'byte_ordering', 'num_pts', 'ord_data_type'):
            w = want[i][k]
            tol = 0
            if k == 'x' and e['abscissa_spacing']:
                tol = ('abs', 1e-13 * (np.abs(w) + abs(want[i]['abscissa_min']) +
                                       abs(want[i]['abscissa_inc']) * np.arange(len(w))))
            bad = cmp.differ(got[i].get(k), w, tol, 'record %d (%s endian), %s' % (i, 'big' if order == '>' else 'little', k))
            if bad:
                raise Violation(bad, witness={'file': data, 'read': got[i]})
        ctx.count('big endian records read' if order == '>' else 'little endian records read')
    ctx.seen(data)
