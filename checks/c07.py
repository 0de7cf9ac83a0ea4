"""See DESIGN.md, C07."""
from mon import api, cmp, gen, spec, trip
from mon.core import Violation

RULE = ('generated data-sets of all writable types (values within the documented ranges) written by the package and '
        'decoded by an independent reader strictly by the published columns; every value compared with what was '
        'given; distinct = distinct file contents')
CASES = {'quick': 9000, 'thorough': 300000}
REQUIRED = {'sets decoded': 9000, 'records': 50000, 'starts of texts': 20000, 'unsupported sets ignored': 300}


LINES = ('id', 'id1', 'id2', 'id3', 'id4', 'id5', 'model_name', 'description', 'db_app', 'program', 'entity_name',
         'part_number', 'analysis_dataset_name', 'Part_Name')


def texts(got, w):
    """(field, decoded, given) for texts that have a line of their own."""
    for k in LINES:
        if isinstance(w.get(k), str):
            yield k, got[k], w[k]
    for k in ('cs_name', 'CS_names'):
        for g, t in zip(got.get(k, ()), w.get(k, ())):
            yield k, g, str(t)
    for g, t in zip(got.get('groups', ()), w.get('groups', ())):
        yield 'group_name', g['group_name'], t['group_name']


def frame(data, witness):
    """The delimiters and the type lines stand in their columns."""
    for start, end, kind, _, _ in spec.blocks(data):
        first, second = data[start:end].split(b'\n', 2)[:2]
        if first.rstrip() != b'    -1' or second[:6] != b'%6d' % kind or \
                data[start:end].rstrip()[-6:] != b'    -1':
            raise Violation('a set of type %d starts with %r, %r and ends with %r' % (
                kind, first, second[:20], data[start:end][-20:]), witness=witness)


def case(ctx):
    rng = ctx.rng
    r = gen.R(rng)
    sets = api.some_sets(ctx, int(rng.integers(1, 4)), ascii_only=rng.random() < 0.8, big=0.004)
    path = ctx.path()
    done = []
    if rng.random() < 0.3 and len({api.fd(e) for _, e in sets}) == 1:
        api.write(path, [w for w, _ in sets], 'overwrite', api.fd(sets[0][1]))
        done = sets
    else:
        for w, e in sets:
            api.write(path, w, 'add' if done else r.pick(('add', 'overwrite')), api.fd(e))
            done.append((w, e))
            if rng.random() < 0.1:
                before = api.slurp(path)
                api.write(path, {'type': r.pick(gen.UNSUPPORTED), 'data': [1.0]}, 'add')
                if api.slurp(path) != before:
                    raise Violation('something was written for a data-set that is not supported',
                                    witness=api.slurp(path)[len(before):])
                ctx.count('unsupported sets ignored')
    data = api.slurp(path)
    witness = {'written': [w for w, _ in done], 'file': data}
    try:
        got = spec.decode(data)
    except spec.BadLayout as b:
        raise Violation('the file does not follow the published layout: %s' % b, witness=witness)
    if [d['type'] for d in got] != [e['type'] for _, e in done]:
        raise Violation('the file holds sets %r instead of %r' % ([d['type'] for d in got], [e['type'] for _, e in done]),
                        witness=witness)
    frame(data, witness)
    for i, (w, e) in enumerate(done):
        bad = cmp.check_set(got[i], e, read=False)
        if bad:
            raise Violation('by the published columns, set %d is not what was written: %s' % (i, bad), witness=witness)
        for what, g, t in texts(got[i], w):
            lead = len(t) - len(t.lstrip(' ')) if t.strip() else 0
            if g.lead != lead:
                raise Violation('set %d (%d): %s starts in column %d of its field instead of %d' % (
                    i, e['type'], what, g.lead + 1, lead + 1), witness=witness)
            ctx.count('starts of texts')
        ctx.count('sets decoded')
        ctx.count(trip.features(e))
    ctx.count('records', data.count(b'\n'))
    ctx.seen(data)
    if ctx.sample is None:
        ctx.sample = {'sets': [trip.features(e) for _, e in done], 'bytes': len(data)}
