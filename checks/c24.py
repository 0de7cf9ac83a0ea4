"""See DESIGN.md, C24."""
import functools

from mon import api, cmp, corpus, gen, spec
from mon.core import Violation

RULE = ('files of this package, of other programs in any permitted style and the shipped files are taken apart at their '
        'sets; some of these, in any order, with repeats and with blank and other lines between them, make a new file, '
        'whose index and readings are compared with those that each set had in its own file (and with those of a file '
        'of that set alone); distinct = distinct joined files')
CASES = {'quick': 6000, 'thorough': 250000}
REQUIRED = {'files of many sets': 60, 'files of a thousand sets': 3, 'sets across the end of a block': 300, 'joined files': 5950, 'sets compared': 24000, 'sets of shipped files': 2800, 'joined from several styles': 2800,
            'binary sets': 3000, 'sets read alone': 3200, 'lines between sets': 4000, 'repeated sets': 4000}
BETWEEN = (b'', b'\n', b'\r\n', b'\n\n\n', b'   \n', b' ' * 80 + b'\r\n', b'C comment\n', b'-1\n', b'made by hand\r\n',
           b'         1         2\n', b'-1 -1\n', b'   -1\n', b'    -12\n', b'  0.0    1.0\n')


@functools.lru_cache(None)
def shipped():
    """[(file, set number, bytes, type, format, reading)] of the shipped files, as far as their sets can be told apart."""
    out = []
    for p in corpus.files(400000):
        data = api.slurp(p)
        try:
            bl = spec.blocks(data)
        except spec.BadLayout:
            continue
        u, err = api.attempt(api.pyuff.UFF, p)
        if err or [int(t) for t in u.get_set_types()] != [b[2] for b in bl]:
            continue
        for i, b in enumerate(bl):
            if b[1] - b[0] > 100000 or data[b[1] - 1:b[1]] != b'\n':
                continue
            d, err = api.attempt(u.read_sets, i)
            if err is None:
                out.append(('shipped', data[b[0]:b[1]], b[2], int(b[3]), d))
    return out


def own(ctx):
    plan = [gen.make(ctx.rng, 58, binary=True) if ctx.rng.random() < 0.25 else
            gen.make(ctx.rng, gen.KINDS[int(ctx.rng.integers(len(gen.KINDS)))]) for _ in range(int(ctx.rng.integers(1, 4)))]
    path = ctx.path()
    api.prefile(ctx, path, plan)
    return 'own', path, [(e['type'], int(bool(e.get('binary')))) for _, e in plan]


def other(ctx):
    st = gen.style(ctx.rng, final_eol=True)
    data, es = gen.foreign_file(ctx.rng, st, kinds=gen.KINDS + (58,) * 3)
    path = ctx.path()
    api.spill(path, data)
    return repr(st), path, [(e['type'], int(bool(e.get('binary')))) for e in es]


def parts(ctx, make):
    """The sets of a file that is read as it should be."""
    style, path, want = make(ctx)
    data = api.slurp(path)
    try:
        bl = spec.blocks(data)
    except spec.BadLayout:
        return []               # C07
    u, err = api.attempt(api.pyuff.UFF, path)
    if err or [(b[2], int(b[3])) for b in bl] != want or [int(t) for t in u.get_set_types()] != [t for t, _ in want]:
        return []               # C09
    out = []
    for i, b in enumerate(bl):
        d, err = api.attempt(u.read_sets, i)
        if err is None:         # C08
            out.append((style, data[b[0]:b[1]], b[2], int(b[3]), d))
    return out


def padding(rng, n, size):
    """Lines that move a set so that its first or its last lines cross a round number of bytes."""
    need = gen.to_block(rng, n, size) if rng.random() < 0.7 else gen.to_block(rng, 0, 0)
    if need == 0 or rng.random() < 0.3:
        return b'\n' * need
    line = b'C' + b' comment' * 9 + b'\n'
    return line * (need // len(line)) + (b'C' * (need % len(line)))[:-1] + b'\n' * (need % len(line) > 0)


def how_many(rng):
    c = rng.random()
    return int(rng.integers(1, 9) if c < 0.98 else rng.integers(9, 200) if c < 0.998 else rng.integers(1000, 1500))


def case(ctx):
    rng = ctx.rng
    pool = []
    for _ in range(int(rng.integers(1, 4))):
        pool += parts(ctx, own if rng.random() < 0.4 else other)
    if rng.random() < 0.4 and shipped():
        pool += [shipped()[int(i)] for i in rng.integers(0, len(shipped()), int(rng.integers(1, 4)))]
    if not pool:
        return
    chosen = [pool[int(i)] for i in rng.integers(0, len(pool), how_many(rng))]
    ctx.count('files of many sets', len(chosen) > 8)
    ctx.count('files of a thousand sets', len(chosen) > 999)
    fill = rng.random() < 0.3
    at = int(rng.integers(len(chosen))) if rng.random() < 0.08 else -1
    data = b''
    for i, c in enumerate(chosen):
        if fill and rng.random() < 0.6:
            data += BETWEEN[int(rng.integers(len(BETWEEN)))]
            ctx.count('lines between sets')
        if i == at:
            data += padding(rng, len(data), len(c[1]))
            ctx.count('sets across the end of a block')
        data += c[1]
    if fill and rng.random() < 0.5:
        data += BETWEEN[int(rng.integers(len(BETWEEN)))]
    elif rng.random() < 0.25:
        data = data[:-2] if data.endswith(b'\r\n') else data[:-1]
    path = ctx.path()
    api.spill(path, data)
    witness = {'sets': [(c[2], c[0]) for c in chosen], 'file': data}
    u = api.must('opening', api.pyuff.UFF, path)
    types, formats = [c[2] for c in chosen], [c[3] for c in chosen]
    if u.get_n_sets() != len(chosen) or [int(t) for t in u.get_set_types()] != types:
        raise Violation('the joined sets have types %r, %r are reported' % (types, list(u.get_set_types())), witness=witness)
    if [int(f) for f in u.get_set_formats()] != formats:
        raise Violation('the joined sets have formats %r, %r are reported' % (formats, list(u.get_set_formats())),
                        witness=witness)
    if rng.random() < 0.5:
        got = api.listed(api.must('reading all joined sets', u.read_sets), len(chosen))
    else:
        order = rng.permutation(len(chosen))
        got = [None] * len(chosen)
        for i in order:
            got[int(i)] = api.must('reading joined set %d of type %d' % (i, types[int(i)]), u.read_sets, int(i))
    for i, (c, g) in enumerate(zip(chosen, got)):
        bad = cmp.same(g, c[4], 'set %d' % i)
        if bad:
            raise Violation('a set reads differently in another file: %s' % bad, witness=dict(witness, set=c[1]))
    ctx.count('sets compared', len(chosen))
    if rng.random() < 0.6:
        c = chosen[int(rng.integers(len(chosen)))]
        alone = ctx.path()
        api.spill(alone, c[1])
        v = api.must('opening a set alone', api.pyuff.UFF, alone)
        if v.get_n_sets() != 1 or [int(t) for t in v.get_set_types()] != [c[2]]:
            raise Violation('a set of type %d alone in a file is reported as %r' % (c[2], list(v.get_set_types())),
                            witness=c[1])
        bad = cmp.same(api.must('reading a set alone', v.read_sets), c[4], 'the set')
        if bad:
            raise Violation('a set reads differently alone in a file: %s' % bad, witness=c[1])
        ctx.count('sets read alone')
    ctx.count('joined files')
    ctx.count('sets of shipped files', sum(c[0] == 'shipped' for c in chosen))
    ctx.count('joined from several styles', len({c[0] for c in chosen}) > 1)
    ctx.count('binary sets', sum(formats))
    ctx.count('repeated sets', len(chosen) - len({id(c[1]) for c in chosen}))
    ctx.seen(data)
    if ctx.sample is None:
        ctx.sample = {'types': types, 'styles': sorted({c[0] for c in chosen}), 'bytes': len(data)}
