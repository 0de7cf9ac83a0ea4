"""See DESIGN.md, C18."""
import copy
import os

import numpy as np

from mon import api, cmp, corpus, gen, trip
from mon.core import Violation

RULE = ('all sets of a file (written by the package, by an independent encoder in any permitted style, or shipped) are '
        'read, written to another file (at once or one by one, double precision forced or kept) and read again, over '
        '3..6 generations; every generation is compared exactly with the one before it, keys included; distinct = '
        'distinct first generations')
CASES = {'quick': 5000, 'thorough': 150000}
REQUIRED = {'sets compared': 30000, 'generations': 12000, 'own files': 1500, 'foreign files': 1500,
            'shipped sets compared': 150, 'precision kept': 2000}


def expected(d, force):
    """What a set reads to after it was written again."""
    if d.get('type') != 58 or 'data' not in d:
        return d
    e = dict(d)
    e['num_pts'] = len(d['data'])       # a shipped file was cut short by its author
    c, single = np.iscomplexobj(d['data']), d['ord_data_type'] in (2, 5)
    if force:
        e['ord_data_type'] = 6 if c else 4
    if d['binary']:
        per = (2 if c else 1) + (1 - int(d['abscissa_spacing']))
        e.update(byte_ordering=1, fp_format=2, n_ascii_lines=11,
                 n_bytes=len(d['data']) * per * (4 if single and not force else 8))
    return e


def save(ctx, sets, force, first):
    """A new file with these sets."""
    path = ctx.path()
    rng = ctx.rng
    if rng.random() < 0.5:
        api.write(path, sets if len(sets) > 1 or rng.random() < 0.5 else sets[0], 'overwrite', force)
    else:
        u = api.must('opening', api.pyuff.UFF, path) if rng.random() < 0.5 else None
        for s in sets:
            api.write(path, s, 'add', force, uff=u)
    return path


def generations(ctx, sets, name, count, loose=None, witness=None):
    rng = ctx.rng
    force = bool(rng.random() < 0.5)
    before = sets
    for k in range(count):
        path = save(ctx, before, force, k == 0)
        after = api.read_all(path)
        what = '%s, generation %d (%s)' % (name, k + 1, 'double' if force else 'precision kept')
        if len(after) != len(before):
            raise Violation('%s: %d sets instead of %d' % (what, len(after), len(before)), witness=witness)
        for i, (a, b) in enumerate(zip(after, before)):
            e = expected(b, force)
            if k == 0 and loose:
                bad = loose(a, e)
            else:
                bad = cmp.same(a, e, '%d' % e['type'])
            if bad:
                raise Violation('%s: set %d changed: %s' % (what, i, bad), witness=witness or {'before': b, 'after': a})
            ctx.count('sets compared')
        ctx.count('generations')
        ctx.count('precision kept', not force)
        os.unlink(path)
        before = after
    return before


def shipped(ctx, path, only):
    """Sets of a measurement file, one at a time; its reals can have more digits than the layout has."""
    u = api.must('opening %s' % path, api.pyuff.UFF, path)
    types = u.get_set_types()
    todo = [i for i, t in enumerate(types) if t in gen.KINDS]
    if only is not None:
        todo = [i for k, i in enumerate(todo) if k % 4 == only]
    for i in todo[:40]:
        g0, err = api.attempt(u.read_sets, i)
        if err is not None:
            ctx.count('shipped sets that cannot be read')
            continue
        name = 'set %d of %s' % (i, os.path.basename(path))

        def loose(a, e):
            tol = {'data': 5.1e-6 if e.get('ord_data_type') in (2, 5) else 5.1e-12}
            if e.get('type') == 58 and 'data' in e:
                x = np.asarray(e['x'])
                if e['abscissa_spacing']:
                    tol['x'] = ('abs', 5.1e-6 * (abs(e['abscissa_min']) + abs(e['abscissa_inc']) * np.arange(len(x))) + 1e-300)
                else:
                    tol['x'] = 5.1e-6
            return cmp.differ(a, dict(e, _tol=tol), 5.1e-6, '%d' % e['type'])
        p = ctx.path()
        _, err = api.attempt(lambda: api.pyuff.UFF(p).write_sets(copy.deepcopy(g0), 'overwrite'))
        if os.path.exists(p):
            os.unlink(p)
        if err is not None:
            if g0['type'] == 58 and g0.get('func_type') not in gen.FUNC_TYPES or \
                    g0['type'] == 2414 and g0.get('dataset_location') not in (1, 2, 3):
                ctx.count('shipped sets of a kind that is not written')
                continue
            raise Violation('%s cannot be written again: %s: %s' % (name, type(err).__name__, err), witness=g0)
        generations(ctx, [g0], name, 3, loose)
        ctx.count('shipped sets compared')
    ctx.seen(path, only)


def case(ctx):
    files = corpus.files()
    if ctx.index < 4 * len(files):
        shipped(ctx, files[ctx.index // 4], ctx.index % 4)
        return
    rng = ctx.rng
    path = ctx.path()
    count = int(rng.integers(3, 5)) if ctx.tier == 'quick' else int(rng.integers(3, 7))
    if rng.random() < 0.5:
        sets = api.some_sets(ctx, int(rng.integers(1, 5)), gen.KINDS + (58,) * 4, over=rng.random() < 0.3, big=0.003)
        api.prefile(ctx, path, sets)
        name = 'own'
        ctx.count('own files')
    else:
        st = gen.style(rng)
        data, sets = gen.foreign_file(rng, st, kinds=gen.KINDS + (58,) * 4, unsupported=False, big=0.003)
        api.spill(path, data)
        name = 'foreign (%r)' % st
        ctx.count('foreign files')
    g0 = api.read_all(path)
    generations(ctx, g0, name, count)
    ctx.seen(api.slurp(path))
    if ctx.sample is None:
        ctx.sample = {'file': name, 'sets': [d['type'] for d in g0], 'generations': count}
