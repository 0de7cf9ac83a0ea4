"""Round trips: what is written is what is read (C01-C06)."""
import copy
import os

from . import api, cmp, gen
from .core import Violation


def features(e):
    k = e['type']
    if k == 58:
        per = (2 if e['ord_data_type'] in (5, 6) else 1) + (1 - e['abscissa_spacing'])
        dbl = e['ord_data_type'] in (4, 6)
        line = 6 if not dbl else (3 if per == 3 else 4)
        return '58%s %s %s %s%s' % ('b' if e['binary'] else '', 'complex' if e['ord_data_type'] in (5, 6) else 'real',
                                    'even' if e['abscissa_spacing'] else 'uneven', 'double' if dbl else 'single',
                                    '' if e['binary'] else ' part-filled' if e['num_pts'] * per % line else ' filled')
    if k == 55:
        return '55 analysis %d %s %d values' % (e['analysis_type'], {2: 'real', 5: 'complex'}[e['data_type']],
                                                e['n_data_per_node'])
    if k == 2414:
        return '2414 %s location %d' % ('response' if 'x' in e else 'named' if e['analysis_type'] == 5 else 'general', e['dataset_location'])
    if k == 2412:
        return '2412 ' + ('beams' if any(isinstance(q, int) and q in (11, 21, 22, 23, 24) for q in e) else 'solids')
    if k in (2429, 2467):
        return '%d %s' % (k, 'with an empty group' if any(g['number_of_entities_in_group'] == 0 for g in e['groups'])
                          else 'full groups')
    if k == 82:
        return '82 %s' % ('part-filled' if e['n_nodes'] % 8 else 'filled')
    return str(k)


def trip(ctx, kinds, binary=None, big=0.006, **kw):
    rng = ctx.rng
    mine = [gen.make(rng, kinds[int(rng.integers(len(kinds)))], big=big, huge=True,
                     **dict(kw, **({} if binary is None else {'binary': binary})))
            for _ in range(1 if rng.random() < 0.6 else int(rng.integers(2, 4)))]
    plan = [(w, e, True) for w, e in mine]
    if rng.random() < 0.4:      # other sets before, between and behind
        for _ in range(int(rng.integers(1, 4))):
            w, e = gen.make(rng, gen.KINDS[int(rng.integers(len(gen.KINDS)))])
            plan.insert(int(rng.integers(0, len(plan) + 1)), (w, e, False))
    path = ctx.path()
    if rng.random() < 0.2:
        api.spill(path, b'something else\n')        # replaced by overwriting
    done = []
    same_mode = len({api.fd(e) for _, e, _ in plan}) == 1
    if same_mode and rng.random() < 0.5:
        try:
            api.write(path, [w for w, _, _ in plan], 'overwrite', api.fd(plan[0][1]))
            done = plan
        except Violation:
            if all(m for _, _, m in plan):
                raise
    if not done:
        reuse = api.must('opening the file', api.pyuff.UFF, path) if rng.random() < 0.5 else None
        for i, (w, e, m) in enumerate(plan):
            try:
                api.write(path, w, 'add' if done else 'overwrite', api.fd(e), uff=reuse)
                done.append((w, e, m))
            except Violation:
                if m:
                    raise
    got = api.read_all(path)
    data = api.slurp(path)
    if len(got) != len(done):
        raise Violation('%d sets were written, the file is said to have %d' % (len(done), len(got)),
                        witness=[w for w, _, _ in done])
    for i, (w, e, m) in enumerate(done):
        if not m:
            continue
        bad = cmp.check_set(got[i], e)
        if bad:
            raise Violation('set %d of %d does not read back as it was written: %s' % (i, len(done), bad),
                            witness={'written': w, 'read': got[i]})
        ctx.count('sets compared')
        ctx.count('values compared', _size(e))
        ctx.count(features(e))
        ctx.count('values of a node on an element as a whole',
                  any(len(line) > 6 for v in w.get('data_at_nodes_on_element', ()) for line in v))
        ctx.count('sets of 1000 values or more', _size(e) >= 1000)
        if i:
            ctx.count('behind other sets')
    ctx.seen(data)
    if ctx.sample is None:
        ctx.sample = {'sets': [features(e) for _, e, _ in done], 'bytes': len(data)}
    return path, data, done, got


def _size(v):
    if isinstance(v, dict):
        return sum(_size(q) for k, q in v.items() if not (isinstance(k, str) and k.startswith('_')))
    if isinstance(v, str):
        return 1
    try:
        return sum(_size(q) if not isinstance(q, (int, float, complex)) else 1 for q in v)
    except TypeError:
        return 1
