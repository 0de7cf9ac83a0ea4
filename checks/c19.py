"""See DESIGN.md, C19."""
import copy

import numpy as np

from mon import api, cmp, corpus, gen
from mon.core import Violation
from mon.mon import equal

RULE = ('lists of 0..7 sets (element sets of quadrilaterals, triangles, beams and solids in any mixture, as read from '
        'files or as given by the two interfaces, between other sets) are converted; every returned trace set is checked '
        'side by side against the quadrilaterals of its element set, then written and read back; distinct = distinct '
        'lists')
CASES = {'quick': 6000, 'thorough': 200000}
REQUIRED = {'lists converted': 6000, 'quadrilaterals': 20000, 'sides': 80000, 'element sets without quadrilaterals': 1500,
            'results read back': 2500, 'lists with several': 800, 'from files': 2000}


def convert(sets):
    from pyuff import tools
    return tools.convert_dataset_2412_to_82(sets)


def elements(ctx):
    """One element set in one of the forms it comes in; its quadrilaterals."""
    rng = ctx.rng
    g = gen.R(rng)
    c = rng.random()
    if c < 0.35:        # by the interface of arrays
        n = g.count(8)
        q = g.ints(4 * n, neg=False).reshape(n, 4)
        d = {'type': 2412, 'quad': {'element_nums': g.ints(n), 'fe_descriptor': np.array([44] * n),
                                    'phys_table': g.ints(n), 'mat_table': g.ints(n), 'color': g.ints(n),
                                    'num_nodes': np.array([4] * n), 'nodes_nums': g.seq(q)}}
        if g.p(0.3):
            d['triangle'] = {'nodes_nums': g.seq(g.ints(3 * n).reshape(n, 3)), 'element_nums': g.ints(n)}
        if g.p(0.1):
            d['quad'] = {'nodes_nums': d['quad']['nodes_nums']}
        return d, q.tolist()
    w, e = gen.make(rng, 2412, legacy=False)
    if g.p(0.6):        # with quadrilaterals
        quads = [gen.element(g, 44, [g.label() for _ in range(4)]) for _ in range(g.count(6))]
        for x in quads:
            x['num_nodes'] = 4
        w = {k: v for k, v in w.items() if isinstance(k, int) and k != 44}
        w[44] = quads
        w['type'] = 2412
        if g.p(0.5):
            w = dict(sorted(((k, v) for k, v in w.items() if k != 'type'), reverse=True), type=2412)
    else:
        w = {k: v for k, v in w.items() if k not in (44, 'quad')}
        if not any(isinstance(k, int) for k in w):
            w[41] = [gen.element(g, 41)]
    p = ctx.path()
    api.write(p, w, 'overwrite')
    d = api.read_all(p)[0]
    ctx.count('from files')
    return d, [list(map(int, x['nodes_nums'])) for x in w.get(44, [])]


def check(ctx, sets, quads, witness):
    got, err = api.attempt(convert, sets)
    if err is not None:
        raise Violation('the conversion raised %s: %s' % (type(err).__name__, err), witness=witness)
    want = [i for i, q in enumerate(quads) if q is not None and (q or 'quad' in sets[i])]
    if not isinstance(got, list) or len(got) != len(want):
        raise Violation('%s trace sets for %d sets of quadrilaterals' % (
            len(got) if hasattr(got, '__len__') else got, len(want)), witness=witness)
    for t, i in zip(got, want):
        if t.get('type') != 82:
            raise Violation('a set of type %r was made' % t.get('type'), witness=witness)
        nodes = np.asarray(t['nodes']).tolist()
        if nodes != [int(v) for v in nodes]:
            raise Violation('nodes are no integers', witness=witness)
        expect = []
        for a, b, c, d in quads[i]:
            expect += [a, b, 0, b, c, 0, c, d, 0, d, a, 0]
        if nodes != expect:
            k = next((k for k in range(min(len(nodes), len(expect))) if nodes[k] != expect[k]), min(len(nodes), len(expect)))
            raise Violation('set %d: entry %d of its trace line (%d entries, side %d of quadrilateral %d) is %r instead of %r' % (
                i, k, len(nodes), k % 12 // 3 + 1, k // 12, nodes[k:k + 3], expect[k:k + 3]), witness=witness)
        if t['n_nodes'] != len(nodes):
            raise Violation('set %d: the number of nodes is %r, there are %d' % (i, t['n_nodes'], len(nodes)), witness=witness)
        if t['trace_num'] != i:
            raise Violation('set %d: the trace number is %r' % (i, t['trace_num']), witness=witness)
        ctx.count('quadrilaterals', len(quads[i]))
        ctx.count('sides', 4 * len(quads[i]))
    return got


def case(ctx):
    rng = ctx.rng
    g = gen.R(rng)
    sets, quads = [], []
    files = [p for p in corpus.files() if '2412' in p]
    if ctx.index < len(files):
        sets = api.read_all(files[ctx.index])
        for d in sets:
            quads.append(None if d['type'] != 2412 else [list(map(int, x['nodes_nums'])) for x in d.get(44, [])])
    else:
        for _ in range(int(rng.integers(0, 8))):
            if rng.random() < 0.3:
                w, e = gen.make(rng, g.pick([k for k in gen.KINDS if k != 2412]))
                sets.append(w)
                quads.append(None)
            else:
                d, q = elements(ctx)
                sets.append(d)
                quads.append(q)
    kept = copy.deepcopy(sets)
    witness = {'sets': kept}
    got = check(ctx, sets, quads, witness)
    if not all(equal(a, b) for a, b in zip(sets, kept)) or len(sets) != len(kept):
        raise Violation('the conversion changed the given sets', witness=witness)
    again = check(ctx, sets, quads, witness)
    if not all(equal(a, b) for a, b in zip(got, again)):
        raise Violation('converting again gives something else', witness=witness)
    has = [q for q in quads if q]
    ctx.count('element sets without quadrilaterals', sum(1 for q in quads if q is not None and not q))
    ctx.count('lists with several', len(has) > 1)
    ctx.count('lists converted')
    if got and all(quads[i] for i in range(len(sets)) if quads[i] is not None and 'quad' in sets[i]):
        path = ctx.path()
        if rng.random() < 0.5:
            api.write(path, got, 'overwrite')
        else:
            for t in got:
                api.write(path, t)
        back = api.read_all(path)
        if len(back) != len(got):
            raise Violation('%d of %d trace sets are read back' % (len(back), len(got)), witness=witness)
        for a, b in zip(back, again):
            bad = cmp.differ(a, {'type': 82, 'trace_num': b['trace_num'], 'n_nodes': b['n_nodes'], 'nodes': b['nodes'],
                                 'color': b['color'], 'id': b['id'].strip()}, 0, '82')
            if bad:
                raise Violation('a trace set does not read back: %s' % bad, witness=witness)
            ctx.count('results read back')
    ctx.seen([(d['type'], q) for d, q in zip(sets, quads)])
    if ctx.sample is None:
        ctx.sample = {'sets': [d['type'] for d in sets], 'quadrilaterals': [None if q is None else len(q) for q in quads]}
