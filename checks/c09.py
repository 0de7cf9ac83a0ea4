"""See DESIGN.md, C09."""
import numpy as np

from mon import api, gen, spec
from mon.core import Violation

RULE = ('files of 0..7 (some of up to 149) sets of any type (supported or not, text or binary, either line end, padded or not, with '
        'fields of value -1 at the end of records, texts and payloads that spell delimiters), written by the package '
        'and by an independent encoder; number, types, formats and the type of every set read are compared with the '
        'list the file was made of; distinct = distinct file contents')
CASES = {'quick': 8000, 'thorough': 250000}
REQUIRED = {'files indexed': 7900, 'binary sets': 3000, 'unsupported sets': 500, 'empty files': 50, 'files of many sets': 30,
            'delimiter-like content': 5000, 'sets across the end of a block': 100, 'sets read one by one': 10000}


def minus_ones(rng):
    """Sets whose records end with fields of value -1 or texts that end like a delimiter."""
    k = int(rng.integers(7))
    r = gen.R(rng, ascii_only=True)
    tail = 'x' * 74 + '    -1'
    if k == 0:
        n = r.count(17)
        w, e = gen.make(rng, 82, ascii_only=True)
        nodes = np.array([-1] * n)
        w = {'type': 82, 'trace_num': -1, 'color': -1, 'id': tail, 'nodes': nodes}
        e = {'type': 82, 'trace_num': -1, 'color': -1, 'id': tail, 'nodes': nodes, 'n_nodes': n}
    elif k == 1:
        w, e = gen.make(rng, 2411, ascii_only=True)
        for q in ('node_nums', 'def_cs', 'disp_cs', 'color'):
            w[q] = e[q] = [-1] * len(e['x'])
    elif k == 2:
        w, e = gen.make(rng, 2412, ascii_only=True, legacy=False)
        for d in (w, e):
            for kind in [q for q in d if isinstance(q, int)]:
                for el in d[kind]:
                    el['nodes_nums'] = [-1] * el['num_nodes']
                    if 'beam_orientation' in el:
                        el['beam_aftend_cross'] = -1
    elif k == 3:
        kind = r.pick((2429, 2467))
        w, e = gen.make(rng, kind, ascii_only=True)
        for d in (w, e):
            for g in d['groups']:
                for q in ('entity_type_code', 'entity_tag', 'entity_node_leaf_id', 'entity_component_id'):
                    if q in g:
                        g[q] = [-1] * len(g[q])
    elif k == 4:
        w, e = gen.make(rng, 58, ascii_only=True)
        for i in range(1, 6):
            w['id%d' % i] = e['id%d' % i] = tail
        w['ref_dir'] = e['ref_dir'] = -1
    elif k == 5:
        w, e = gen.make(rng, 2414, ascii_only=True)
        for i in range(1, 6):
            w['id%d' % i] = e['id%d' % i] = r.pick((tail, '-1', 'x    -1'))
        if e['analysis_type'] == 5:
            w['frequency_number'] = e['frequency_number'] = w['number_retained'] = e['number_retained'] = -1
            if 'node_nums' in e:
                w['node_nums'] = e['node_nums'] = np.full(len(e['node_nums']), -1)
    else:
        w, e = gen.make(rng, 151, ascii_only=True)
        for q in ('model_name', 'description', 'db_app', 'program'):
            w[q] = e[q] = r.pick((tail, '-1', '58', 'x    -1', '-1    -1'))
        w['file_type'] = e['file_type'] = -1
    return w, e


def moved(rng, sets, st):
    """The file with one more set, of a type that is not supported, which moves one of the others."""
    at = int(rng.integers(len(sets)))
    plain = spec.Style(eol=st.eol)
    parts = [spec.encode_set(d, st) for d in sets]
    more = {'type': gen.UNSUPPORTED[int(rng.integers(len(gen.UNSUPPORTED)))], 'lines': []}
    n = len(spec.encode_set(more, plain))
    if rng.random() < 0.5:
        need = gen.to_block(rng, sum(map(len, parts[:at])) + n, len(parts[at]))
    else:                       # that set itself has a round size
        need = gen.to_block(rng, n, 0)
    width = 72 + len(st.eol)
    more['lines'] = ['made to fill it'.ljust(72, 'x')] * (need // width)
    if need % width:
        more['lines'].append('y' * max(0, need % width - len(st.eol)))
    sets.insert(at, more)
    parts.insert(at, spec.encode_set(more, plain))
    data = b''.join(parts)
    return data if st.final_eol else data[:-len(st.eol)]


def case(ctx):
    rng = ctx.rng
    path = ctx.path()
    n = int(rng.integers(0, 8)) if rng.random() < 0.9 else 0
    if rng.random() < 0.01:
        n = int(rng.integers(12, 150))
        ctx.count('files of many sets')
    plan = []
    for _ in range(n):
        c = rng.random()
        if c < 0.3:
            plan.append(gen.make(rng, 58, binary=True, ascii_only=True))
        elif c < 0.6:
            plan.append(minus_ones(rng))
        else:
            plan.append(gen.make(rng, gen.KINDS[int(rng.integers(len(gen.KINDS)))], ascii_only=True))
    if rng.random() < 0.55:         # another program
        st = gen.style(rng)
        sets = []
        for _, e in plan:
            if rng.random() < 0.15:
                sets.append(gen.foreign(rng))
            sets.append(e)
        if sets and rng.random() < 0.1:
            data = moved(rng, sets, st)
            ctx.count('sets across the end of a block')
        else:
            data = spec.encode(sets, st) if sets else b''
        if not sets and rng.random() < 0.5:
            data = gen.R(rng).pick((b'', b'\n', b'no data-sets here\n', b'    -1', b'    -1\n    58\n'))
        api.spill(path, data)
        ctx.count('files of another encoder')
    else:
        sets = []
        u = api.opened(rng, path) if rng.random() < 0.5 else None
        for w, e in plan:
            api.write(path, w, 'add', api.fd(e), uff=u)
            sets.append(e)
            if rng.random() < 0.1:      # not written
                api.write(path, {'type': 9999}, 'add', uff=u)
        data = api.slurp(path) if plan else b''
        if not plan:
            api.spill(path, b'')
    types = [e['type'] for e in sets]
    formats = [int(bool(e.get('binary'))) for e in sets]
    u = api.must('opening the file', api.pyuff.UFF, path)
    if rng.random() < 0.3:
        api.must('refresh', u.refresh)
    got_n, got_t, got_f = (api.must(f.__name__, f) for f in (u.get_n_sets, u.get_set_types, u.get_set_formats))
    witness = {'file': data, 'types': types}
    if got_n != len(types):
        raise Violation('the file has %d sets (%r), %d are reported' % (len(types), types, got_n), witness=witness)
    if [int(t) for t in got_t] != types:
        raise Violation('the file has types %r, %r are reported' % (types, list(got_t)), witness=witness)
    if [int(f) for f in got_f] != formats:
        raise Violation('the file has formats %r, %r are reported' % (formats, list(got_f)), witness=witness)
    for i in range(len(types)):
        d = api.must('reading set %d of %r' % (i, types), u.read_sets, i)
        if not isinstance(d, dict) or d.get('type') != types[i]:
            raise Violation('set %d of %r is read as type %r' % (
                i, types, d.get('type') if isinstance(d, dict) else d), witness=witness)
        if types[i] == 58 and d.get('binary') != formats[i]:
            raise Violation('set %d is read with binary=%r' % (i, d.get('binary')), witness=witness)
        ctx.count('sets read one by one')
    ctx.count('files indexed')
    ctx.count('binary sets', sum(formats))
    ctx.count('unsupported sets', sum('lines' in e for e in sets))
    ctx.count('empty files', not types)
    ctx.count('delimiter-like content', data.count(b'    -1') - 2 * len(types) if types else 0)
    ctx.seen(data)
    if ctx.sample is None:
        ctx.sample = {'types': types, 'formats': formats, 'bytes': len(data)}
