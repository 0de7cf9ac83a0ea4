"""See DESIGN.md, C16."""
import copy

import numpy as np

from mon import api, cmp, gen
from mon.core import Violation
from mon.mon import equal

RULE = ('every prepare helper x every argument alone and among others: all codes of a list, boundary values and '
        'arrays within its restriction are given and must come back unchanged, values that break the restriction '
        'must be refused; complete prepared sets are written and read back; distinct = distinct (helper, arguments '
        'given, kinds of values)')
CASES = {'quick': 12000, 'thorough': 400000}
REQUIRED = {'accepted calls': 9000, 'values compared': 40000, 'refused calls': 4000, 'prepared sets read back': 1500,
            'points': 1000, 'full dictionaries': 1000}

# what an argument is restricted to:
# T text, I integer or integers, i integer, R real or reals, r real, N numbers, C(...) codes, F free
T, I, i, R, r, N, F = 'T', 'I', 'i', 'R', 'r', 'N', 'F'


def C(*codes):
    return ('C',) + codes


def upto(n):
    return C(*range(n))


ID5 = {'id%d' % q: T for q in range(1, 6)}
NODES = {'node_nums': 'Is', 'def_cs': 'Is', 'disp_cs': 'Is', 'color': 'Is', 'x': 'Rs', 'y': 'Rs', 'z': 'Rs'}


def _axis(a):
    return {a + '_spec_data_type': upto(21), a + '_len_unit_exp': I, a + '_force_unit_exp': I,
            a + '_temp_unit_exp': I, a + '_axis_units_lab': T}


P = api.pyuff
HELPERS = {
    15: (P.prepare_15, NODES),
    18: (P.prepare_18, {k: F for k in ('cs_num', 'cs_type', 'ref_cs_num', 'color', 'method', 'cs_name', 'ref_o',
                                       'x_point', 'xz_point')}),
    55: (P.prepare_55, dict(ID5, model_type=upto(4), analysis_type=C(2, 3, 5, 7), data_ch=upto(6),
                            spec_data_type=upto(19), data_type=C(2, 5), n_data_per_node=I,
                            r1='Ns', r2='Ns', r3='Ns', r4='Ns', r5='Ns', r6='Ns', load_case=i, mode_n=i, freq=R,
                            modal_m=F, modal_damp_vis=r, modal_damp_his=r, eig=N, modal_a=N, modal_b=N, freq_step_n=i,
                            node_nums='Is')),
    58: (P.prepare_58, dict(ID5, binary=C(0, 1), func_type=upto(28), ver_num=I, load_case_id=I, rsp_ent_name=T,
                            rsp_node=I, rsp_dir=C(*range(-6, 7)), ref_ent_name=T, ref_node=I,
                            ref_dir=C(*range(-6, 7)), ord_data_type=C(2, 4, 5, 6), num_pts=I, abscissa_spacing=C(0, 1),
                            abscissa_min=R, abscissa_inc=R, z_axis_value=R, data='RNs', x=F, spec_data_type=F,
                            byte_ordering=F, fp_format=F, n_ascii_lines=F, n_bytes=F,
                            **{k: v for a in ('abscissa', 'ordinate', 'orddenom', 'z_axis')
                               for k, v in _axis(a).items()})),
    82: (P.prepare_82, dict(trace_num=I, n_nodes=I, color=I, id=T, nodes='Is')),
    151: (P.prepare_151, dict({k: T for k in ('model_name', 'description', 'db_app', 'date_db_created',
                                              'time_db_created', 'date_db_saved', 'time_db_saved', 'program',
                                              'date_db_written', 'time_db_written')},
                              version_db1=I, version_db2=I, file_type=upto(3))),
    164: (P.prepare_164, dict(units_code=upto(10), units_description=T, temp_mode=C(1, 2), length=r, force=r, temp=r,
                              temp_offset=r)),
    1858: (P.prepare_1858, dict(
        {k: I for k in ('record_num', 'octave_format', 'measurement_run', 'weighting_type', 'window_type',
                        'amplitude_units', 'normalization_method', 'abscissa_data_type_qualifier',
                        'ordinate_numerator_data_type_qualifier', 'ordinate_denominator_data_type_qualifier',
                        'z_axis_data_type_qualifier', 'sampling_type')},
        **{k: R for k in ('z_rpm_value', 'z_time_value', 'z_order_value', 'num_of_samples', 'user_value_1',
                          'user_value_2', 'user_value_3', 'user_value_4', 'exponential_window_damping_factor')},
        response_direction=T, reference_direction=T)),
    2400: (P.prepare_2400, dict(
        {k: I for k in ('model_uid', 'entity_type', 'entity_subtype', 'version_number', 'idm_version_id',
                        'idm_item_id', 'primary_parent_uid', 'optimization_switches')},
        entity_name=T, part_number=T, date=T, time=T, status_mask='I32')),
    2411: (P.prepare_2411, NODES),
    2412: (P.prepare_2412, dict({k: 'Is' for k in ('element_nums', 'fe_descriptor', 'phys_table', 'mat_table', 'color',
                                                   'num_nodes', 'beam_orientation', 'beam_foreend_cross',
                                                   'beam_aftend_cross')}, nodes_nums='I2')),
    2414: (P.prepare_2414, dict(
        ID5, analysis_dataset_label=I, analysis_dataset_name=T, dataset_location=C(1, 2, 3, 5), model_type=upto(4),
        analysis_type=C(0, 1, 2, 3, 4, 5, 6, 7, 9), data_characteristic=C(0, 1, 2, 3, 4, 6), result_type=i,
        data_type=C(1, 2, 4, 5, 6), number_of_data_values_for_the_data_component=I,
        **{k: I for k in ('design_set_id', 'iteration_number', 'solution_set_id', 'boundary_condition', 'load_set',
                          'mode_number', 'time_step_number', 'frequency_number', 'creation_option',
                          'number_retained')},
        **{k: R for k in ('time', 'frequency', 'eigenvalue', 'modal_mass', 'viscous_damping', 'hysteretic_damping',
                          'real_part_eigenvalue', 'imaginary_part_eigenvalue', 'real_part_of_modal_A_or_modal_mass',
                          'imaginary_part_of_modal_A_or_modal_mass', 'real_part_of_modal_B_or_modal_mass',
                          'imaginary_part_of_modal_B_or_modal_mass', 'd')},
        node_nums='Is', x='RNs', y='RNs', z='RNs')),
    2420: (P.prepare_2420, dict(Part_UID=I, Part_Name=T, CS_sys_labels='Is', CS_types=('Cs', 0, 1, 2), CS_colors='Is',
                                CS_names='Ts', CS_matrices='Rm')),
}
GROUP = dict({k: 'i+' for k in ('group_number', 'active_constraint_set_no_for_group',
                                'active_restraint_set_no_for_group', 'active_load_set_no_for_group',
                                'active_dof_set_no_for_group', 'active_temperature_set_no_for_group',
                                'active_contact_set_no_for_group')}, group_name='T+')


def _group_helper(kind):
    if kind == 2429:
        return P.prepare_2429, P.prepare_group, ('entity_type_code', 'entity_tag')
    from pyuff.datasets.dataset_2467 import prepare_group
    return P.prepare_2467, prepare_group, ('entity_type_code', 'entity_tag', 'entity_node_leaf_id',
                                           'entity_component_id')


# ------------------------------------------------------------------ values
def good(g, want, code=None):
    """A value within the restriction, sometimes held in another type of NumPy."""
    v = within(g, want, code)
    return held(g, v) if g.p(0.25) else v


def held(g, v):
    """The value in another NumPy type: sizes of numbers, byte order, texts of an array."""
    if isinstance(v, str):
        return np.str_(v)
    if isinstance(v, bool) or not isinstance(v, (int, float, np.ndarray)):
        return v
    a = np.asarray(v)
    if a.dtype.kind == 'i':
        top = max(abs(int(a.max())), abs(int(a.min()))) if a.size else 0
        kinds = [k for k in 'bhilBHIL' if top <= np.iinfo(k).max and (k in 'bhil' or not a.size or a.min() >= 0)]
    elif a.dtype.kind == 'f':
        kinds = [k for k in 'efdg' if k in 'dg' or not a.size or np.all(np.abs(a) < np.finfo(k).max)]
    else:
        return v
    a = a.astype(g.pick(kinds))
    if a.ndim == 0:
        return a[()]
    return a.astype(a.dtype.newbyteorder()) if g.p(0.2) else a


def within(g, want, code=None):
    tag = want[0] if isinstance(want, tuple) else want
    n = g.count(4)
    if tag in ('T', 'T+'):
        return g.text(g.pick((4, 10, 20, 80) if tag == 'T' else (4, 40)), blank=tag == 'T', over=False)
    if tag in ('I', 'i'):
        return g.int(10)
    if tag == 'i+':
        return g.int(9, neg=False)
    if tag in ('R', 'r'):
        return g.real()
    if tag == 'N':
        return g.pick((g.real(), complex(g.real(), g.real()), g.int(5)))
    if tag == 'C':
        return code if code is not None else g.pick(want[1:])
    if tag == 'Cs':
        v = [g.pick(want[1:]) for _ in range(n)]
        if code is not None:
            v[-1] = code
        return g.seq(v)
    if tag == 'Is':
        return g.pick((g.seq(g.ints(n)), tuple(g.ints(n).tolist()), g.ints(n)))
    if tag == 'I2':
        return g.seq(g.ints(4 * n).reshape(n, 4))
    if tag == 'I32':
        return [g.int(2) for _ in range(32)]
    if tag == 'Rs':
        return g.seq(g.reals(n))
    if tag == 'Rm':
        return g.pick((g.reals(12 * n).reshape(n, 4, 3), [g.reals(12).reshape(4, 3) for _ in range(n)]))
    if tag == 'RNs':
        return g.pick((g.seq(g.reals(n)), g.seq(g.complexes(n))))
    if tag == 'Ns':
        return g.pick((g.seq(g.reals(n)), g.seq(g.complexes(n)), g.seq(g.ints(n))))
    if tag == 'Ts':
        v = [g.text(20) for _ in range(n)]
        return g.pick((v, np.array(v)))
    if tag == 'F':
        return g.pick((g.int(), g.real(), g.text(9), g.seq(g.reals(n)), g.seq(g.ints(n))))
    raise AssertionError(want)


def each(name, *values):
    return [(name, v) for v in values]


def wrong(g, want):
    """[(name, value)] that break the restriction; also the values that count as false."""
    tag = want[0] if isinstance(want, tuple) else want
    text, texts = each('text', '7', 'a', ''), each('texts', ['1', '2'], np.array(['a', 'b']), ('1',), [1, 'a'])
    real = each('real', 1.5, -0.25, 0.0, 1e9 + .5)
    reals = each('reals', [1.5, 2.0], np.array([0.5, 2.]), [0.0], (1, 2.5), np.array([1.5], 'f4'))
    cplx = each('complex', 1 + 2j, 0j)
    integer, ints = each('integer', 7, 0, -1), each('integers', [1, 2], np.array([3, 4]), [0], (1, 2))
    if tag == 'T':
        return integer + real + ints + each('bytes', b'abc', b'') + each('list', ['a', 'b'])
    if tag == 'T+':
        return integer + real + each('empty text', '') + each('list', ['a'])
    if tag in ('I', 'Is', 'I2'):
        return text + texts + real + reals + cplx
    if tag == 'i':
        return text + real + ints + cplx
    if tag == 'i+':
        return text + real + each('negative', -1, -g.label(5))
    if tag == 'R':
        return text + texts + integer + ints + cplx
    if tag == 'r':
        return text + integer + cplx + each('list', [1.5])
    if tag in ('Rs', 'Rm'):
        return text + texts + ints + cplx + each('complexes', np.array([1j, 2.0]))
    if tag in ('N', 'Ns'):
        return text + texts
    if tag == 'RNs':
        return text + texts + ints
    if tag == 'C':
        codes = want[1:]
        out = [q for q in sorted({-1, 0, 3, 8, 99, min(codes) - 1, max(codes) + 1, 10 ** 6}) if q not in codes]
        gaps = [q for q in range(min(codes), max(codes)) if q not in codes]
        return each('no code', *out) + each('a code left out', *gaps) + text + each('between codes', 1.5)
    if tag == 'Cs':
        codes = [0, 3, 1], [0, -1, 1], [0, 9, 1], [1, 0, 3], [7]
        return each('a list with a wrong code', *codes) + each('a tuple with a wrong code', *map(tuple, codes)) + \
            each('an array with a wrong code', *map(np.array, codes)) + texts
    if tag == 'Ts':
        return integer + each('a number among texts', ['a', 1, 'b']) + each('numbers', [1, 2]) + \
            each('number array', np.array([1, 2]))
    if tag == 'I32':
        return each('31 values', [0] * 31) + each('33 values', [0] * 33) + each('none', []) + integer
    return []


POINTS = [(k, a, q) for k, (_, args) in HELPERS.items() for a, want in args.items()
          for q in (range(len(want) - 1) if isinstance(want, tuple) else range(1))] + \
         [(k, a, 'wrong %d' % q) for k, (_, args) in HELPERS.items() for a, want in args.items()
          for q in range(len(wrong(gen.R(np.random.default_rng(1)), want)))] + \
         [(k, a, 'group') for k in (2429, 2467) for a in tuple(GROUP) + _group_helper(k)[2]] + \
         [(k, a, 'group wrong %d' % q) for k in (2429, 2467) for a in tuple(GROUP) + _group_helper(k)[2]
          for q in range(len(wrong(gen.R(np.random.default_rng(1)), GROUP.get(a, 'Is'))))]


def holds(what, d, given, every, full, kind, witness):
    if type(d) is not dict:
        raise Violation('%s returned %s' % (what, type(d).__name__), witness=witness)
    if kind is not None and d.get('type') != kind:
        raise Violation('%s returned a set of type %r' % (what, d.get('type')), witness=witness)
    keys = set(every if full else given) | ({'type'} if kind is not None else set())
    if set(d) != keys:
        raise Violation('%s returned a dictionary with%s%s' % (
            what, ' surplus %r' % sorted(set(d) - keys) if set(d) - keys else '',
            ' missing %r' % sorted(keys - set(d)) if keys - set(d) else ''), witness=witness)
    for k in every:
        if k in given:
            if not equal(d[k], given[k]) or isinstance(d[k], bool) != isinstance(given[k], bool):
                raise Violation('%s: %s is %r in the dictionary' % (what, k, d[k]), witness=witness)
        elif full and d[k] is not None:
            raise Violation('%s: %s was not given and is %r in the full dictionary' % (what, k, d[k]), witness=witness)


def call(ctx, fn, name, given, full, kind, every, must_fail=None):
    kept = copy.deepcopy(given)
    args = dict(given)
    if full is not None:
        args['return_full_dict'] = full
    for k in every:
        if k not in given and ctx.rng.random() < 0.05 and kind is not None and k != 'groups':
            args[k] = None
    d, err = api.attempt(fn, **args)
    what = '%s(%s)' % (name, ', '.join(sorted(given)))
    witness = {'arguments': kept, 'returned': d, 'error': repr(err)}
    if not equal(kept, given):
        raise Violation('%s changed its arguments' % what, witness=witness)
    if must_fail:
        if err is None:
            raise Violation('%s accepted %s for %s' % (what, must_fail[1], must_fail[0]), witness=witness)
        ctx.count('refused calls')
        return None
    if err is not None:
        raise Violation('%s refused values within its restrictions: %s: %s' % (what, type(err).__name__, err),
                        witness=witness)
    holds(what, d, kept, every, bool(full), kind, witness)
    ctx.count('accepted calls')
    ctx.count('values compared', len(given))
    ctx.count('full dictionaries', bool(full))
    return d


def pick_full(rng):
    c = rng.random()
    return None if c < 0.5 else True if c < 0.75 else False


def fit(g, kind, w, e):
    """Bring a generated set into the restrictions of its helper."""
    fn, args = HELPERS[kind]
    for k in list(w):
        want = args.get(k)
        if isinstance(want, tuple) and want[0] == 'C' and w[k] not in want[1:]:
            w[k] = e[k] = good(g, want)
        if want in ('i', 'I') and isinstance(w[k], float) or want in ('r', 'R') and not isinstance(w[k], float):
            w[k] = (int if want in 'iI' else float)(w[k])
    if kind == 58:
        for k in [k for k in w if k not in args and k != 'type']:
            del w[k]
            e[k] = gen.DEF58.get(k, e.get(k))
        if 'func_id' in e:
            e['func_id'] = w.get('func_id', 0)
        c = np.iscomplexobj(np.asarray(w['data']))
        w['data'] = np.asarray(w['data']).astype(complex if c else float)
    if kind == 2400 and 'status_mask' in w:
        w['status_mask'] = [int(q) for q in w['status_mask']]
    if kind == 151:
        for k in ('date', 'time'):
            if k + '_file_written' in w:
                w[k + '_db_written'] = w.pop(k + '_file_written')
    return w, e


def group_of(g, members):
    d = {k: good(g, w) for k, w in GROUP.items()}
    n = 0 if g.p(0.1) else g.count(9)
    d.update({k: g.seq(g.ints(n)) if n else np.zeros(0, int) for k in members})
    for k in list(d):
        if k.startswith('active') and g.p(0.3):
            del d[k]
    return d


def groups(ctx, g, kind, point):
    whole, one, members = _group_helper(kind)
    full = pick_full(ctx.rng)
    every = list(GROUP) + list(members)
    name = 'prepare_group (%d)' % kind
    made = []
    for _ in range(g.count(3)):
        given = group_of(g, members)
        d, err = api.attempt(one, **dict(given, **({} if full is None else {'return_full_dict': full})))
        what = '%s(%s)' % (name, ', '.join(sorted(given)))
        if err is not None:
            raise Violation('%s refused values within its restrictions: %s' % (what, err), witness=given)
        want = dict({k: 0 for k in every if k.startswith('active')}, **given)
        holds(what, d, want, every, False, None, {'arguments': given, 'returned': d})
        ctx.count('accepted calls')
        ctx.count('values compared', len(want))
        made.append(d)
    given = {'groups': made}
    kept = copy.deepcopy(made)
    d = call(ctx, whole, 'prepare_%d' % kind, given, full, kind, ['groups'])
    if ctx.rng.random() < 0.5:
        path = ctx.path()
        api.write(path, d)
        got = api.read_all(path)
        bad = len(got) != 1 or cmp.check_set(got[0], {'type': kind, 'groups': kept})
        if bad:
            raise Violation('a prepared set of type %d does not read back: %s' % (kind, bad), witness=kept)
        ctx.count('prepared sets read back')
    if point and 'wrong' in point[2]:
        k = point[1]
        ways = wrong(g, GROUP.get(k, 'Is'))
        name2, value = ways[int(point[2].split()[-1])]
        given = dict(group_of(g, members), **{k: value})
        call(ctx, one, name, given, None, None, every, (k, name2))
        # the same inside the set
        made = copy.deepcopy(kept)
        at = int(ctx.rng.integers(0, len(made)))
        made[at][k] = value
        call(ctx, whole, 'prepare_%d' % kind, {'groups': made}, full, kind, ['groups'],
             ('groups[%d][%s]' % (at, k), name2))
    if ctx.rng.random() < 0.1:
        call(ctx, whole, 'prepare_%d' % kind, {'groups': g.pick((made[0], tuple(made), 'a', 1))}, full, kind, ['groups'],
             ('groups', 'something else than a list'))
    ctx.seen(kind, point, [sorted(m) for m in made], full)


def case(ctx):
    g = gen.R(ctx.rng, odd=False)
    rng = ctx.rng
    lap = ctx.index // len(POINTS)
    point = POINTS[ctx.index % len(POINTS)] if not lap or (ctx.index + lap) % 3 else None
    if ctx.index < len(POINTS):
        ctx.count('points')
    kind = point[0] if point else g.pick(tuple(HELPERS) + (2429, 2467))
    if ctx.sample is None:
        ctx.sample = {'helper': kind, 'point': str(point)}
    if kind in (2429, 2467):
        groups(ctx, g, kind, point)
        return
    fn, args = HELPERS[kind]
    full = pick_full(rng)
    name = 'prepare_%d' % kind
    given = {}
    if rng.random() < 0.7:
        share = g.pick((0.1, 0.3, 0.7, 1.0))
        given = {k: good(g, w) for k, w in args.items() if rng.random() < share}
    if point:
        k, q = point[1], point[2]
        if isinstance(q, int):
            want = args[k]
            given[k] = good(g, want, want[1 + q] if isinstance(want, tuple) else None)
            call(ctx, fn, name, {k: given[k]}, None, kind, args)
        else:
            way, value = wrong(g, args[k])[int(q.split()[-1])]
            call(ctx, fn, name, {k: value}, None, kind, args, (k, way))
            call(ctx, fn, name, dict(given, **{k: value}), full, kind, args, (k, way))
            given.pop(k, None)
    call(ctx, fn, name, given, full, kind, args)
    ctx.seen(kind, point, sorted(given), full)
    # a complete set is written and read back
    if kind == 2412:
        w, e = gen.make(rng, 2412, legacy=True, odd=False)
        for q in ('triangle', 'quad'):
            if q in w:
                w[q] = call(ctx, fn, name, dict(w[q]), None, kind, args)
        prepared = w
    else:
        kw = {'loc': 1, 'analysis': 5} if kind == 2414 else {'values': (1, 2, 3, 3, 4, 5, 6, 6)} if kind == 55 else {}
        w, e = gen.make(rng, kind, odd=False, **kw)
        w, e = fit(g, kind, w, e)
        if kind == 2414 and e['analysis_type'] != 5:
            return
        w.pop('type')
        prepared = call(ctx, fn, name, w, None, kind, args)
    path = ctx.path()
    api.write(path, prepared, g.pick(('add', 'overwrite')), api.fd(e))
    got = api.read_all(path)
    bad = '%d sets' % len(got) if len(got) != 1 else cmp.check_set(got[0], e)
    if bad:
        raise Violation('a prepared set of type %d does not read back: %s' % (kind, bad), witness=w)
    ctx.count('prepared sets read back')
