"""See DESIGN.md, C14."""
import copy
import os
import resource

import numpy as np

from mon import api, cmp, gen, spec
from mon.core import Violation, quiet

LEVEL = 'fault_enumeration'
RULE = ('every required field of every type removed, every numeric field made unusable, dependent arrays cut short, the '
        'type removed, text that cannot be encoded, other rubbish, an unwritable path, and writes cut short by a file '
        'size limit: each on absent, empty, own and foreign files, in both modes and every list position; after it the '
        'bytes and readings are compared with those before and with the preceding sets of the call, and a correct '
        'write follows; distinct = distinct (type, field, fault, mode, position, prior content)')
CASES = {'quick': 8000, 'thorough': 200000}

# fields that a set of the type cannot be written without ('.' leads into an element or group)
NEEDED = {
    15: 'node_nums x y z',
    18: 'cs_num ref_cs_num ref_o x_point xz_point',
    55: 'analysis_type data_ch spec_data_type load_case mode_n freq freq_step_n eig node_nums r1 r2 r3',
    58: 'rsp_node ref_node func_type rsp_dir ref_dir x data',
    82: 'trace_num nodes',
    151: 'model_name description db_app program',
    164: 'units_code length force temp temp_offset',
    1858: 'record_num octave_format measurement_run weighting_type window_type amplitude_units normalization_method '
          'abscissa_data_type_qualifier ordinate_numerator_data_type_qualifier '
          'ordinate_denominator_data_type_qualifier z_axis_data_type_qualifier sampling_type z_rpm_value z_time_value '
          'z_order_value num_of_samples user_value_1 user_value_2 user_value_3 user_value_4 '
          'exponential_window_damping_factor response_direction reference_direction',
    2400: '',
    2411: 'node_nums def_cs disp_cs color x y z',
    2412: 'el.element_nums el.fe_descriptor el.phys_table el.mat_table el.color el.num_nodes el.nodes_nums '
          'el.beam_orientation el.beam_foreend_cross el.beam_aftend_cross',
    2414: 'analysis_dataset_label analysis_dataset_name id1 id2 id3 id4 id5 model_type data_characteristic result_type '
          'dataset_location analysis_type data_type number_of_data_values_for_the_data_component design_set_id '
          'iteration_number solution_set_id boundary_condition load_set mode_number time_step_number frequency_number '
          'creation_option number_retained time frequency eigenvalue modal_mass viscous_damping hysteretic_damping '
          'real_part_eigenvalue imaginary_part_eigenvalue real_part_of_modal_A_or_modal_mass '
          'imaginary_part_of_modal_A_or_modal_mass real_part_of_modal_B_or_modal_mass '
          'imaginary_part_of_modal_B_or_modal_mass node_nums x y z data_at_node element_nums data_at_element IEXP '
          'number_of_nodes number_of_values_per_node data_at_nodes_on_element',
    2420: 'CS_sys_labels CS_names CS_matrices',
    2429: 'groups el.group_number el.group_name el.entity_type_code el.entity_tag',
    2467: 'groups el.group_number el.group_name el.entity_type_code el.entity_tag el.entity_node_leaf_id '
          'el.entity_component_id',
}
# further fields that must be numbers
NUMBERS = {
    15: 'def_cs disp_cs color', 18: 'cs_type color method', 55: 'model_type r4 r5 r6 modal_a modal_b modal_m',
    58: 'func_id load_case_id ver_num abscissa_spec_data_type abscissa_len_unit_exp ordinate_spec_data_type '
        'ordinate_force_unit_exp orddenom_spec_data_type orddenom_temp_unit_exp z_axis_spec_data_type z_axis_value',
    82: 'color', 151: 'version_db1 version_db2 file_type', 164: 'temp_mode', 2420: 'Part_UID CS_types CS_colors',
    2400: 'model_uid entity_type entity_subtype version_number idm_version_id idm_item_id primary_parent_uid '
          'optimization_switches status_mask',
    2414: ' '.join('record%d_field%d' % (r, f) for r in (10, 11, 12, 13) for f in (1, 2, 3, 4, 5, 6)),
    2429: 'el.active_load_set_no_for_group el.active_contact_set_no_for_group',
    2467: 'el.active_constraint_set_no_for_group el.active_restraint_set_no_for_group el.active_load_set_no_for_group '
          'el.active_dof_set_no_for_group el.active_temperature_set_no_for_group el.active_contact_set_no_for_group',
}
TEXTS = {18: 'cs_name', 151: 'model_name description db_app program', 2420: 'CS_names',
         1858: 'response_direction reference_direction', 2414: 'analysis_dataset_name id1 id2 id3 id4 id5',
         2429: 'el.group_name', 2467: 'el.group_name'}
# arrays that must be as long as the first one
SHORT = {15: 'def_cs disp_cs color x y z', 18: 'cs_type ref_cs_num color method cs_name ref_o x_point xz_point',
         55: 'r1 r2 r3 r4 r5 r6', 2400: 'status_mask', 2411: 'def_cs disp_cs color x y z',
         2414: 'x y z data_at_node data_at_element IEXP number_of_nodes number_of_values_per_node '
               'data_at_nodes_on_element', 2420: 'CS_types CS_colors CS_names CS_matrices', 2429: 'el.entity_tag',
         2467: 'el.entity_tag el.entity_node_leaf_id el.entity_component_id'}
ENCODED = {55: 'id1', 58: 'id3', 82: 'id', 151: 'description', 164: 'units_description', 2400: 'entity_name',
           2414: 'id2', 2420: 'Part_Name', 2429: 'el.group_name', 2467: 'el.group_name', 18: 'cs_name',
           1858: 'response_direction'}
LONG = {2400: 'status_mask', 2420: 'CS_types CS_colors CS_names CS_matrices'}
FAULTS = []
for _t in gen.KINDS:
    FAULTS += [(_t, k, 'removed') for k in NEEDED[_t].split()]
    FAULTS += [(_t, k, 'unusable') for k in (NEEDED[_t] + ' ' + NUMBERS.get(_t, '')).split()
               if k not in TEXTS.get(_t, '').split()]
    FAULTS += [(_t, k, 'short') for k in SHORT.get(_t, '').split()]
    FAULTS += [(_t, k, 'long') for k in LONG.get(_t, '').split()]
    FAULTS += [(_t, 'type', 'removed'), (_t, '', 'rubbish'), (_t, '', 'rubbish'), (_t, '', 'cut short'),
               (_t, '', 'cut short'), (_t, '', 'unwritable path')]
    if _t in ENCODED:
        FAULTS.append((_t, ENCODED[_t], 'text that cannot be encoded'))
FAULTS += [(58, '', 'cut short')] * 10 + [(58, 'func_type', 'unsupported'), (2414, '', 'wrong number of values')]
REQUIRED = {'fault points': len(FAULTS), 'rejected writes': 4000, 'overwrites rejected': 800,
            'preceding sets kept': 1000, 'sets still read': 4000, 'correct writes after it': 6000,
            'writes cut short': 250, 'text that cannot be encoded': 100}


def holder(w, key, rng):
    """(dictionary, key) where the field is, or None."""
    if not key.startswith('el.'):
        return (w, key) if key in w else None
    key = key[3:]
    if w['type'] == 2412:
        inner = [e for k in w if isinstance(k, int) for e in w[k] if key in e]
    else:
        inner = [g for g in w['groups'] if key in g and len(g['entity_tag'])]
    return (inner[int(rng.integers(len(inner)))], key) if inner else None


def faulty(ctx, kind, key, fault):
    """(the set, its precision, must it be rejected)"""
    rng = ctx.rng
    r = gen.R(rng)
    for _ in range(200):
        w, e = gen.make(rng, kind, **({'legacy': False} if kind == 2412 else {}))
        w = copy.deepcopy(w)
        if fault == 'rubbish':
            keys = [k for k in w if k != 'type']
            k = r.pick(keys)
            w[k] = r.pick((None, 'no number', ValueError, {}, [], [[1], [2, 3]], 1j, ['a', 'b'], -1, 1.5, '', b'x',
                           np.zeros((2, 2)), np.nan))
            return w, api.fd(e), False
        if fault == 'wrong number of values':
            if 'x' not in e:
                continue
            w['number_of_data_values_for_the_data_component'] = r.pick((0, 4, 6))
            return w, api.fd(e), True
        at = holder(w, key, rng)
        if at is None:
            continue
        d, k = at
        if fault == 'removed':
            del d[k]
        elif fault == 'unsupported':
            d[k] = r.pick((5, 7, 8, 10, 26, -1))
        elif fault == 'unusable':
            d[k] = r.pick((None, 'no number', ['a', 'b'], ValueError))
        elif fault == 'text that cannot be encoded':
            if isinstance(d[k], list):
                d[k] = ['\udc80'] + list(d[k])[1:]
            else:
                d[k] = 'a\udc80'
        elif fault == 'short':
            if len(d[k]) < 2:
                continue
            d[k] = d[k][:-1]
        elif fault == 'long':
            d[k] = list(d[k]) + [d[k][-1]]
        return w, api.fd(e), True
    raise AssertionError('no set of type %d has %s' % (kind, key))


def readings(u):
    out = []
    for i in range(api.must('get_n_sets', u.get_n_sets)):
        v, err = api.attempt(u.read_sets, i)
        out.append(v if err is None else None)
    return out


def good(ctx, n, kinds=gen.KINDS + (58,) * 3):
    """n sets that can be written and read, [(w, fd, reading)]"""
    out = []
    while len(out) < n:
        w, e = api.some_sets(ctx, 1, kinds)[0]
        p = ctx.path()
        _, err = api.attempt(lambda: api.pyuff.UFF(p).write_sets(copy.deepcopy(w), 'overwrite', force_double=api.fd(e)))
        v, err2 = api.attempt(lambda: api.pyuff.UFF(p).read_sets(0))
        if os.path.exists(p):
            os.unlink(p)
        if err is None and err2 is None:
            out.append((w, api.fd(e), v))
        else:
            ctx.count('sets that cannot be written')
            if ctx.n['sets that cannot be written'] > 50:
                raise Violation('correct sets cannot be written and read: %s' % (err or err2), witness=w)
    return out


def compare(ctx, now, want, what, witness):
    for i, w in enumerate(want):
        if w is None:
            continue
        if now[i] is None:
            raise Violation('%s: set %d can no longer be read' % (what, i), witness=witness)
        bad = cmp.same(now[i], w, 'set %d' % i)
        if bad:
            raise Violation('%s: %s' % (what, bad), witness=witness)
        ctx.count('sets still read')


def case(ctx):
    rng = ctx.rng
    fault = FAULTS[ctx.index % len(FAULTS)]
    kind, key, how = fault
    path = ctx.path()
    c = rng.random()
    prior = 'absent'
    if c < 0.1:
        api.spill(path, b'')
        prior = 'empty'
    elif c < 0.3:
        data, _ = gen.foreign_file(rng, gen.style(rng))
        api.spill(path, data)
        prior = 'foreign'
    elif c < 0.85:
        for i, (w, fd, _) in enumerate(good(ctx, int(rng.integers(1, 4)))):
            api.write(path, w, 'overwrite' if i == 0 else 'add', fd)
        prior = 'own'
    before = api.slurp(path) if prior != 'absent' else None
    u = api.must('opening', api.pyuff.UFF, path)
    was = readings(u)
    if how == 'cut short':
        cut_short(ctx, kind, path, u, before, was, prior)
        return
    if how == 'unwritable path':
        unwritable(ctx, kind, rng)
        return
    bad, fd, must = faulty(ctx, kind, key, how)
    mode = 'add' if rng.random() < 0.55 else 'overwrite'
    lead = good(ctx, int(rng.integers(0, 3)) if rng.random() < 0.4 else 0)
    lead = [x for x in lead if x[1] == fd]
    tail = [x[0] for x in good(ctx, 1)] if rng.random() < 0.15 else []
    call = [copy.deepcopy(x[0]) for x in lead] + [bad] + tail
    given = call if len(call) > 1 or rng.random() < 0.3 else bad
    if rng.random() < 0.4:
        u = api.must('opening', api.pyuff.UFF, path)
    what = '%s of %d sets, type %d with %s %s' % (mode, len(call), kind, key or 'a field', how)
    _, err = api.attempt(u.write_sets, given, mode, force_double=fd)
    after = api.slurp(path) if os.path.exists(path) else None
    witness = {'call': what, 'error': repr(err), 'set': bad, 'before': before, 'after': after}
    if err is None:
        if must:
            raise Violation('%s was not rejected' % what, witness=witness)
        ctx.count('rubbish that could be written')
        expect = was if mode == 'add' else []
        now = readings(u)
        if len(now) < len(expect):
            raise Violation('%s: %d sets are left of %d' % (what, len(now), len(expect)), witness=witness)
        compare(ctx, now, expect, what, witness)
        u = api.must('opening', api.pyuff.UFF, path)
    else:
        ctx.count('rejected writes')
        ctx.count('overwrites rejected', mode == 'overwrite')
        ctx.count(how)
        fresh = api.must('opening', api.pyuff.UFF, path)
        now = readings(fresh)
        same = (after or b'') == (before or b'')
        if not same:
            old = was if mode == 'add' else []
            if mode == 'add' and not (after or b'').startswith(before or b''):
                raise Violation('%s failed and changed what was in the file' % what, witness=witness)
            extra = len(now) - len(old)
            if not 0 <= extra <= len(lead) or (mode == 'overwrite' and extra < 1):
                raise Violation('%s failed; the file had %d sets, %d correct ones precede the bad one, %d are found' % (
                    what, len(was), len(lead), len(now)), witness=witness)
            try:
                spec.blocks(after[len(before or b''):] if mode == 'add' else after)
            except spec.BadLayout as b:
                if not (mode == 'add' and before and before[-1:] not in b'\r\n'):
                    raise Violation('%s failed and left something else than complete sets: %s' % (what, b),
                                    witness=witness)
            compare(ctx, now, old + [x[2] for x in lead[:extra]], '%s failed' % what, witness)
            ctx.count('preceding sets kept', extra)
        elif len(now) != len(was):
            raise Violation('%s failed; the same file has %d sets instead of %d' % (what, len(now), len(was)),
                            witness=witness)
        # the object that failed agrees
        n = api.must('get_n_sets', u.get_n_sets)
        if n != len(now):
            raise Violation('%s failed; the object then tells %d sets, the file has %d' % (what, n, len(now)),
                            witness=witness)
        was = now
    # and the next, correct, write
    if err is None:
        was = readings(u)
    (w, fd2, want), = good(ctx, 1)
    mode2 = 'add' if rng.random() < 0.8 else 'overwrite'
    api.write(path, w, mode2, fd2, uff=u)
    now = readings(u)
    old = was if mode2 == 'add' else []
    if len(now) != len(old) + 1:
        raise Violation('after %s a correct set was written (%s): %d sets instead of %d' % (
            what, mode2, len(now), len(old) + 1), witness=witness)
    compare(ctx, now, old + [want], 'a correct write after %s' % what, witness)
    if now[-1] is None:
        raise Violation('a correct set written after %s cannot be read' % what, witness=witness)
    ctx.count('correct writes after it')
    if ctx.index < len(FAULTS):
        ctx.count('fault points')
    ctx.seen(fault, mode, len(lead), prior, bool(tail))
    if ctx.sample is None:
        ctx.sample = {'fault': what, 'prior content': prior, 'error': str(err)}


def cut_short(ctx, kind, path, u, before, was, prior):
    """The system stops the write at a file size."""
    rng = ctx.rng
    old = len(before or b'')
    (w, fd, _), = good(ctx, 1, (kind,))
    probe = ctx.path()
    api.write(probe, w, 'overwrite', fd)
    size = len(api.slurp(probe))
    limit = old + int(rng.integers(0, size))
    what = 'a write (add) of %d bytes of type %d behind %d bytes, stopped at %d' % (size, kind, old, limit)
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
    try:
        _, err = api.attempt(u.write_sets, copy.deepcopy(w), 'add', force_double=fd)
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
    after = api.slurp(path) if os.path.exists(path) else b''
    witness = {'call': what, 'error': repr(err), 'set': w, 'before': before, 'after': after}
    if err is None:
        raise Violation('%s raised no error' % what, witness=witness)
    if not after.startswith(before or b''):
        raise Violation('%s changed what was in the file' % what, witness=witness)
    fresh = api.must('opening', api.pyuff.UFF, path)
    now = readings(fresh)
    if not len(was) <= len(now) <= len(was) + 1:
        raise Violation('%s: the file had %d sets, %d are found' % (what, len(was), len(now)), witness=witness)
    compare(ctx, now, was, what, witness)
    ctx.count('writes cut short')
    ctx.count('bytes that got through', len(after) - old)
    if ctx.index < len(FAULTS):
        ctx.count('fault points')
    ctx.seen('cut', kind, prior, limit - old)


def unwritable(ctx, kind, rng):
    (w, fd, _), = good(ctx, 1, (kind,))
    folder = ctx.path('a folder')
    os.mkdir(folder)
    p = gen.R(rng).pick((os.path.join(folder, 'missing', 'f.uff'), folder))
    u, err = api.attempt(api.pyuff.UFF, p)
    if err is None:
        _, err = api.attempt(u.write_sets, copy.deepcopy(w), gen.R(rng).pick(('add', 'overwrite')), force_double=fd)
        if err is None:
            raise Violation('writing to %s raised no error' % p, witness=w)
    if os.listdir(folder):
        raise Violation('a failed write left %r' % os.listdir(folder), witness=w)
    if ctx.index < len(FAULTS):
        ctx.count('fault points')
    ctx.count('unwritable paths')
    ctx.seen('unwritable', kind, p == folder)
