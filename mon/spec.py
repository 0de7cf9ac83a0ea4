"""An independent reader and writer of the published UFF layout.

The reader takes each record strictly by its fixed columns (the FORMAT lines of
the published data-set descriptions); it shares no code with the package. Both
work on dictionaries with the names that pyuff gives the fields on reading.
"""
import re
import struct

import numpy as np

BEAMS = (11, 21, 22, 23, 24)     # fe descriptors of rods and beams (2412)


class BadLayout(Exception):
    """The bytes do not follow the published layout."""


# ---------------------------------------------------------------- fields
def fields(spec):
    """'2I10,1X,A20' -> [(kind, width), ...]."""
    out = []
    for part in spec.split(','):
        m = re.fullmatch(r'(\d*)([IAEDX])(\d*)', part.strip())
        n = int(m.group(1) or 1)
        if m.group(2) == 'X':
            out.append(('X', n))
        else:
            out += [(m.group(2), int(m.group(3)))] * n
    return out


_INT = re.compile(r' *[-+]?\d+ *')
_REAL = re.compile(r' *[-+]?(\d+\.\d*|\.\d+|\d+)([EeDd][-+]?\d+)? *')


class Text(str):
    """A text field; lead: the blanks before it in its columns."""
    lead = 0


def take(line, spec, what, blank=False):
    """The values of one record; columns behind the fields must be blank."""
    if len(line) > 80:
        raise BadLayout('%s: record of %d columns: %r' % (what, len(line), line))
    out, at = [], 0
    for kind, width in fields(spec):
        text = line[at:at + width].ljust(width)
        at += width
        if kind == 'A':
            out.append(Text(text.strip()))
            out[-1].lead = len(text) - len(text.lstrip()) if text.strip() else 0
        elif kind == 'X':
            if text.strip():
                raise BadLayout('%s: %r between the fields of %r' % (what, text, line))
        elif not text.strip():
            if not blank:
                raise BadLayout('%s: blank number in columns %d-%d of %r' % (what, at - width + 1, at, line))
            out.append(0 if kind == 'I' else 0.0)
        elif kind == 'I':
            if not _INT.fullmatch(text):
                raise BadLayout('%s: %r in columns %d-%d of %r is no integer' % (what, text, at - width + 1, at, line))
            out.append(int(text))
        else:
            if not _REAL.fullmatch(text):
                raise BadLayout('%s: %r in columns %d-%d of %r is no real' % (what, text, at - width + 1, at, line))
            out.append(float(text.upper().replace('D', 'E')))
    if line[at:].strip():
        raise BadLayout('%s: %r behind the last field of %r' % (what, line[at:], line))
    return out


class Lines:
    def __init__(self, lines, what, blank=False):
        self.lines, self.at, self.what, self.blank = lines, 0, what, blank

    def left(self):
        return len(self.lines) - self.at

    def get(self, spec, blank=False):
        if not self.left():
            raise BadLayout('%s: a record is missing (%s)' % (self.what, spec))
        self.at += 1
        return take(self.lines[self.at - 1], spec, self.what, blank or self.blank)

    def many(self, count, spec, per_line):
        """count values, per_line on each line (the last line can be part-filled)."""
        out = []
        kind, width = fields(spec)[0]
        while len(out) < count:
            k = min(per_line, count - len(out))
            out += self.get('%d%s%d' % (k, kind, width))
        return out

    def end(self):
        if self.left():
            raise BadLayout('%s: %d lines too many, from %r' % (self.what, self.left(), self.lines[self.at]))


class Style:
    """How another program lays out the same records."""

    def __init__(self, eol='\n', pad=False, trim=False, exponent='E', mantissa='c', final_eol=True,
                 byte_order='<', encoding='ascii', d_exponent='D'):
        self.eol, self.pad, self.trim, self.exponent = eol, pad, trim, exponent
        self.mantissa, self.final_eol = mantissa, final_eol
        self.byte_order, self.encoding, self.d_exponent = byte_order, encoding, d_exponent

    def __repr__(self):
        return 'Style(%s)' % ', '.join('%s=%r' % kv for kv in sorted(vars(self).items()))

    def real(self, v, width, digits, d=False):
        letter = self.d_exponent if d else self.exponent
        if self.mantissa == 'f' and not d and v != 0:
            # Fortran E editing without scale factor: 0.ddd
            m, e = ('%.*e' % (digits - 1, v)).split('e')
            sign = '-' if m.startswith('-') else ''
            t = '%s0.%s%s%+03d' % (sign, m.lstrip('-').replace('.', ''), letter, int(e) + 1)
        elif self.mantissa == 'g':
            # plain decimals where they fit
            t = ('%#.*g' % (digits + 1, v)).replace('e', letter)
        elif self.mantissa == 'm':
            # always three digits of the exponent, as older run-time libraries print
            m, e = ('%.*e' % (digits, v)).split('e')
            t = '%s%s%+04d' % (m, letter, int(e))
        else:
            t = ('%.*e' % (digits, v)).replace('e', letter)
        return t.rjust(width)

    def line(self, text):
        if self.trim:
            text = text.rstrip()
        elif self.pad:
            text = text.ljust(80)
        return text + self.eol


DIGITS = {13: 5, 15: 7, 20: 11, 25: 16}


class Out:
    def __init__(self, style):
        self.s, self.text = style, ''

    def put(self, spec, *values):
        t, it = '', iter(values)
        for kind, width in fields(spec):
            if kind == 'X':
                t += ' ' * width
                continue
            v = next(it)
            if kind == 'A':
                f = str(v).ljust(width)
            elif kind == 'I':
                f = str(int(v)).rjust(width)
            else:
                f = self.s.real(float(v), width, DIGITS[width], d=kind == 'D')
            if len(f) != width:
                raise AssertionError('the value %r does not fit %s%d' % (v, kind, width))
            t += f
        self.text += self.s.line(t)

    def many(self, values, spec, per_line):
        values = list(values)
        for i in range(0, len(values), per_line):
            part = values[i:i + per_line]
            kind, width = fields(spec)[0]
            self.put('%d%s%d' % (len(part), kind, width), *part)


# ---------------------------------------------------------------- data-sets
ID5 = ('id1', 'id2', 'id3', 'id4', 'id5')


def _dec15(b):
    rows = []
    while b.left():
        rows.append(b.get('4I10,3E13'))
    names = ('node_nums', 'def_cs', 'disp_cs', 'color', 'x', 'y', 'z')
    return {n: [r[i] for r in rows] for i, n in enumerate(names)}


def _enc15(o, d):
    for r in zip(*(d[n] for n in ('node_nums', 'def_cs', 'disp_cs', 'color', 'x', 'y', 'z'))):
        o.put('4I10,3E13', *r)


def _dec18(b):
    d = {n: [] for n in ('cs_num', 'cs_type', 'ref_cs_num', 'color', 'method', 'cs_name',
                         'ref_o', 'x_point', 'xz_point')}
    while b.left():
        for n, v in zip(('cs_num', 'cs_type', 'ref_cs_num', 'color', 'method'), b.get('5I10')):
            d[n].append(v)
        d['cs_name'] += b.get('A40')
        v = b.get('6E13') + b.get('3E13')
        d['ref_o'].append(v[:3])
        d['x_point'].append(v[3:6])
        d['xz_point'].append(v[6:])
    return d


def _enc18(o, d):
    for i in range(len(d['cs_num'])):
        o.put('5I10', *(d[n][i] for n in ('cs_num', 'cs_type', 'ref_cs_num', 'color', 'method')))
        o.put('A40', d['cs_name'][i])
        o.put('6E13', *list(d['ref_o'][i]) + list(d['x_point'][i]))
        o.put('3E13', *d['xz_point'][i])


R55 = {2: (('load_case', 'mode_n'), ('freq', 'modal_m', 'modal_damp_vis', 'modal_damp_his')),
       5: (('load_case', 'freq_step_n'), ('freq',)),
       3: (('load_case', 'mode_n'), ('eig', 'modal_a', 'modal_b')),
       7: (('load_case', 'mode_n'), ('eig', 'modal_a', 'modal_b'))}
SPEC55 = {2: 4, 5: 1, 3: 6, 7: 6}      # specific data type of normal mode, response, complex modes


def _cplx(v):
    return [complex(v[i], v[i + 1]) for i in range(0, len(v), 2)]


def _flat(values, is_complex):
    out = []
    for v in values:
        out += [np.real(v), np.imag(v)] if is_complex else [v]
    return out


def _dec55(b):
    d = {}
    for n in ID5:
        d[n] = b.get('A80')[0]
    (d['model_type'], d['analysis_type'], d['data_ch'], d['spec_data_type'], d['data_type'],
     d['n_data_per_node']) = b.get('6I10')
    a = d['analysis_type']
    if a not in R55:
        raise BadLayout('55: analysis type %d' % a)
    r7 = b.get('4I10')
    if r7[:2] != [2, SPEC55[a]]:
        raise BadLayout('55: record 7 begins with %r' % r7[:2])
    for n, v in zip(R55[a][0], r7[2:]):
        d[n] = v
    if a in (3, 7):
        vals = _cplx(b.get('6E13'))
    else:
        vals = b.get('%dE13' % len(R55[a][1]))
    for n, v in zip(R55[a][1], vals):
        d[n] = v
    if d['data_type'] not in (2, 5):
        raise BadLayout('55: data type %d' % d['data_type'])
    c = d['data_type'] == 5
    k = d['n_data_per_node']
    d['node_nums'] = []
    rows = []
    while b.left():
        d['node_nums'] += b.get('I10')
        v = b.many(k * (2 if c else 1), 'E13', 6)
        rows.append(_cplx(v) if c else v)
    for i in range(k):
        d['r%d' % (i + 1)] = [r[i] for r in rows]
    return d


def _enc55(o, d):
    for n in ID5:
        o.put('A80', d[n])
    o.put('6I10', d['model_type'], d['analysis_type'], d['data_ch'], d['spec_data_type'], d['data_type'],
          d['n_data_per_node'])
    a = d['analysis_type']
    o.put('4I10', 2, SPEC55[a], *(d[n] for n in R55[a][0]))
    v = _flat([d[n] for n in R55[a][1]], a in (3, 7))
    o.put('%dE13' % len(v), *v)
    for i, node in enumerate(d['node_nums']):
        o.put('I10', node)
        o.many(_flat([d['r%d' % (j + 1)][i] for j in range(d['n_data_per_node'])], d['data_type'] == 5), 'E13', 6)


AXES = ('abscissa', 'ordinate', 'orddenom', 'z_axis')
H58 = ('func_type', 'func_id', 'ver_num', 'load_case_id', 'rsp_ent_name', 'rsp_node', 'rsp_dir',
       'ref_ent_name', 'ref_node', 'ref_dir')
H58B = ('ord_data_type', 'num_pts', 'abscissa_spacing', 'abscissa_min', 'abscissa_inc', 'z_axis_value')


def axis_keys(a):
    return (a + '_spec_data_type', a + '_len_unit_exp', a + '_force_unit_exp', a + '_temp_unit_exp',
            a + '_axis_lab', a + '_axis_units_lab')


def _head58(b):
    d = {}
    for n in ID5:
        d[n] = b.get('A80')[0]
    d.update(zip(H58, b.get('I5,I10,I5,I10,1X,A10,I10,I4,1X,A10,I10,I4')))
    d.update(zip(H58B, b.get('3I10,3E13')))
    for a in AXES:
        d.update(zip(axis_keys(a), b.get('I10,3I5,1X,A20,1X,A20')))
    if d['ord_data_type'] not in (2, 4, 5, 6):
        raise BadLayout('58: ordinate data type %d' % d['ord_data_type'])
    if d['abscissa_spacing'] not in (0, 1):
        raise BadLayout('58: abscissa spacing %d' % d['abscissa_spacing'])
    return d


def _shape58(d):
    """(values per point, even, complex, double)"""
    c, dbl, even = d['ord_data_type'] in (5, 6), d['ord_data_type'] in (4, 6), d['abscissa_spacing'] == 1
    return (2 if c else 1) + (0 if even else 1), even, c, dbl


def _unpack58(d, values):
    per, even, c, dbl = _shape58(d)
    v = np.asarray(values, float).reshape(-1, per)
    if even:
        d['x'] = d['abscissa_min'] + d['abscissa_inc'] * np.arange(len(v))
    else:
        d['x'] = v[:, 0].copy()
    d['data'] = v[:, -2] + 1j * v[:, -1] if c else v[:, -1].copy()


def _pack58(d):
    per, even, c, dbl = _shape58(d)
    cols = ([] if even else [np.asarray(d['x'], float)])
    data = np.asarray(d['data'])
    cols += [data.real, data.imag] if c else [data.real]
    return np.column_stack(cols).astype(float).ravel()


def _dec58(b):
    d = _head58(b)
    d['binary'] = 0
    n = d['num_pts']
    per, even, c, dbl = _shape58(d)
    if not dbl:
        values = b.many(n * per, 'E13', 6)
    elif even:
        values = b.many(n * per, 'E20', 4)
    else:
        values = []
        group = 'E13,2E20' if c else 'E13,E20'
        left = n
        while left:
            k = min(1 if c else 2, left)
            values += b.get(','.join([group] * k))
            left -= k
    _unpack58(d, values)
    return d


def _enc_head58(o, d):
    for n in ID5:
        o.put('A80', d[n])
    o.put('I5,I10,I5,I10,1X,A10,I10,I4,1X,A10,I10,I4', *(d[n] for n in H58))
    o.put('3I10,3E13', *(d[n] for n in H58B))
    for a in AXES:
        o.put('I10,3I5,1X,A20,1X,A20', *(d[n] for n in axis_keys(a)))


def _enc58(o, d):
    _enc_head58(o, d)
    per, even, c, dbl = _shape58(d)
    values = _pack58(d)
    if not dbl:
        o.many(values, 'E13', 6)
    elif even:
        o.many(values, 'E20', 4)
    else:
        k = 3 if c else 4
        for i in range(0, len(values), k):
            part = values[i:i + k]
            o.put(','.join((['E13', 'E20', 'E20'] if c else ['E13', 'E20', 'E13', 'E20'])[:len(part)]), *part)


def _dec82(b):
    d = {}
    d['trace_num'], d['n_nodes'], d['color'] = b.get('3I10')
    d['id'] = b.get('A80')[0]
    d['nodes'] = b.many(d['n_nodes'], 'I10', 8)
    return d


def _enc82(o, d):
    o.put('3I10', d['trace_num'], d['n_nodes'], d['color'])
    o.put('A80', d['id'])
    o.many(d['nodes'], 'I10', 8)


def _dec151(b):
    d = {}
    for n in ('model_name', 'description', 'db_app'):
        d[n] = b.get('A80')[0]
    (d['date_db_created'], d['time_db_created'], d['version_db1'], d['version_db2'],
     d['file_type']) = b.get('A10,A10,I10,I10,I10', blank=True)
    d['date_db_saved'], d['time_db_saved'] = b.get('A10,A10')
    d['program'] = b.get('A80')[0]
    d['date_file_written'], d['time_file_written'] = b.get('A10,A10')
    return d


def _enc151(o, d):
    for n in ('model_name', 'description', 'db_app'):
        o.put('A80', d[n])
    o.put('A10,A10,I10,I10,I10', *(d[n] for n in ('date_db_created', 'time_db_created', 'version_db1',
                                                 'version_db2', 'file_type')))
    o.put('A10,A10', d['date_db_saved'], d['time_db_saved'])
    o.put('A80', d['program'])
    o.put('A10,A10', d['date_file_written'], d['time_file_written'])


def _dec164(b):
    d = {}
    d['units_code'], d['units_description'], d['temp_mode'] = b.get('I10,A20,I10')
    d['length'], d['force'], d['temp'] = b.get('3D25')
    d['temp_offset'] = b.get('D25')[0]
    return d


def _enc164(o, d):
    o.put('I10,A20,I10', d['units_code'], d['units_description'], d['temp_mode'])
    o.put('3D25', d['length'], d['force'], d['temp'])
    o.put('D25', d['temp_offset'])


R1858 = (('12I6', ('weighting_type', 'window_type', 'amplitude_units', 'normalization_method',
                   'abscissa_data_type_qualifier', 'ordinate_numerator_data_type_qualifier',
                   'ordinate_denominator_data_type_qualifier', 'z_axis_data_type_qualifier',
                   'sampling_type')),
         ('5E15', ('z_rpm_value', 'z_time_value', 'z_order_value', 'num_of_samples')),
         ('5E15', ('user_value_1', 'user_value_2', 'user_value_3', 'user_value_4',
                   'exponential_window_damping_factor')))


def _dec1858(b):
    unused = []
    d = {}
    for spec, names in (('6I12', ('record_num', 'octave_format', 'measurement_run')),) + R1858 + (('5E15', ()),):
        values = b.get(spec)
        d.update(zip(names, values))
        unused += values[len(names):]
    if any(unused) and not b.blank:
        raise BadLayout('1858: the fields that are not used are filled with %r instead of zeros' % unused)
    d['response_direction'], d['reference_direction'] = b.get('A4,2X,A4')
    b.get('A80')
    return d


def _enc1858(o, d):
    o.put('6I12', d['record_num'], d['octave_format'], d['measurement_run'], 0, 0, 0)
    for spec, names in R1858:
        n = len(fields(spec))
        o.put(spec, *([d[k] for k in names] + [0] * (n - len(names))))
    o.put('5E15', 0, 0, 0, 0, 0)
    o.put('A4,2X,A4', d['response_direction'], d['reference_direction'])
    o.put('A80', 'NONE')


def _dec2400(b):
    d = dict(zip(('model_uid', 'entity_type', 'entity_subtype', 'version_number'), b.get('I12,2I6,I12')))
    d['entity_name'] = b.get('A80')[0]
    d['part_number'] = b.get('A80')[0]
    d['status_mask'] = b.get('32I2')
    d.update(zip(('date', 'time', 'idm_version_id', 'idm_item_id', 'primary_parent_uid'),
                 b.get('A10,A10,3I12')))
    d['optimization_switches'] = b.get('I12')[0]
    return d


def _enc2400(o, d):
    o.put('I12,2I6,I12', d['model_uid'], d['entity_type'], d['entity_subtype'], d['version_number'])
    o.put('A80', d['entity_name'])
    o.put('A80', d['part_number'])
    o.put('32I2', *d['status_mask'])
    o.put('A10,A10,3I12', d['date'], d['time'], d['idm_version_id'], d['idm_item_id'], d['primary_parent_uid'])
    o.put('I12', d['optimization_switches'])


def _dec2411(b):
    names = ('node_nums', 'def_cs', 'disp_cs', 'color', 'x', 'y', 'z')
    rows = []
    while b.left():
        rows.append(b.get('4I10') + b.get('3D25'))
    return {n: [r[i] for r in rows] for i, n in enumerate(names)}


def _enc2411(o, d):
    for r in zip(*(d[n] for n in ('node_nums', 'def_cs', 'disp_cs', 'color', 'x', 'y', 'z'))):
        o.put('4I10', *r[:4])
        o.put('3D25', *r[4:])


E2412 = ('element_nums', 'fe_descriptor', 'phys_table', 'mat_table', 'color', 'num_nodes')
B2412 = ('beam_orientation', 'beam_foreend_cross', 'beam_aftend_cross')


def _dec2412(b):
    d = {}
    while b.left():
        e = dict(zip(E2412, b.get('6I10')))
        if e['fe_descriptor'] in BEAMS:
            e.update(zip(B2412, b.get('3I10')))
        e['nodes_nums'] = b.many(e['num_nodes'], 'I10', 8)
        d.setdefault(e['fe_descriptor'], []).append(e)
    for num, name in ((41, 'triangle'), (44, 'quad')):
        if num in d:
            d[name] = {k: [e[k] for e in d[num]] for k in E2412 + ('nodes_nums',)}
    return d


def _enc2412(o, d):
    """The elements in the order of the whole list d['_elements'], if given."""
    for e in d.get('_elements') or [e for k in d if isinstance(k, int) for e in d[k]]:
        o.put('6I10', *(e[k] for k in E2412))
        if e['fe_descriptor'] in BEAMS:
            o.put('3I10', *(e[k] for k in B2412))
        o.many(e['nodes_nums'], 'I10', 8)


R2414 = ('model_type', 'analysis_type', 'data_characteristic', 'result_type', 'data_type',
         'number_of_data_values_for_the_data_component')
R2414_5 = (('8I10', ('design_set_id', 'iteration_number', 'solution_set_id', 'boundary_condition', 'load_set',
                     'mode_number', 'time_step_number', 'frequency_number')),
           ('2I10', ('creation_option', 'number_retained')),
           ('6E13', ('time', 'frequency', 'eigenvalue', 'modal_mass', 'viscous_damping', 'hysteretic_damping')),
           ('6E13', ('real_part_eigenvalue', 'imaginary_part_eigenvalue', 'real_part_of_modal_A_or_modal_mass',
                     'imaginary_part_of_modal_A_or_modal_mass', 'real_part_of_modal_B_or_modal_mass',
                     'imaginary_part_of_modal_B_or_modal_mass')))
R2414_G = (('8I10', tuple('record10_field%d' % i for i in range(1, 9))),
           ('8I10', tuple('record11_field%d' % i for i in range(1, 9))),
           ('6E13', tuple('record12_field%d' % i for i in range(1, 7))),
           ('6E13', tuple('record13_field%d' % i for i in range(1, 7))))


def _dec2414(b):
    d = {}
    d['analysis_dataset_label'] = b.get('I10')[0]
    d['analysis_dataset_name'] = b.get('A80')[0]
    d['dataset_location'] = b.get('I10')[0]
    for n in ID5:
        d[n] = b.get('A80')[0]
    d.update(zip(R2414, b.get('6I10')))
    for spec, names in (R2414_5 if d['analysis_type'] == 5 else R2414_G):
        d.update(zip(names, b.get(spec)))
    k = d['number_of_data_values_for_the_data_component'] * (2 if d['data_type'] in (5, 6) else 1)
    loc = d['dataset_location']
    if d['analysis_type'] == 5 and loc not in (2, 3) and d['data_type'] in (5, 6):
        d['node_nums'], rows = [], []
        while b.left():
            d['node_nums'] += b.get('I10')
            rows.append(_cplx(b.many(k, 'E13', 6)))
        for i, n in enumerate('xyz'[:k // 2]):
            d[n] = [r[i] for r in rows]
    elif loc == 1:
        d['node_nums'], d['data_at_node'] = [], []
        while b.left():
            d['node_nums'] += b.get('I10')
            d['data_at_node'].append(b.many(k, 'E13', 6))
    elif loc == 2:
        d['element_nums'], d['NDVAL'], d['data_at_element'] = [], [], []
        while b.left():
            e, n = b.get('2I10')
            d['element_nums'].append(e)
            d['NDVAL'].append(n)
            d['data_at_element'].append(b.many(n, 'E13', 6))
    elif loc == 3:
        for n in ('element_nums', 'IEXP', 'number_of_nodes', 'number_of_values_per_node',
                  'data_at_nodes_on_element'):
            d[n] = []
        while b.left():
            e, iexp, nodes, nv = b.get('4I10')
            d['element_nums'].append(e)
            d['IEXP'].append(iexp)
            d['number_of_nodes'].append(nodes)
            d['number_of_values_per_node'].append(nv)
            lines = []
            for _ in range(nodes if iexp == 1 else 1):
                left = nv
                while left > 0:
                    lines.append(b.get('%dE13' % min(6, left)))
                    left -= 6
            d['data_at_nodes_on_element'].append(lines)
    else:
        raise BadLayout('2414: location %d' % loc)
    return d


def _enc2414(o, d):
    o.put('I10', d['analysis_dataset_label'])
    o.put('A80', d['analysis_dataset_name'])
    o.put('I10', d['dataset_location'])
    for n in ID5:
        o.put('A80', d[n])
    o.put('6I10', *(d[n] for n in R2414))
    for spec, names in (R2414_5 if d['analysis_type'] == 5 else R2414_G):
        o.put(spec, *(d[n] for n in names))
    loc = d['dataset_location']
    if 'x' in d:
        comps = 'xyz'[:d['number_of_data_values_for_the_data_component']]
        for i, node in enumerate(d['node_nums']):
            o.put('I10', node)
            o.many(_flat([d[n][i] for n in comps], True), 'E13', 6)
    elif loc == 1:
        for node, v in zip(d['node_nums'], d['data_at_node']):
            o.put('I10', node)
            o.many(v, 'E13', 6)
    elif loc == 2:
        for e, v in zip(d['element_nums'], d['data_at_element']):
            o.put('2I10', e, len(v))
            o.many(v, 'E13', 6)
    elif loc == 3:
        for i, e in enumerate(d['element_nums']):
            o.put('4I10', e, d['IEXP'][i], d['number_of_nodes'][i], d['number_of_values_per_node'][i])
            for line in d['data_at_nodes_on_element'][i]:
                o.many(line, 'E13', 6)


def _dec2420(b):
    d = {'Part_UID': b.get('I10')[0], 'Part_Name': b.get('A80')[0],
         'CS_sys_labels': [], 'CS_types': [], 'CS_colors': [], 'CS_names': [], 'CS_matrices': []}
    while b.left():
        for n, v in zip(('CS_sys_labels', 'CS_types', 'CS_colors'), b.get('3I10')):
            d[n].append(v)
        d['CS_names'] += b.get('A80')
        d['CS_matrices'].append([b.get('3D25') for _ in range(4)])
    return d


def _enc2420(o, d):
    o.put('I10', d['Part_UID'])
    o.put('A80', d['Part_Name'])
    for i in range(len(d['CS_sys_labels'])):
        o.put('3I10', d['CS_sys_labels'][i], d['CS_types'][i], d['CS_colors'][i])
        o.put('A80', d['CS_names'][i])
        for row in d['CS_matrices'][i]:
            o.put('3D25', *row)


G24 = ('group_number', 'active_constraint_set_no_for_group', 'active_restraint_set_no_for_group',
       'active_load_set_no_for_group', 'active_dof_set_no_for_group', 'active_temperature_set_no_for_group',
       'active_contact_set_no_for_group', 'number_of_entities_in_group')


def _groups(members):
    def dec(b):
        groups = []
        while b.left():
            g = dict(zip(G24, b.get('8I10')))
            g['group_name'] = b.get('A40')[0]
            v = b.many(g['number_of_entities_in_group'] * len(members), 'I10', 8)
            for i, n in enumerate(members):
                g[n] = v[i::len(members)]
            groups.append(g)
        return {'groups': groups}

    def enc(o, d):
        for g in d['groups']:
            o.put('8I10', *(g[n] for n in G24))
            o.put('A40', g['group_name'])
            o.many([g[n][i] for i in range(len(g[members[0]])) for n in members], 'I10', 8)
    return dec, enc


_dec2429, _enc2429 = _groups(('entity_type_code', 'entity_tag'))
_dec2467, _enc2467 = _groups(('entity_type_code', 'entity_tag', 'entity_node_leaf_id', 'entity_component_id'))

DEC = {15: _dec15, 18: _dec18, 55: _dec55, 58: _dec58, 82: _dec82, 151: _dec151, 164: _dec164, 1858: _dec1858,
       2400: _dec2400, 2411: _dec2411, 2412: _dec2412, 2414: _dec2414, 2420: _dec2420, 2429: _dec2429,
       2467: _dec2467}
ENC = {15: _enc15, 18: _enc18, 55: _enc55, 58: _enc58, 82: _enc82, 151: _enc151, 164: _enc164, 1858: _enc1858,
       2400: _enc2400, 2411: _enc2411, 2412: _enc2412, 2414: _enc2414, 2420: _enc2420, 2429: _enc2429,
       2467: _enc2467}

BIN_HEAD = 'I6,A1,I6,I6,I12,I12,I6,I6,I12,I12'


# ---------------------------------------------------------------- files
def blocks(data, strict=True):
    """Split a file into [(start, end, type, binary, body lines or (head, payload))].

    end is the offset behind the closing line; strict: as this package writes
    (line ends of one kind, nothing but data-sets).
    """
    out, at = [], 0

    def line(at):
        end = data.find(b'\n', at)
        if end < 0:
            return data[at:], len(data)
        text = data[at:end]
        return (text[:-1] if text.endswith(b'\r') else text), end + 1

    while at < len(data):
        start = at
        text, at = line(at)
        if text.rstrip(b' ') != b'    -1':
            raise BadLayout('data-set expected at byte %d, found %r' % (start, text[:80]))
        text, at = line(at)
        head = text.decode('ascii', 'replace')
        if head[6:7].lower() == 'b':
            h = take(head, BIN_HEAD, 'binary header')
            lines = []
            for _ in range(h[4]):
                text, at = line(at)
                lines.append(text.decode('utf-8', 'replace'))
            payload = data[at:at + h[5]]
            if len(payload) != h[5]:
                raise BadLayout('byte count %d of the binary header passes the end of the file' % h[5])
            at += h[5]
            text, at = line(at)
            if text.rstrip(b' ') != b'    -1':
                raise BadLayout('the %d payload bytes of the binary header are followed by %r' % (h[5], text[:40]))
            out.append((start, at, h[0], True, (h, lines, payload)))
            continue
        kind = take(head, 'I6', 'type line')[0]
        lines = []
        while True:
            if at >= len(data):
                raise BadLayout('data-set %d at byte %d is not closed' % (kind, start))
            text, at = line(at)
            if text.rstrip(b' ') == b'    -1':
                break
            lines.append(text.decode('utf-8', 'replace'))
        out.append((start, at, kind, False, lines))
    return out


def decode_block(kind, binary, body, blank=False):
    """One data-set; blank: blank number fields are zero, as Fortran reads them."""
    if kind not in DEC:
        return {'type': kind}
    if binary:
        h, lines, payload = body
        b = Lines(lines, '%db' % kind, blank)
        d = _head58(b)
        b.end()
        if not blank and (any(h[6:]) or h[1] != 'b'):
            raise BadLayout('first line of a binary data-set: %r' % h)
        d.update(binary=1, byte_ordering=h[2], fp_format=h[3], n_ascii_lines=h[4], n_bytes=h[5])
        if h[2] not in (1, 2) or h[3] not in (1, 2, 3):
            raise BadLayout('byte order %d, float format %d' % (h[2], h[3]))
        per, even, c, dbl = _shape58(d)
        size = 8 if dbl else 4
        if h[5] != d['num_pts'] * per * size:
            raise BadLayout('byte count %d for %d points of %d values of %d bytes' % (h[5], d['num_pts'], per, size))
        n = h[5] // size
        _unpack58(d, struct.unpack('%s%d%s' % ('<' if h[2] == 1 else '>', n, 'd' if dbl else 'f'), payload))
    else:
        b = Lines(body, str(kind), blank)
        d = DEC[kind](b)
        b.end()
    d['type'] = kind
    return d


def decode(data):
    """All data-sets of a file."""
    return [decode_block(kind, binary, body) for _, _, kind, binary, body in blocks(data)]


def encode_set(d, style):
    """The bytes of one data-set (with its delimiters)."""
    kind = d['type']
    o = Out(style)
    o.put('I6', -1)
    if kind == 58 and d.get('binary'):
        per, even, c, dbl = _shape58(d)
        payload = _pack58(d).astype(style.byte_order + ('f8' if dbl else 'f4')).tobytes()
        o.put(BIN_HEAD, 58, 'b', 1 if style.byte_order == '<' else 2, 2, 11, len(payload), 0, 0, 0, 0)
        _enc_head58(o, d)
        head = o.text.encode(style.encoding)
        o.text = ''
        o.put('I6', -1)
        return head + payload + o.text.encode(style.encoding)
    o.put('I6', kind)
    if kind in ENC:
        ENC[kind](o, d)
    else:
        for text in d['lines']:
            o.text += style.line(text)
    o.put('I6', -1)
    return o.text.encode(style.encoding)


def encode(dsets, style):
    data = b''.join(encode_set(d, style) for d in dsets)
    if not style.final_eol:
        data = data[:-len(style.eol)]
    return data
