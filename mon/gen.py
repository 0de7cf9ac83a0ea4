"""Generators of data-sets: make(rng, kind, ...) -> (what is written, what must be read).

The first is a dictionary for UFF.write_sets, the second holds the expected
field values under the names they have on reading (plus '_tol', see cmp.py).
"""
import numpy as np

KINDS = (15, 18, 55, 58, 82, 151, 164, 1858, 2400, 2411, 2412, 2414, 2420, 2429, 2467)
FUNC_TYPES = (0, 1, 2, 3, 4, 6, 9)
WORDS = ('NONE', 'node', 'accel X+', '-1', '0', '1.5e3', 'a', 'Beam (free-free)', '12-Mar-19', '10:20:30',
         'TEST 58', '58', '58b', '1e5', '"A"', "it's", '0x1F', 'nan', '-inf', '1,5', 'C:\\beam.unv', '{}', '%s',
         'm/s^2', '-', '.', 'D+03', 'x    -1', '1    58', 'None')


SEPARATORS = '\x0b\x0c\x1c\x1d\x1e\x1f\t\x7f\x85\u2028\u2029\xa0\ufeff'


class R:
    """Short hands over one random generator."""

    def __init__(self, rng, ascii_only=False, over=False, plain=False, big=0.0, odd=True, huge=False):
        self.g, self.ascii, self.over, self.plain, self.big, self.odd = rng, ascii_only, over, plain, big, odd
        self.huge, self.last = huge, ''

    def p(self, prob):
        return self.g.random() < prob

    def pick(self, seq):
        return seq[int(self.g.integers(len(seq)))]

    def count(self, top=12, most=False):
        if self.big and self.p(self.big):
            self.big = 0.0      # one dimension at a time
            c = self.g.random()
            if most and self.huge and c > 0.96:
                return self.pick((16384, 32768, 65536, 100000, 131072)) + self.pick((-1, 0, 1, 2))
            if c < 0.7:         # around powers of two and ten
                return max(1, self.pick((100, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 10000)) + self.pick((-1, 0, 1, 2, 3, 5)))
            return int(10 ** self.g.uniform(2, 4))
        c = self.g.random()
        if c < 0.3:
            return 1
        if c < 0.9:
            return int(self.g.integers(2, top + 1))
        return int(self.g.integers(top, 5 * top))

    def int(self, digits=10, neg=True):
        """At most `digits` digits, a sign takes one of them."""
        c = self.g.random()
        if c < 0.15:
            return 0
        if c < 0.3:
            return -1 if neg else 1
        if c < 0.4:
            return 10 ** digits - 1 if digits < 10 else self.pick((2147483647, 10 ** digits - 1))
        if c < 0.48 and neg:
            return -(10 ** (digits - 1) - 1)
        d = int(self.g.integers(1, digits + 1))
        v = int(self.g.integers(0, 10 ** d if d < 10 or self.p(0.3) else 2 ** 31 - 1))
        if neg and d < digits and self.p(0.3):
            v = -v
        return v

    def label(self, digits=10):
        return max(1, self.int(digits, neg=False))

    def real(self, lim=98):
        c = self.g.random()
        if lim == 98 and not self.plain and self.p(0.04):      # exponents of three digits
            lim = 300
            c = 0.6 + 0.4 * c
        if c < 0.1:
            return self.pick((0.0, -0.0, 1.0, -1.0))
        if c < 0.45 or self.plain:
            return float(self.g.normal() * 10.0 ** self.g.integers(-3, 4))
        if c < 0.55:
            return float(self.g.integers(-1000, 1000))
        if c < 0.65:        # rounds up to the next power of ten
            return float(self.pick((1, -1))) * 9.9999999999999 * 10.0 ** int(self.g.integers(-lim, lim))
        m = self.g.uniform(1, 10) * self.pick((1, -1))
        return float(m * 10.0 ** int(self.g.integers(-lim, lim + 1)))

    def reals(self, n, lim=98):
        if n > 1 and not self.plain and self.p(0.06):   # regular ones
            c = self.g.random()
            if c < 0.3:
                return np.zeros(n) + self.real(lim)
            if c < 0.6:
                return self.pick((0.0, 1.0, -5.0, 0.5)) + np.arange(n) * self.pick((1.0, 0.5, -1.0, 2.0, 0.1))
            a = np.sort([self.real(lim) for _ in range(n)])
            return a if c < 0.85 else a[::-1].copy()
        return np.array([self.real(lim) for _ in range(n)], float)

    def complexes(self, n, lim=98):
        c = self.g.random()
        if c < 0.05:
            return self.reals(n, lim) + 0j
        if c < 0.08:
            return 1j * self.reals(n, lim)
        return self.reals(n, lim) + 1j * self.reals(n, lim)

    def ints(self, n, digits=10, neg=True):
        if n > 1 and self.p(0.12):      # regular ones
            c = self.g.random()
            if c < 0.5 and n < 10 ** (digits - 1):
                return self.pick((1, 1, 0, 2)) + np.arange(n)
            if c < 0.65 and 20 * n < 10 ** (digits - 1):
                return self.pick((1, 100, 10 * n)) + np.arange(n) * self.pick((2, 10, -1) if neg else (2, 10))
            if c < 0.8:
                return np.zeros(n, int) + self.int(digits, neg)
            a = np.sort([self.int(digits, neg) for _ in range(n)])
            return a if c < 0.9 else a[::-1].copy()
        return np.array([self.int(digits, neg) for _ in range(n)], int)

    def text(self, width, over=None, blank=True):
        over = self.over if over is None else over
        c = self.g.random()
        if c < 0.12 and blank:
            return ''
        if self.last and c < 0.17:      # the same again
            t = self.last
        elif c < 0.5:
            t = self.pick(WORDS)
        else:
            n = width if c > 0.8 else int(self.g.integers(1, width + 1))
            if over and c > 0.9:
                n = width + int(self.g.integers(1, 12))
            letters = 'abcXYZ019 -+.,;:/()%#  '
            if self.p(0.15):
                letters += '\'"\\*&!?<>[]{}=_@$^|~`'
            if not self.ascii and self.p(0.2):
                letters += self.pick(('äßéč°µΩ→', 'äßéč°µΩ→', 'äé°µ', '\u0301節点\U0001f3b5ﬁ'))
            t = ''.join(self.pick(letters) for _ in range(n))
            if self.p(0.1) and n >= 10:
                t = t[:-6] + '    -1'
            if self.p(0.08) and n >= 3:     # characters that end no line of a file
                at = int(self.g.integers(1, n - 1))
                t = t[:at] + self.pick(SEPARATORS[:8 if self.ascii else None]) + t[at + 1:]
            t = (t[:1].strip() or 'q') + t[1:]
            t = t[:-1] + (t[-1:].strip() or 'z')
        if not over or not self.p(0.5):
            t = t[:width]
        self.last = t.strip()
        return self.last or ('' if blank else 'q')

    def seq(self, a):
        """The same values as a list, tuple or array (of another type, order or layout in memory)."""
        c = self.g.random()
        a = np.array(a)
        if c < 0.25:
            return a.tolist()
        if c < 0.3 and self.odd:
            return tuple(a.tolist())
        return self.array(a) if c < 0.5 and self.odd else a

    def array(self, a):
        a = np.array(a)
        c = self.g.random()
        if c < 0.25 and a.dtype.kind == 'i' and (a.size == 0 or np.abs(a).max() < 2 ** 31):
            a = a.astype('i4')
        elif c < 0.45:
            a = a.astype(a.dtype.newbyteorder('>'))
        elif c < 0.65:          # every second entry of another array
            b = np.zeros((2 * len(a),) + a.shape[1:], a.dtype)
            b[::2] = a
            a = b[::2]
        elif c < 0.75:
            a = np.asfortranarray(a)
        elif c < 0.85:
            a = a[::-1].copy()[::-1]
        if self.p(0.2):
            a.flags.writeable = False
        return a


def cut(t, width):
    return t[:width].strip()


def _dup(v):
    return v.copy() if isinstance(v, np.ndarray) else v


# ---------------------------------------------------------------- each type
def g15(r, **kw):
    n = r.count(most=True)
    d = {'node_nums': r.ints(n), 'def_cs': r.ints(n), 'disp_cs': r.ints(n), 'color': r.ints(n),
         'x': r.reals(n), 'y': r.reals(n), 'z': r.reals(n)}
    w = {k: r.seq(v) for k, v in d.items()}
    for k in ('def_cs', 'disp_cs', 'color'):
        if r.p(0.15):
            del w[k]
            d[k] = [0] * n
    return w, d


def g18(r, **kw):
    n = r.count(6)
    d = {k: r.ints(n) for k in ('cs_num', 'cs_type', 'ref_cs_num', 'color', 'method')}
    d['cs_name'] = [r.text(40, over=False) for _ in range(n)]
    for k in ('ref_o', 'x_point', 'xz_point'):
        d[k] = r.reals(3 * n).reshape(n, 3)
    w = {k: r.seq(v) if k != 'cs_name' else list(v) for k, v in d.items()}
    for k, v in (('cs_type', 0), ('color', 0), ('method', 1), ('cs_name', '')):
        if r.p(0.1):
            del w[k]
            d[k] = [v] * n
    return w, d


def g55(r, **kw):
    n = r.count(most=True)
    a = r.pick((2, 3, 5, 7))
    c = r.p(0.5)
    k = r.pick(kw.get('values') or (3, 6, 3, 6, 3, 6, 1, 2, 4, 5, 7, 9, 12))
    d = {'id%d' % i: r.text(80) for i in range(1, 6)}
    d.update(model_type=r.int(10), analysis_type=a, data_ch=r.int(10), spec_data_type=r.int(10),
             data_type=5 if c else 2, n_data_per_node=k, load_case=r.int(10))
    if a == 2:
        d.update(mode_n=r.int(10), freq=r.real(), modal_m=r.real(), modal_damp_vis=r.real(), modal_damp_his=r.real())
    elif a == 5:
        d.update(freq_step_n=r.int(10), freq=r.real())
    else:
        d.update(mode_n=r.int(10))
        for q in ('eig', 'modal_a', 'modal_b'):
            d[q] = complex(r.real(), r.real())
    d['node_nums'] = r.ints(n)
    for i in range(k):
        d['r%d' % (i + 1)] = r.complexes(n) if c else r.reals(n)
    if r.p(0.08):           # components that are zero, or real
        for q in r.pick((('r1',), ('r2', 'r3'), ('r1', 'r2', 'r3'), ('r4', 'r5', 'r6'), ('r5',),
                         ('r1', 'r2', 'r3', 'r4', 'r5', 'r6'))):
            if q in d:
                d[q] = d[q].real * 0 + (0j if c else 0) if r.p(0.5) else d[q].real + (0j if c else 0)
    w = {q: r.seq(v) if isinstance(v, np.ndarray) else v for q, v in d.items()}
    if c and r.p(0.1):      # some components given as real ones
        for i in range(1, k + 1):
            if i != k and r.p(0.5):
                q = 'r%d' % i
                d[q] = d[q].real + 0j
                w[q] = r.seq(d[q].real)
    for q in d:
        if q.startswith('id') and r.p(0.1):
            del w[q]
            d[q] = 'NONE'
    if r.p(0.3):
        w.pop('data_type')
        if k > 2:
            w.pop('n_data_per_node')
    if a == 2:
        for q in ('modal_m', 'modal_damp_vis', 'modal_damp_his'):
            if r.p(0.1):
                del w[q]
                d[q] = 0
    if a in (3, 7):
        for q in ('modal_a', 'modal_b'):
            c2 = r.g.random()
            if c2 < 0.1:
                del w[q]
                d[q] = 0
            elif c2 < 0.2:
                w[q] = d[q] = d[q].real
    d = {q: cut(v, 80) if isinstance(v, str) else v for q, v in d.items()}
    return w, d


DEF58 = {'func_id': 0, 'ver_num': 0, 'load_case_id': 0, 'rsp_ent_name': 'NONE', 'ref_ent_name': 'NONE',
         'z_axis_value': 0, 'id1': 'NONE', 'id2': 'NONE', 'id3': 'NONE', 'id4': 'NONE', 'id5': 'NONE'}
for _a in ('abscissa', 'ordinate', 'orddenom', 'z_axis'):
    for _k in ('_spec_data_type', '_len_unit_exp', '_force_unit_exp', '_temp_unit_exp'):
        DEF58[_a + _k] = 0
    DEF58[_a + '_axis_lab'] = DEF58[_a + '_axis_units_lab'] = 'NONE'


def samples(r, n, cplx, lim):
    c = r.g.random()
    if c < 0.1:
        v = np.zeros(n)
    elif c < 0.3:
        v = np.array([r.g.normal() for _ in range(n)])
    else:
        v = r.reals(n, lim)
    if cplx:
        return v + 1j * (r.reals(n, lim) if c < 0.95 else 0)
    return v


SPELL = (b'    -1', b'\n    -1\n', b'\n    -1\n    -1\n    58\n', b'\r\n    -1\r\n', b'\n', b'\r', b'\r\n',
         b'    -1' + b' ' * 74, b'\n    -1\n    -1\n    58b     1     2', b'\n    -1\n    15\n', b'\x00', b'\xff\xfe',
         b'\x1a', b'\n    -1')


def raw_values(r, count, double, delimiters=True):
    """Finite floats whose bytes are arbitrary (and can spell structure)."""
    size = 8 if double else 4
    b = bytearray(r.g.integers(0, 256, count * size, dtype=np.uint8).tobytes())
    spelled = False
    if delimiters:
        for _ in range(int(r.g.integers(0, 4))):
            s = r.pick(SPELL)
            if len(s) <= len(b):
                at = int(r.g.integers(0, len(b) - len(s) + 1)) if r.p(0.6) else r.pick((0, len(b) - len(s)))
                b[at:at + len(s)] = s
                spelled = True
        if len(b) == 32 and r.p(.2):
            b[:] = b'\n    -1\n    -1\n    58\n12345678901'[:32]
    v = np.frombuffer(bytes(b), '<f8' if double else '<f4').astype(float)
    bad = ~np.isfinite(v)
    v = np.where(bad, 1.5, v)
    if double:
        with np.errstate(all='ignore'):
            v = np.where(np.abs(v) > 1e300, 2.5, v)     # room for numpy's complex arithmetic
    return v, spelled


def g58(r, binary=None, n=None, even=None, cplx=None, single=None, delimiters=True, full=False, **kw):
    n = r.count(14, most=True) if n is None else n
    cplx = r.p(0.5) if cplx is None else cplx
    even = r.p(0.5) if even is None else even
    single = r.p(0.35) if single is None else single
    binary = r.p(0.4) if binary is None else binary
    d = {k: r.int(10) for k in ('func_id', 'load_case_id', 'rsp_node', 'ref_node')}
    d['func_type'] = r.pick(FUNC_TYPES)
    d['ver_num'] = r.int(5)
    d['rsp_dir'], d['ref_dir'] = r.int(4), r.int(4)
    d['rsp_ent_name'], d['ref_ent_name'] = r.text(10), r.text(10)
    for i in range(1, 6):
        d['id%d' % i] = r.text(80)
    for a in ('abscissa', 'ordinate', 'orddenom', 'z_axis'):
        d[a + '_spec_data_type'] = r.int(10)
        for k in ('_len_unit_exp', '_force_unit_exp', '_temp_unit_exp'):
            d[a + k] = r.int(5)
        d[a + '_axis_lab'], d[a + '_axis_units_lab'] = r.text(20), r.text(20)
    d['z_axis_value'] = r.real()
    w = dict(d)
    if not full:
        for k, v in DEF58.items():
            if r.p(0.08):
                del w[k]
                d[k] = v
    spelled = False
    lim = 36 if single else 98
    if binary and r.p(0.7):
        v, spelled = raw_values(r, n * (2 if cplx else 1), not single, delimiters)
        data = v[::2] + 1j * v[1::2] if cplx else v
    else:
        data = samples(r, n, cplx, lim)
        if r.p(0.06) and not cplx:
            data = r.g.integers(-10 ** 6, 10 ** 6, n)
        elif r.p(0.06):
            data = (np.clip(np.nan_to_num(data.real), -1e30, 1e30) +
                    (1j * np.clip(data.imag, -1e30, 1e30) if cplx else 0)).astype('c8' if cplx else 'f4')
    if even:
        dx = abs(r.real(12)) or 1.0
        x0 = r.pick((0.0, 0.0, dx * int(r.g.integers(-10 ** 4, 10 ** 4)), dx * r.g.uniform(-10, 10)))
        x = x0 + dx * np.arange(n)
    elif binary and r.p(0.5):
        x, sp = raw_values(r, n, not single, delimiters)
        spelled = spelled or sp
    else:
        x = r.reals(n, lim)
        if r.p(0.5):
            x = np.sort(x)
    w.update(x=x.copy(), data=data.copy(), abscissa_spacing=int(even))
    if binary or r.p(0.3) or full:
        w['binary'] = int(binary)
    if not even and r.p(0.2) and not full:
        del w['abscissa_spacing']
    t = (5 if single else 6) if cplx else (2 if single else 4)
    if single:
        w['ord_data_type'] = t
    elif r.p(0.5) or full:
        w['ord_data_type'] = t
    if not full and r.p(0.15):      # left from another record; these follow from the samples
        w['ord_data_type'] = r.pick((2, 5) if single else (4, 6))
        w.update(num_pts=r.int(5, neg=False), abscissa_min=r.real())
        if n > 1 or not even:
            w['abscissa_inc'] = r.real()
    if binary and r.p(0.3):
        w['n_bytes'] = r.int(9, neg=False)
    if n == 1 and even:
        w['abscissa_inc'] = dx
    for q in ('data', 'x'):
        if r.p(0.1) and not (binary and q == 'data'):
            w[q] = w[q].tolist()
        elif r.odd and r.p(0.1):
            w[q] = r.array(w[q])
    d = {q: cut(v, 80 if q.startswith('id') else 10 if q.endswith('_name') else 20) if isinstance(v, str) else v
         for q, v in d.items()}
    d.update(ord_data_type=t, num_pts=n, abscissa_spacing=int(even), binary=int(binary),
             abscissa_min=float(x[0]) if even else 0.0,
             abscissa_inc=(float(x[1] - x[0]) if n > 1 else dx) if even else 0.0)
    per = (2 if cplx else 1) + (0 if even else 1)
    if binary:
        d.update(byte_ordering=1, fp_format=2, n_ascii_lines=11, n_bytes=n * per * (4 if single else 8))
    d['data'], d['x'] = data.astype(complex if cplx else float), x.astype(float)
    tol = {}
    if binary:
        if single:
            d['data'] = data.astype('c8' if cplx else 'f4').astype('c16' if cplx else 'f8')
            if not even:
                d['x'] = x.astype('f4').astype('f8')
        tol['data'] = 0
        if not even:
            tol['x'] = 0
    else:
        tol['data'] = 5.0001e-6 if single else 5.0001e-12
        if not even:
            tol['x'] = 5.0001e-6
    if even:
        k = np.arange(n)
        tol['x'] = ('abs', 5.01e-6 * (abs(d['abscissa_min']) + k * abs(d['abscissa_inc'])) +
                    1e-14 * (np.abs(x) + abs(d['abscissa_min']) * (k + 1)))
    d['_tol'] = tol
    d['_force_double'] = not single
    d['_spelled'] = spelled
    return w, d


def g82(r, **kw):
    n = r.count(20, most=True)
    nodes = np.array([0 if r.p(0.25) else r.label() for _ in range(n)], int)
    if r.p(0.2):
        nodes = np.repeat(nodes[:max(1, n // 2)], 2)
    if r.p(0.15):
        nodes[-int(r.g.integers(1, 4)):] = 0
    if r.p(0.05):
        nodes[-1] = -1
    d = {'trace_num': r.int(10), 'color': r.int(10), 'id': r.text(80), 'nodes': nodes, 'n_nodes': len(nodes)}
    w = {'trace_num': d['trace_num'], 'color': d['color'], 'id': d['id'], 'nodes': r.seq(nodes)}
    if r.p(0.7):
        w['n_nodes'] = len(nodes) if r.p(0.9) else r.int(3, neg=False)     # follows from the nodes
    if r.p(0.1):
        del w['color']
        d['color'] = 0
    if r.p(0.1):
        del w['id']
        d['id'] = 'NONE'
    d['id'] = cut(d['id'], 80)
    return w, d


def g151(r, dates=True, **kw):
    d = {k: r.text(80) for k in ('model_name', 'description', 'db_app', 'program')}
    d.update({k: r.text(10) for k in ('date_db_created', 'time_db_created', 'date_db_saved', 'time_db_saved',
                                      'date_file_written', 'time_file_written')})
    d.update(version_db1=r.int(10), version_db2=r.int(10), file_type=r.pick((0, 1, 2, r.int(10))))
    w = dict(d)
    for q in ('version_db1', 'version_db2', 'file_type'):
        if r.p(0.1):
            del w[q]
            d[q] = 0
    for q in ('date', 'time'):
        c = r.g.random()
        if c < 0.4:         # the name used by prepare_151
            w[q + '_db_written'] = w.pop(q + '_file_written')
    if not dates:           # filled with the clock by the writer
        for q in [q for q in w if q.startswith(('date_', 'time_'))]:
            if r.p(0.5):
                del w[q]
                d.pop(q.replace('_db_written', '_file_written'), None)
    d = {q: cut(v, 10 if q.startswith(('date', 'time')) else 80) if isinstance(v, str) else v for q, v in d.items()}
    return w, d


def g164(r, **kw):
    d = {'units_code': r.int(10), 'units_description': r.text(20), 'temp_mode': r.int(10)}
    for k in ('length', 'force', 'temp', 'temp_offset'):
        d[k] = r.real(97)
    w = dict(d)
    if r.p(0.1):
        del w['units_description']
        d['units_description'] = 'User unit system'
    if r.p(0.1):
        del w['temp_mode']
        d['temp_mode'] = 1
    d['units_description'] = cut(d['units_description'], 20)
    return w, d


def g1858(r, **kw):
    d = {k: r.int(10) for k in ('record_num', 'octave_format', 'measurement_run')}
    if r.p(0.3):
        d['record_num'] = r.pick((999999999999, -99999999999, 2147483647))
    for k in ('weighting_type', 'window_type', 'amplitude_units', 'normalization_method',
              'abscissa_data_type_qualifier', 'ordinate_numerator_data_type_qualifier',
              'ordinate_denominator_data_type_qualifier', 'z_axis_data_type_qualifier', 'sampling_type'):
        d[k] = r.int(6)
    for k in ('z_rpm_value', 'z_time_value', 'z_order_value', 'num_of_samples', 'user_value_1', 'user_value_2',
              'user_value_3', 'user_value_4', 'exponential_window_damping_factor'):
        d[k] = r.real()
    d['response_direction'], d['reference_direction'] = r.text(4), r.text(4)
    w = dict(d)
    d['response_direction'] = cut(d['response_direction'], 4)
    d['reference_direction'] = cut(d['reference_direction'], 4)
    return w, d


def g2400(r, **kw):
    d = {'model_uid': r.int(10), 'entity_type': r.int(6), 'entity_subtype': r.int(6), 'version_number': r.int(10),
         'entity_name': r.text(80), 'part_number': r.text(80), 'status_mask': [r.int(2) for _ in range(32)],
         'date': r.text(10), 'time': r.text(10), 'idm_version_id': r.int(10), 'idm_item_id': r.int(10),
         'primary_parent_uid': r.int(10), 'optimization_switches': r.int(10)}
    if r.p(0.3):
        d[r.pick(('model_uid', 'version_number', 'idm_version_id', 'idm_item_id', 'primary_parent_uid',
                  'optimization_switches'))] = r.pick((999999999999, -99999999999, 2147483647))
    w = dict(d)
    w['status_mask'] = r.seq(d['status_mask'])
    for q, v in d.items():
        if r.p(0.08):
            del w[q]
            d[q] = [0] * 32 if q == 'status_mask' else '' if isinstance(v, str) else 0
    for q, wd in (('entity_name', 80), ('part_number', 80), ('date', 10), ('time', 10)):
        d[q] = cut(d[q], wd)
    return w, d


def g2411(r, **kw):
    n = r.count(most=True)
    d = {'node_nums': r.ints(n), 'def_cs': r.ints(n), 'disp_cs': r.ints(n), 'color': r.ints(n),
         'x': r.reals(n, 97), 'y': r.reals(n, 97), 'z': r.reals(n, 97)}
    return {k: r.seq(v) for k, v in d.items()}, d


ELEMENTS = (11, 21, 22, 23, 24, 41, 44, 91, 94, 95, 111, 112, 115, 116, 118, 161)


def element(r, desc, nodes=None):
    e = {'element_nums': r.int(), 'fe_descriptor': desc, 'phys_table': r.int(), 'mat_table': r.int(), 'color': r.int()}
    n = {41: 3, 44: 4, 91: 3, 94: 4, 95: 8, 11: 2, 21: 2}.get(desc) or r.pick((2, 3, 4, 8, 9, 10, 15, 16, 17, 20, 27))
    if r.p(0.1):
        n = int(r.g.integers(1, 30))
    e['num_nodes'] = n
    if desc in (11, 21, 22, 23, 24):
        e.update(beam_orientation=r.int(), beam_foreend_cross=r.int(), beam_aftend_cross=r.int())
    e['nodes_nums'] = [r.label() if r.p(0.97) else r.pick((0, -1)) for _ in range(n)] if nodes is None else nodes
    return e


def g2412(r, legacy=None, **kw):
    legacy = r.p(0.15) if legacy is None else legacy
    kinds = [r.pick(ELEMENTS) for _ in range(int(r.g.integers(1, 4)))]
    if legacy:
        kinds = [r.pick((41, 44))]
    d = {}
    for desc in kinds:
        d.setdefault(desc, [])
        for _ in range(r.count(5)):
            e = element(r, desc)
            if legacy:
                n = 3 if desc == 41 else 4
                e['num_nodes'], e['nodes_nums'] = n, [r.label() for _ in range(n)]
            d[desc].append(e)
    for num, name in ((41, 'triangle'), (44, 'quad')):
        if num in d:
            d[name] = {k: [e[k] for e in d[num]] for k in
                       ('element_nums', 'fe_descriptor', 'phys_table', 'mat_table', 'color', 'num_nodes',
                        'nodes_nums')}
    if legacy:
        name = 'triangle' if 41 in d else 'quad'
        w = {name: {k: np.array(v) for k, v in d[name].items()}}
        if r.p(0.5):
            del w[name]['num_nodes']
        if r.p(0.2):
            del w[name]['color']
            for e in d[kinds[0]]:
                e['color'] = 0
            d[name]['color'] = [0] * len(d[name]['color'])
        return w, d
    w = {k: [dict(e, nodes_nums=r.seq(e['nodes_nums'])) for e in v] for k, v in d.items() if isinstance(k, int)}
    if r.p(0.05):
        w = {np.int64(k): v for k, v in w.items()}
    if r.p(0.5):
        for k in d:
            if not isinstance(k, int):
                w[k] = {q: list(v) for q, v in d[k].items()}
    return w, d


def g2414(r, analysis=None, loc=None, **kw):
    five = r.p(0.4) if analysis is None else analysis == 5
    n = r.count()
    d = {'analysis_dataset_label': r.int(10), 'analysis_dataset_name': r.text(80)}
    for i in range(1, 6):
        d['id%d' % i] = r.text(80)
    d.update(model_type=r.int(10), data_characteristic=r.int(10), result_type=r.int(10))
    def named():
        for q in ('design_set_id', 'iteration_number', 'solution_set_id', 'boundary_condition', 'load_set',
                  'mode_number', 'time_step_number', 'frequency_number', 'creation_option', 'number_retained'):
            d[q] = r.int(10)
        for q in ('time', 'frequency', 'eigenvalue', 'modal_mass', 'viscous_damping', 'hysteretic_damping',
                  'real_part_eigenvalue', 'imaginary_part_eigenvalue', 'real_part_of_modal_A_or_modal_mass',
                  'imaginary_part_of_modal_A_or_modal_mass', 'real_part_of_modal_B_or_modal_mass',
                  'imaginary_part_of_modal_B_or_modal_mass'):
            d[q] = r.real()
    if five:
        k = r.pick((1, 2, 3))
        d.update(dataset_location=1, analysis_type=5, data_type=r.pick((5, 6)),
                 number_of_data_values_for_the_data_component=k)
        named()
        d['node_nums'] = r.ints(n)
        for q in 'xyz'[:k]:
            d[q] = r.complexes(n)
        w = {q: _dup(v) for q, v in d.items()}
        for q in ('node_nums', 'x', 'y', 'z'):
            if q in w and r.odd and r.p(0.15):
                w[q] = r.array(w[q])
    else:
        loc = r.pick((1, 2, 3)) if loc is None else loc
        d.update(dataset_location=loc, analysis_type=r.pick((0, 1, 2, 3, 4, 6, 7, 9)), data_type=r.pick((2, 4, 5, 6)))
        if analysis is None and r.p(0.3):       # responses on elements, or real ones
            d.update(analysis_type=5)
            if loc == 1:
                d.update(data_type=r.pick((2, 4)))
            named()
        else:
            for q in range(1, 9):
                d['record10_field%d' % q], d['record11_field%d' % q] = r.int(10), r.int(10)
            for q in range(1, 7):
                d['record12_field%d' % q], d['record13_field%d' % q] = r.real(), r.real()
        cplx = d['data_type'] in (5, 6)
        if loc == 1:
            k = r.pick((1, 2, 3, 4, 5, 6, 7, 9, 12, 13))
            d['number_of_data_values_for_the_data_component'] = k
            d['node_nums'] = r.ints(n)
            d['data_at_node'] = [r.reals(k * (2 if cplx else 1)) for _ in range(n)]
        elif loc == 2:
            d['number_of_data_values_for_the_data_component'] = r.int(10)
            d['element_nums'] = r.ints(n)
            d['data_at_element'] = [r.reals(r.pick((1, 2, 3, 6, 6, 7, 12, 14))) for _ in range(n)]
            d['NDVAL'] = np.array([len(v) for v in d['data_at_element']])
        else:
            d['number_of_data_values_for_the_data_component'] = r.int(10)
            d['element_nums'] = r.ints(n)
            d['IEXP'] = np.array([r.pick((1, 2)) for _ in range(n)])
            d['number_of_nodes'] = np.array([r.pick((1, 2, 3, 4, 8)) for _ in range(n)])
            d['number_of_values_per_node'] = np.array([r.pick((1, 3, 6, 7, 13)) for _ in range(n)])
            d['data_at_nodes_on_element'] = []
            for i in range(n):
                lines = []
                for _ in range(d['number_of_nodes'][i] if d['IEXP'][i] == 1 else 1):
                    left = int(d['number_of_values_per_node'][i])
                    while left > 0:
                        lines.append(r.reals(min(6, left)))
                        left -= 6
                d['data_at_nodes_on_element'].append(lines)
        w = {q: _dup(v) for q, v in d.items()}
        if r.p(0.8):
            w.pop('NDVAL', None)
        elif 'NDVAL' in w and r.p(0.5):
            w['NDVAL'] = w['NDVAL'] * 0 + 3         # follows from the values
        for q in ('node_nums', 'element_nums', 'IEXP', 'number_of_nodes', 'number_of_values_per_node'):
            if q in w and r.odd and r.p(0.15):
                w[q] = r.array(w[q])
        for q in ('data_at_node', 'data_at_element'):
            if q in w and r.odd and r.p(0.15):
                w[q] = [r.seq(v) for v in w[q]]
        if loc == 3 and r.p(0.5):
            # the values of a node in one go (what is read are the lines of them)
            lines = w['data_at_nodes_on_element']
            per = [-(-int(k) // 6) for k in d['number_of_values_per_node']]
            w['data_at_nodes_on_element'] = [[np.concatenate(e[j:j + p]) for j in range(0, len(e), p)]
                                             for e, p in zip(lines, per)]
        for q in list(d):
            if q.startswith('record1') and r.p(0.05):
                del w[q]
                d[q] = 0
    d = {q: cut(v, 80) if isinstance(v, str) else v for q, v in d.items()}
    return w, d


def g2420(r, **kw):
    n = r.count(6)
    d = {'Part_UID': r.int(10), 'Part_Name': r.text(80, over=False),
         'CS_sys_labels': r.ints(n).tolist(), 'CS_types': [r.pick((0, 1, 2)) for _ in range(n)],
         'CS_colors': r.ints(n).tolist(), 'CS_names': [r.text(80, over=False) for _ in range(n)],
         'CS_matrices': [r.reals(12, 97).reshape(4, 3) for _ in range(n)]}
    w = {k: list(v) if isinstance(v, list) else v for k, v in d.items()}
    if r.p(0.3):
        w['CS_matrices'] = np.array(d['CS_matrices'])
    elif r.odd and r.p(0.3):    # columns one after another in memory
        w['CS_matrices'] = [np.asfortranarray(m) if r.p(0.5) else m for m in w['CS_matrices']]
    for k in ('CS_sys_labels', 'CS_types', 'CS_colors'):
        w[k] = r.seq(d[k])
    if r.p(0.1):
        del w['Part_UID']
        d['Part_UID'] = 1
    if r.p(0.1):
        del w['Part_Name']
        d['Part_Name'] = 'None'
    for q, v in (('CS_types', 0), ('CS_colors', 8)):
        if r.p(0.1):
            del w[q]
            d[q] = [v] * n
    return w, d


def _group(r, members):
    n = 0 if r.p(0.15) else r.count(9)
    g = {'group_number': r.int(10), 'group_name': r.text(40, over=False, blank=False)}
    for k in ('constraint', 'restraint', 'load', 'dof', 'temperature', 'contact'):
        g['active_%s_set_no_for_group' % k] = r.int(10)
    for k in members:
        g[k] = r.ints(n)
    return g


def _groups(members):
    def make(r, **kw):
        groups = [_group(r, members) for _ in range(r.count(4))]
        w = {'groups': [{k: r.seq(v) if isinstance(v, np.ndarray) else v for k, v in g.items()} for g in groups]}
        for g, o in zip(groups, w['groups']):
            for k in [k for k in g if k.startswith('active_')]:
                if r.p(0.03):       # optional
                    del o[k]
                    g[k] = 0
            g['number_of_entities_in_group'] = len(g[members[0]])
            if r.p(0.1):        # follows from the entities
                o['number_of_entities_in_group'] = len(g[members[0]]) if r.p(0.5) else r.int(2, neg=False)
        return w, {'groups': groups}
    return make


g2429 = _groups(('entity_type_code', 'entity_tag'))
g2467 = _groups(('entity_type_code', 'entity_tag', 'entity_node_leaf_id', 'entity_component_id'))

MAKERS = {15: g15, 18: g18, 55: g55, 58: g58, 82: g82, 151: g151, 164: g164, 1858: g1858, 2400: g2400, 2411: g2411,
          2412: g2412, 2414: g2414, 2420: g2420, 2429: g2429, 2467: g2467}


def make(rng, kind, ascii_only=False, over=False, plain=False, big=0.0, odd=True, huge=False, **kw):
    r = R(rng, ascii_only, over, plain, big, odd, huge)
    w, e = MAKERS[kind](r, **kw)
    if odd and r.p(0.08):       # numbers as numpy has them
        w = {k: r.pick((np.int64, np.int32))(v) if type(v) is int and abs(v) < 2 ** 31 else
             np.float64(v) if type(v) is float else v for k, v in w.items()}
    w['type'] = kind
    e['type'] = kind
    return w, e


UNSUPPORTED = (25, 30, 56, 71, 90, 156, 666, 757, 781, 2435, 2448, 3000, 9999, 999999)


def foreign(rng):
    """A data-set of a type the package does not support."""
    r = R(rng, ascii_only=True)
    lines = []
    for _ in range(int(rng.integers(0, 6))):
        c = rng.random()
        if c < 0.4:
            lines.append(''.join('%10d' % r.int() for _ in range(int(rng.integers(1, 9)))))
        elif c < 0.7:
            lines.append(''.join('%13.5E' % r.real() for _ in range(int(rng.integers(1, 7)))))
        else:
            lines.append(r.text(80))
    return {'type': r.pick(UNSUPPORTED), 'lines': lines}


def style(rng, **kw):
    """A permitted layout of another program."""
    from . import spec
    s = dict(eol='\r\n' if rng.random() < 0.4 else '\n', exponent='Ee'[int(rng.random() < 0.5)],
             mantissa='cccccfffgm'[int(rng.integers(10))], final_eol=bool(rng.random() < 0.75),
             byte_order='<>'[int(rng.integers(2))], d_exponent='DdEe'[int(rng.integers(4))])
    c = rng.random()
    s['pad'], s['trim'] = bool(c < 0.35), bool(c > 0.7)
    s.update(kw)
    return spec.Style(**s)


BLOCKS = (512, 1024, 2048) + (4096, 8192) * 2 + (16384, 32768) + (65536,) * 3 + (131072, 1000, 10000, 100000)


def to_block(rng, n, size):
    """How many bytes move a set of size bytes at n so that its first or last lines cross a round number of bytes."""
    block = BLOCKS[int(rng.integers(len(BLOCKS)))] if rng.random() < 0.95 else (1 << 20, 10 ** 6)[int(rng.integers(2))]
    span = 8 if rng.random() < 0.5 else 24
    want = int(rng.integers(-span, span + 1)) - (size if rng.random() < 0.5 else 0)
    return int((want - n) % block)


def foreign_file(rng, st, n=None, kinds=KINDS, unsupported=True, **kw):
    """(bytes, [expected or foreign dictionaries]) of a file of another program."""
    from . import spec
    sets = []
    for _ in range(int(rng.integers(1, 5)) if n is None else n):
        if unsupported and rng.random() < 0.15:
            sets.append(foreign(rng))
            continue
        _, e = make(rng, kinds[int(rng.integers(len(kinds)))], ascii_only=True, **kw)
        if e['type'] == 2412:       # elements of all kinds one after another
            every = [x for k in e if isinstance(k, int) for x in e[k]]
            e['_elements'] = [every[i] for i in rng.permutation(len(every))]
            for k in [k for k in e if isinstance(k, int)]:
                e[k] = [x for x in e['_elements'] if x['fe_descriptor'] == k]
            for num, name in ((41, 'triangle'), (44, 'quad')):
                if num in e:
                    e[name] = {q: [x[q] for x in e[num]] for q in e[name]}
        sets.append(e)
    return spec.encode(sets, st), sets
