"""See DESIGN.md, C23."""
import re

import numpy as np

from mon import api, cmp, corpus, gen, mon
from mon.core import Violation
from checks.c15 import bounded

RULE = ('files of any bytes: random ones, a soup of pieces of the format (delimiters, type lines, headers, numbers, texts, '
        'payloads, line ends and separators of every kind), well-formed and shipped files with many changes, spliced and '
        'shuffled, huge counts, long runs of one piece; every query and way of reading is called twice and the answers '
        'are held against each other and against bounds of time and memory; then a correct set is added and written '
        'over it; distinct = distinct file contents')
CASES = {'quick': 16000, 'thorough': 400000}
REQUIRED = {'files opened': 16000, 'sets read': 25000, 'sets that fail to read': 6000, 'sets with data': 6000,
            'sets of unlisted numbers': 10000, 'headers read': 18000, 'files without sets': 2000, 'files written over': 16000,
            'files added to': 16000, 'bytes': 40000000}
LISTED = set(gen.KINDS)
ENDS = (b'\n', b'\n', b'\n', b'\r\n', b'\r\n', b'\r', b'\n\n', b'\x0b', b'\x0c', b'\x1c', b'\x85', b'\xc2\x85', b'\xe2\x80\xa8', b'\x00', b'')


def pieces(rng, r):
    """One piece of the format, or of something close to it."""
    c = int(rng.integers(16))
    end = ENDS[int(rng.integers(len(ENDS)))] if rng.random() < 0.3 else b'\n'
    if c < 3:
        return b'    -1' + (b'' if rng.random() < 0.8 else b' ' * int(rng.integers(1, 90))) + end
    if c < 6:
        kind = r.pick(gen.KINDS) if rng.random() < 0.8 else int(rng.integers(0, 10 ** 6))
        t = b'%6d' % kind if rng.random() < 0.9 else b'%d' % kind
        if kind == 58 and rng.random() < 0.7:
            t += b'b' + b''.join(b'%*d' % (w, v) for w, v in zip((6, 6, 12, 12, 6, 6, 12, 12), (
                int(rng.integers(0, 4)), 2, int(rng.integers(0, 14)),
                int(r.pick((0, 8, 16, 100, -8, 10 ** 9, int(rng.integers(0, 400))))), 0, 0, 0, 0)))
        return t + end
    if c == 6:
        return b''.join(b'%10d' % r.int() for _ in range(int(rng.integers(1, 9)))) + end
    if c == 7:
        return b''.join(b'%10d' % r.pick((0, 1, 2, 3, 4, 5, 6, 9, 11, -1, 44, 10 ** 9)) for _ in range(int(rng.integers(1, 9)))) + end
    if c == 8:
        return b''.join(b'%13.5e' % r.real() for _ in range(int(rng.integers(1, 7)))) + end
    if c == 9:
        return (r.text(80).encode('utf-8', 'replace')).ljust(int(rng.integers(0, 90))) + end
    if c == 10:
        return bytes(rng.integers(0, 256, int(rng.integers(1, 60)), dtype=np.uint8))
    if c == 11:
        return rng.random(int(rng.integers(1, 20))).tobytes()
    if c == 12:
        return b'NONE' + end
    if c == 13:
        return b' ' * int(rng.integers(1, 200)) + end
    if c == 14:
        return r.pick((b'nan inf -inf', b'1e400 -1e400', b'1.0D+02', b'9' * 400, b'-' * 80, b'0x10', b'1_000', b'%s%n', b'\xff\xfe',
                       b'NaN', b'++1', b'1e', b'\xd9\xa1\xd9\xa2', b'{0}', b'\xe2\x88\x92' b'1')) + end
    return r.pick((b'-1', b'     -1', b'   -1', b'    -1x', b'    -1 0', b'x    -1', b'    -1    -1', b'\t-1')) + end


def changed(rng, data, other):
    """Many changes of a well-formed file."""
    b = bytearray(data)
    for _ in range(int(rng.integers(1, 12))):
        if not b:
            break
        c = int(rng.integers(10))
        at = int(rng.integers(len(b)))
        n = int(rng.integers(1, 1 + int(10 ** (3 * rng.random()))))
        if c == 0:
            b[at] = int(rng.integers(256))
        elif c == 1:
            del b[at:at + n]
        elif c == 2:
            b[at:at] = b[at:at + n]
        elif c == 3:
            to = int(rng.integers(len(b)))
            b[to:to] = b[at:at + n]
        elif c == 4:
            f = int(rng.integers(max(1, len(other))))
            b[at:at] = other[f:f + n]
        elif c == 5:
            b[at:at + 1] = ENDS[int(rng.integers(len(ENDS)))]
        elif c == 6:
            m = [m for m in re.finditer(rb'\d+', bytes(b[:20000]))]
            if m:
                m = m[int(rng.integers(len(m)))]
                v = (b'9' * (m.end() - m.start()), b'0', b'-1', b'%d' % (int(m.group()[:15]) + 1), b'2147483648', b'1e9')[int(rng.integers(6))]
                b[m.start():m.end()] = v.rjust(m.end() - m.start())
        elif c == 7:
            lines = bytes(b).splitlines(True)
            i = int(rng.integers(len(lines)))
            lines[i:i + 1] = [lines[int(rng.integers(len(lines)))]] * int(rng.integers(0, 4))
            b = bytearray(b''.join(lines))
        elif c == 8:
            b[at:at] = b'\n    -1\n' if rng.random() < 0.6 else b'    -1'
        else:
            i = bytes(b).find(b'    -1', at)
            if i >= 0:
                b[i:i + 6] = (b'     1', b'    -1 ', b'   -1', b'')[int(rng.integers(4))]
    return bytes(b)


def content(ctx):
    rng = ctx.rng
    r = gen.R(rng)
    c = rng.random()
    if c < 0.03:
        return bytes(rng.integers(0, 256, int(rng.integers(0, 3000)), dtype=np.uint8))
    if c < 0.05:            # long runs of one piece
        p = pieces(rng, r)
        return p * (int(rng.integers(1, 60000)) // max(1, len(p)))
    if c < 0.4:
        return b''.join(pieces(rng, r) for _ in range(int(rng.integers(1, 60))))
    small = corpus.files(50000)
    if c < 0.5 and small:
        data = api.slurp(small[int(rng.integers(len(small)))])
    else:
        data, _ = gen.foreign_file(rng, gen.style(rng), kinds=gen.KINDS + (58,) * 4)
    other = gen.foreign_file(rng, gen.style(rng), n=1)[0]
    return changed(rng, data, other)


def answers(ctx, path, witness):
    """Everything the object says about the file: {question: (answer, failed)}"""
    def ask(what, fn, *a, **k):
        try:
            return bounded(ctx, what, fn, *a, witness=witness, **k)
        except Exception:
            raise
        except BaseException as e:      # SystemExit, KeyboardInterrupt, GeneratorExit
            raise Violation('%s ended with %s' % (what, type(e).__name__), witness=witness)
    u, err = ask('opening', api.pyuff.UFF, path)
    if err:
        raise Violation('the file cannot be opened: %s: %s' % (type(err).__name__, err), witness=witness)
    n = api.must('get_n_sets', u.get_n_sets)
    out = {'n': (n, None), 'types': ([int(t) for t in api.must('get_set_types', u.get_set_types)], None),
           'formats': ([int(t) for t in api.must('get_set_formats', u.get_set_formats)], None)}
    some = list(range(n)) if n <= 12 else sorted({int(i) for i in ctx.rng.integers(0, n, 12)})
    for i in some:
        out[i] = ask('reading set %d' % i, u.read_sets, i)
        out[i, 'header'] = ask('reading the header of set %d' % i, u.read_sets, i, header_only=True)
    if n <= 12:
        out['all'] = ask('reading all sets', u.read_sets)
    elif ctx.rng.random() < 0.5:
        ask('reading all sets', u.read_sets)
    return u, some, out


def alike(a, b, witness):
    """The same questions have the same answers (where the same were asked)."""
    for q in a:
        if q in b:
            (x, ex), (y, ey) = a[q], b[q]
            if (ex is None) != (ey is None):
                raise Violation('reading %r: first %s, then %s' % (q, ex or 'a result', ey or 'a result'), witness=witness)
            m = None if ex else alike_value(x, y)
            if m:
                raise Violation('reading %r twice differs: %s' % (q, m), witness=witness)


def alike_value(x, y):
    if isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
        return next((m for m in map(alike_value, x, y) if m), None)
    return cmp.same(x, y, 'the result')


def case(ctx):
    rng = ctx.rng
    data = content(ctx)
    path = ctx.path()
    api.spill(path, data)
    witness = {'file': data}
    before = mon.fds()
    u, some, out = answers(ctx, path, witness)
    n, types, formats = out['n'][0], out['types'][0], out['formats'][0]
    if len(types) != n or len(formats) != n or not set(formats) <= {0, 1}:
        raise Violation('%r sets, types %r, formats %r' % (n, types, formats), witness=witness)
    if 2 * n > data.count(b'    -1'):
        raise Violation('%d sets in a file with %d delimiters' % (n, data.count(b'    -1')), witness=witness)
    for i in some:
        (d, err), (h, herr) = out[i], out[i, 'header']
        ctx.count('sets read')
        if err:
            ctx.count('sets that fail to read')
            if types[i] and types[i] not in LISTED:
                raise Violation('reading set %d of the unlisted type %d raised %s' % (i, types[i], err), witness=witness)
        for v in ([] if err else [d]) + ([] if herr else [h]):
            if not isinstance(v, dict) or 'type' not in v or int(v['type']) != types[i]:
                raise Violation('set %d of type %d is read as %.200r' % (i, types[i], v), witness=witness)
        if not err and types[i] in LISTED:
            ctx.count('sets with data')
        if types[i] not in LISTED:
            ctx.count('sets of unlisted numbers')
            if not err and set(d) != {'type'}:
                raise Violation('set %d of the unlisted type %d is read as %.200r' % (i, types[i], d), witness=witness)
        if not err and herr:
            raise Violation('set %d is read, but not by its header only: %s' % (i, herr), witness=witness)
        if not herr:
            ctx.count('headers read')
            if types[i] != 58 and not err and cmp.same(h, d):
                raise Violation('set %d of type %d reads differently by its header only: %s' % (
                    i, types[i], cmp.same(h, d)), witness=witness)
            if types[i] == 58 and not err:
                m = cmp.same({k: v for k, v in h.items() if k not in ('x', 'data')},
                             {k: v for k, v in d.items() if k not in ('x', 'data')})
                if m:
                    raise Violation('set %d has another header when read by its header only: %s' % (i, m), witness=witness)
    if 'all' in out:
        v, err = out['all']
        bad = [i for i in some if out[i][1]]
        if (err is not None) != bool(bad):
            raise Violation('sets %r fail to read, reading all %s' % (bad, 'raises %s' % err if err else 'succeeds'),
                            witness=witness)
        if not err:
            m = alike_value(api.listed(v, n), [out[i][0] for i in some])
            if m:
                raise Violation('reading all sets differs from reading them one by one: %s' % m, witness=witness)
    v, err = api.attempt(u.read_sets, n)
    if err is None:
        raise Violation('set %d of %d is read as %.200r' % (n, n, v), witness=witness)
    if rng.random() < 0.5:
        again = answers(ctx, path, witness)[2]
        alike(out, again, witness)
    if api.slurp(path) != data:
        raise Violation('opening and reading changed the file', witness=witness)
    del u
    left = {k: t for k, t in mon.fds().items() if before.get(k) != t}
    if left:
        raise Violation('files are left open: %r' % left, witness=witness)
    # the file remains usable
    w, e = gen.make(rng, gen.KINDS[int(rng.integers(len(gen.KINDS)))])
    v = api.must('opening', api.pyuff.UFF, path)
    api.write(path, w, 'add', api.fd(e), uff=v)
    now = api.slurp(path)
    if now[:len(data)] != data:
        raise Violation('adding to the file changed byte %d of it' % next(
            (i for i, (x, y) in enumerate(zip(now, data)) if x != y), len(now)), witness=witness)
    if len(now) <= len(data):
        raise Violation('adding to the file wrote nothing', witness=witness)
    ctx.count('files added to')
    api.write(path, w, 'overwrite', api.fd(e), uff=v)
    if v.get_n_sets() != 1 or [int(t) for t in v.get_set_types()] != [e['type']]:
        raise Violation('after writing a set over the file, %r are reported' % list(v.get_set_types()), witness=witness)
    bad = cmp.check_set(api.must('reading what was written over the file', v.read_sets), e)
    if bad:
        raise Violation('what was written over the file does not read back: %s' % bad, witness=dict(witness, set=w))
    ctx.count('files written over')
    ctx.count('files opened')
    ctx.count('files without sets', n == 0)
    ctx.count('bytes', len(data))
    ctx.seen(data)
    if ctx.sample is None:
        ctx.sample = {'bytes': len(data), 'types': types[:12], 'failed': [i for i in some if out[i][1]]}
