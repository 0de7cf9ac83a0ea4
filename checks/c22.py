"""See DESIGN.md, C22."""
import os

import numpy as np

from mon import api, cmp, gen, spec
from mon.core import Violation

RULE = ('files of 1..6 sets in which sets of unlisted numbers (1..999999: neighbours, parts and extensions of the listed '
        'ones, and any) carry the body of a listed type, free text, numbers or nothing; the index, every way of reading '
        'and the sets around them are compared with the same file without them; and writes of unlisted types, alone and '
        'in lists, compared byte by byte with the writes without them; all listed types written and read; '
        'distinct = distinct (numbers, positions, content)')
CASES = {'quick': 8000, 'thorough': 300000}
REQUIRED = {'unlisted sets read': 9000, 'bodies of a listed type': 4500,
            'neighbouring sets compared': 9000, 'unlisted sets written': 8000, 'lists with unlisted sets': 2300,
            'listed types written and read': 8000, 'lists handed out': 8000}
LISTED = tuple(sorted(gen.KINDS))
NAMES = sorted([str(k) for k in LISTED] + ['58b'])


def number(r):
    """A number that is not listed, rather one that is easily taken for a listed one."""
    for _ in range(100):
        c = int(r.g.integers(8))
        k = int(r.pick(LISTED))
        s = str(k)
        if c == 0:
            n = k + int(r.pick((-1, 1, -2, 2, 10, -10, 100, -100, 1000, 2000)))
        elif c == 1:
            n = int(s + str(int(r.g.integers(10))))
        elif c == 2:
            n = int(str(int(r.g.integers(1, 10))) + s)
        elif c == 3:
            n = int(s[1:] or 0) if r.p(0.5) else int(s[:-1] or 0)
        elif c == 4:
            n = int(s + str(r.pick(LISTED)))
        elif c == 5:
            n = int(s[::-1])
        elif c == 6:
            n = int(r.g.integers(1, 10 ** int(r.g.integers(1, 7))))
        else:
            n = r.pick(gen.UNSUPPORTED)
        if 0 < n <= 999999 and n not in LISTED:
            return int(n)
    return 25


def unlisted(ctx, r, st):
    """(number, bytes) of a set of another type as another program writes it."""
    n = number(r)
    c = r.g.random()
    if c < 0.5:
        _, e = gen.make(ctx.rng, r.pick(LISTED), ascii_only=True)
        if e.get('binary'):
            e = dict(e, binary=0)
        block = spec.encode_set(e, st).decode('ascii')
        lines = block.split(st.eol)[2:-2]
        body = ''.join(t + st.eol for t in lines)
        ctx.count('bodies of a listed type')
    else:
        body = ''.join(st.line(t) for t in gen.foreign(ctx.rng)['lines'])
    ctx.seen('number', n)
    return n, (st.line('    -1') + st.line('%6d' % n) + body + st.line('    -1')).encode('ascii')


def names(ctx):
    u = api.must('opening', api.pyuff.UFF, ctx.path())
    got = api.must('get_supported_sets', u.get_supported_sets)
    if sorted(map(str, got)) != NAMES:
        raise Violation('get_supported_sets() gives %r; the package reads and writes %r' % (got, NAMES))
    ctx.count('lists handed out')
    try:
        got[:] = ['1']
    except TypeError:
        return
    again = api.must('get_supported_sets', u.get_supported_sets)
    if sorted(map(str, again)) != NAMES:
        raise Violation('get_supported_sets() gives %r after the list it gave was changed' % (again,))


def reading(ctx):
    """Sets of unlisted types between others."""
    rng = ctx.rng
    r = gen.R(rng)
    st = gen.style(rng, final_eol=True)
    parts, kept = [], []
    for _ in range(int(rng.integers(1, 7))):
        if rng.random() < 0.5:
            parts.append(unlisted(ctx, r, st) + (True,))
        else:
            _, e = gen.make(rng, gen.KINDS[int(rng.integers(len(gen.KINDS)))], ascii_only=True)
            parts.append((e['type'], spec.encode_set(e, st), False))
    plain, path = ctx.path(), ctx.path()
    api.spill(plain, b''.join(b for _, b, other in parts if not other))
    api.spill(path, b''.join(b for _, b, _ in parts))
    witness = {'types': [p[0] for p in parts], 'file': api.slurp(path)}
    v = api.must('opening', api.pyuff.UFF, plain)
    if [int(t) for t in v.get_set_types()] != [t for t, _, other in parts if not other]:
        return False            # C09
    u = api.must('opening', api.pyuff.UFF, path)
    if u.get_n_sets() != len(parts) or [int(t) for t in u.get_set_types()] != [p[0] for p in parts]:
        raise Violation('the file has types %r, %r are reported' % ([p[0] for p in parts], list(u.get_set_types())),
                        witness=witness)
    k, good = 0, True
    for i, (t, _, other) in enumerate(parts):
        if other:
            if int(u.get_set_formats()[i]) != 0:
                raise Violation('set %d (type %d) is reported as binary' % (i, t), witness=witness)
            for h in (False, True):
                d = api.must('reading set %d, of type %d' % (i, t), u.read_sets, i, header_only=h)
                empty(d, i, t, witness)
            ctx.count('unlisted sets read')
        else:
            ref, err = api.attempt(v.read_sets, k)
            d, bad = api.attempt(u.read_sets, i)
            k += 1
            if err or bad:
                good = False
                if (err is None) != (bad is None):
                    raise Violation('set %d (type %d) is read only %s unlisted sets: %s' % (
                        i, t, 'without' if bad else 'with', err or bad), witness=witness)
                continue
            m = cmp.same(d, ref, 'set %d' % i)
            if m:
                raise Violation('with unlisted sets around it a set reads differently: %s' % m, witness=witness)
            ctx.count('neighbouring sets compared')
    if good:
        every = api.listed(api.must('reading all sets of %r' % witness['types'], u.read_sets), len(parts))
        for i, (t, _, other) in enumerate(parts):
            if other:
                empty(every[i], i, t, witness)
            elif every[i].get('type') != t:
                raise Violation('set %d of all is of type %r' % (i, every[i].get('type')), witness=witness)
    ctx.seen([p[0] for p in parts], witness['file'])
    return True


def empty(d, i, t, witness):
    if not isinstance(d, dict) or set(d) != {'type'} or int(d['type']) != t:
        raise Violation('set %d, of the unlisted type %d, is read as %.200r' % (i, t, d), witness=witness)


def writing(ctx):
    """Writes with and without sets of unlisted types."""
    rng = ctx.rng
    r = gen.R(rng)
    plain, path = ctx.path(), ctx.path()
    c = rng.random()
    if c < 0.3:
        start = None
    elif c < 0.4:
        start = b''
    else:
        start, _ = gen.foreign_file(rng, gen.style(rng))
    for p in (plain, path):
        if start is not None:
            api.spill(p, start)
    plan, log = [], []
    fd = bool(rng.random() < 0.7)
    for _ in range(int(rng.integers(1, 6))):
        w, e = gen.make(rng, gen.KINDS[int(rng.integers(len(gen.KINDS)))])
        if rng.random() < 0.5:
            n = number(r)
            ctx.seen('number', n)
            if rng.random() < 0.4:
                w = {}
            w['type'] = np.int64(n) if rng.random() < 0.2 else n
            plan.append((w, True))
        else:
            plan.append((w, False))
    a = b = None
    if rng.random() < 0.5:
        a, b = (api.must('opening', api.pyuff.UFF, p) for p in (plain, path))
    witness = {'start': start, 'sets': [w for w, _ in plan]}
    left = list(plan)
    while left:
        n = int(rng.integers(1, len(left) + 1)) if rng.random() < 0.6 else 1
        part, left = left[:n], left[n:]
        kept = [w for w, other in part if not other]
        if kept:
            api.write(plain, kept, 'add', fd, uff=a)
        api.write(path, part[0][0] if n == 1 and rng.random() < 0.5 else [w for w, _ in part], 'add', fd, uff=b)
        ctx.count('unlisted sets written', len(part) - len(kept))
        ctx.count('lists with unlisted sets', n > 1 and len(kept) < len(part))
        was = api.slurp(plain) if os.path.exists(plain) else b''
        now = api.slurp(path) if os.path.exists(path) else b''
        if was != now:
            at = next((i for i, (x, y) in enumerate(zip(was, now)) if x != y), min(len(was), len(now)))
            raise Violation('adding %r gives a file that differs at byte %d of %d from adding %r alone' % (
                [w['type'] for w, _ in part], at, len(now), [w['type'] for w in kept]), witness=witness)
    types = [w['type'] for w, other in plan if not other]
    if start is None and os.path.exists(path):
        u = b or api.must('opening', api.pyuff.UFF, path)
        if [int(t) for t in u.get_set_types()] != types:
            raise Violation('sets %r were added, %r are reported' % (
                [w['type'] for w, _ in plan], list(u.get_set_types())), witness=witness)
    ctx.seen([w['type'] for w, _ in plan], start)


def listed(ctx):
    """What is on the list is written and read."""
    name = NAMES[ctx.index % len(NAMES)]
    kind = 58 if name == '58b' else int(name)
    kw = {'binary': name == '58b'} if kind == 58 else {}
    w, e = gen.make(ctx.rng, kind, **kw)
    path = ctx.path()
    api.write(path, w, 'overwrite', api.fd(e))
    u = api.must('opening', api.pyuff.UFF, path)
    if [int(t) for t in u.get_set_types()] != [kind] or [int(f) for f in u.get_set_formats()] != [int(name == '58b')]:
        raise Violation('a set of the listed type %s is reported as %r, %r' % (
            name, list(u.get_set_types()), list(u.get_set_formats())), witness=w)
    d = api.must('reading a set of the listed type %s' % name, u.read_sets)
    bad = cmp.check_set(d, e)
    if bad or len(d) < 2:
        raise Violation('a set of the listed type %s does not read back: %s' % (name, bad), witness=w)
    ctx.count('listed types written and read')


def case(ctx):
    names(ctx)
    listed(ctx)
    done = reading(ctx)
    writing(ctx)
    if ctx.sample is None and done:
        ctx.sample = {'names': NAMES}
