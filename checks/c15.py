"""See DESIGN.md, C15."""
import gc
import re
import resource
import time
import traceback

import numpy as np

from mon import api, cmp, gen, spec
from mon.core import Violation

LEVEL = 'fault_enumeration'
RULE = ('files of 2..4 sets (own and foreign layout, text and binary) cut off at every offset (every second or more of '
        'long ones, all near the ends of sets), and with the body of one set garbled (bytes, digits, lines; in place '
        'for binary sets): the index and every complete or untouched set are compared with the intact file, the time '
        'and memory of every call are bounded; distinct = distinct (file, offset or garbling)')
CASES = {'quick': 1500, 'thorough': 30000}
REQUIRED = {'truncations': 100000, 'complete sets found at their place': 50000, 'complete sets compared': 20000,
            'garblings': 6000, 'other sets compared': 10000, 'damaged sets that fail to read': 2000,
            'damaged sets that read': 1000, 'numbers replaced one after the other': 8000,
            'number lines garbled': 500, 'binary truncations': 3000, 'binary garblings': 1000}
CALL_CPU_S = 10           # one call on a file of some kilobytes normally takes milliseconds
RSS_GROWTH_KB = 600 << 10


def bounded(ctx, what, fn, *a, witness=None, **k):
    t0 = time.process_time()
    m0 = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
    v, err = api.attempt(fn, *a, **k)
    t = time.process_time() - t0
    grown = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss - m0
    e, short = err, ''
    while e is not None:
        if isinstance(e, (MemoryError, RecursionError)):
            short = repr(e)
        traceback.clear_frames(e.__traceback__)     # what the call held is released
        e = e.__context__
    if short:
        err = None
        gc.collect()
        raise Violation('%s ran out of memory: %s' % (what, short), witness=witness)
    if t > CALL_CPU_S or grown > RSS_GROWTH_KB:
        raise Violation('%s took %.1f s of CPU time and %d MB' % (what, t, grown >> 10), witness=witness)
    return v, err


def build(ctx, kind=None):
    """(bytes, blocks, readings): a file all of whose sets are read, the first of them of a kind."""
    rng = ctx.rng
    for _ in range(50):
        wanted = [kind] if kind is not None else []
        def one(**kw):
            if wanted:
                return gen.make(rng, wanted.pop(), **kw)
            if rng.random() < 0.3:
                return gen.make(rng, 58, binary=True, delimiters=bool(rng.random() < 0.3), **kw)
            return gen.make(rng, gen.KINDS[int(rng.integers(len(gen.KINDS)))], **kw)
        if rng.random() < 0.5:
            st = gen.style(rng, final_eol=True)
            sets = []
            for _ in range(int(rng.integers(2, 5))):
                if rng.random() < 0.1 and not wanted:
                    sets.append(gen.foreign(rng))
                else:
                    sets.append(one(ascii_only=True)[1])
            data = spec.encode(sets, st)
            path = ctx.path()
            api.spill(path, data)
        else:
            plan = [one() for _ in range(int(rng.integers(2, 5)))]
            path = ctx.path()
            try:
                api.prefile(ctx, path, plan)
            except Violation:
                continue
            sets = [e for _, e in plan]
            data = api.slurp(path)
        if len(data) > 12000:
            continue
        try:
            bl = spec.blocks(data)
        except spec.BadLayout:
            continue
        u, err = api.attempt(api.pyuff.UFF, path)
        if err or [int(t) for t in u.get_set_types()] != [b[2] for b in bl]:
            continue        # C09
        ref = [api.attempt(u.read_sets, i)[0] for i in range(len(bl))]
        if any(r is None for r in ref):
            continue        # C08
        return path, data, bl, ref, [e.get('_spelled', False) for e in sets]
    raise Violation('no file can be built whose sets are found and read')


def case(ctx):
    if ctx.index % 8 == 5:
        every_number(ctx)
    elif ctx.index % 2:
        garble(ctx)
    else:
        truncate(ctx)


def truncate(ctx):
    rng = ctx.rng
    path, data, bl, ref, spelled = build(ctx)
    eol = 2 if data.endswith(b'\r\n') else 1
    whole = [b[1] - eol for b in bl]        # the closing line without its end
    budget = 120 if ctx.tier == 'quick' else 1500
    near = sorted({o for b in bl for e in (b[0], b[1]) for o in range(e - 90, e + 20) if 0 <= o < len(data)})
    step = max(1, len(data) // budget)
    offsets = sorted(set(range(int(rng.integers(step)), len(data), step)) |
                     {near[int(i)] for i in rng.integers(0, len(near), budget // 2)} |
                     {o for b in bl for o in range(b[1] - 9, b[1] + 9) if 0 <= o < len(data)})
    every = step == 1
    ctx.count('files cut at every offset', every)
    for at in offsets:
        k = sum(w <= at for w in whole)
        j = next((i for i, b in enumerate(bl) if b[0] <= at < b[1]), len(bl))
        if j < len(bl) and spelled[j] and bl[j][3]:
            continue
        api.spill(path, data[:at])
        what = 'the file cut off at byte %d of %d' % (at, len(data))
        witness = {'what': what, 'types': [b[2] for b in bl], 'file': data[:at]}
        u, err = bounded(ctx, 'opening ' + what, api.pyuff.UFF, path, witness=witness)
        if err:
            raise Violation('%s cannot be opened: %s' % (what, err), witness=witness)
        n = u.get_n_sets()
        types = [int(t) for t in u.get_set_types()]
        formats = [int(f) for f in u.get_set_formats()]
        if not k <= n <= k + 1 or len(types) != n or len(formats) != n:
            raise Violation('%s has %d complete sets, %d are reported (%r)' % (what, k, n, types), witness=witness)
        if types[:k] != [b[2] for b in bl[:k]] or formats[:k] != [int(b[3]) for b in bl[:k]]:
            raise Violation('%s: types %r, formats %r of the complete sets' % (what, types, formats), witness=witness)
        ctx.count('complete sets found at their place', k)
        ctx.count('truncations')
        ctx.count('binary truncations', j < len(bl) and bl[j][3])
        ctx.count('cut sets reported', n - k)
        close = any(abs(at - b[1]) < 12 for b in bl)
        for i in range(k) if close or rng.random() < 0.15 else ([int(rng.integers(k))] if k else []):
            got, err = bounded(ctx, 'reading set %d of %s' % (i, what), u.read_sets, i, witness=witness)
            bad = str(err) if err else cmp.same(got, ref[i], 'set %d' % i)
            if bad:
                raise Violation('%s: a complete set does not read as before: %s' % (what, bad), witness=witness)
            ctx.count('complete sets compared')
        if n > k and (close or rng.random() < 0.3):
            bounded(ctx, 'reading the cut set of ' + what, u.read_sets, k, witness=witness)
        ctx.seen(data, at)
    if ctx.sample is None:
        ctx.sample = {'types': [b[2] for b in bl], 'bytes': len(data), 'offsets': len(offsets)}


FORGED = re.compile(rb'(?:^|[\r\n])    -1 *(?:[\r\n]|$)')
OPEN = re.compile(rb'    -1 *[\r\n]+    -1')


NUMBER = re.compile(rb'(?<![^\r\n]) *-?\d+(?=[\s]|$)|(?<=[ \d]) +-?\d+(?=[\s]|$)')


def one_number(rng, body):
    """One whole number of a record is another one, right-aligned in the room it has."""
    at = list(NUMBER.finditer(body))
    if at and rng.random() < 0.4:       # rather one of a line with nothing but whole numbers
        lines = [(m.start(), m.end()) for m in re.finditer(rb'^[ \d-]+$', body, re.M)]
        some = [m for m in at if any(a <= m.start() and m.end() <= z for a, z in lines)]
        at = some or at
    if not at:
        return None
    m = at[int(rng.integers(len(at)))]
    room = m.end() - m.start()
    top = 10 ** max(1, room - 1) - 1 if m.start() and body[m.start() - 1:m.start()] not in b'\r\n' else 10 ** room - 1
    v = (top, top, top // 2, top // 10, -1, 0, -(top // 10), 2 ** 31 - 1, 65536, int(m.group()) + 1, int(m.group()) - 1,
         2 * int(m.group()), int(rng.integers(1000)))[int(rng.integers(13))]
    new = b'%d' % v
    if len(new) > room:
        new = new[:room]
    return body[:m.start()] + new.rjust(room) + body[m.end():]


def every_number(ctx):
    """Each whole number of the lines with nothing but whole numbers of a set, one after the other, is another one."""
    rng = ctx.rng
    k = ctx.index // 8
    kind = gen.KINDS[k // 2 % len(gen.KINDS)] if k % 2 else COUNTING[k // 2 % len(COUNTING)]
    path, data, bl, ref, spelled = build(ctx, kind)
    if bl[0][3]:
        return
    start, end = bl[0][0], bl[0][1]
    block = data[start:end]
    two = block.find(b'\n', block.find(b'\n') + 1) + 1
    tail = block.rstrip(b' \r\n').rfind(b'\n') + 1
    body = block[two:tail]
    at = [(m.start() + n.start(), m.start() + n.end(), n.start())
          for m in re.finditer(rb'^[ \d-]*\d[ \d-]*(?=\r?$)', body, re.M) for n in re.finditer(rb' *-?\d+', m.group())]
    some = at if len(at) <= 60 else [at[i] for i in sorted(rng.choice(len(at), 60, replace=False))]
    for a, z, col in some:
        room = z - a
        top = 10 ** (room if not col else max(1, room - 1)) - 1
        for v in (-1, -(top // 10), 0, 1, top):
            new = b'%d' % v
            if len(new) > room:
                continue
            new = body[:a] + new.rjust(room) + body[z:]
            if new == body or FORGED.search(new) or OPEN.search(new):
                continue
            api.spill(path, data[:start] + block[:two] + new + block[tail:] + data[end:])
            what = 'number %r of set 0 (type %d) of %d given as %d' % (body[a:z], bl[0][2], len(bl), v)
            witness = {'what': what, 'body': body, 'garbled': new, 'file': api.slurp(path)}
            u, err = bounded(ctx, 'opening with ' + what, api.pyuff.UFF, path, witness=witness)
            if err or u.get_n_sets() != len(bl):
                raise Violation('the sets are not found with %s: %s' % (what, err), witness=witness)
            _, err = bounded(ctx, 'reading ' + what, u.read_sets, 0, witness=witness)
            ctx.count('damaged sets that fail to read' if err else 'damaged sets that read')
            bounded(ctx, 'reading the header of ' + what, u.read_sets, 0, header_only=True, witness=witness)
            j = int(rng.integers(1, len(bl)))
            got, err = bounded(ctx, 'reading set %d with %s' % (j, what), u.read_sets, j, witness=witness)
            bad = str(err) if err else cmp.same(got, ref[j], 'set %d' % j)
            if bad:
                raise Violation('with %s another set does not read as before: %s' % (what, bad), witness=witness)
            ctx.count('numbers replaced one after the other')
            ctx.seen(data, new)
    if ctx.sample is None:
        ctx.sample = {'types': [b[2] for b in bl], 'bytes': len(data), 'numbers': len(some)}


COUNTING = (2414, 2429, 2467, 2412, 82, 55, 2414, 58)


def damaged(rng, body, binary, first):
    """The body with some damage; of the same length for a binary set."""
    if rng.random() < 0.3:
        head = body[:first] if binary else body
        new = one_number(rng, head)
        if new is not None and new != head:
            return new + body[len(head):]
    b = bytearray(body)
    for _ in range(int(rng.integers(1, 4))):
        if not b:
            b = bytearray(b'x\n')
        at = int(rng.integers(len(b)))
        if binary:
            # header lines keep their ends; the payload can be anything
            head = at < first
            c = int(rng.integers(4))
            n = int(rng.integers(1, 30)) if c else 1
            for i in range(at, min(at + n, len(b), first if head else len(b))):
                if head and b[i] in b'\r\n':
                    continue
                v = int(rng.integers(32, 127)) if c < 2 else int(rng.integers(256)) if c == 2 else 57
                b[i] = v if not (head and v in b'\r\n') else 63
            continue
        c = int(rng.integers(9))
        lines = bytes(b).splitlines(True)
        i = int(rng.integers(len(lines)))
        if c == 0:
            for _ in range(int(rng.integers(1, 20))):
                b[int(rng.integers(len(b)))] = int(rng.integers(256))
        elif c == 1:
            n = int(rng.integers(1, 40))
            b[at:at + n] = bytes(rng.integers(32, 127, min(n, len(b) - at), dtype=np.uint8))
        elif c == 2:        # numbers that promise much
            n = int(rng.integers(2, 12))
            b[at:at + n] = b'9' * min(n, len(b) - at)
        elif c == 3:
            del lines[i:i + int(rng.integers(1, 4))]
            b = bytearray(b''.join(lines))
        elif c == 4:
            lines[i:i] = [lines[i]] * int(rng.integers(1, 4))
            b = bytearray(b''.join(lines))
        elif c == 5:
            order = rng.permutation(len(lines))
            b = bytearray(b''.join(lines[k] for k in order))
        elif c == 6:
            lines[i] = lines[i][:int(rng.integers(len(lines[i])))].rstrip(b'\r\n') + b'\n'
            b = bytearray(b''.join(lines))
        elif c == 7:
            b[at:at] = bytes(rng.integers(0, 256, int(rng.integers(1, 60)), dtype=np.uint8))
        else:
            lines[i] = b'%10d' % int(rng.integers(-2 ** 31, 2 ** 31)) + lines[i][10:] if len(lines[i]) > 11 else b'\n'
            b = bytearray(b''.join(lines))
    b = bytes(b)
    if not binary and b[-1:] not in (b'\n', b'\r') and b:
        b += b'\n'
    return b


def garble(ctx):
    rng = ctx.rng
    path, data, bl, ref, spelled = build(ctx)
    eol = b'\r\n' if data.endswith(b'\r\n') else b'\n'
    for _ in range(14 if ctx.tier == 'quick' else 40):
        j = int(rng.integers(len(bl)))
        if spelled[j] and bl[j][3]:
            continue
        start, end = bl[j][0], bl[j][1]
        block = data[start:end]
        one = block.find(b'\n') + 1
        two = block.find(b'\n', one) + 1                   # behind the type line
        tail = len(block) - (len(eol) + len(block.rstrip(b'\r\n').splitlines()[-1])) if not bl[j][3] else None
        if tail is None:
            tail = block.rstrip(b' \r\n').rfind(b'    -1')
        body = block[two:tail]
        first = 0
        if bl[j][3]:
            first = len(body) - bl[j][4][0][5]
        head = block[:two]
        if not bl[j][3] and rng.random() < 0.15:
            # the line with the number of the set, its end excluded
            kept = len(block[one:two].rstrip(b'\r\n'))
            line = bytearray(block[one:one + kept])
            for i in rng.integers(0, min(kept, 12), int(rng.integers(1, 7))):
                line[int(i)] = (32, 35, 45, 57, 48, 120, 63, 46)[int(rng.integers(8))]
            head = block[:one] + bytes(line) + block[one + kept:two]
            if head == block[:two] or line[:7].lower().strip() == b'58b' or line.strip() == b'-1':
                continue
            new = body
            ctx.count('number lines garbled')
        else:
            new = damaged(rng, body, bl[j][3], first)
        if FORGED.search(new) or OPEN.search(new) or (new == body and head == block[:two]) or \
                (bl[j][3] and b'    -1' in new[max(0, first - 6):]):
            continue
        api.spill(path, data[:start] + head + new + block[tail:] + data[end:])
        what = 'set %d (type %d) of %d garbled' % (j, bl[j][2], len(bl))
        witness = {'what': what, 'types': [b[2] for b in bl], 'body': block[one:two] + body, 'garbled': head[one:] + new, 'file': api.slurp(path)}
        u, err = bounded(ctx, 'opening with ' + what, api.pyuff.UFF, path, witness=witness)
        if err:
            raise Violation('the file cannot be opened with %s: %s' % (what, err), witness=witness)
        types = [int(t) for t in u.get_set_types()]
        formats = [int(f) for f in u.get_set_formats()]
        if u.get_n_sets() != len(bl) or \
                any((types[i], formats[i]) != (b[2], int(b[3])) for i, b in enumerate(bl) if i != j or head == block[:two]):
            raise Violation('with %s the file has types %r, formats %r instead of %r' % (
                what, types, formats, [b[2] for b in bl]), witness=witness)
        for i in range(len(bl)):
            if i == j:
                _, err = bounded(ctx, 'reading ' + what, u.read_sets, i, witness=witness)
                ctx.count('damaged sets that fail to read' if err else 'damaged sets that read')
                bounded(ctx, 'reading the header of ' + what, u.read_sets, i, header_only=True, witness=witness)
                continue
            got, err = bounded(ctx, 'reading set %d with %s' % (i, what), u.read_sets, i, witness=witness)
            bad = str(err) if err else cmp.same(got, ref[i], 'set %d' % i)
            if bad:
                raise Violation('with %s another set does not read as before: %s' % (what, bad), witness=witness)
            ctx.count('other sets compared')
        if rng.random() < 0.2:
            bounded(ctx, 'reading all sets with ' + what, u.read_sets, witness=witness)
        ctx.count('garblings')
        ctx.count('binary garblings', bl[j][3])
        ctx.seen(data, head, new)
    if ctx.sample is None:
        ctx.sample = {'types': [b[2] for b in bl], 'bytes': len(data), 'garbled': True}
