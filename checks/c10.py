"""See DESIGN.md, C10."""
import copy
import os

from mon import api, cmp, gen, spec
from mon.core import Violation

RULE = ('histories of 2..6 add and overwrite calls (single sets, lists, unsupported types among them) on an absent, '
        'empty, own, foreign (with or without final newline) or unrelated file; after every call the bytes of the file '
        'are checked against the bytes before it and its sets against their readings before and against their '
        'readings when written alone; distinct = distinct (history, file contents)')
CASES = {'quick': 3500, 'thorough': 120000}
REQUIRED = {'lists of a thousand': 4, 'long files': 5, 'long lists': 20, 'calls': 9000, 'add to a file with sets': 3000, 'overwrite of a file with sets': 1500,
            'earlier sets compared': 9000, 'new sets compared': 9000, 'lists against one by one': 2000,
            'start without final newline': 300, 'binary sets': 1500, 'unsupported sets ignored': 500, 'listed twice': 500}


def reading_alone(ctx, w, e):
    """What the set reads to when it is the only one; None when that does not work at all (C01-C06)."""
    p = ctx.path()
    try:
        api.write(p, w, 'overwrite', api.fd(e))
        r = api.read_all(p)
    except Violation:
        return None
    finally:
        if os.path.exists(p):
            os.unlink(p)
    return r[0] if len(r) == 1 else None


def readings(path):
    """[reading or the fact that it fails] of every set."""
    u, err = api.attempt(api.pyuff.UFF, path)
    if err:
        return None
    out = []
    for i in range(u.get_n_sets()):
        r, err = api.attempt(u.read_sets, i)
        out.append(r if err is None else type(err).__name__)
    return out


def start(ctx, path):
    """Prior content of the file; returns its name."""
    rng = ctx.rng
    c = rng.random()
    if c < 0.2:
        return 'absent'
    if c < 0.3:
        api.spill(path, b'')
        return 'empty'
    if c < 0.4:
        api.spill(path, gen.R(rng).pick((b'notes of another program', b'a\r\nb', b'\n', b'x\n\n', b'\x00\x01\xff',
                                         b'header\r\n')))
        return 'unrelated'
    if c < 0.8:
        st = gen.style(rng)
        data, sets = gen.foreign_file(rng, st)
        if rng.random() < 0.02 and st.final_eol:
            data *= int(10 ** rng.uniform(4.8, 5.8)) // len(data) + 1
            ctx.count('long files')
        tail = gen.R(rng).pick((b'', b'', b'', b'   ', b'end of file', b'\n\n')) if data[-1:] in b'\r\n' else b''
        api.spill(path, data + tail)
        return 'foreign, final newline' if (data + tail)[-1:] in (b'\n', b'\r') else 'foreign, no final newline'
    api.prefile(ctx, path, api.some_sets(ctx, int(rng.integers(1, 4))))
    return 'own'


def grown(before, after, witness):
    """The appended bytes, the earlier bytes being in place."""
    if not after.startswith(before):
        at = next((i for i in range(min(len(before), len(after))) if before[i] != after[i]), min(len(before), len(after)))
        raise Violation('adding changed byte %d of the %d bytes that were in the file' % (at, len(before)), witness=witness)
    rest = after[len(before):]
    if before and before[-1:] not in b'\r\n':       # the last line is ended first
        rest = rest[2:] if rest[:2] == b'\r\n' else rest[1:] if rest[:1] == b'\n' else rest
    return rest


def thousand(ctx):
    """A list of more sets than calls can be nested."""
    rng = ctx.rng
    path = ctx.path()
    n = int(rng.integers(1000, 1300))
    sets = [{'type': 82, 'trace_num': i + 1, 'color': 1, 'id': 'line %d' % i, 'nodes': [i + 1, 0, i + 2]} for i in range(n)]
    mode = 'add' if rng.random() < 0.5 else 'overwrite'
    api.write(path, sets, mode)
    data = api.slurp(path)
    witness = {'sets': n, 'mode': mode, 'file': data}
    found = [b[2] for b in spec.blocks(data)]
    if found != [82] * n:
        raise Violation('%s of %d sets wrote %d' % (mode, n, len(found)), witness=witness)
    now = api.read_all(path)
    if len(now) != n or any(int(d['trace_num']) != i + 1 for i, d in enumerate(now)):
        raise Violation('%d sets were written (%s), %d are found, or in another order' % (n, mode, len(now)), witness=witness)
    ctx.count('lists of a thousand')
    ctx.seen(data)


def case(ctx):
    rng = ctx.rng
    if ctx.index in (7, 407, 1207, 2007):
        return thousand(ctx)
    path, twin = ctx.path(), ctx.path()
    first = start(ctx, path)
    u = api.opened(rng, path) if rng.random() < 0.5 else None
    log = [first]
    for _ in range(int(rng.integers(2, 7))):
        before = api.slurp(path) if os.path.exists(path) else None
        was = readings(path)
        if was is None:
            raise Violation('a file cannot be opened after %r' % log, witness=before)
        mode = 'add' if rng.random() < 0.7 else 'overwrite'
        force = bool(rng.random() < 0.75)
        plan = []
        for _ in range(1 if rng.random() < 0.5 else int(rng.integers(1, 5))):
            if rng.random() < 0.12:
                plan.append(({'type': gen.R(rng).pick((9999, 25, 156, 3000))}, None, None))
                continue
            w, e = api.some_sets(ctx, 1, gen.KINDS + (58,) * 4, big=0.002)[0]
            if e['type'] == 58 and api.fd(e) != force:
                w, e = gen.make(rng, 58, single=not force)
            alone = reading_alone(ctx, w, e)
            if alone is not None:
                plan.append((w, e, alone))
        if not plan:
            continue
        if len(plan) > 1 and rng.random() < 0.25:       # the same object, or an equal one, again
            w, e, r = plan[int(rng.integers(len(plan)))]
            plan.insert(int(rng.integers(len(plan) + 1)), (w if rng.random() < 0.6 else copy.deepcopy(w), e, r))
            ctx.count('listed twice')
        if rng.random() < 0.004:
            plan = [plan[int(i)] for i in rng.integers(0, len(plan), int(rng.integers(11, 130)))]
            ctx.count('long lists')
        sets = [w for w, _, _ in plan]
        kinds = [w['type'] for w in sets]
        log.append('%s %r' % (mode, kinds))
        if before is not None:
            api.spill(twin, before)
        elif os.path.exists(twin):
            os.unlink(twin)
        given = sets[0] if len(sets) == 1 and rng.random() < 0.5 else sets
        word = gen.R(rng).pick((mode, mode, mode.upper(), mode.capitalize()))
        api.write(path, given, word, force, uff=u)
        after = api.slurp(path)
        witness = {'history': log, 'before': before, 'written': sets, 'after': after}
        kept = [(w, e, r) for w, e, r in plan if e is not None]
        ctx.count('unsupported sets ignored', len(plan) - len(kept))
        fresh = grown(before or b'', after, witness) if mode == 'add' else after
        if not kept and fresh.strip():
            raise Violation('%d bytes were written for unsupported sets only' % len(fresh), witness=witness)
        try:
            written = [b[2] for b in spec.blocks(fresh)] if kept else []
        except spec.BadLayout as b:
            raise Violation('%s does not write complete data-sets only: %s' % (mode, b), witness=witness)
        if written != [e['type'] for _, e, _ in kept]:
            raise Violation('%s of %r wrote %r' % (mode, kinds, written), witness=witness)
        # what is read
        now = api.read_all(path) if kept or (was and mode == 'add') else []
        early = was if mode == 'add' else []
        if len(now) != len(early) + len(kept):
            raise Violation('%d sets were in the file, %d were written (%s), %d are found' % (
                len(was), len(kept), mode, len(now)), witness=witness)
        for i, r in enumerate(early):
            if isinstance(r, dict):
                bad = cmp.same(now[i], r, 'set %d' % i)
                if bad:
                    raise Violation('adding changed an earlier set: %s' % bad, witness=witness)
                ctx.count('earlier sets compared')
        for i, (w, e, r) in enumerate(kept):
            bad = cmp.same(now[len(early) + i], r, 'set %d' % (len(early) + i))
            if bad:
                raise Violation('a set that was written (%s) reads differently from the same set alone: %s' % (mode, bad),
                                witness=witness)
            ctx.count('new sets compared')
            ctx.count('binary sets', bool(e.get('binary')))
        # the same, one after another
        for i, w in enumerate(sets):
            api.write(twin, w, mode if i == 0 else 'add', force)
        if api.slurp(twin) != after:
            raise Violation('the list %r written at once (%s) gives another file than one by one' % (kinds, mode),
                            witness=dict(witness, one_by_one=api.slurp(twin)))
        if len(sets) > 1:
            ctx.count('lists against one by one')
        ctx.count('calls')
        if was:
            ctx.count('add to a file with sets' if mode == 'add' else 'overwrite of a file with sets')
        ctx.seen(log, after)
    ctx.count('start ' + first.replace('foreign, no', 'without').replace('foreign, ', 'with ')
              if first.startswith('foreign') else 'start ' + first)
    if ctx.sample is None:
        ctx.sample = log
