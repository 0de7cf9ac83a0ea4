"""See DESIGN.md, C11."""
import os

import numpy as np

from mon import api, cmp, gen, spec
from mon.core import Violation

RULE = ('histories of 6..20 steps (write, read one/list/all, query, refresh, a second object, external replacing, '
        'appending, truncating to sets or to nothing, deleting) on one path; after every step the object is compared '
        'with a model: the list of sets of the file as of its last refresh; distinct = distinct histories')
CASES = {'quick': 3500, 'thorough': 100000}
REQUIRED = {'steps': 25000, 'writes': 6000, 'external changes': 2000, 'deletions': 400, 'reads checked': 9000,
            'queries after an external change and a refresh': 2000, 'rejected reads': 2000,
            'reads of a missing file': 300, 'writes through another object': 1000, 'emptied files': 200,
            'objects that refresh by themselves': 300, 'writes after an external change': 300}


class Model:
    """The sets of the file as each object must know them."""

    def __init__(self):
        self.disk = None            # None: no file; else list of (type, format, reading)


def make(ctx):
    """A set, how it is written, and what it reads to."""
    for _ in range(20):
        w, e = api.some_sets(ctx, 1, gen.KINDS + (58,) * 3)[0]
        p = ctx.path()
        try:
            api.write(p, w, 'overwrite', api.fd(e))
            r = api.read_all(p)
        except Violation:
            continue
        finally:
            if os.path.exists(p):
                os.unlink(p)
        if len(r) == 1:
            return w, api.fd(e), (e['type'], int(bool(e.get('binary'))), r[0])
    raise Violation('no set can be written and read back')


def agree(ctx, u, sets, log, reads=True):
    """Queries and readings of one object against the list of sets."""
    if ctx.rng.random() < 0.5:
        order = [0, 1, 2]
    else:
        order = list(ctx.rng.permutation(3))
    for k in order:
        if k == 0:
            n = api.must('get_n_sets', u.get_n_sets)
            if n != len(sets):
                raise Violation('get_n_sets gives %r, the file has %d sets' % (n, len(sets)), witness=log)
        elif k == 1:
            t = [int(v) for v in api.must('get_set_types', u.get_set_types)]
            if t != [s[0] for s in sets]:
                raise Violation('get_set_types gives %r, the file has %r' % (t, [s[0] for s in sets]), witness=log)
        else:
            f = [int(v) for v in api.must('get_set_formats', u.get_set_formats)]
            if f != [s[1] for s in sets]:
                raise Violation('get_set_formats gives %r, the file has %r' % (f, [s[1] for s in sets]), witness=log)
        ctx.count('queries')
    if reads:
        read(ctx, u, sets, log)


def read(ctx, u, sets, log):
    rng = ctx.rng
    n = len(sets)
    c = rng.random()
    if c < 0.35:
        got = api.must('read_sets()', u.read_sets)
        idx = list(range(n))
    elif c < 0.75 and n:
        i = int(rng.integers(n))
        got, idx = api.must('read_sets(%d)' % i, u.read_sets, i), [i]
    elif n:
        idx = [int(i) for i in rng.integers(0, n, int(rng.integers(1, 4)))]
        got = api.must('read_sets(%r)' % idx, u.read_sets, list(idx))
    else:
        return
    got = [got] if len(idx) == 1 else got
    if not isinstance(got, list) or len(got) != len(idx):
        raise Violation('reading %r of %d sets gives %r' % (idx, n, type(got).__name__), witness=log)
    for i, g in zip(idx, got):
        bad = cmp.same(g, sets[i][2], 'set %d' % i) if sets[i][2] is not None else (
            None if g.get('type') == sets[i][0] else 'type %r' % g.get('type'))
        if bad:
            raise Violation('the object returns what is not in the file: %s' % bad, witness=log)
        ctx.count('reads checked')


def refused(ctx, u, n, log):
    """Numbers out of range are rejected."""
    rng = ctx.rng
    i = gen.R(rng).pick((n, n + 1, n + 7, -1, -n - 1, 10 ** 6))
    ask = i if rng.random() < 0.6 else ([i] if rng.random() < .5 or not n else [0, i])
    v, err = api.attempt(u.read_sets, ask, bool(rng.random() < 0.2))
    if err is None:
        raise Violation('read_sets(%r) of a file with %d sets returned %s' % (ask, n, str(v)[:200]), witness=log)
    ctx.count('rejected reads')


def missing(ctx, u, log):
    v, err = api.attempt(u.read_sets, gen.R(ctx.rng).pick((None, 0, [0])))
    if err is None:
        raise Violation('reading a missing file returned %s' % str(v)[:200], witness=log)
    ctx.count('reads of a missing file')


def case(ctx):
    rng = ctx.rng
    path = ctx.path()
    log = []
    disk = None
    c = rng.random()
    pool = [make(ctx) for _ in range(int(rng.integers(3, 7)))]

    def foreign():
        st = gen.style(rng, final_eol=True)
        data, es = gen.foreign_file(rng, st, n=int(rng.integers(1, 4)))
        p = ctx.path()
        api.spill(p, data)
        u = api.must('opening', api.pyuff.UFF, p)
        out = []
        try:
            types = [b[2] for b in spec.blocks(data)]
            if list(u.get_set_types()) != types:
                return None
            for i, e in enumerate(es):
                out.append((e['type'], int(bool(e.get('binary'))), None if 'lines' in e else u.read_sets(i)))
        except Exception:
            return None         # C08, C09
        return data, out

    def external():
        """Another program or object changes the file; returns the new model."""
        nonlocal disk
        k = rng.random()
        if k < 0.3:
            f = foreign()
            if f is None:
                return
            how = 'ab' if disk is not None and rng.random() < 0.4 and (
                not os.path.getsize(path) or api.slurp(path)[-1:] == b'\n') else 'wb'
            with open(path, how) as h:
                h.write(f[0])
            disk = (disk if how == 'ab' else []) + f[1]
            log.append('another program %s %r' % ('appends' if how == 'ab' else 'writes', [s[0] for s in f[1]]))
        elif k < 0.6:
            w, fd, s = pool[int(rng.integers(len(pool)))]
            mode = 'add' if rng.random() < 0.6 else 'overwrite'
            api.write(path, w, mode, fd)
            disk = ([] if mode == 'overwrite' or disk is None else disk) + [s]
            log.append('another object: %s %d' % (mode, s[0]))
            ctx.count('writes through another object')
        elif k < 0.75 and disk:
            data = api.slurp(path)
            try:
                bl = spec.blocks(data)
            except spec.BadLayout:
                return
            keep = int(rng.integers(0, len(bl)))
            with open(path, 'wb') as h:
                h.write(data[:bl[keep][0]])
            disk = disk[:keep]
            log.append('truncated to %d sets' % keep)
        elif k < 0.88:
            api.spill(path, gen.R(rng).pick((b'', b'', b'no sets\n')))
            disk = []
            log.append('emptied')
            ctx.count('emptied files')
        else:
            if os.path.exists(path):
                os.unlink(path)
            disk = None
            log.append('deleted')
            ctx.count('deletions')
        ctx.count('external changes')

    if rng.random() < 0.6:
        external()
    log.append('open')
    u = api.opened(rng, path)
    if bool(u.get_status()) != (disk is not None):
        raise Violation('get_status() is %r for a %s file' % (u.get_status(), 'missing' if disk is None else 'present'),
                        witness=log)
    agree(ctx, u, disk or [], log, reads=disk is not None)
    for _ in range(int(rng.integers(6, 21))):
        ctx.count('steps')
        c = rng.random()
        if c < 0.32:                # write through the object
            some = [pool[int(i)] for i in rng.integers(0, len(pool), 1 if rng.random() < 0.6 else 3)]
            if len({s[1] for s in some}) > 1:
                some = some[:1]
            mode = 'add' if rng.random() < 0.7 else 'overwrite'
            log.append('%s %r' % (mode, [s[2][0] for s in some]))
            api.write(path, some[0][0] if len(some) == 1 else [s[0] for s in some], mode, some[0][1], uff=u)
            disk = ([] if mode == 'overwrite' or disk is None else disk) + [s[2] for s in some]
            ctx.count('writes')
        elif c < 0.45:              # read
            log.append('read')
            if disk is None:
                missing(ctx, u, log)
            else:
                read(ctx, u, disk, log)
            continue
        elif c < 0.55:
            log.append('read out of range')
            if disk is None:
                missing(ctx, u, log)
            else:
                refused(ctx, u, len(disk), log)
        elif c < 0.63:
            log.append('refresh')
            r = api.must('refresh', u.refresh)
            if bool(r) != (disk is not None):
                raise Violation('refresh() of a %s file returned %r' % ('missing' if disk is None else 'present', r),
                                witness=log)
        elif c < 0.7:
            log.append('new object')
            u = api.opened(rng, path)
        elif c < 0.74:              # a write that fails leaves the object in step (what fails is C14)
            log.append('write without a type')
            api.attempt(u.write_sets, {'x': 1}, 'add')
            if os.path.exists(path) and disk is None:
                disk = []
        else:
            external()
            if disk is None:        # also without a refresh
                missing(ctx, u, log)
                if api.must('file_exists', u.file_exists):
                    raise Violation('file_exists() of a deleted file', witness=log)
            if not u.get_status() and rng.random() < 0.5:
                ctx.count('objects that refresh by themselves')     # there was no file so far
            elif rng.random() < 0.25 and not (disk and api.slurp(path)[-1:] != b'\n'):
                # writing is enough: the file is looked at afterwards
                mode = 'add' if rng.random() < 0.8 else 'overwrite'
                if rng.random() < 0.25:     # even if there is nothing to be written
                    log.append('%s a set of type 9999' % mode)
                    api.write(path, {'type': 9999}, mode, uff=u)
                    disk = [] if mode == 'overwrite' or disk is None else disk
                    ctx.count('writes after an external change')
                    agree(ctx, u, disk, log)
                    continue
                w, fd, s = pool[int(rng.integers(len(pool)))]
                log.append('%s %d' % (mode, s[0]))
                api.write(path, w, mode, fd, uff=u)
                disk = ([] if mode == 'overwrite' or disk is None else disk) + [s]
                ctx.count('writes after an external change')
            else:
                log.append('refresh')
                api.must('refresh', u.refresh)
            ctx.count('queries after an external change and a refresh')
        if api.must('get_file_name', u.get_file_name) != path:
            raise Violation('get_file_name() is %r' % u.get_file_name(), witness=log)
        if bool(u.file_exists()) != (disk is not None):
            raise Violation('file_exists() is %r' % u.file_exists(), witness=log)
        agree(ctx, u, disk or [], log, reads=disk is not None and rng.random() < 0.6)
    ctx.seen(log)
    if ctx.sample is None:
        ctx.sample = log
