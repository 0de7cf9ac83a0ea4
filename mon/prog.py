"""Programs of calls on a folder of their own, as plain data, and what came of each call.

A program can be run alone in a process forked before the package was used at
all (`Pristine`), in a new interpreter (mon/child.py), step by step between the
steps of others, or in a thread next to others.
"""
import contextlib
import copy
import os
import pickle
import select
import signal
import struct
import time

import numpy as np

from . import api, cmp, gen, spec
from .core import Violation


# ------------------------------------------------------------------ what a program is made of
def _set(rng, names_of_sets=None):
    kinds = gen.KINDS + (58,) * 3
    w, e = gen.make(rng, kinds[int(rng.integers(len(kinds)))])
    if w['type'] == 58 and rng.random() < 0.15:         # samples that are no numbers are replaced
        w['data'] = np.array(w['data'])
        if w['data'].dtype.kind in 'fc':
            w['data'][int(rng.integers(len(w['data'])))] = (np.nan, np.inf, -np.inf)[int(rng.integers(3))]
    return w, e


LIMITED = ('func_type', 'file_type', 'temp_mode', 'model_type', 'analysis_type', 'data_ch', 'data_type', 'ord_data_type',
           'abscissa_spacing', 'binary', 'dataset_location', 'data_characteristic', 'n_data_per_node')


def _bad(rng, w):
    w = dict(w)
    keys = [k for k in w if k != 'type' and not str(k).startswith(('date', 'time'))]     # (the clock is the default)
    c = rng.random()
    if c < 0.2 or not keys:
        w.pop('type')
    elif c < 0.6:
        w.pop(keys[int(rng.integers(len(keys)))])
    elif c < 0.8:
        w[keys[int(rng.integers(len(keys)))]] = gen.R(rng).pick(('no number', None, {}, [], [[1], [2, 3]], ['a', 'b']))
    else:                   # a number that may not be one of those permitted
        few = [k for k in keys if k in LIMITED]
        keys = few if few and rng.random() < 0.7 else [k for k in keys if isinstance(w[k], (int, np.integer))] or keys
        w[keys[int(rng.integers(len(keys)))]] = int(gen.R(rng).pick((17, 77, -3)))
    return w


def make(rng, steps=(4, 11), files=2, only_reads=False):
    """A random program: {'start': {file: bytes or None}, 'steps': [...]}; files are numbers."""
    r = gen.R(rng)
    start = {}
    for f in range(files):
        c = rng.random()
        if c < 0.45:
            data, _ = gen.foreign_file(rng, gen.style(rng), kinds=gen.KINDS + (58,) * 4)
            if rng.random() < 0.15:
                data = data.rstrip() + b'\n    -1\n%6d\nnot a data-set\n    -1\n' % int(r.pick(gen.KINDS))
            start[f] = data
        else:
            start[f] = b'' if c < 0.5 else None
    todo = []
    for _ in range(int(rng.integers(*steps))):
        f = int(rng.integers(files))
        new = bool(rng.random() < 0.3)
        c = rng.uniform(0.36, 0.8) if only_reads else rng.random()
        if c < 0.36:
            sets = [_set(rng) for _ in range(int(rng.integers(1, 4)))]
            force = api.fd(sets[0][1])
            ws = [w for w, _ in sets]
            if rng.random() < 0.2:
                ws[int(rng.integers(len(ws)))] = _bad(rng, ws[int(rng.integers(len(ws)))])
            if rng.random() < 0.12:     # one of a type that is not supported
                ws.insert(int(rng.integers(len(ws) + 1)), {'type': int(r.pick((0, 1, 57, 781, 2411 + 2, 3000, 99999))), 'nodes': [1]})
            todo.append(('write', f, new, ws if len(ws) > 1 or rng.random() < 0.5 else ws[0],
                         'add' if rng.random() < 0.7 else 'overwrite', force))
        elif c < 0.72:
            k = rng.random()
            ask = None if k < 0.4 else ('one', rng.random()) if k < 0.7 else ('some', list(rng.random(3))) if k < 0.92 \
                else ('out', 1)
            todo.append(('read', f, new, ask, bool(rng.random() < 0.25)))
        elif c < 0.8:
            todo.append(('query', f, new))
        elif c < 0.86:
            todo.append(('fix', f, bool(rng.random() < 0.5)))
        elif c < 0.9:
            todo.append(('convert', f, new))
        elif c < 0.96:
            kind = int(r.pick((15, 55, 58, 82, 151, 164, 1858, 2400, 2411, 2420)))
            w, e = gen.make(rng, kind, odd=False)
            if rng.random() < 0.3:
                w = _bad(rng, w)
            todo.append(('prepare', kind, {k: v for k, v in w.items() if k != 'type' and rng.random() < 0.6}))
        else:
            data, _ = gen.foreign_file(rng, gen.style(rng))
            todo.append(('external', f, data if rng.random() < 0.7 else None))
    return {'start': start, 'steps': todo}


# ------------------------------------------------------------------ running one
def _nth(x, n):
    return min(int(x * n), n - 1)


class Run:
    """A program at work in a folder; `step()` returns (what it was, outcome).

    `called`: how the files are named to the package, if not by their plain names. With `spoil`, all the lists and
    arrays that were given to the package or came from it are overwritten after each step."""

    def __init__(self, program, folder, names=('first.uff', 'second.uff'), relative=False, called=None, spoil=False):
        self.program, self.folder, self.names = program, folder, names
        self.relative, self.called, self.spoil = relative, called or names, spoil
        self.mine = []
        self.objects = {}
        self.at = 0
        os.makedirs(folder, exist_ok=True)
        for name, told in zip(self.names, self.called):
            lead(folder, name, told)
        for f, data in program['start'].items():
            if data is not None:
                api.spill(self.path(f), data)

    def path(self, f):
        return os.path.join(self.folder, self.names[f])

    def name(self, f):
        """What the package is told."""
        return self.called[f] if self.relative else os.path.join(self.folder, self.called[f])

    def object(self, f, new=False):
        if new or f not in self.objects:
            self.objects[f] = api.pyuff.UFF(self.name(f))
        return self.objects[f]

    @property
    def done(self):
        return self.at >= len(self.program['steps'])

    def step(self):
        s = self.program['steps'][self.at]
        self.at += 1
        try:
            value = getattr(self, '_' + s[0])(*s[1:])
        except Exception as e:
            if isinstance(e, (MemoryError, Violation)):
                raise
            value = Failed()
        if self.spoil:
            for v in self.mine:
                spoil(v)
        self.mine.clear()
        return s[0], value, {f: api.slurp(self.path(f)) if os.path.exists(self.path(f)) else None
                             for f in self.program['start']}

    def _write(self, f, new, sets, mode, force):
        sets = self.given(api.fresh(sets))
        self.object(f, new).write_sets(sets, mode, force_double=force)

    def given(self, v):
        """What is given to the package, or came from it, in this step."""
        self.mine.append(v)
        return v

    def _read(self, f, new, ask, header):
        u = self.object(f, new)
        n = u.get_n_sets()
        if ask is None:
            return self.apart(u.read_sets(header_only=header))
        if not n:
            return
        if ask[0] == 'one':
            return copy.deepcopy(self.given(u.read_sets(_nth(ask[1], n), header)))
        if ask[0] == 'some':
            return self.apart(u.read_sets([_nth(x, n) for x in ask[1]], header_only=header))
        return copy.deepcopy(self.given(u.read_sets(n + ask[1])))

    def apart(self, sets):
        """A copy of the sets read; overwriting some of them must leave the others as they are."""
        value = copy.deepcopy(self.given(sets))
        if self.spoil and isinstance(sets, list):
            for k, d in enumerate(sets[:-1]):
                spoil(d)
                bad = cmp.same(sets[k + 1], value[k + 1], 'set %d' % (k + 1))
                if bad:
                    raise Violation('changing set %d of %d that one call has read changes the next: %s' % (
                        k, len(sets), bad), witness=value)
        return value

    def _query(self, f, new):
        u = self.object(f, new)
        types, formats, listed = [self.given(f()) for f in (u.get_set_types, u.get_set_formats, u.get_supported_sets)]
        return [int(u.get_n_sets()), [int(t) for t in types], [int(t) for t in formats],
                bool(u.get_status()), bool(u.file_exists()), list(listed),
                u.get_file_name() == self.name(f)]

    def _fix(self, f, named):
        base, ext = os.path.splitext(self.name(f))
        told = base + ('_fixed' + ext if not named else ' again' + ext)
        out = os.path.join(self.folder, told)
        if os.path.exists(out):
            os.unlink(out)
        given = (self.name(f), told)
        api.pyuff.fix_58b(*given[:2 if named else 1])
        data = api.slurp(out)
        os.unlink(out)
        return data

    def _convert(self, f, new):
        from pyuff import tools
        u = self.object(f, new)
        sets = api.listed(u.read_sets(), u.get_n_sets())
        return copy.deepcopy(self.given([dict(d) for d in tools.convert_dataset_2412_to_82(self.given(sets))]))

    def _prepare(self, kind, given):
        return copy.deepcopy(self.given(dict(getattr(api.pyuff, 'prepare_%d' % kind)(**api.fresh(given)))))

    def _external(self, f, data):
        if data is None:
            with contextlib.suppress(FileNotFoundError):
                os.unlink(self.path(f))
        else:
            api.spill(self.path(f), data)
        u = self.object(f)
        return u.refresh()


def lead(folder, name, told):
    """Make the folders and links through which `told` means the file `name`."""
    os.makedirs(os.path.dirname(os.path.join(folder, name)), exist_ok=True)
    first = told.split('/')[0]
    if first == 'link':
        os.makedirs(os.path.join(folder, 'there', 'deep'), exist_ok=True)
        if not os.path.islink(os.path.join(folder, 'link')):
            os.symlink(os.path.join('there', 'deep'), os.path.join(folder, 'link'))
    elif '/' not in told and told != name:
        os.symlink(name, os.path.join(folder, told))
    elif 'sub' in told.split('/')[:-1]:
        os.makedirs(os.path.join(folder, 'sub'), exist_ok=True)


def spoil(v):
    """Overwrite everything that can be overwritten."""
    if isinstance(v, np.ndarray):
        if v.dtype.kind == 'O':
            for x in v.ravel():
                spoil(x)
        if v.flags.writeable:
            v[...] = 'spoilt' if v.dtype.kind in 'UO' else 77
    elif isinstance(v, dict):
        for x in v.values():
            spoil(x)
        v.clear()
        v['spoilt'] = 77
    elif isinstance(v, (list, tuple)):
        for x in v:
            spoil(x)
        if isinstance(v, list):
            v[:] = [77] * len(v) + ['spoilt']


class Failed:
    """The call raised an error (which one is not promised)."""

    def __eq__(self, other):
        return isinstance(other, Failed)

    def __hash__(self):
        return 1

    def __repr__(self):
        return 'an error'


def whole(program, folder, **kw):
    r = Run(program, folder, **kw)
    out = []
    while not r.done:
        out.append(r.step())
    return out


def differ(got, want):
    """First difference between the outcomes of two runs, or None."""
    for k, (a, b) in enumerate(zip(got, want)):
        if isinstance(a[1], Failed) != isinstance(b[1], Failed):
            return 'step %d (%s) gives %s instead of %s' % (k, a[0], *(
                'an error' if isinstance(q[1], Failed) else 'a result' for q in (a, b)))
        bad = None if isinstance(a[1], Failed) else same(a[1], b[1])
        if bad:
            return 'step %d (%s) gives another result: %s' % (k, a[0], bad)
        for f in a[2]:
            if a[2][f] != b[2][f]:
                return 'after step %d (%s) file %d has other content (%s instead of %s)' % (k, a[0], f, *(
                    'none' if q is None else '%d bytes' % len(q) for q in (a[2][f], b[2][f])))
    if len(got) != len(want):
        return '%d steps instead of %d' % (len(got), len(want))


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return cmp.same(a, b, '')
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return next((q for q in map(same, a, b) if q), None)
    return None if type(a) is type(b) and a == b else '%.200r instead of %.200r' % (a, b)


# ------------------------------------------------------------------ a process in which nothing has happened yet
class Pristine:
    """Runs programs, each in a process of its own forked from one that has not used the package."""

    def __init__(self):
        there, self.w = os.pipe()
        self.r, back = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.w)
            os.close(self.r)
            self.serve(there, back)
            os._exit(0)
        os.close(there)
        os.close(back)

    @staticmethod
    def get(fd, n):
        data = b''
        while len(data) < n:
            more = os.read(fd, n - len(data))
            if not more:
                return None
            data += more
        return data

    def serve(self, there, back):
        signal.signal(signal.SIGPROF, signal.SIG_DFL)
        while True:
            head = self.get(there, 4)
            if head is None:
                return
            job = self.get(there, struct.unpack('<I', head)[0])
            pid = os.fork()
            if pid == 0:
                signal.alarm(200)
                signal.setitimer(signal.ITIMER_PROF, 100)
                code = 1
                try:
                    with open(os.devnull, 'w') as null:
                        os.dup2(null.fileno(), 1)
                        os.dup2(null.fileno(), 2)
                    folder, out, programs = pickle.loads(job)
                    result = [whole(p, os.path.join(folder, 'p%d' % k)) for k, p in enumerate(programs)]
                    with open(out, 'wb') as f:
                        pickle.dump(result, f)
                    code = 0
                finally:
                    os._exit(code)
            _, status = os.waitpid(pid, 0)
            os.write(back, b'%8d' % status)

    def run(self, programs, folder):
        """The outcomes of each program."""
        out = folder + '.out'
        job = pickle.dumps((folder, out, programs))
        job = struct.pack('<I', len(job)) + job
        while job:
            job = job[os.write(self.w, job):]
        status = self.get(self.r, 8)
        if status is None or int(status):
            raise Violation('a program of calls does not end (status %s)' % status, key='hang', witness=programs)
        with open(out, 'rb') as f:
            result = pickle.load(f)
        os.unlink(out)
        return result


_pristine = {}


def pristine():
    """The one of this process."""
    if os.getpid() not in _pristine:
        _pristine.clear()
        _pristine[os.getpid()] = Pristine()
    return _pristine[os.getpid()]
