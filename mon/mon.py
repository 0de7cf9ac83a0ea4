"""Monitors of what a call does to the process and to the file system.

The events are those that the interpreter itself reports (sys.addaudithook), the
table of open files (/proc/self/fd) and snapshots of the folder; none of them
depends on how the package is written.
"""
import io
import os
import sys
import contextlib

import numpy as np

from .core import Violation

_log = None
_hooked = False
CHANGES = ('os.remove', 'os.rename', 'os.rmdir', 'os.mkdir', 'os.link', 'os.symlink', 'os.truncate', 'os.chmod',
           'os.chown', 'os.utime', 'os.mkfifo', 'os.setxattr', 'os.removexattr', 'shutil.', 'tempfile.',
           'subprocess.Popen', 'os.system', 'os.exec', 'os.posix_spawn', 'os.spawn', 'os.fork', 'os.startfile',
           'socket.connect', 'socket.bind', 'os.putenv', 'os.unsetenv', 'os.chdir')
WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _hook(event, args):
    if _log is None:
        return
    if event == 'open':
        path, mode, flags = args
        if isinstance(path, int):
            return
        wr = bool((flags or 0) & WRITE_FLAGS) or any(c in (mode or '') for c in 'wax+')
        _log.append(('open for writing' if wr else 'open', os.path.abspath(os.fsdecode(path))))
    elif event.startswith(CHANGES):
        _log.append((event, os.path.abspath(os.fsdecode(args[0]))
                     if args and isinstance(args[0], (str, bytes, os.PathLike)) else repr(args)[:100]))


def install():
    global _hooked
    if not _hooked:
        sys.addaudithook(_hook)
        _hooked = True


def fds():
    """What the process has open: {number: target}"""
    out = {}
    for n in os.listdir('/proc/self/fd'):
        with contextlib.suppress(OSError):
            t = os.readlink('/proc/self/fd/' + n)
            if not t.startswith('/proc/'):
                out[n] = t
    return out


def snapshot(folder):
    """{path: (kind, bytes, inode, size, mode, modification time)}"""
    out = {}
    for top, dirs, names in os.walk(folder):
        for n in dirs + names:
            p = os.path.join(top, n)
            s = os.lstat(p)
            data = None
            if n in names:
                with open(p, 'rb') as f:
                    data = f.read()
            out[p] = (s.st_mode, data, s.st_ino, s.st_size, None if data is None else s.st_mtime_ns)
    return out


class Closed(io.StringIO):
    """A pipe that nobody reads any more."""

    def write(self, text):
        raise BrokenPipeError(32, 'Broken pipe')


class Watch:
    """Runs calls and holds them to what they may touch."""

    def __init__(self, ctx, folder):
        install()
        self.ctx, self.folder = ctx, folder

    def call(self, what, fn, *a, writes=None, may_print=False, closed=False, **k):
        """(value, exception) of fn(*a, **k); `writes`: the files it may change; `closed`: nothing can be printed."""
        global _log
        allowed = {os.path.abspath(p) for p in (writes or ())}
        before, table = snapshot(self.folder), fds()
        out = Closed() if closed else io.StringIO()
        events = []
        value = err = None
        was = sys.stdout
        sys.stdout = out
        _log = events
        try:
            value = fn(*a, **k)
        except Exception as e:
            err = e
        finally:
            _log = None
            replaced = sys.stdout is not out
            sys.stdout = was
        left = {n: t for n, t in fds().items() if table.get(n) != t}
        after = snapshot(self.folder)
        end = 'returned' if err is None else 'raised %s: %s' % (type(err).__name__, err)
        name = '%s (it %s)' % (what, end)
        self.ctx.count('calls')
        self.ctx.count('failed calls', err is not None)
        self.ctx.count('file system events', len(events))
        for event, path in events:
            if event == 'open' or path in allowed or path == os.devnull:
                continue
            raise Violation('%s: %s of %s' % (name, event, path), witness=events)
        if left:
            raise Violation('%s left files open: %r' % (name, left), witness=events)
        if (out.getvalue() or replaced) and not may_print:
            raise Violation('%s printed %r' % (name, out.getvalue()[:300]), witness=events)
        for p in sorted(set(before) | set(after)):
            if p not in allowed and before.get(p) != after.get(p):
                how = 'created' if p not in before else 'deleted' if p not in after else 'changed' if (
                    before[p][1] != after[p][1]) else 'touched (time, owner or mode)'
                raise Violation('%s: %s was %s' % (name, p, how), witness=events)
        return value, err, events


def equal(a, b):
    """The same values, whatever holds them (list, tuple, array)."""
    if isinstance(a, dict) or isinstance(b, dict):
        return (isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys() and
                all(equal(a[k], b[k]) for k in a))
    seq = (list, tuple, np.ndarray)
    if isinstance(a, seq) or isinstance(b, seq):
        if not (isinstance(a, seq) and isinstance(b, seq)) or len(np.shape(a) if isinstance(a, np.ndarray) else [0]) == 0:
            return repr(a) == repr(b)
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype:
            return a.shape == b.shape and a.tobytes() == b.tobytes() or (
                a.dtype == object and a.shape == b.shape and all(equal(x, y) for x, y in zip(a.ravel(), b.ravel())))
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if a is b:
        return True
    try:
        return bool(a == b) or (a != a and b != b)
    except Exception:
        return repr(a) == repr(b)


def spoil(v):
    """Change everything that can be changed in what a call returned."""
    if isinstance(v, dict):
        for q in list(v.values()):
            spoil(q)
        v.clear()
        v['spoiled'] = 1
    elif isinstance(v, list):
        for q in v:
            spoil(q)
        v[:] = ['spoiled']
    elif isinstance(v, np.ndarray):
        if v.dtype == object:
            for q in v.ravel():
                spoil(q)
        if v.flags.writeable:
            v[...] = np.zeros((), v.dtype) if v.dtype.kind not in 'iufc' else 77
