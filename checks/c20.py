"""See DESIGN.md, C20."""
import gc
import locale
import os
import random
import signal
import sys
import threading
import time

import numpy as np

from mon import api, gen, mon, prog
from mon.core import Violation, quiet

RULE = ('2..4 programs of 4..10 calls (write, rejected write, read, query, refresh, repair, convert, prepare, external '
        'change) on files of their own, with the same names in different folders (or that only read the same files), are run interleaved in one thread or '
        'at once in threads that the interpreter switches every few microseconds; every outcome and every file is '
        'compared with that of the program run alone in a process that did nothing else; half of the programs overwrite '
        'after each call what they gave to it and got from it; settings of the process '
        'before and after are compared; distinct = distinct (programs, order of steps that was observed)')
CASES = {'quick': 4000, 'thorough': 60000}
REQUIRED = {'programs compared': 9000, 'steps compared': 60000, 'interleaved': 1500, 'threads': 1500,
            'steps that ran next to others': 10000, 'failed steps': 6000, 'process states compared': 3900,
            'twins': 400, 'orders seen': 3200, 'programs that share their files': 1000,
            'programs that overwrite what they hold': 4000}


def process_state(threads):
    """What calls must leave as it is."""
    mask = os.umask(0o77)
    os.umask(mask)
    state = {
        'working directory': os.getcwd(), 'umask': mask, 'environment': dict(os.environ), 'sys.path': list(sys.path),
        'locale': locale.setlocale(locale.LC_ALL), 'NumPy errors': np.geterr(),
        'print options': {k: v for k, v in np.get_printoptions().items() if k != 'formatter'},
        'random state': hash(random.getstate()), 'NumPy random state': np.random.get_state()[1].tobytes(),
        'standard streams': (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        'signal handlers': [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE)],
        'recursion limit': sys.getrecursionlimit(), 'garbage collection': gc.isenabled(),
        'threads': threading.active_count(), 'tracing': (sys.gettrace(), sys.getprofile(), sys.excepthook),
    }
    if not threads:
        state['open files'] = mon.fds()
    return state


def interleaved(runs, rng, order):
    out = [[] for _ in runs]
    while any(not r.done for r in runs):
        k = int(rng.choice([k for k, r in enumerate(runs) if not r.done]))
        order.append(k)
        out[k].append(runs[k].step())
    return out


def threaded(runs, ctx, order):
    out = [[] for _ in runs]
    errors = []
    gate = threading.Barrier(len(runs))
    active = set()
    together = [0]

    def work(k):
        try:
            gate.wait(30)
            while not runs[k].done:
                active.add(k)
                order.append(k)
                started = len(order)
                out[k].append(runs[k].step())
                if len(active) > 1 or any(q != k for q in order[started:]):
                    together[0] += 1
                active.discard(k)
        except BaseException as e:
            errors.append(e)
            active.discard(k)
    was = sys.getswitchinterval()
    sys.setswitchinterval(5e-6)
    threads = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(len(runs))]
    try:
        for t in threads:
            t.start()
        until = time.time() + 150
        for t in threads:
            t.join(max(0.1, until - time.time()))
        if any(t.is_alive() for t in threads):
            raise Violation('calls in several threads do not end', key='hang')
    finally:
        sys.setswitchinterval(was)
    if errors:
        raise errors[0]
    ctx.count('steps that ran next to others', together[0])
    return out


def case(ctx):
    rng = ctx.rng
    alone = prog.pristine()
    programs = [prog.make(rng) for _ in range(int(rng.integers(2, 5)))]
    if rng.random() < 0.2:                          # the same program twice, in two folders
        programs[-1] = programs[0]
        ctx.count('twins')
    shared = rng.random() < 0.15                    # all read the same files
    if shared:
        programs = [dict(prog.make(rng, (3, 8), only_reads=True), start=programs[0]['start']) for _ in programs]
        ctx.count('programs that share their files', len(programs))
    want = alone.run(programs, os.path.join(ctx.scratch, 'alone'))
    spoil = rng.random() < 0.5                      # the callers change what is theirs
    ctx.count('programs that overwrite what they hold', len(programs) * spoil)
    runs = [prog.Run(p, os.path.join(ctx.scratch, 'p0' if shared else 'p%d' % k), spoil=spoil) for k, p in enumerate(programs)]
    threads = rng.random() < 0.5
    before = process_state(threads)
    order = []
    with quiet():
        inside = process_state(threads)['standard streams']
        got = threaded(runs, ctx, order) if threads else interleaved(runs, rng, order)
        if process_state(threads)['standard streams'] != inside:
            raise Violation('a call replaced a standard stream', witness=programs)
    after = process_state(threads)
    for k in before:
        if before[k] != after[k]:
            raise Violation('calls changed the %s of the process: %.200r instead of %.200r' % (k, after[k], before[k]),
                            witness=[s[:2] for p in programs for s in p['steps']])
    ctx.count('process states compared')
    ctx.count('threads' if threads else 'interleaved')
    for k, (g, w) in enumerate(zip(got, want)):
        bad = prog.differ(g, w)
        if bad:
            raise Violation('program %d of %d, run %s, differs from the same program run alone: %s' % (
                k, len(programs), 'at once in threads' if threads else 'in turns', bad),
                witness={'order': order, 'program': programs[k]})
        ctx.count('programs compared')
        ctx.count('steps compared', len(g))
        ctx.count('failed steps', sum(isinstance(s[1], prog.Failed) for s in g))
    ctx.count('orders seen')
    ctx.seen(order, [[s[:2] for s in p['steps']] for p in programs])
    if ctx.sample is None:
        ctx.sample = {'programs': [[s[0] for s in p['steps']] for p in programs], 'order': list(order),
                      'threads': threads}
