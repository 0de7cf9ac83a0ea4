"""See DESIGN.md, C21."""
import os
import pickle
import subprocess
import sys

from mon import core, gen, prog
from mon.core import Violation

RULE = ('programs of 4..10 calls (write, rejected write, read, query, refresh, repair, convert, prepare, external change) '
        'are run in a new interpreter under other settings (locale, UTF-8 mode, I/O encoding, hash seed, time zone, '
        'optimisation, development mode, umask, NumPy print options and error settings, warning filters, limits of open files and of recursion, '
        'no garbage collection, no output, another thread, random seed, working directory, relative names, '
        'file names of any characters, names through other folders and links) and in a process that did nothing else under the usual ones; all outcomes and '
        'files are compared; distinct = distinct (settings, programs)')
CASES = {'quick': 800, 'thorough': 9000}
REQUIRED = {'interpreters': 780, 'programs compared': 4000, 'steps compared': 25000, 'failed steps': 2500,
            'other locale': 300, 'optimised': 150, 'relative names': 600, 'unusual names': 1500, 'print options': 250,
            'hash seeds': 300, 'names through folders and links': 1200, 'time zones': 200, 'umasks': 200,
            'warnings': 150, 'numpy errors': 150, 'files': 150, 'gc': 150, 'recursion': 150, 'output': 150, 'thread': 150}
NAMES = ('beam.uff', 'a b.uff', '.uff', 'x', 'x.y.z', 'UPPER.UNV', '%s%d.uff', '{0}.uff', '-1', '    -1', "it's.uff",
         '100%.unv', '#tag.uff', '~', 'a' * 120 + '.uff', '.hidden', 'trailing.', '58b', '$HOME.uff', 'a;b&c.uff',
         '[x].uff', '*.uff', 'new\nline.uff', 'back\\slash.uff', 'nul', ' lead.uff', 'trail.uff ', 'a.uff.gz', 'tab\t.uff')
WAYS = ('./%s', './/%s', 'sub/../%s', '%s', 'link/../%s', 'alias', './sub/./../%s', 'there/%s')
WIDE = ('žarek.uff', 'メッシュ.unv', 'ü ö.uff', 'é', '\U0001f600.uff')


def settings(ctx):
    """(environment, options of the interpreter, job, names may be wide)"""
    rng = ctx.rng
    r = gen.R(rng)
    env = {k: v for k, v in os.environ.items() if not k.startswith(('LC_', 'LANG', 'PYTHON', 'TZ'))}
    env.update(VERIF_REPO=core.REPO, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
    options, job, wide = [], {}, True
    env['LC_ALL'] = r.pick(('C.UTF-8', 'C.UTF-8', 'C', 'POSIX'))
    if env['LC_ALL'] != 'C.UTF-8':
        ctx.count('other locale')
        if rng.random() < 0.7:
            env.update(PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
            wide = False            # such names cannot be given then
    if rng.random() < 0.3:
        env['PYTHONIOENCODING'] = r.pick(('ascii', 'latin-1', 'utf-16'))
        wide = wide and env['PYTHONIOENCODING'] == 'utf-16'
    if rng.random() < 0.5:
        env['PYTHONHASHSEED'] = str(int(rng.integers(1, 10 ** 6)))
        ctx.count('hash seeds')
    else:
        env['PYTHONHASHSEED'] = '0'
    if rng.random() < 0.4:
        env['TZ'] = r.pick(('Pacific/Kiritimati', 'XYZ+11:30', 'UTC', 'EST5EDT'))
        ctx.count('time zones')
    c = rng.random()
    if c < 0.3:
        options.append(r.pick(('-O', '-OO')))
        ctx.count('optimised')
    elif c < 0.4:
        options += ['-X', 'dev']
    if rng.random() < 0.4:
        job['print options'] = r.pick((dict(precision=2, suppress=True, threshold=3, edgeitems=1), dict(legacy='1.13'),
                                       dict(precision=30, floatmode='fixed', sign='+'), dict(linewidth=10)))
        ctx.count('print options')
    if rng.random() < 0.4:
        job['umask'] = r.pick((0, 0o022, 0o077))
        ctx.count('umasks')
    if rng.random() < 0.5:
        job['seed'] = int(rng.integers(10 ** 6))
    # what a session may set for itself
    for name, values in (('warnings', ('ignore', 'always', 'once')),
                         ('numpy errors', (dict(divide='raise', over='raise', invalid='raise'),
                                           dict(all='ignore'), dict(all='warn'))),
                         ('files', (40,)), ('gc', (False,)), ('recursion', (500,)),
                         ('output', ('none', 'thrown away')), ('thread', (True,))):
        if rng.random() < 0.3:
            job[name] = r.pick(values)
            ctx.count(name)
    for name in ('HOME', 'TMPDIR', 'USER', 'COLUMNS'):
        c = rng.random()
        if c < 0.15:
            env.pop(name, None)
        elif c < 0.3:
            env[name] = '/nowhere' if name != 'COLUMNS' else '7'
    return env, options, job, wide


def case(ctx):
    rng = ctx.rng
    r = gen.R(rng)
    programs = [prog.make(rng) for _ in range(int(rng.integers(4, 9)))]
    want = prog.pristine().run(programs, os.path.join(ctx.scratch, 'usual'))
    env, options, job, wide = settings(ctx)
    todo = []
    for k, p in enumerate(programs):
        names = ('first.uff', 'second.uff')
        if rng.random() < 0.6:
            first = r.pick(NAMES + WIDE * wide)
            second = r.pick(NAMES + WIDE * wide)
            if first != second:
                names = (first, second)
                ctx.count('unusual names')
        called = list(names)
        if rng.random() < 0.4:
            names = list(names)
            for f in (0, 1):
                way = r.pick(WAYS)
                if '/' in way:
                    called[f] = way % names[f]
                    if way.startswith(('link', 'there')):
                        names[f] = 'there/' + names[f]
                elif way == 'alias':
                    called[f] = 'alias%d' % f
            ctx.count('names through folders and links')
        relative = bool(rng.random() < 0.3)
        ctx.count('relative names', relative)
        todo.append((os.path.join(ctx.scratch, 'other', 'p%d' % k), p, tuple(names), relative, tuple(called)))
    job['programs'] = todo
    path, out = os.path.join(ctx.scratch, 'job'), os.path.join(ctx.scratch, 'out')
    with open(path, 'wb') as f:
        pickle.dump(job, f)
    what = '%s %s %s' % (' '.join(options) or 'no options',
                         {k: env[k] for k in sorted(env) if k.startswith(('LC_', 'PYTHON', 'TZ'))},
                         {k: v for k, v in job.items() if k != 'programs'})
    try:
        done = subprocess.run([sys.executable] + options + [os.path.join(core.VERIF, 'mon', 'child.py'), path, out],
                              env=env, cwd=ctx.scratch, stdin=subprocess.DEVNULL, capture_output=True, timeout=150)
    except subprocess.TimeoutExpired:
        raise Violation('programs of calls do not end with %s' % what, key='hang', witness=programs)
    if done.returncode or not os.path.exists(out):
        raise Violation('programs of calls end the interpreter (%d) with %s' % (done.returncode, what),
                        witness=done.stderr.decode(errors='replace')[-3000:])
    with open(out, 'rb') as f:
        got = pickle.load(f)
    ctx.count('interpreters')
    for k, (g, w) in enumerate(zip(got, want)):
        bad = prog.differ(g, w)
        if bad:
            raise Violation('a program of calls on %r%s differs with %s: %s' % (
                todo[k][4], ' (relative)' if todo[k][3] else '', what, bad), witness=programs[k])
        ctx.count('programs compared')
        ctx.count('steps compared', len(g))
        ctx.count('failed steps', sum(isinstance(s[1], prog.Failed) for s in g))
    ctx.seen(what, [[s[:2] for s in p['steps']] for p in programs])
    if ctx.sample is None:
        ctx.sample = {'settings': what, 'names': [t[4] for t in todo]}
