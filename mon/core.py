"""Runner: deterministic cases, monitors' bookkeeping, verdicts, evidence, replay."""
import contextlib
import hashlib
import importlib
import io
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402

CASE_CPU_S = 100         # CPU seconds of one case; a case normally takes milliseconds
STUCK_S = 240            # one case this long means that the call cannot even be interrupted
AS_LIMIT = 2 << 30       # address space of one worker


def load_pyuff():
    """Import pyuff from the working tree (never from a stale cache)."""
    warnings.simplefilter('ignore')
    import pyuff
    where = os.path.realpath(pyuff.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise Inconclusive('pyuff was imported from %s' % where)
    warnings.simplefilter('ignore')
    return pyuff


class Violation(Exception):
    """The property is broken; `key` names the mechanism (for the known findings)."""

    def __init__(self, what, key='', witness=None):
        super().__init__(what)
        self.what, self.key, self.witness = what, key, witness


class Inconclusive(Exception):
    """The harness cannot decide (its own fault, or the monitor was not reached)."""


class Hang(BaseException):
    """The case used up its CPU budget or its budget of steps."""


class Ctx:
    """What one case gets: its own generator, scratch folder and counters."""

    def __init__(self, prop, seed, tier, index, scratch):
        self.prop, self.seed, self.tier, self.index = prop, seed, tier, index
        self.rng = np.random.default_rng([seed, int(prop[1:]), index])
        self.scratch = scratch
        self.n = {}              # counters of observed events
        self.distinct = set()    # fingerprints of distinct non-trivial cases
        self.sample = None
        self._files = 0

    def count(self, name, k=1):
        self.n[name] = self.n.get(name, 0) + int(k)

    def seen(self, *what):
        """Record a distinct non-trivial case (a fingerprint of what was exercised)."""
        self.distinct.add(hashlib.sha1(repr(what).encode('utf-8', 'replace')).hexdigest()[:16])

    def path(self, name=None, ext='.uff'):
        self._files += 1
        return os.path.join(self.scratch, name or 'f%d%s' % (self._files, ext))


def describe(value, limit=4000):
    """Short text of a witness."""
    with np.printoptions(threshold=24, edgeitems=6, precision=17):
        t = repr(value)
    return t if len(t) <= limit else t[:limit] + ' ... (%d characters)' % len(t)


@contextlib.contextmanager
def quiet(capture=None):
    """Keep the chatter of the code under test off the check's own output."""
    buf = capture if capture is not None else io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
        yield buf


_hangs = []


def _on_cpu(signum, frame):
    _hangs.append(traceback.format_stack(frame)[-4:])
    raise Hang('no answer within %d s of CPU time' % CASE_CPU_S)


def from_pyuff(e):
    """Was the exception raised in the package?"""
    top = os.path.realpath(REPO) + os.sep
    return any(os.path.realpath(f.filename).startswith(top) for f in traceback.extract_tb(e.__traceback__))


def run_case(module, prop, seed, tier, index, scratch):
    """Run one case; returns (ctx, violation or None, harness error or None)."""
    d = os.path.join(scratch, 'case')
    os.mkdir(d)
    ctx = Ctx(prop, seed, tier, index, d)
    viol = err = None
    del _hangs[:]
    # again every 5 s, as the code under test can catch what the first one raises
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S, 5)
    try:
        module.case(ctx)
    except Violation as v:
        viol = {'what': v.what, 'key': v.key, 'witness': describe(v.witness)}
    except Hang as h:
        viol = {'what': 'the call did not return: %s' % h, 'key': 'hang', 'witness': ''.join(
            traceback.format_tb(h.__traceback__)[-4:])}
    except Inconclusive as e:
        err = 'inconclusive: %s' % e
    except (OSError, MemoryError) as e:
        err = traceback.format_exc()
        if from_pyuff(e):
            viol, err = {'what': 'an unexpected error from pyuff: %s: %s' % (type(e).__name__, e), 'key': 'error',
                         'witness': err}, None
    except Exception as e:
        # cases are generated from the seed alone, so what the oracles stumble over came from pyuff
        viol = {'what': '%s: %s: %s' % ('an unexpected error from pyuff' if from_pyuff(e) else
                                        'a result has not the form that was promised', type(e).__name__, e),
                'key': 'error', 'witness': traceback.format_exc()}
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        if _hangs and not (viol and viol['key'] == 'hang'):
            viol = {'what': 'a call did not return within %d s of CPU time' % CASE_CPU_S, 'key': 'hang',
                    'witness': ''.join(_hangs[0])}
        shutil.rmtree(d, ignore_errors=True)
    return ctx, viol, err


def _worker(module, prop, seed, tier, indices, out):
    signal.signal(signal.SIGPROF, _on_cpu)
    with contextlib.suppress(Exception):
        resource.setrlimit(resource.RLIMIT_AS, (AS_LIMIT, AS_LIMIT))
    scratch = tempfile.mkdtemp(prefix='uffmon-')
    res = {'n': {}, 'distinct': [], 'viol': [], 'err': [], 'samples': [], 'done': 0}
    distinct = set()
    now = os.open(out + '.now', os.O_WRONLY | os.O_CREAT, 0o600)
    try:
        for i in indices:
            os.pwrite(now, b'%12d %20.3f' % (i, time.time()), 0)
            ctx, viol, err = run_case(module, prop, seed, tier, i, scratch)
            res['done'] += 1
            for k, v in ctx.n.items():
                res['n'][k] = res['n'].get(k, 0) + v
            distinct |= ctx.distinct
            if ctx.sample is not None and len(res['samples']) < 2:
                res['samples'].append({'case': i, 'what': ctx.sample})
            if viol:
                viol['case'] = i
                res['viol'].append(viol)
                if len(res['viol']) >= 5 or viol['key'] == 'hang':
                    break
            if err:
                res['err'].append({'case': i, 'error': err})
                if len(res['err']) >= 3:
                    break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    res['distinct'] = sorted(distinct)
    os.unlink(out + '.now')
    with open(out, 'w') as f:
        json.dump(res, f)


def stuck(out):
    """The case that a worker has been in for far too long, or None."""
    with contextlib.suppress(OSError, ValueError):
        with open(out + '.now') as f:
            case, since = f.read().split()
        if time.time() - float(since) > STUCK_S:
            return int(case)
    return None


def known_findings():
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        return json.load(f)


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--jobs', type=int)
    a = ap.parse_args(argv)
    prop = a.prop
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    module = importlib.import_module('checks.' + prop.lower())
    load_pyuff()

    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        signal.signal(signal.SIGPROF, _on_cpu)
        scratch = tempfile.mkdtemp(prefix='uffmon-')
        try:
            ctx, viol, err = run_case(module, prop, r['seed'], r['tier'], r['case'], scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        if err:
            print(err)
            return 2
        if viol:
            print('%s\nwitness: %s' % (viol['what'], viol['witness']))
            print('VIOLATION property=%s replay=%s' % (prop, a.replay))
            return 1
        print('case %d of seed %d (%s): the property held' % (r['case'], r['seed'], r['tier']))
        return 0

    total = a.cases or module.CASES[tier]
    jobs = max(1, min(a.jobs or min(8, os.cpu_count() or 1), total))
    results_dir = tempfile.mkdtemp(prefix='uffmon-out-')
    pids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for j in range(jobs):
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                _worker(module, prop, seed, tier, range(j, total, jobs),
                        os.path.join(results_dir, '%d.json' % j))
            except BaseException:
                traceback.print_exc()
                code = 9
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids[pid] = j
    died, hung = [], []
    while pids:
        time.sleep(0.02)
        for pid in list(pids):
            done, status = os.waitpid(pid, os.WNOHANG)
            out = os.path.join(results_dir, '%d.json' % pids[pid])
            if done:
                if status != 0 and pids[pid] not in [h[0] for h in hung]:
                    died.append((pids[pid], status))
                del pids[pid]
            elif stuck(out) is not None and pids[pid] not in [h[0] for h in hung]:
                hung.append((pids[pid], stuck(out)))
                os.kill(pid, signal.SIGKILL)
    merged = {'n': {}, 'distinct': set(), 'viol': [], 'err': [], 'samples': [], 'done': 0}
    for j in range(jobs):
        p = os.path.join(results_dir, '%d.json' % j)
        if not os.path.exists(p):
            continue
        with open(p) as f:
            r = json.load(f)
        for k, v in r['n'].items():
            merged['n'][k] = merged['n'].get(k, 0) + v
        merged['distinct'] |= set(r['distinct'])
        for k in ('viol', 'err', 'samples'):
            merged[k] += r[k]
        merged['done'] += r['done']
    shutil.rmtree(results_dir, ignore_errors=True)
    for _, i in hung:
        merged['viol'].append({'what': 'a call did not return within %d s and could not be interrupted' % STUCK_S,
                               'key': 'hang', 'witness': '', 'case': i})

    listed = [e for e in known_findings() if e['property'] == prop and e.get('status') == 'open']
    new, hit = [], {}
    for v in sorted(merged['viol'], key=lambda v: v['case']):
        e = next((e for e in listed if e['key'] and e['key'] == v['key']), None)
        if e:
            hit[e['key']] = hit.get(e['key'], 0) + 1
        else:
            new.append(v)

    evidence = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': getattr(module, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': merged['done'],
            'distinct_nontrivial': len(merged['distinct']),
            'rule': module.RULE,
            'samples': merged['samples'][:4],
            'observed': dict(sorted(merged['n'].items())),
        },
        'assumptions': getattr(module, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    for e in listed:
        print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    if new:
        v = new[0]
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-seed%d-%s-case%d.json' % (prop, seed, tier, v['case']))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'seed': seed, 'tier': tier, 'case': v['case'],
                       'what': v['what'], 'key': v['key'], 'witness': v['witness'],
                       'more': [{'case': w['case'], 'what': w['what'][:400]} for w in new[1:10]]}, f, indent=1)
        print(v['what'])
        print('witness: %s' % v['witness'])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if merged['err'] or died:
        for e in merged['err'][:3]:
            print('case %d: %s' % (e['case'], e['error']))
        if died:
            print('workers ended abnormally: %r' % died)
        return 2
    lacking = [k for k, v in module.REQUIRED.items()
               if merged['n'].get(k, 0) < (v if not a.cases else 1)]
    if lacking and not a.cases:
        print('inconclusive: the monitors did not observe enough of %s (observed %r)' % (lacking, merged['n']))
        return 3
    print('%s held on %d cases (%d distinct) in %.1f s: %s' % (
        prop, merged['done'], len(merged['distinct']), time.time() - t0,
        ', '.join('%s=%d' % kv for kv in sorted(merged['n'].items()))))
    return 0
