"""See DESIGN.md, C13."""
import copy
import os

import numpy as np

from mon import api, cmp, gen, mon
from mon.core import Violation

RULE = ('sequences of 5..14 public calls (construct, query, refresh, read, write, repair; that succeed and that fail) on files '
        'among bystander files; per call the audited file-system events, the table of open files, a snapshot of the '
        'folder, the standard output, the arguments and (for reads) a second reading after the first result was spoiled '
        'are checked; distinct = distinct (calls, types, outcome)')
CASES = {'quick': 4000, 'thorough': 100000}
REQUIRED = {'calls': 25000, 'failed calls': 3000, 'file system events': 25000, 'reads': 5000, 'writes': 5000,
            'failed writes': 1500, 'failed reads': 800, 'arguments compared': 5000, 'spoiled results': 4000,
            'non-finite samples': 100, 'repairs': 1200, 'failed repairs': 500, 'texts with blanks or too long': 5000}


# fields that the writers work out themselves and report back in the set (documented)
DERIVED = {58: ('n_bytes', 'ord_data_type', 'abscissa_min'), 55: ('data_type', 'n_data_per_node')}


def broken(ctx, w):
    """A set that cannot be written."""
    rng = ctx.rng
    w = dict(w)
    c = rng.random()
    if c < 0.2:
        del w['type']
        return w, 'no type'
    keys = [k for k in w if k != 'type']
    if not keys:
        return w, 'as it is'
    k = keys[int(rng.integers(len(keys)))]
    if c < 0.6:
        del w[k]
        return w, 'no %s' % k
    w[k] = gen.R(rng).pick(('no number', None, ValueError, {}, [], [[1], [2, 3]], 1j, ['a', 'b']))
    return w, '%s is %s' % (k, type(w[k]).__name__)


def padded(ctx, v):
    """The same with blanks around some texts, or more text than there is room for."""
    r = gen.R(ctx.rng)
    if isinstance(v, dict):
        return {k: padded(ctx, q) for k, q in v.items()}
    if isinstance(v, list) and v and isinstance(v[0], (dict, str)):
        return [padded(ctx, q) for q in v]
    if isinstance(v, str) and r.p(0.5):
        ctx.count('texts with blanks or too long')
        return r.pick(('  %s', '%s  ', ' %s ', '%s' + 'z' * 90, '%s' + ' y' * 9)) % v
    return v


def kept(now, was):
    """The same values; dictionaries may have gained (optional) fields."""
    if isinstance(was, dict):
        return isinstance(now, dict) and all(k in now and kept(now[k], v) for k, v in was.items())
    if isinstance(was, list) and any(isinstance(v, dict) for v in was):
        return isinstance(now, list) and len(now) == len(was) and all(kept(a, b) for a, b in zip(now, was))
    return mon.equal(now, was)


def write(ctx, watch, u, path, w, mode, force, what, log):
    """One write under watch; the arguments are compared."""
    before = copy.deepcopy(w)
    sets = w if isinstance(w, list) else [w]
    olds = before if isinstance(w, list) else [before]
    held = [dict(s) for s in sets]
    was = list(w) if isinstance(w, list) else None
    log.append('write %s %s' % (mode, what))
    _, err, _ = watch.call('write_sets(%s, %r)' % (what, mode), u.write_sets, w, mode, force_double=force,
                           writes=[path])
    if was is not None and (len(w) != len(was) or any(a is not b for a, b in zip(w, was))):
        raise Violation('write_sets changed the list it was given', witness=before)
    for s, o, h in zip(sets, olds, held):
        for k, v in o.items():
            if not kept(h[k], v):
                raise Violation('write_sets changed the value of %r it was given' % k, witness={'was': v, 'is': h[k]})
            if k not in s:
                raise Violation('write_sets removed %r from the set it was given' % k, witness=o)
            if not kept(s[k], v):
                if k in DERIVED.get(o.get('type'), ()):
                    continue
                if k == 'data' and not np.all(np.isfinite(np.asarray(v))):
                    continue        # replaced by its finite version, as documented in the code
                raise Violation('write_sets put another %r into the set it was given' % k,
                                witness={'was': v, 'is': s[k], 'set': o})
            ctx.count('arguments compared')
    ctx.count('writes')
    ctx.count('failed writes', err is not None)
    return err


def repair(ctx, watch, d, path, name, log):
    """One call of the repair helper, that can or cannot read, write and print."""
    r = gen.R(ctx.rng)
    out = os.path.join(d, 'repaired.uff')
    how = r.pick(('', '', 'closed pipe', 'closed pipe', 'full disk', 'no folder', 'no file', 'default name'))
    log.append('repair %s' % how)
    args = [name, out]
    if how == 'full disk':
        args[1] = out = '/dev/full'
    elif how == 'no folder':
        args[1] = out = os.path.join(d, 'no such folder', 'x.uff')
    elif how == 'no file':
        args[0] = os.path.join(d, 'missing.uff')
    elif how == 'default name':
        del args[1]
        base, ext = os.path.splitext(path)
        out = base + '_fixed' + ext
    fails = not os.path.exists(args[0]) or how in ('no folder', 'full disk', 'no file')
    was = os.path.exists(path) and api.slurp(path)
    _, err, _ = watch.call('fix_58b (%s)' % how, api.pyuff.fix_58b, *args, writes=[out], may_print=True,
                           closed=how == 'closed pipe')
    if (os.path.exists(path) and api.slurp(path)) != was:
        raise Violation('fix_58b changed the file it repairs', witness=log)
    if err is not None and not fails and how != 'closed pipe':
        raise Violation('fix_58b raised %s' % err, witness=log)
    ctx.count('repairs')
    ctx.count('failed repairs', err is not None)


def case(ctx):
    rng = ctx.rng
    r = gen.R(rng)
    d = ctx.scratch
    stem = r.pick(('beam', 'run_1', 'a b', 'meas.1', 'ü'))
    path = os.path.join(d, stem + r.pick(('.uff', '.unv', '', '.uff')))
    for other in (stem + '.bak', stem + '_fixed.uff', 'tempbin', 'other.uff', path + '~', path + '.tmp'):
        if rng.random() < 0.5:
            api.spill(os.path.join(d, other), b'    -1\n    15\n    -1\nbystander')
    log = []
    watch = mon.Watch(ctx, d)
    if rng.random() < 0.7:
        try:
            if rng.random() < 0.5:
                data, _ = gen.foreign_file(rng, gen.style(rng), kinds=gen.KINDS + (58,) * 4)
                if rng.random() < 0.3:      # and something that cannot be read
                    kind = int(r.pick(gen.KINDS))
                    data = data.rstrip() + b'\n    -1\n%6d\nnot a data-set\n    -1\n' % kind
                api.spill(path, data)
            else:
                api.prefile(ctx, path, api.some_sets(ctx, int(rng.integers(1, 5)), gen.KINDS + (58,) * 4))
        except Violation:
            if os.path.exists(path):
                os.unlink(path)
    back = os.getcwd()
    relative = rng.random() < 0.3
    if relative:
        os.chdir(d)
    try:
        run(ctx, rng, r, d, path, os.path.relpath(path, d) if relative else path, watch, log)
    finally:
        os.chdir(back)


def run(ctx, rng, r, d, path, name, watch, log):
    u, err, _ = watch.call('UFF(%s)' % ('existing' if os.path.exists(path) else 'missing'), api.pyuff.UFF, name)
    if err is not None:
        return
    for _ in range(int(rng.integers(5, 15))):
        c = rng.random()
        if c < 0.06:
            log.append('construct')
            v, err, _ = watch.call('UFF()', api.pyuff.UFF, name)
            u = v if err is None else u
        elif c < 0.12:
            log.append('missing')
            q = os.path.join(d, 'missing.uff')
            v, err, _ = watch.call('UFF(missing)', api.pyuff.UFF, q)
            if err is None:
                watch.call('reading a missing file', v.read_sets)
                watch.call('get_n_sets of a missing file', v.get_n_sets)
                watch.call('refresh of a missing file', v.refresh)
        elif c < 0.2:
            for f in (u.get_n_sets, u.get_set_types, u.get_set_formats, u.get_supported_sets, u.get_file_name,
                      u.file_exists, u.get_status, u.refresh):
                if rng.random() < 0.5:
                    log.append(f.__name__)
                    v, err, _ = watch.call(f.__name__, f)
                    if err is None and isinstance(v, (list, np.ndarray)):
                        keep = copy.deepcopy(v)
                        mon.spoil(v)
                        again = api.must(f.__name__, f)
                        if not mon.equal(again, keep):
                            raise Violation('changing what %s returned changes what it returns next' % f.__name__,
                                            witness={'was': keep, 'is': again})
                        ctx.count('spoiled results')
        elif c < 0.25:
            repair(ctx, watch, d, path, name, log)
        elif c < 0.6:
            n = api.attempt(u.get_n_sets)[0] or 0
            k = rng.random()
            if k < 0.25 or not n:
                args = ()
            elif k < 0.6:
                args = (int(rng.integers(n)),)
            elif k < 0.85:
                args = ([int(i) for i in rng.integers(0, n, int(rng.integers(1, 4)))],)
            else:
                args = (r.pick((n, n + 3, -1, [0, n])),)
            kw = {'header_only': True} if rng.random() < 0.25 else {}
            what = 'read_sets(%s)' % ', '.join([repr(a) for a in args] + ['header_only=True'] * len(kw))
            log.append(what)
            keep = copy.deepcopy(args)
            v, err, events = watch.call(what, u.read_sets, *args, **kw)
            if args != keep:
                raise Violation('%s changed the list it was given' % what, witness=args)
            ctx.count('reads')
            if err is not None:
                ctx.count('failed reads')
                continue
            first = copy.deepcopy(v)
            mon.spoil(v)
            again, err2, _ = watch.call(what, u.read_sets, *args, **kw)
            if err2 is not None:
                raise Violation('%s works once and fails then: %s' % (what, err2), witness=log)
            bad = cmp.same(again, first, what)
            if bad:
                raise Violation('changing what was returned shows up in the next reading: %s' % bad, witness=log)
            ctx.count('spoiled results')
        else:
            k = rng.random()
            (w, e), = api.some_sets(ctx, 1, gen.KINDS + (58,) * 3)
            if w['type'] == 58 and rng.random() < 0.3:
                w['data'] = np.array(w['data'], copy=True) * 1.0
                w['data'][int(rng.integers(len(w['data'])))] = r.pick((np.nan, np.inf, -np.inf))
                ctx.count('non-finite samples')
            mode = 'add' if rng.random() < 0.7 else 'overwrite'
            if rng.random() < 0.3:
                w = padded(ctx, w)
            if k < 0.5:
                write(ctx, watch, u, path, w, mode, api.fd(e), str(w['type']), log)
            elif k < 0.6:
                w2, _ = api.some_sets(ctx, 1)[0]
                write(ctx, watch, u, path, [w, w2, {'type': 9999}], mode, api.fd(e),
                      '[%s, %s, 9999]' % (w['type'], w2['type']), log)
            elif k < 0.9:
                bad, how = broken(ctx, w)
                write(ctx, watch, u, path, bad, mode, api.fd(e), '%s, %s' % (w['type'], how), log)
            elif k < 0.95:
                log.append('bad call')
                what, a = r.pick((('write_sets([])', ([],)), ('write_sets(mode=x)', (dict(w), 'x')),
                                  ('write_sets(None)', (None,))))
                watch.call(what, u.write_sets, *a, writes=[path] if a[0] is None else [])
            else:
                log.append('unwritable')
                q = os.path.join(d, 'no such folder', 'x.uff')
                v, err, _ = watch.call('UFF(no folder)', api.pyuff.UFF, q)
                if err is None:
                    watch.call('write_sets(no folder)', v.write_sets, dict(w), mode, writes=[q])
    ctx.seen(log)
    if ctx.sample is None:
        ctx.sample = log
