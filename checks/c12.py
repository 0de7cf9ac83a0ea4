"""See DESIGN.md, C12."""
import os

import numpy as np

from mon import api, cmp, corpus, gen, prog, spec
from mon.core import Violation

RULE = ('files of 1..6 (some of up to 139) sets of any mixture (own, foreign style, shipped); each set is read alone by a fresh object, '
        'and the same object then answers 4..10 requests (one number, list in any order with repeats, all; full or '
        'header only; repeated) that are compared exactly with it, '
        'some of the results being overwritten by the caller; distinct = distinct (file, requests)')
CASES = {'quick': 5000, 'thorough': 150000}
REQUIRED = {'sets compared': 30000, 'headers of function records compared': 6000, 'binary headers compared': 2000,
            'headers of other sets compared': 6000, 'lists with repeats': 2500, 'shipped files': 5, 'files of many sets': 15,
            'requests for all': 3000, 'requests for one': 5000, 'long lists': 60,
            'results changed by the caller': 10000}


def header(full):
    return {k: v for k, v in full.items() if k not in ('x', 'data')} if full.get('type') == 58 else full


def case(ctx):
    rng = ctx.rng
    files = corpus.files(2000000)
    if ctx.index < len(files):
        path = files[ctx.index]
        ctx.count('shipped files')
    else:
        path = ctx.path()
        few = (int(rng.integers(1, 7)), gen.KINDS + (58,) * 10)
        if rng.random() < 0.01:
            few = (int(rng.integers(11, 140)), (15, 82, 151, 164, 2400, 2411, 2412, 2467, 58))
            ctx.count('files of many sets')
        if rng.random() < 0.5:
            data, _ = gen.foreign_file(rng, gen.style(rng), n=few[0], kinds=few[1], big=0.002)
            api.spill(path, data)
        else:
            try:
                api.prefile(ctx, path, api.some_sets(ctx, *few))
            except Violation:
                ctx.count('not written')
                return
    u = api.opened(rng, path)
    n = api.must('get_n_sets', u.get_n_sets)
    types = [int(t) for t in u.get_set_types()]
    ref = []
    for i in range(n):
        one = api.opened(rng, path)
        ref.append(api.attempt(one.read_sets, i)[0])        # None: cannot be read (another property)
    good = [i for i in range(n) if ref[i] is not None]
    if not good:
        ctx.count('files that cannot be read')
        return
    log = []
    for _ in range(int(rng.integers(4, 11)) if ctx.index >= len(files) else 4):
        c = rng.random()
        head = bool(rng.random() < 0.4)
        kw = {'header_only': head} if head or rng.random() < 0.3 else {}
        if c < 0.25:
            if len(good) < n:
                continue
            idx, args = list(range(n)), gen.R(rng).pick(((), (None,)))
            ctx.count('requests for all')
        elif c < 0.6:
            i = good[int(rng.integers(len(good)))]
            idx, args = [i], (gen.R(rng).pick((i, np.int64(i), i)),)
            ctx.count('requests for one')
        else:
            idx = [good[int(i)] for i in rng.integers(0, len(good), int(
                rng.integers(1, 7) if rng.random() < 0.95 else rng.integers(7, 300 if os.path.getsize(path) < 20000 else 30)))]
            if rng.random() < 0.3:
                idx = sorted(idx, reverse=True)
            args = ([np.int64(i) for i in idx] if rng.random() < 0.15 else list(idx),)
            ctx.count('long lists', len(idx) > 20)
            ctx.count('lists with repeats', len(set(idx)) < len(idx))
        asked = 'read_sets(%s)' % ', '.join([repr(a) for a in args] + ['%s=%r' % kv for kv in kw.items()])
        log.append(asked)
        witness = {'types': types, 'requests': log, 'file': api.slurp(path)[:20000]}
        got = api.must(asked, u.read_sets, *args, **kw)
        if len(idx) == 1 and isinstance(got, dict):
            got = [got]
        if not isinstance(got, list) or len(got) != len(idx):
            raise Violation('%s gives %s instead of %d sets' % (
                asked, '%d sets' % len(got) if isinstance(got, list) else type(got).__name__, len(idx)), witness=witness)
        for i, g in zip(idx, got):
            want = ref[i]
            if head and want.get('type') == 58:
                left = [k for k in ('x', 'data') if not isinstance(g, dict) or g.get(k) is not None]
                if left:
                    raise Violation('%s gives the samples of set %d' % (asked, i), witness=witness)
                bad = cmp.same(header(g), header(want), 'set %d' % i)
                ctx.count('headers of function records compared')
                ctx.count('binary headers compared', want['binary'] == 1)
            else:
                bad = cmp.same(g, want, 'set %d' % i)
                ctx.count('headers of other sets compared' if head else 'sets compared')
            if bad:
                raise Violation('%s does not give the same as reading the set alone: %s' % (asked, bad), witness=witness)
        if rng.random() < 0.4:      # what was handed out is the caller's
            prog.spoil(got)
            ctx.count('results changed by the caller')
    ctx.seen(path if ctx.index < len(files) else api.slurp(path), log)
    if ctx.sample is None:
        ctx.sample = {'types': types, 'requests': log}
