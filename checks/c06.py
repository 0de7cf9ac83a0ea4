"""See DESIGN.md, C06."""
import copy

from mon import api, cmp, gen, trip
from mon.core import Violation

RULE = 'generated headers (each field drawn on its own over its range and width; blank, full-width and over-long texts), alone or among other sets, written and read back; every value compared; and pairs of headers that differ in one given field (others given or left to their defaults) of which only that field may differ when read back; distinct = distinct file contents'
CASES = {'quick': 9000, 'thorough': 300000}
REQUIRED = {'sets compared': 6000, 'behind other sets': 400, 'fields set alone': 1500, 'fields left to their default': 3000}
KINDS = (151, 164, 1858, 2400)
NEEDED = {151: 'model_name description db_app program', 164: 'units_code length force temp temp_offset',
          1858: None, 2400: ''}
ALIAS = {'date_db_written': 'date_file_written', 'time_db_written': 'time_file_written'}
CLOCK = ('date_db_created', 'time_db_created', 'date_db_saved', 'time_db_saved', 'date_file_written',
         'time_file_written')


def independent(ctx):
    rng = ctx.rng
    kind = KINDS[int(rng.integers(3)) if rng.random() < 0.7 else 3]
    w, _ = gen.make(rng, kind)
    if kind in (151, 164, 2400):        # leave fields to their defaults
        needed = NEEDED[kind].split() + ['type']
        share = rng.random()
        for k in [k for k in w if k not in needed and rng.random() < share]:
            del w[k]
    other, _ = gen.make(rng, kind)
    fields = sorted(k for k in other if k != 'type' and not (
        k in ALIAS and ALIAS[k] in w or any(ALIAS.get(q) == k for q in w)))
    k = fields[int(rng.integers(len(fields)))]
    changed = dict(copy.deepcopy(w), **{k: other[k]})
    path = ctx.path()
    read = []
    for v in (w, changed):
        api.write(path, copy.deepcopy(v), 'overwrite', None)
        got = api.read_all(path)
        if len(got) != 1 or got[0].get('type') != kind:
            raise Violation('one header was written, %d sets are read' % len(got), witness=v)
        read.append(got[0])
    mine = ALIAS.get(k, k)
    for q in sorted(set(read[0]) | set(read[1])):
        if q == mine:
            continue
        a, b = read[0].get(q), read[1].get(q)
        if q in CLOCK and q not in w and not any(ALIAS.get(n) == q for n in w):
            # filled with the time of writing, which goes on between the two
            text = str(other[k]).strip()
            if a == b or b != text[:10].strip() or a == text[:10].strip():
                continue
        bad = cmp.same(b, a, q)
        if bad:
            raise Violation('type %d: setting %s to %r changes another field, %s: %s' % (kind, k, other[k], q, bad),
                            witness={'first': w, 'changed': changed, 'read': read})
    ctx.count('fields set alone')
    ctx.count('fields left to their default', len(other) - len(w))
    ctx.seen(api.slurp(path))


def case(ctx):
    if ctx.index % 4 == 3:
        independent(ctx)
    else:
        trip.trip(ctx, KINDS, over=ctx.index % 8 < 4)
