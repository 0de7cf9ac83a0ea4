"""See DESIGN.md, C05."""
from mon import trip

RULE = 'generated nodal results of all analysis kinds (real/complex, 1 to 12 values, 1..60 nodes, any sign and two-digit exponent), alone or among other sets, written and read back; every value compared; distinct = distinct file contents'
CASES = {'quick': 9000, 'thorough': 300000}
REQUIRED = {'sets compared': 8000, 'behind other sets': 500, '2414 named location 1': 100,
            '2414 named location 2': 100, '2414 named location 3': 100,
            'values of a node on an element as a whole': 300,
            **{'55 analysis %d %s %d values' % (a, c, k): 15 for a in (2, 3, 5, 7) for c in ('real', 'complex')
               for k in (1, 2, 4, 5, 7, 9, 12)}}


def case(ctx):
    trip.trip(ctx, (55, 2414))
