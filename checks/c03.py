"""See DESIGN.md, C03."""
from mon import trip

RULE = 'generated geometry sets (counts 1..60, labels/colours up to the field width, coordinates of any sign and two-digit exponent), alone or among other sets, written and read back; every value compared; distinct = distinct file contents'
CASES = {'quick': 9000, 'thorough': 300000}
REQUIRED = {'sets compared': 8000, 'behind other sets': 500}


def case(ctx):
    trip.trip(ctx, (15, 18, 2411, 2420))
