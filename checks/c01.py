"""See DESIGN.md, C01."""
from mon import trip

RULE = 'function records with generated headers and samples (all function types, real/complex, even/uneven, single/double, 1..70 samples), alone or among other sets, written and read back; every header field and sample compared to its precision; distinct = distinct file contents'
CASES = {'quick': 9000, 'thorough': 300000}
REQUIRED = {'sets compared': 8000, 'behind other sets': 500}


def case(ctx):
    trip.trip(ctx, (58,), binary=False, over=ctx.index % 3 == 0, big=0.04)
