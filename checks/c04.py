"""See DESIGN.md, C04."""
from mon import trip

RULE = 'generated trace lines, elements and groups (list lengths 1..100, zeros, repeats, beams, empty groups), alone or among other sets, written and read back; every value compared; distinct = distinct file contents'
CASES = {'quick': 9000, 'thorough': 300000}
REQUIRED = {'sets compared': 8000, 'behind other sets': 500}


def case(ctx):
    trip.trip(ctx, (82, 2412, 2429, 2467))
