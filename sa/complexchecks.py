"""C34: complex values pass through the utilities."""
from . import cichecks, intchecks, structchecks

RULE = 'complex arguments: the result equals the specification as complex polynomials (nothing is cast to a real array)'


def c34(s):
    structchecks.c15(s, 'c', RULE)
    for spin in ('a', 'b', 'ab'):
        structchecks.COMPLEX = spin
        structchecks.c15(s, 'c', RULE)
    structchecks.COMPLEX = None
    structchecks.c16(s, 'c')
    structchecks.c18(s, 'c', denominators=False)
    R = intchecks.IRunner(s)
    intchecks.gen_all(R, True, RULE)
    intchecks.c34_sets(R, RULE)
    cichecks.c28(s, 'c')
    cichecks.c29(s, 'c', orders=(1, 2, 3) if s.tier == 'quick' else (1, 2, 3, 4, None))
