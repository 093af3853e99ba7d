"""Specifications drawn at random (by a fixed seed) from the constructs of the language, each decided for every input and value within its bounds."""
from tmpl import *
from rnd import *


def make(tier):
    p = Plan('P03', tier, IDS)
    q = tier == 'quick'
    for s in range(36 if q else 240):
        g = G(s)
        sp = p.spec(g.spec('r%d' % s, 4))
        for d in sp.decls:
            if isinstance(d.ty, (Enum, Bits)):
                continue
            n = min(est(d) + 1, 11 if q else 20)
            dec(p, sp, d, n, lo=max(0, n - 2), covers=(), wall=8 if q else 60)
            enc(p, sp, d, 1, covers=(), trip=False, wall=8 if q else 60)
    p.bounds = ['%d specifications of up to 7 declarations; byte strings of up to %d bytes, lists of at most 1 element on the encoding side; a specification whose paths exceed the time of a harness is decided for the paths reached (noted as incomplete)' % (36 if q else 240, 11 if q else 20)]
    return p
