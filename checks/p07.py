"""Variable-length integers."""
from tmpl import *


def make(tier):
    p = Plan('P07', tier, {**IDS, 40: 'the encoding of a value is the shortest one'})
    for b in (8, 16, 32, 64, 128):
        t = Var(b)
        d = D('T', t)
        sp = p.spec(Spec('v%d' % b, [d, D('C', Cont([Fd('a', t), Fd('b', Sc('u8')), Fd('c', t)]))]))
        mx = -(-b // 7)
        dec(p, sp, d, min(mx + 2, 21), reenc=False, covers=(20, 21))
        safe(p, sp, d, min(mx + 2, 21))
        enc(p, sp, d)
        if b <= 32:
            enc(p, sp, sp.decls[1])
            dec(p, sp, sp.decls[1], 5, reenc=False)
    p.bounds = ['every value of each width (8 to 128 bits); every byte string up to two bytes longer than the longest encoding']
    return p
