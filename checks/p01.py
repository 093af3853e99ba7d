"""Scalar, float and bool wire format."""
from tmpl import *


def make(tier):
    p = Plan('P01', tier, IDS)
    for s in SCALARS + ['bool', 'f32', 'f64']:
        t = Bo() if s == 'bool' else Fl(s) if s[0] == 'f' else Sc(s)
        d = D('T', t)
        c = D('C', Cont([Fd('a', t), Fd('b', t), Fd('z', Sc('u8'))]))
        sp = p.spec(Spec('s_' + s, [d, c]))
        w = 1 if s == 'bool' else W[t.u] if s[0] == 'f' else W[t.b]
        dec(p, sp, d, w + 1)
        enc(p, sp, d)
        dec(p, sp, c, 2 * w + 2, lo=2 * w)
        enc(p, sp, c)
    p.bounds = ['every byte string up to one byte longer than the scalar; every value of every scalar type']
    return p
