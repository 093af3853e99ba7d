"""Padding of a literal length, of the length of a field, an argument or an expression, and computed with `pad()`, at the start, between and at
the end of containers of every kind."""
from tmpl import *


def make(tier):
    p = Plan('P27', tier, IDS)
    u8, u16 = Sc('u8'), Sc('u16')
    n = F('n')

    def put(name, ds):
        sp = p.spec(Spec('d_' + name, [d for d, *_ in ds]))
        for d, m, *o in ds:
            o = o[0] if o else {}
            dec(p, sp, d, m, lo=max(0, m - 4), covers=o.get('dc', (20, 21)), pre=o.get('pre', ''))
            enc(p, sp, d, covers=o.get('ec', (22,)), decode=o.get('d', True))
    for k in range(0, 5):
        put('lit%d' % k, [
            (D('A', Cont([Fd('a', u8), Pad(I(k)), Fd('b', u8)])), k + 3),
            (D('B', Cont([Pad(I(k)), Fd('b', u16)])), k + 3),
            (D('C', Cont([Fd('a', u16), Pad(I(k))])), k + 3),
            (D('E', Cont([Pad(I(k)), Pad(I(2)), Fd('a', u8), Pad(I(1)), Pad(I(k))])), 2 * k + 5),
            (D('G', Cont([Pad(I(k)), Fd('v', Arr(u8, None))])), k + 2, dict(dc=(20, 21) if k else (20,))),
        ])
    tag = D('Tg', Tag([Fd('x', Cont([Fd('a', u8), Pad(F('k'))]), cond=Bin('<', F('k'), I(3))), Fd('y', Cont([Pad(I(1)), Fd('b', u8), Fd('c', u8, cond=Bin('==', F('b'), I(1)))]))]), args=[('k', u8, None)])
    arg = D('Ar', Cont([Fd('a', u8), Pad(F('k')), Fd('b', u8)]), args=[('k', u8, None)])
    inn = D('Inn', Cont([Fd('q', u8), Pad(I(1))]))
    small = dict(pre='assume(n == 0 || b[0] < 4);')
    put('form', [
        (tag, 4), (arg, 5, dict(pre='assume(g0 < 4);')), (inn, 3),
        (D('N1', Cont([Fd('n', u8), Pad(n), Fd('b', u8)])), 5),
        (D('N2', Cont([Fd('n', u16), Pad(n), Fd('b', u8)])), 5),
        (D('N3', Cont([Fd('n', Sc('u64')), Pad(n), Fd('b', u8)])), 11),
        (D('X1', Cont([Fd('n', u8), Pad(Bin('+', n, I(1))), Fd('b', u8)])), 5),
        (D('X2', Cont([Fd('n', u8), Pad(Bin('&', n, I(3))), Fd('b', u8), Pad(Bin('-', I(4), Bin('&', n, I(3))))])), 7),
        (D('X3', Cont([Fd('n', u8), Pad(Tern(Bin('>', n, I(5)), I(2), I(1))), Fd('b', u8)])), 5),
        (D('P1', Cont([Fd('n', u8), Fd('v', Arr(u8, n)), Pad(Call('pad', I(4), n)), Fd('z', u8)])), 7),
        (D('P2', Cont([Fd('n', u8), Fd('v', Arr(u8, n)), Pad(Call('pad', I(3), Bin('+', n, I(1)))), Fd('z', u8)])), 7),
        (D('P3', Cont([Fd('n', u8, calc=Cast(Len('v'), 'u8')), Fd('v', Arr(u8, n)), Pad(Call('pad', I(2), Len('v'))), Fd('z', u8)])), 6),
        (D('T1', Cont([Fd('n', u8), Fd('t', Ref(tag, n)), Fd('z', u8)])), 6),
        (D('R1', Cont([Fd('n', u8), Fd('t', Ref(arg, n)), Fd('s', Ref(arg, I(2))), Fd('z', u8)])), 9, small),
        (D('Ay', Cont([Fd('n', u8), Fd('v', Arr(Ref(inn), n)), Fd('z', u8)])), 6, dict(ec=(22, 23))),
        (D('Au', Arr(Ref(inn), None)), 5),
        (D('At', Cont([Fd('v', Arr(Ref(inn), b'\xff\x01')), Fd('z', u8)])), 5),
        (D('Ne', Cont([Fd('n', u8), Fd('i', Cont([Pad(I(1)), Fd('a', u8), Fd('j', Cont([Fd('b', u8), Pad(n)]))])), Fd('z', u8)])), 7, small),
        (D('Cd', Cont([Fd('n', u8), Fd('i', Cont([Fd('a', u8), Pad(I(2)), Fd('b', u8)]), cond=Bin('==', n, I(1))), Fd('z', u8)])), 7, dict(ec=(22, 23))),
        (D('Ci', Cont([Fd('n', u8), Fd('i', Cont([Pad(n)]), cond=Bin('<', n, I(4))), Fd('z', u8)])), 6, dict(ec=(22,))),
        (D('Ln', Cont([Fd('n', u8), Fd('i', Cont([Fd('a', u8), Pad(I(2)), Fd('v', Arr(u8, None))], length=n)), Fd('z', u8)])), 7),
        (D('Bl', Cont([Fd('n', u8, calc=Cast(Call('blen', F('i')), 'u8')), Fd('i', Cont([Fd('a', u8), Pad(I(3)), Fd('v', Arr(u8, None))], length=n)), Fd('z', u8)])), 7),
        (D('Xf', Cont([Fd('n', u8), Fd('i', Cont([Fd('a', u8), Pad(I(2)), Fd('b', u8)]), xf=[('xorx', n)]), Fd('z', u8)])), 7),
    ])
    put('name', [
        (D('Na', Cont([Fd('_pad0', u8), Pad(I(1)), Fd('_pad1', u8), Pad(F('_pad0')), Fd('pad0', u8)])), 7, small),
        (D('Nb', Cont([Fd('a', u8), Fd('i', Cont([Fd('_pad0', u8), Pad(I(2)), Fd('j', Cont([Pad(I(1)), Fd('_pad1', u8)]))])), Pad(I(1)), Fd('pad', u8)])), 9),
    ])
    big = [(D('L%d' % k, Cont([Fd('a', u8), Pad(I(k)), Fd('b', u8)])), k) for k in (16, 63)]
    sp = p.spec(Spec('d_big', [d for d, _ in big]))
    for d, k in big:
        dec(p, sp, d, k + 3, lo=k + 1)
        enc(p, sp, d)
    p.bounds = ['every byte string of the stated lengths (up to 11 bytes, 66 for long paddings), every value with lists of at most 2 elements']
    return p
