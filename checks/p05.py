"""Enums: values, numbering, rejection, default variants, wire format."""
from tmpl import *


def make(tier):
    p = Plan('P05', tier, IDS)

    def one(name, rep, items, n=None):
        d = D('T', Enum(rep, items))
        c = D('C', Cont([Fd('a', Sc('u8')), Fd('e', Ref(d)), Fd('z', Sc('u8'))]))
        a = D('A', Arr(Ref(d), I(2)))
        sp = p.spec(Spec('e_' + name, [d, c, a]))
        w = W[base(rep)]
        tot = any(v == 'default' for _, v in items)
        dec(p, sp, d, w + 1)
        enc(p, sp, d)
        dec(p, sp, c, w + 2, lo=w + 1)
        enc(p, sp, c)
        if len(items) < 100:
            dec(p, sp, a, 2 * w)
            enc(p, sp, a)
        return sp, d
    one('u8', 'u8', [('a', 0), ('b', None), ('c', None), ('d', 10), ('e', None), ('f', ('0xff', 255))])
    one('gap', 'u16', [('a', 1), ('b', None), ('c', ('0x1000', 4096)), ('d', None), ('e', None), ('f', 3)])
    one('i32', 'i32', [('west', 1), ('east', None), ('north', 6), ('south', None)])
    one('le', 'u32le', [('a', 1), ('b', 256), ('c', None), ('d', ('0xdeadbeef', 0xdeadbeef))])
    one('i16le', 'i16le', [('a', 300), ('b', None)])
    one('u64', 'u64', [('a', ('0x0102030405060708', 0x0102030405060708)), ('b', None)])
    one('neg', 'i8', [('a', ('-2', -2)), ('b', None), ('c', None), ('d', None)])
    one('expr', 'u8', [('a', ('1 + 2', 3)), ('b', ('2 * 3 + 1', 7)), ('c', None), ('d', ('1 << 4', 16)), ('e', ('0x0f | 0x30', 63))])
    for r in SCALARS:
        one('r_' + r, r, [('a', 1), ('b', ('0x42', 0x42)), ('c', None)])
        one('d_' + r, r, [('a', 1), ('b', None), ('other', 'default')])
    one('many', 'u8', [('a', 1), ('b', None), ('c', None), ('d', 9), ('e', None), ('f', None), ('g', None), ('h', 100), ('i', None), ('j', 50), ('k', None)])
    one('def', 'u8', [('a', 1), ('b', None), ('other', 'default')])
    one('deflast', 'u16le', [('a', 7), ('rest', 'default')])
    one('v140', 'u16le', [('it0', 150)] + [('it%d' % i, 20 if i == 120 else None) for i in range(1, 140)])
    one('v40', 'u8', [('it0', 1)] + [('it%d' % i, 200 if i == 20 else None) for i in range(1, 40)] + [('rest', 'default')])
    p.bounds = ['every representation value of every enum; arrays of 2; containers around one enum']
    return p
