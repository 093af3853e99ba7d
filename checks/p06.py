"""Bitfields."""
from tmpl import *


def make(tier):
    p = Plan('P06', tier, {**IDS, 30: 'a flag getter tells whether the flag is set', 31: 'setting or clearing a flag changes exactly that flag', 32: 'the flag constants have the declared values', 33: 'only representations made of declared bits convert to the type'})

    def one(name, rep, items):
        t = Bits(rep, items)
        d = D('T', t)
        c = D('C', Cont([Fd('a', Sc('u8')), Fd('e', Ref(d)), Fd('z', Sc('u8'))]))
        a = D('A', Arr(Ref(d), I(2)))
        ca = D('CA', Cont([Fd('n', Sc('u8')), Fd('e', Arr(Ref(d), F('n')))]))
        u = D('U', Arr(Ref(d), None))
        sp = p.spec(Spec('b_' + name, [d, c, a, ca, u]))
        w = W[base(rep)]
        dec(p, sp, d, w + 1)
        enc(p, sp, d)
        dec(p, sp, c, w + 2, lo=w + 1)
        enc(p, sp, c)
        dec(p, sp, a, 2 * w)
        enc(p, sp, a)
        if w <= 2:
            dec(p, sp, ca, 2 * w + 1)
            dec(p, sp, u, 2 * w, covers=(20, 21) if w > 1 or t.all != 255 else (20,))
        r = base(rep)
        s = 'let x = u%ds() as %s; assume(x & !(%d%s) == 0);\n' % (8 * w, r, t.all, r)
        for n, v in t.vals:
            s += '{ let v = m::T(x); let g = v.%s(); if x & (%d%s) == 0 { check(!g, 30); } if x & (%d%s) == (%d%s) { check(g, 30); } let mut y = m::T(x); y.set_%s(); check(y.0 == (x | (%d%s)), 31); check(m::T::%s.0 == (%d%s), 32); }\n' % (n, v, r, v, r, v, r, n, v, r, n.upper(), v, r)
        s += 'cover(20);'
        p.h('flags_' + sp.name, s, covers=(20,), spec=sp.name)
        s = 'let x = u%ds() as %s; match m::T::from_repr(x) { Ok(v) => { cover(20); check(v.0 == x && x & !(%d%s) == 0, 33) } Err(_) => { cover(21); check(x & !(%d%s) != 0, 33) } }' % (8 * w, r, t.all, r, t.all, r)
        p.h('repr_' + sp.name, s, covers=(20, 21) if t.all & ((1 << 8 * w) - 1) != (1 << 8 * w) - 1 else (20,), spec=sp.name)
    one('u8', 'u8', [('a', 1), ('b', None), ('c', None), ('d', ('0x40', 64))])
    one('u16', 'u16', [('a', ('0x0001', 1)), ('b', ('0x0100', 256)), ('c', None), ('d', None)])
    one('u32le', 'u32le', [('a', 1), ('b', None), ('hi', ('0x80000000', 0x80000000))])
    one('u64', 'u64', [('a', 2), ('b', None), ('c', ('0x8000000000000000', 1 << 63))])
    one('multi', 'u8', [('a', ('0x03', 3)), ('b', None), ('c', ('0x80', 128))])
    one('u16le', 'u16le', [('lo', 1), ('hi', ('0x8000', 0x8000))])
    for r in SCALARS:
        one('r_' + r, r, [('a', 1), ('b', None), ('c', ('0x40', 64))])
    for r, n in [('u8', 8), ('u16', 16), ('u32le', 32), ('u64', 64), ('u128', 128), ('u128le', 128)]:
        one('full_' + r, r, [('a0', 1)] + [('a%d' % i, None) for i in range(1, n)])
    one('mix', 'u32', [('a', ('0x10', 16)), ('b', None), ('c', None), ('d', 1), ('e', None), ('f', None), ('g', ('0x10000', 65536)), ('h', None)])
    # members as values: compared, converted, calculated, passed on
    for r in ('u32', 'u8', 'u16le'):
        fl = D('Fl', Bits(r, [('x', 1), ('y', None), ('z', ('0x40', 64))]))
        R = D('R', Cont([Fd('a', Sc('u8'), cond=Bin('==', F('k'), F('d'))), Fd('g', Ref(fl), calc=F('d'))]), args=[('k', Ref(fl), None), ('d', Ref(fl), EnumAcc(fl, 'y'))])
        y, z = EnumAcc(fl, 'y'), EnumAcc(fl, 'z')
        d = D('T', Cont([Fd('f', Ref(fl)), Fd('a', Sc('u8'), cond=Bin('==', F('f'), y)), Fd('b', Sc('u8'), cond=Bin('!=', z, F('f'))), Fd('c', Sc(base(r)), calc=Tern(Mem('f', 'x'), Cast(z, base(r)), I(0, base(r)))), Fd('h', Ref(fl), calc=z), Fd('l', Ref(fl), calc=F('f'))]))
        e = D('E', Cont([Fd('f', Ref(fl)), Fd('i', Ref(R, F('f'))), Fd('j', Ref(R, y, F('f'))), Fd('k', Ref(R, F('f'), z))]))
        sp = p.spec(Spec('bv_' + r, [fl, R, d, e]))
        w = W[base(r)]
        dec(p, sp, d, 4 * w + 2, lo=4 * w)
        enc(p, sp, d, covers=(22, 23))
        dec(p, sp, e, 4 * w + 3, lo=4 * w)
        enc(p, sp, e, covers=(22, 23))
    p.bounds = ['every representation value of each bitfield; arrays of up to 2']
    return p
