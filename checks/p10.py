"""Tagged enums."""
from tmpl import *


def make(tier):
    p = Plan('P10', tier, IDS)
    u8, u16, u32 = Sc('u8'), Sc('u16'), Sc('u32')

    def eq(n, v):
        return Bin('==', F(n), I(v))

    def one(name, decls, T, wrap, n, nw):
        sp = p.spec(Spec('t_' + name, decls + [T, wrap]))
        dec(p, sp, T, n)
        enc(p, sp, T, covers=(22, 23))
        dec(p, sp, wrap, nw)
        enc(p, sp, wrap, covers=(22, 23))
    t = D('T', Tag([Fd('a', u8, cond=eq('k', 1)), Fd('b', u16, cond=eq('k', 2)), Fd('rest', Cont([Fd('x', u8), Fd('y', u8, cond=Bin('==', F('x'), I(0)))]))]), args=[('k', u8, None)])
    w = D('W', Cont([Fd('k', u8), Fd('v', Ref(t, F('k'))), Fd('z', u8)]))
    one('catch', [], t, w, 3, 5)
    t = D('T', Tag([Fd('one', Cont([Fd('x', u8)]), cond=eq('k', 1)), Fd('two', Cont([Fd('x', u16), Fd('y', u8)]), cond=Bin('<', F('k'), I(10))), Fd('three', u32, cond=Bin('>', F('k'), I(200)))]), args=[('k', u8, None)])
    w = D('W', Cont([Fd('k', u8), Fd('v', Ref(t, F('k')))]))
    one('overlap', [], t, w, 5, 5)
    en = D('En', Enum('u8', [('p', 3), ('q', None)]))
    t = D('T', Tag([Fd('pp', Arr(u8, I(2)), cond=Bin('==', F('k'), EnumAcc(en, 'p'))), Fd('qq', Cont([Fd('n', u8), Fd('v', Arr(u8, F('n')))]), cond=Bin('==', F('k'), EnumAcc(en, 'q')))]), args=[('k', Ref(en), None)])
    w = D('W', Cont([Fd('k', Ref(en)), Fd('v', Ref(t, F('k')))]))
    one('enum', [en], t, w, 4, 4)
    inn = D('Inn', Cont([Fd('p', u8), Fd('q', u16)]))
    t = D('T', Tag([Fd('r', Ref(inn), cond=F('k')), Fd('s', Utf8(I(2)))]), args=[('k', Bo(), None)])
    w = D('W', Cont([Fd('k', Bo()), Fd('v', Ref(t, F('k')))]))
    one('ref', [inn], t, w, 4, 5)
    # calculated field inside a variant
    t = D('T', Tag([Fd('a', Cont([Fd('n', u8, calc=Cast(Len('v'), 'u8')), Fd('v', Arr(u8, F('n')))]), cond=eq('k', 1)), Fd('b', u8)]), args=[('k', u8, None)])
    w = D('W', Cont([Fd('k', u8), Fd('v', Ref(t, F('k')))]))
    one('calc', [], t, w, 3, 4)
    # two arguments
    t = D('T', Tag([Fd('a', u8, cond=Bin('&&', eq('k', 1), F('f'))), Fd('b', u16, cond=Bin('||', eq('k', 2), F('f'))), Fd('c', u8, cond=Bin('==', Bin('%', F('k'), I(2)), I(1)))]), args=[('k', u8, None), ('f', Bo(), None)])
    w = D('W', Cont([Fd('f', Bo()), Fd('k', u8), Fd('v', Ref(t, F('k'), F('f')))]))
    one('two', [], t, w, 3, 4)
    # with a length, overlapping
    t = D('T', Tag([Fd('a', u16, cond=Bin('<', F('k'), I(5))), Fd('b', Arr(u8, None), cond=Bin('<', F('k'), I(9))), Fd('c', Cont([Fd('x', u8), Fd('v', Arr(u8, None))]))], length=F('n')), args=[('k', u8, None), ('n', u8, None)])
    w = D('W', Cont([Fd('k', u8), Fd('n', u8), Fd('v', Ref(t, F('k'), F('n'))), Fd('z', u8)]))
    sp = p.spec(Spec('t_len', [t, w]))
    dec(p, sp, t, 4)
    enc(p, sp, t, covers=(22, 23))
    dec(p, sp, w, 6)
    enc(p, sp, w, covers=(22, 23))
    # transformed variants, of an argument of the type
    X = lambda e, c=None: ('xorx', e, c)
    t = D('T', Tag([Fd('a', Cont([Fd('x', u8), Fd('y', u16)]), cond=eq('k', 1), xf=[X(I(5))]), Fd('b', u16, cond=eq('k', 2), xf=[X(F('k')), ('addx', I(3), None)]),
                    Fd('c', Cont([Fd('n', u8, calc=Cast(Len('v'), 'u8')), Fd('v', Arr(u8, F('n')))]), cond=Bin('<', F('k'), I(8)), xf=[('addx', F('k'), None)]), Fd('d', Cont([Fd('x', u8), Fd('i', Cont([Fd('y', u8)]), xf=[X(I(1))])]), xf=[X(I(9)), ('addx', F('k'), None)])]), args=[('k', u8, None)])
    w = D('W', Cont([Fd('k', u8), Fd('v', Ref(t, F('k'))), Fd('z', u8)]))
    one('xf', [], t, w, 4, 5)
    # of one, none and many variants
    t = D('T', Tag([Fd('a', u8, cond=eq('k', 1))]), args=[('k', u8, None)])
    w = D('W', Cont([Fd('k', u8), Fd('v', Ref(t, F('k'))), Fd('z', u8)]))
    one('single', [], t, w, 3, 4)
    t = D('T', Tag([Fd('v%d' % i, u8 if i % 3 else Cont([Fd('x', u16)]), cond=eq('k', i * 7 % 24)) for i in range(24)]), args=[('k', u8, None)])
    w = D('W', Cont([Fd('k', u8), Fd('v', Ref(t, F('k'))), Fd('z', u8)]))
    one('many', [], t, w, 3, 4)
    # within lists, under conditions, of a variant which is itself such
    t = D('T', Tag([Fd('a', u8, cond=eq('k', 1)), Fd('b', u16, cond=eq('k', 2))]), args=[('k', u8, None)])
    o = D('O', Tag([Fd('t', Ref(t, F('k')), cond=Bin('<', F('k'), I(4))), Fd('l', Arr(Ref(t, F('j')), I(2)), cond=F('c')), Fd('e', Cont([Fd('k', u8), Fd('t', Ref(t, F('k')))]))]), args=[('k', u8, None), ('j', u8, None), ('c', Bo(), None)])
    w = D('W', Cont([Fd('k', u8), Fd('c', Bo()), Fd('v', Ref(o, F('k'), Bin('-', F('k'), I(8)), F('c')), cond=Bin('>', F('k'), I(1))), Fd('w', Arr(Ref(t, Bin('&', F('k'), I(3))), Bin('&', F('k'), I(1)))), Fd('z', u8)]))
    one('within', [t], o, w, 4, 6)
    p.bounds = ['all byte strings up to the stated size (3-5 bytes), every discriminant; collections of at most 2']
    return p
