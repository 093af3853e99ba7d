"""Conditional presence."""
from tmpl import *


def make(tier):
    p = Plan('P09', tier, IDS)
    u8, u16, u32 = Sc('u8'), Sc('u16'), Sc('u32')

    def one(name, decls, T, n, lo=0, kk=2, **k):
        sp = p.spec(Spec('c_' + name, decls))
        dec(p, sp, T, n, lo=lo, **k)
        enc(p, sp, T, kk, covers=(22, 23))
        return sp

    d = D('T', Cont([Fd('f', u8), Fd('a', u16, cond=Bin('==', F('f'), I(1))), Fd('b', u32, cond=Bin('==', F('f'), I(2))), Fd('z', u8)]))
    one('eq', [d], d, 7)
    d = D('T', Cont([Fd('f', u8), Fd('g', u8), Fd('a', u16, cond=Bin('&&', Bin('>', F('f'), I(3)), Bin('!=', F('g'), I(0)))),
                     Fd('b', u8, cond=Bin('||', Bin('<=', F('f'), I(3)), Bin('==', F('g'), I(7)))), Fd('c', u16, cond=Un('!', Bin('>=', F('f'), F('g'))))]))
    one('logic', [d], d, 7, lo=1)
    d = D('T', Cont([Fd('f', Bo()), Fd('a', u16, cond=F('f')), Fd('b', u8, cond=Un('!', F('f')))]))
    one('bool', [d], d, 4)
    fl = D('Fl', Bits('u8', [('x', 1), ('y', None), ('z', None)]))
    d = D('T', Cont([Fd('f', Ref(fl)), Fd('a', u16, cond=Mem('f', 'x')), Fd('b', u8, cond=Mem('f', 'y')), Fd('c', u8, cond=Bin('&&', Mem('f', 'x'), Mem('f', 'z')))]))
    one('flags', [fl, d], d, 5)
    en = D('En', Enum('u8', [('p', 1), ('q', None), ('r', 9)]))
    d = D('T', Cont([Fd('f', Ref(en)), Fd('a', u16, cond=Bin('==', F('f'), EnumAcc(en, 'q'))), Fd('b', u8, cond=Bin('!=', F('f'), EnumAcc(en, 'p')))]))
    one('enum', [en, d], d, 4)
    # conditional container: every inner field becomes optional
    d = D('T', Cont([Fd('f', u8), Fd('in', Cont([Fd('a', u8), Fd('b', u16)]), cond=Bin('==', F('f'), I(5))), Fd('z', u8)]))
    one('cont', [d], d, 6)
    d = D('T', Cont([Fd('f', u8), Fd('in', Cont([Fd('n', u8), Fd('v', Arr(u8, F('n')))]), cond=Bin('==', F('f'), I(5)))]))
    one('contarr', [d], d, 5)
    # unconditional nested container: sees the fields before it
    d = D('T', Cont([Fd('f', u8), Fd('in', Cont([Fd('a', u8), Fd('g', u8, cond=Bin('==', F('a'), F('f')))])), Fd('z', u8, cond=Bin('==', F('f'), I(3)))]))
    one('nest', [d], d, 5)
    # conditional on a named type, array, string and enum fields
    inn = D('Inn', Cont([Fd('p', u8), Fd('q', u8, cond=Bin('>', F('p'), I(100)))]))
    d = D('T', Cont([Fd('f', u8), Fd('a', Ref(inn), cond=Bin('==', Bin('&', F('f'), I(1)), I(1))), Fd('b', Arr(u16, I(2)), cond=Bin('!=', Bin('&', F('f'), I(2)), I(0)))]))
    one('ref', [inn, d], d, 7)
    d = D('T', Cont([Fd('f', u8), Fd('s', Utf8(), cond=Bin('==', F('f'), I(0))), Fd('e', Ref(en), cond=Bin('==', F('f'), I(1))), Fd('h', Ref(fl), cond=Bin('==', F('f'), I(2)))]))
    one('kinds', [en, fl, d], d, 3)
    # elvis on a conditional field
    d = D('T', Cont([Fd('f', u8), Fd('a', u8, cond=Bin('==', F('f'), I(1))), Fd('b', u8, cond=Bin('>', Elvis(F('a'), I(9)), I(8)))]))
    one('elvis', [d], d, 4)
    # declaration-level condition on an argument
    d = D('T', u16, args=[('f', u8, None)], cond=Bin('==', F('f'), I(3)))
    c = D('C', Cont([Fd('k', u8), Fd('v', Ref(d, F('k'))), Fd('z', u8)]))
    sp = p.spec(Spec('c_decl', [d, c]))
    dec(p, sp, d, 3)
    enc(p, sp, d, covers=(22, 23))
    dec(p, sp, c, 5)
    enc(p, sp, c, covers=(22, 23))
    # wide discriminants
    d = D('T', Cont([Fd('f', Sc('u32le')), Fd('a', u8, cond=Bin('==', F('f'), I(0x01020304, text='0x01020304'))), Fd('b', u8, cond=Bin('<', F('f'), I(256)))]))
    one('wide', [d], d, 6)
    d = D('T', Cont([Fd('f', Sc('i16')), Fd('a', u8, cond=Bin('<', F('f'), I(0))), Fd('b', u8, cond=Bin('>=', F('f'), Un('-', I(5))))]))
    one('signed', [d], d, 5)
    # nested conditional containers
    d = D('T', Cont([Fd('f', u8), Fd('o', Cont([Fd('g', u8), Fd('in', Cont([Fd('a', u8)]), cond=Bin('==', F('g'), I(1)))]), cond=Bin('==', F('f'), I(1)))]))
    one('nestcond', [d], d, 4)
    d = D('T', Cont([Fd('f', u8), Fd('o', Cont([Fd('g', u8), Fd('a', u8, cond=Bin('==', F('g'), I(1)))]), cond=Bin('==', F('f'), I(1)))]))
    one('nestcond2', [d], d, 4)
    p.bounds = ['all byte strings up to the stated number of bytes (3-7); collections of at most 2; strings of at most 3 bytes']
    return p
