"""A family of declarations, one per kind of thing the language has, for checks which vary the transport."""
from spec import *


def family():
    u8, u16 = Sc('u8'), Sc('u16')
    en = D('En', Enum('u16', [('p', 1), ('q', ('0x0201', 0x201)), ('r', None)]))
    ed = D('Ed', Enum('u8', [('p', 1), ('q', None), ('o', 'default')]))
    bf = D('Bf', Bits('u16le', [('x', 1), ('y', ('0x10', 16)), ('z', ('0x0400', 0x400))]))
    inn = D('Inn', Cont([Fd('p', u8), Fd('q', u16, cond=Bin('>', F('p'), I(5)))]))
    tg = D('Tg', Tag([Fd('a', u16, cond=Bin('==', F('k'), I(1))), Fd('b', Cont([Fd('n', u8), Fd('v', Arr(u8, F('n')))]), cond=Bin('==', F('k'), I(2))), Fd('c', Ref(inn))]), args=[('k', u8, None)])
    ds = [
        (D('Sca', Cont([Fd('a', u8), Fd('b', u16), Fd('c', Sc('i32le'))])), 7),
        (D('Wid', Cont([Fd('a', Sc('u64')), Fd('b', Sc('i128le'))])), 24),
        (D('Boo', Cont([Fd('a', Bo()), Fd('b', Fl('f32'))])), 5),
        (D('Enu', Cont([Fd('a', Ref(en)), Fd('b', Ref(ed)), Fd('c', Ref(bf))])), 5),
        (D('Arb', Cont([Fd('n', u8), Fd('v', Arr(u8, F('n'))), Fd('z', u8)])), 5),
        (D('Arw', Cont([Fd('n', u8), Fd('v', Arr(u16, F('n'))), Fd('z', u8)])), 6),
        (D('Unb', Cont([Fd('n', u8), Fd('v', Arr(u8, None))])), 4),
        (D('Unw', Cont([Fd('n', u8), Fd('v', Arr(u16, None))])), 5),
        (D('Unr', Cont([Fd('n', u8), Fd('v', Arr(Ref(inn), None))])), 5),
        (D('Trm', Cont([Fd('v', Arr(u8, b'\xff\x01')), Fd('z', u8)])), 4),
        (D('Tr1', Cont([Fd('v', Arr(u8, b'\0')), Fd('z', u8)])), 4),
        (D('Unt', Cont([Fd('n', u8), Fd('v', Arr(Utf8(), None))])), 4),
        (D('Unv', Cont([Fd('n', u8), Fd('v', Arr(Var(32), None))])), 4),
        (D('Und', Cont([Fd('n', u8), Fd('v', Arr(Arr(u8, F('n')), None))])), 4),
        (D('Tre', Cont([Fd('v', Arr(Ref(inn), b'\0')), Fd('z', u8)])), 5),
        (D('Arr_', Cont([Fd('n', u8), Fd('v', Arr(Ref(inn), F('n'))), Fd('z', u8)])), 5),
        (D('Dim', Cont([Fd('n', u8), Fd('v', Arr(Arr(u8, F('n')), I(2))), Fd('z', u8)])), 6),
        (D('Utn', Cont([Fd('a', Utf8()), Fd('z', u8)])), 4),
        (D('Utl', Cont([Fd('n', u8), Fd('a', Utf8(F('n'))), Fd('z', u8)])), 4),
        (D('U16', Cont([Fd('n', u8), Fd('a', Utf16(F('n'))), Fd('z', u8)])), 4),
        (D('Var', Cont([Fd('a', Var(16)), Fd('b', Var(64)), Fd('z', u8)])), 5),
        (D('Cnd', Cont([Fd('f', u8), Fd('a', u16, cond=Bin('==', F('f'), I(1))), Fd('i', Cont([Fd('b', u8), Fd('c', u8, cond=Bin('>', F('b'), I(3)))]), cond=Bin('<', F('f'), I(9))), Fd('z', u8)])), 6),
        (D('Tag', Cont([Fd('k', u8), Fd('t', Ref(tg, F('k'))), Fd('z', u8)])), 5),
        (D('Len', Cont([Fd('n', u8), Fd('i', Cont([Fd('a', u8), Fd('v', Arr(u8, None))], length=F('n'))), Fd('z', u8)])), 5),
        (D('Len2', Cont([Fd('n', u8), Fd('i', Cont([Fd('m', u8), Fd('j', Cont([Fd('v', Arr(u16, None))], length=F('m'))), Fd('w', Arr(u8, None))], length=F('n'))), Fd('z', u8)])), 6),
        (D('Blen', Cont([Fd('n', u16, calc=Cast(Call('blen', F('i')), 'u16')), Fd('i', Cont([Fd('a', u8), Fd('v', Arr(u8, None))], length=F('n'))), Fd('z', u8)])), 6),
        (D('Clc', Cont([Fd('n', u8, calc=Cast(Len('v'), 'u8')), Fd('v', Arr(u8, F('n'))), Fd('z', u8)])), 5),
        (D('Pad_', Cont([Fd('n', u8), Pad(Bin('&', F('n'), I(3))), Fd('z', u8)])), 5),
    ]
    return [en, ed, bf, inn, tg], ds


def xf_family():
    u8, u16 = Sc('u8'), Sc('u16')
    return [
        (D('Xa', Cont([Fd('k', u8), Fd('v', u16, xf=[('xorx', F('k')), ('addx', I(3))]), Fd('z', u8)])), 4),
        (D('Xb', Cont([Fd('k', u8), Fd('v', Arr(u8, I(2)), xf=[('xorx', I(9), Bin('>', F('k'), I(3)))]), Fd('z', u8)])), 4),
        (D('Xr', Cont([Fd('k', u8), Fd('v', Arr(Var(16), b'\0'), xf=[('xorx', I(9), Bin('>', F('k'), I(3)))]), Fd('z', u8)])), 4),
        (D('Xi', Cont([Fd('k', u8), Fd('i', Cont([Fd('a', u8), Fd('b', Utf8())]), xf=[('addx', F('k'))]), Fd('z', u8)])), 4),
        (D('Xt', Cont([Fd('k', u8), Fd('v', Arr(u8, I(2)), xf=[('xorx', I(9)), ('tail', None)])])), 4),
    ]
