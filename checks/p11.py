"""Arrays."""
from tmpl import *


def make(tier):
    p = Plan('P11', tier, IDS)
    u8, u16, u32 = Sc('u8'), Sc('u16'), Sc('u32')
    deep = tier != 'quick'

    def one(name, decls, T, n, kk=2, covers=(20, 21), ecov=(22,)):
        sp = p.spec(Spec('a_' + name, decls))
        dec(p, sp, T, n, covers=covers)
        if name not in ('sub', 'str'):
            safe(p, sp, T, n)
        enc(p, sp, T, kk, covers=ecov)
    for s in SCALARS:
        t = Sc(s)
        d = D('T', Arr(t, I(2)))
        c = D('C', Cont([Fd('n', u8), Fd('v', Arr(t, F('n'))), Fd('z', u8)]))
        sp = p.spec(Spec('a_sc_' + s, [d, c]))
        dec(p, sp, d, 2 * W[t.b] + 1)
        enc(p, sp, d, covers=(22, 23))
        dec(p, sp, c, 2 * W[t.b] + 2 + (0 if W[t.b] > 2 else 1))
        enc(p, sp, c, covers=(22, 23))
    for s in ['u8', 'u16', 'i32le', 'u64le']:
        t = Sc(s)
        d = D('T', Arr(t, None))
        one('unb_' + s, [d], d, 2 * W[t.b] + 1, covers=(20,) if s == 'u8' else (20, 21))
    for nm, t in [('f32', Fl('f32')), ('f64', Fl('f64'))]:
        d = D('T', Arr(t, I(2)))
        c = D('C', Cont([Fd('n', u8), Fd('v', Arr(t, F('n')))]))
        sp = p.spec(Spec('a_' + nm, [d, c]))
        dec(p, sp, d, 17)
        enc(p, sp, d, covers=(22, 23))
        dec(p, sp, c, 17)
    d = D('T', Arr(Bo(), I(2)))
    c = D('C', Cont([Fd('n', u8), Fd('v', Arr(Bo(), F('n')))]))
    sp = p.spec(Spec('a_bool', [d, c]))
    dec(p, sp, d, 3)
    enc(p, sp, d, covers=(22, 23))
    dec(p, sp, c, 3)
    enc(p, sp, c, covers=(22, 23))
    for s in SCALARS:
        for k, t in [('e', Enum(s, [('p', 1), ('q', ('0x42', 0x42))])), ('b', Bits(s, [('p', 1), ('q', ('0x40', 64))]))]:
            en = D('En', t)
            d = D('T', Arr(Ref(en), None))
            c = D('C', Cont([Fd('n', u8), Fd('v', Arr(Ref(en), F('n'))), Fd('z', u8)]))
            sp = p.spec(Spec('a_%s_%s' % (k, s), [en, d, c]))
            w = W[base(s)]
            dec(p, sp, d, 2 * w + (1 if w > 1 else 0), lo=2 * w - 1)
            enc(p, sp, d)
            dec(p, sp, c, 2 * w + 2, lo=2 * w + 1)
            enc(p, sp, c, covers=(22, 23))
    en = D('En', Enum('u16', [('p', 1), ('q', ('0x0201', 0x201))]))
    d = D('T', Cont([Fd('n', u8), Fd('v', Arr(Ref(en), F('n')))]))
    one('enum', [en, d], d, 5, ecov=(22, 23))
    d = D('T', Arr(Ref(en), None))
    one('enumunb', [en, d], d, 5)
    inn = D('Inn', Cont([Fd('p', u8), Fd('q', u16, cond=Bin('==', F('p'), I(1)))]))
    d = D('T', Arr(Ref(inn), I(2)))
    one('cont', [inn, d], d, 5, ecov=(22, 23))
    d = D('T', Cont([Fd('n', u8), Fd('v', Arr(Ref(inn), F('n'))), Fd('z', u8)]))
    one('contn', [inn, d], d, 6, ecov=(22, 23))
    d = D('T', Arr(Ref(inn), None))
    one('contunb', [inn, d], d, 5, ecov=(22, 23))
    # multi-dimensional
    d = D('T', Arr(Arr(u8, I(2)), I(2)))
    one('dim2', [d], d, 5, ecov=(22, 23))
    d = D('T', Cont([Fd('a', u8), Fd('b', u8), Fd('v', Arr(Arr(u8, F('a')), F('b')))]))
    one('dimn', [d], d, 6, ecov=(22, 23))
    d = D('T', Arr(Arr(u16, I(2)), None))
    one('dimu', [d], d, 5, ecov=(22, 23))
    # terminated
    d = D('T', Arr(u8, b'\0'))
    one('nul', [d], d, 4, covers=(20,))
    d = D('T', Cont([Fd('s', Arr(u8, b'\0')), Fd('t', Arr(u8, b'\0')), Fd('z', u8)]))
    one('nul2', [d], d, 5)
    d = D('T', Arr(u8, b'\r\n'))
    one('crlf', [d], d, 4, covers=(20,))
    d = D('T', Cont([Fd('s', Arr(u16, b'ab')), Fd('z', u8)]))
    one('term16', [d], d, 6)
    d = D('T', Arr(Arr(u8, b'\0'), None))
    one('strings', [d], d, 4, covers=(20,))
    d = D('T', Arr(Arr(u8, b'\0'), I(2)))
    one('strings2', [d], d, 4, covers=(20,), ecov=(22, 23))
    d = D('T', Arr(Ref(inn), b'\xff'))
    one('termref', [inn, d], d, 4, ecov=(22, 23))
    d = D('T', Cont([Fd('v', Arr(Ref(en), b'\0\0')), Fd('z', u8)]))
    one('termenum', [en, d], d, 6)
    d = D('T', Arr(u8, b'END'))
    one('term3', [d], d, 5 if not deep else 7, covers=(20,))
    # elements which may be empty
    emp = D('Emp', Cont([Pad(I(0))]))
    opt = D('Opt', Cont([Fd('p', u8, cond=Bin('==', F('k'), I(1)))]), args=[('k', u8, None)])
    d = D('T', Cont([Fd('n', u8), Fd('v', Arr(Arr(u8, F('n')), None))]))
    one('empu', [d], d, 5)
    d = D('T', Cont([Fd('n', u8), Fd('v', Arr(Arr(u8, F('n')), b'\0')), Fd('z', u8)]))
    one('empt', [d], d, 5)
    d = D('T', Cont([Fd('n', u8), Fd('v', Arr(Utf8(F('n')), None))]))
    one('emps', [d], d, 4)
    d = D('T', Cont([Fd('n', u8), Fd('v', Arr(Ref(opt, F('n')), None))]))
    one('empo', [opt, d], d, 4)
    # element types
    d = D('T', Cont([Fd('n', u8), Fd('v', Arr(Utf8(), F('n')))]))
    one('str', [d], d, 4, ecov=(22, 23))
    d = D('T', Cont([Fd('n', u8), Fd('v', Arr(Var(16), F('n')))]))
    one('var', [d], d, 4, ecov=(22, 23))
    # arrays of a type alias
    al = D('Al', u16)
    d = D('T', Arr(Ref(al), I(2)))
    one('alias', [al, d], d, 5, ecov=(22, 23))
    # types which contain themselves
    d = D('T', Cont([Fd('n', u8)]))
    d.ty.fields.append(Fd('v', Arr(Rec(d), F('n'))))
    one('rec', [d], d, 5, ecov=(22, 23))
    d = D('T', Cont([Fd('n', u8)]))
    d.ty.fields.append(Fd('v', Arr(Rec(d), b'\0')))
    one('rect', [d], d, 5, covers=(20, 21))
    d = D('T', Cont([Fd('n', u8)]))
    d.ty.fields.append(Fd('v', Arr(Rec(d), None)))
    one('recu', [d], d, 5, covers=(20, 21))
    # length expressions
    d = D('T', Cont([Fd('n', u8), Fd('v', Arr(u8, Bin('+', F('n'), I(1)))), Fd('w', Arr(u8, Bin('*', F('n'), I(2))))]))
    one('expr', [d], d, 6, ecov=(22, 23))
    d = D('T', Cont([Fd('n', u16), Fd('v', Arr(u8, Cast(Bin('-', F('n'), I(2)), 'u64')))]))
    one('sub', [d], d, 5, ecov=(22, 23))
    d = D('T', Cont([Fd('n', Sc('u64le')), Fd('v', Arr(u16, F('n'))), Fd('w', Arr(Ref(inn), F('n')))]))
    one('n64', [inn, d], d, 11, ecov=(22, 23))
    d = D('T', Cont([Fd('a', u8), Fd('b', u8), Fd('v', Arr(u8, Tern(Bin('>', F('a'), F('b')), F('a'), F('b'))))]))
    one('tern', [d], d, 5, ecov=(22, 23))
    # many elements
    for nm, L, szs in [('u8', u8, [255]), ('u16', u16, [256, 300]), ('u32le', Sc('u32le'), [1025])]:
        for en_, el, w in [('u8', u8, 1), ('u16', u16, 2), ('bool', Bo(), 1), ('i64le', Sc('i64le'), 8), ('cont', Ref(inn), 1), ('arr', Arr(u8, I(2)), 2), ('enum', Ref(en), 2)]:
            if w > 2 and nm != 'u16':
                continue
            if en_ == 'enum':
                continue
            dd = D('T', Cont([Fd('n', L), Fd('v', Arr(el, F('n'))), Fd('z', u8)]))
            sp = p.spec(Spec('l_%s_%s' % (nm, en_), [inn, en, dd]))
            for sz in szs:
                h = W[base(L.b)]
                pre = list(sz.to_bytes(h, 'little' if L.s.endswith('le') else 'big'))
                n = h + sz * w + 1
                big(p, sp, dd, pre, n, sym=[h, h + 16, n - 2, n - 1] + ([h + 256] if n > h + 258 else []), covers=(20, 21, 22))
                if en_ in ('u8', 'cont', 'bool'):
                    big(p, sp, dd, pre, n, sym=[h], alter='v.n = u8s().into()', name='bigx_%s_%d' % (sp.name, sz), covers=(20, 21, 22, 23) if sz < 256 else (20, 21, 23), spread=1)
    for en_, el, w in [('u8', u8, 1), ('u16', u16, 2), ('bool', Bo(), 1), ('cont', Ref(inn), 1)]:
        dd = D('T', Arr(el, I(257)))
        sp = p.spec(Spec('lf_' + en_, [inn, dd]))
        big(p, sp, dd, [], 257 * w, sym=[0, 255 * w, 256 * w], covers=(20, 21, 22))
        dd = D('T', Arr(el, None))
        sp = p.spec(Spec('lu_' + en_, [inn, dd]))
        big(p, sp, dd, [], 520 * w, sym=[0, 511 * w], covers=(20, 22))
        if en_ != 'cont':
            dd = D('T', Cont([Fd('v', Arr(el, b'\r\n')), Fd('z', u8)]))
            sp = p.spec(Spec('lt_' + en_, [dd]))
            big(p, sp, dd, [], 300 * w, sym=[255, 256, 257, 299 * w - 1, 299 * w], covers=(20, 22))
    dd = D('T', Cont([Fd('n', u8), Fd('v', Arr(Arr(u8, F('n')), F('n'))), Fd('z', u8)]))
    sp = p.spec(Spec('ln', [dd]))
    big(p, sp, dd, [17], 291, sym=[1, 18, 289], covers=(20, 21, 22))
    p.bounds = ['arrays of 255-1025 elements with a fixed pattern and a few symbolic bytes', 'all byte strings up to the stated sizes (3-33 bytes), arrays of at most 3 elements on the encoding side']
    return p
