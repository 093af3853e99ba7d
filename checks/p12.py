"""Calculated fields and length functions."""
from tmpl import *


def make(tier):
    p = Plan('P12', tier, IDS)
    u8, u16, u32 = Sc('u8'), Sc('u16'), Sc('u32')

    def one(name, decls, T, n, kk=2, covers=(20, 21), ecov=(22,), **k):
        sp = p.spec(Spec('k_' + name, decls))
        dec(p, sp, T, n, covers=covers, **k)
        enc(p, sp, T, kk, covers=ecov, **k)
    d = D('T', Cont([Fd('n', u8, calc=Cast(Len('v'), 'u8')), Fd('v', Arr(u16, F('n')))]))
    one('len', [d], d, 5)
    d = D('T', Cont([Fd('n', Sc('u64'), calc=Len('v')), Fd('v', Arr(u8, F('n'))), Fd('z', u8)]))
    one('len64', [d], d, 11)
    d = D('T', Cont([Fd('n', u16, calc=Cast(Len('s'), 'u16')), Fd('s', Utf8(F('n')))]))
    one('str', [d], d, 5)
    inn = D('Inn', Cont([Fd('p', u8), Fd('q', u8)]))
    d = D('T', Cont([Fd('n', Sc('u32le'), calc=Cast(Len('v'), 'u32')), Fd('v', Arr(Ref(inn), F('n')))]))
    one('ref', [inn, d], d, 7)
    d = D('T', Cont([Fd('m', u8, calc=I(0x5a, text='0x5a')), Fd('v', u8)]))
    one('magic', [d], d, 3)
    d = D('T', Cont([Fd('a', u8), Fd('b', u8), Fd('c', u8, calc=Bin('^', F('a'), F('b'))), Fd('d', u16, calc=Bin('+', Cast(F('a'), 'u16'), Cast(F('b'), 'u16')))]))
    one('expr', [d], d, 5)
    d = D('T', Cont([Fd('v', Arr(u8, I(3))), Fd('s', Sc('u64'), calc=Call('sum', F('v')))]))
    one('sum', [d], d, 11, ecov=(22, 23))
    for t in ('u16', 'u32le', 'u64', 'u64le'):
        d = D('T', Cont([Fd('s', Sc('u64'), calc=Call('sum', F('v'))), Fd('v', Arr(Sc(t), I(2)))]))
        one('sum_' + t, [d], d, 24, ecov=(22,))
    d = D('T', Cont([Fd('n', u8, calc=Cast(Bin('+', Call('sum', F('v')), Len('v')), 'u8')), Fd('v', Arr(u32, None))]))
    one('sumn', [d], d, 9, ecov=(22,))
    d = D('T', Cont([Fd('v', u8), Fd('s', u8, calc=Call('bits', F('v')))]))
    one('bits', [d], d, 3)
    d = D('T', Cont([Fd('v', Sc('u64')), Fd('s', u8, calc=Call('bits', F('v')))]))
    one('bits64', [d], d, 9)
    ka = [('k', u8, None)]
    # byte length of a later container
    d = D('T', Cont([Fd('n', u16, calc=Cast(Call('blen', F('body')), 'u16')), Fd('body', Cont([Fd('c', u8, calc=Cast(Len('v'), 'u8')), Fd('v', Arr(u32, F('c')))], length=F('n')))]))
    one('blen', [d], d, 7)
    d = D('T', Cont([Fd('n', u8, calc=Cast(Bin('+', Call('blen', F('body')), I(1)), 'u8')), Fd('x', u8), Fd('body', Cont([Fd('s', Utf8()), Fd('v', u16)], length=Bin('-', F('n'), I(1)))), Fd('z', u8)]))
    one('blen1', [d], d, 6)
    d = D('T', Cont([Fd('n', u8, calc=Cast(Call('blen', F('a')), 'u8')), Fd('m', u8, calc=Cast(Call('blen', F('b')), 'u8')),
                     Fd('a', Cont([Fd('p', Arr(u8, None))], length=F('n'))), Fd('b', Cont([Fd('q', Arr(u16, None))], length=F('m')))]))
    one('blen2', [d], d, 5)
    d = D('T', Cont([Fd('n', u8, calc=Cast(Call('blen', F('a')), 'u8')), Fd('a', Cont([Fd('k', u8, calc=Cast(Call('blen', F('b')), 'u8')), Fd('b', Cont([Fd('p', Arr(u8, None))], length=F('k')))], length=F('n'))), Fd('z', u8)]))
    one('blenn', [d], d, 5)
    # two lengths of the same container, with other fields in between
    d = D('T', Cont([Fd('n', u8, calc=Cast(Call('blen', F('a')), 'u8')), Fd('m', u16, calc=Cast(Call('blen', F('a')), 'u16')), Fd('a', Cont([Fd('p', Arr(u8, None))], length=F('n')))]))
    one('blentwice', [d], d, 5, ecov=(22,))
    d = D('T', Cont([Fd('n', u8, calc=Cast(Call('blen', F('a')), 'u8')), Fd('x', u16), Fd('m', u8, calc=Cast(Bin('+', Call('blen', F('a')), Call('blen', F('b'))), 'u8')), Fd('y', u8), Fd('l', u8, calc=Cast(Call('blen', F('a')), 'u8')),
                     Fd('a', Cont([Fd('p', Arr(u8, None))], length=F('l'))), Fd('z', u8), Fd('b', Cont([Fd('q', Arr(u16, None))], length=Bin('-', F('m'), F('n'))))]))
    one('blenmix', [d], d, 8, ecov=(22,))
    d = D('T', Cont([Fd('n', u8, calc=Cast(Call('blen', F('b')), 'u8')), Fd('x', u8), Fd('m', u8, calc=Cast(Call('blen', F('a')), 'u8')), Fd('y', u8), Fd('a', Cont([Fd('p', Arr(u8, None))], length=F('m'))), Fd('z', u8),
                     Fd('b', Cont([Fd('q', u8, cond=Bin('>', F('m'), I(1))), Fd('r', Arr(u8, None))], length=F('n'))), Fd('w', u8, cond=Bin('==', F('n'), I(1)))]))
    one('blenswap', [d], d, 8, ecov=(22, 23))
    # a byte length anywhere in the calculation
    e16, fl = D('Ew', Enum('u16', [('p', 3), ('q', None)])), D('Fl', Bits('u8', [('x', 1), ('y', None)]))
    bl = Cast(Call('blen', F('c')), 'u8')
    body = [Fd('l', u8, calc=bl), Fd('c', Cont([Fd('w', Arr(u8, None))], length=F('l')))]
    for nm, f, cal, ar in (('tern', [], Tern(Bin('>', F('k'), I(1, 'u8')), bl, I(0, 'u8')), ka), ('tern2', [Fd('f', Ref(fl))], Tern(Mem('f', 'x'), Bin('+', F('KK'), F('k')), Bin('^', bl, F('KK'))), ka),
                       ('un', [], Un('~', bl), []), ('idx', [Fd('v', Arr(u8, I(2)))], Bin('^', Idx('v', I(1)), bl), []), ('idx2', [Fd('v', Arr(u8, I(4)))], Idx('v', Bin('&', Call('blen', F('c')), I(3))), []),
                       ('cond', [Fd('f', Ref(fl))], Tern(Bin('&&', Un('!', Mem('f', 'y')), Bin('>', Call('blen', F('c')), I(1))), Cast(EnumAcc(e16, 'q'), 'u8'), I(9, 'u8')), []),
                       ('bool', [], Tern(Bin('==', B(True), Bin('==', bl, F('k'))), I(1, 'u8'), I(2, 'u8')), ka), ('bits', [], Call('bits', Call('blen', F('c'))), []), ('pad', [], Cast(Call('pad', I(4), Call('blen', F('c'))), 'u8'), []), ('neg', [], Cast(Un('-', Cast(Call('blen', F('c')), 'i16')), 'u8'), [])):
        d = D('T', Cont(f + [Fd('n', u8, calc=cal)] + body + [Fd('z', u8)]), args=ar)
        sp = p.spec(Spec('k_blx_' + nm, [e16, fl, d], consts=[('KK', 'u8', I(3))]))
        dec(p, sp, d, 7, lo=3)
        enc(p, sp, d, 2, covers=(22,))
    # the size of a single value
    d = D('T', Cont([Fd(c, t) for c, t in zip('efghbswi', (Ref(e16), Ref(fl), Fl('f32'), Fl('f64'), Bo(), u32, Al(D('Wf', Sc('u16le'))), Sc('i128')))] + [Fd('n' + c, Sc('u64') if c in 'ei' else u8, calc=Len(c) if c in 'ei' else Cast(Len(c, {'g': 4, 'h': 8}.get(c)), 'u8')) for c in 'efghbswi']))
    sp = p.spec(Spec('k_lens', [e16, fl, D('Wf', Sc('u16le')), d]))
    dec(p, sp, d, 67, lo=64)
    enc(p, sp, d, 1, covers=(22,))
    # calculated from an enum / bitfield / bool
    en = D('En', Enum('u8', [('p', 3), ('q', None)]))
    fl = D('Fl', Bits('u8', [('x', 1), ('y', None)]))
    d = D('T', Cont([Fd('e', Ref(en)), Fd('v', u8, calc=Cast(F('e'), 'u8')), Fd('f', Ref(fl)), Fd('b', Bo(), calc=Mem('f', 'y'))]))
    one('kinds', [en, fl, d], d, 4)
    d = D('T', Cont([Fd('a', u8), Fd('c', u8, cond=Bin('>', F('a'), I(9)), calc=Bin('&', F('a'), I(7)))]))
    one('cond', [d], d, 3)
    d = D('T', Cont([Fd('a', u8), Fd('in', Cont([Fd('c', u8, calc=Bin('&', F('a'), I(7))), Fd('v', u8)]), cond=Bin('>', F('a'), I(9)))]))
    one('condc', [d], d, 4, ecov=(22, 23))
    d = D('T', Cont([Fd('a', u8), Fd('e', Ref(en), calc=EnumAcc(en, 'q'))]))
    one('encalc', [en, d], d, 3)
    # calculated out of what is only there under a condition
    a1 = Bin('==', F('a'), I(1))
    d = D('T', Cont([Fd('a', u8), Fd('in', Cont([Fd('n', u8, calc=Cast(Len('v'), 'u8')), Fd('v', Arr(u8, F('n'))), Fd('w', u8, calc=F('n'))]), cond=a1), Fd('z', u8)]))
    one('condlen', [d], d, 6, ecov=(22, 23))
    d = D('T', Cont([Fd('a', u8), Fd('in', Cont([Fd('n', u8, calc=Cast(Len('v'), 'u8')), Fd('b', u8), Fd('y', Cont([Fd('m', u8, calc=Cast(Len('w'), 'u8')), Fd('w', Arr(u8, F('m'))), Fd('q', u8, calc=F('b'))])), Fd('v', Arr(u8, F('n')))]), cond=a1)]))
    one('condlen2', [d], d, 7, ecov=(22, 23))
    d = D('T', Cont([Fd('a', u8), Fd('in', Cont([Fd('n', u8, calc=Cast(Len('v'), 'u8')), Fd('v', Arr(u8, F('n'))), Fd('y', Cont([Fd('m', u8, calc=Cast(Len('w'), 'u8')), Fd('w', Arr(u8, F('m')))]), cond=Bin('==', F('n'), I(1)))]), cond=a1)]))
    one('condlen3', [d], d, 6, ecov=(22, 23))
    d = D('T', Tag([Fd('x', Cont([Fd('n', u8, calc=Cast(Len('v'), 'u8')), Fd('v', Arr(u8, F('n'))), Fd('y', Cont([Fd('m', u8, calc=Cast(Len('w'), 'u8')), Fd('w', Arr(u8, F('m')))]), cond=Bin('==', F('k'), I(2)))]), cond=Bin('>', F('k'), I(1))), Fd('o', u8)]), args=[('k', u8, None)])
    one('condtag', [d], d, 5, ecov=(22, 23))
    # of alias types
    al, al2 = D('Al', Sc('u16le')), D('Bl', u8)
    al3 = D('Cl', Al(al2))
    d = D('T', Cont([Fd('a', u8), Fd('c', Al(al), calc=Cast(F('a'), 'u16')), Fd('d', Al(al2), calc=F('a')), Fd('e', Al(al3), calc=Bin('^', F('a'), I(1))), Fd('f', Al(al3), cond=Bin('==', F('d'), F('e'))), Fd('n', Al(al2), calc=Cast(Len('v'), 'u8')), Fd('v', Arr(u8, F('n')))]))
    one('alias', [al, al2, al3, d], d, 8)
    d = D('T', Cont([Fd('a', Al(al3)), Fd('in', Cont([Fd('n', Al(al), calc=Cast(Len('v'), 'u16')), Fd('v', Arr(Al(al2), F('n')))]), cond=Bin('==', F('a'), I(1)))]))
    one('alias2', [al, al2, al3, d], d, 5, ecov=(22, 23))
    # a variant of a tagged enum
    d = D('T', Tag([Fd('a', u8, calc=Bin('^', F('k'), I(5)), cond=Bin('==', F('k'), I(1))), Fd('b', Ref(en), calc=EnumAcc(en, 'q'), cond=Bin('==', F('k'), I(2))), Fd('c', Al(al), calc=Cast(F('k'), 'u16'), cond=Bin('==', F('k'), I(3))),
                    Fd('d', Cont([Fd('n', u8, calc=Cast(Len('v'), 'u8')), Fd('v', Arr(u8, F('n')))]))]), args=[('k', u8, None)])
    one('tagcalc', [en, al, d], d, 3, ecov=(22, 23))
    # containers of the same name, each with its own byte length; under a condition
    def blc(n, c, x, **k):
        return [Fd(n, u8, calc=Cast(Call('blen', F(c)), 'u8')), Fd(c, Cont([x], length=F(n)), **k)]
    d = D('T', Cont([Fd('a', Cont(blc('n', 'c', Fd('x', u8)))), Fd('b', Cont(blc('m', 'c', Fd('y', u16)))), Fd('z', u8)]))
    one('blensame', [d], d, 6)
    d = D('T', Cont(blc('n', 'c', Fd('x', Arr(u8, None))) + [Fd('b', Cont(blc('m', 'c', Fd('y', Arr(u16, None))))), Fd('z', u8)]))
    one('blensame2', [d], d, 6)
    d = D('T', Tag([Fd('a', Cont(blc('n', 'c', Fd('x', u8))), cond=Bin('==', F('k'), I(1))), Fd('b', Cont(blc('n', 'c', Fd('x', u16))), cond=Bin('==', F('k'), I(2))), Fd('o', Cont([Fd('q', u8)] + blc('n', 'c', Fd('x', Arr(u8, None)))))]), args=[('k', u8, None)])
    one('blentag', [d], d, 5, ecov=(22, 23))
    d = D('T', Cont([Fd('a', u8)] + blc('n', 'c', Fd('x', u16), cond=a1) + [Fd('z', u8)]))
    one('blencond', [d], d, 5, ecov=(22, 23))
    d = D('T', Cont([Fd('a', u8), Fd('n', u8, calc=Cast(Bin('+', Call('blen', F('c')), Bin('*', Call('blen', F('e')), I(16))), 'u8')), Fd('c', Cont([Fd('x', Arr(u8, None))], length=Bin('&', F('n'), I(15))), cond=a1), Fd('e', Cont([Fd('y', u16)], length=Bin('>>', F('n'), I(4))), cond=Bin('<', F('a'), I(2)))]))
    one('blencond2', [d], d, 6, ecov=(22, 23))
    d = D('T', Cont([Fd('a', u8), Fd('in', Cont(blc('n', 'c', Fd('x', Arr(u8, None)))), cond=a1), Fd('in2', Cont(blc('m', 'c', Fd('y', u16))), cond=Bin('==', F('a'), I(2)))]))
    one('blencond3', [d], d, 5, ecov=(22, 23))
    # a type which is itself calculated: alone, as a field, in lists
    kb = Bin('^', F('k'), I(5))
    eq3 = Bin('==', F('k'), I(3))
    ka = [('k', u8, None)]
    c1 = D('C1', u16, calc=I(0x1234, text='0x1234'))
    c2 = D('C2', Sc('u32le'), args=ka, calc=Cast(kb, 'u32'))
    c3 = D('C3', Al(al), calc=I(0x77))
    c4 = D('C4', u8, args=ka, calc=kb, cond=eq3)
    c5 = D('C5', Bo(), args=ka, calc=eq3)
    c6 = D('C6', Ref(en), calc=EnumAcc(en, 'q'))
    inn2 = D('Inn2', Cont([Fd('p', u8), Fd('q', u16, calc=Cast(F('p'), 'u16'))]))
    f = [Fd('k', u8), Fd('a', Ref(c1)), Fd('b', Ref(c2, F('k'))), Fd('c', Ref(c3)), Fd('d', Ref(c4, F('k'))), Fd('e', Ref(c5, F('k')))]
    ds = [(c1, 3, (22,)), (c2, 5, (22,)), (c3, 3, (22,)), (c4, 2, (22,)), (c5, 2, (22,)),
          (D('T1', Cont(f[:4] + [Fd('z', u8)])), 11, (22,)), (D('T2', Cont([f[0], f[5], f[4]])), 4, (22,)), (D('T3', Cont([Fd('k', u8), Fd('n', u8), Fd('v', Arr(Ref(c2, F('k')), F('n'))), Fd('z', u8)])), 8, (22, 23)),
          (D('T4', Cont([Fd('n', u8, calc=Cast(Len('v'), 'u8')), Fd('v', Arr(Ref(c1), F('n'))), Fd('w', Arr(Ref(c3), None))])), 6, (22,)),
          (D('T5', Cont([Fd('k', u8), Fd('i', Cont([Fd('a', Ref(c1)), Fd('d', Ref(c4, F('k')))]), cond=Bin('<', F('k'), I(9))), Fd('z', u8)])), 6, (22, 23)),
          (D('T6', Cont([Fd('n', u8), Fd('v', Arr(Ref(inn2), F('n')))])), 7, (22, 23))]
    sp = p.spec(Spec('k_typec', [en, al, c1, c2, c3, c4, c5, inn2] + [d for d, *_ in ds[5:]]))
    for d, n, ec in ds:
        dec(p, sp, d, n, lo=max(0, n - 4))
        enc(p, sp, d, 2, covers=ec)
    # long contents
    for t, szs in ((u8, [255]), (u16, [256, 300]), (Sc('u32le'), [1025])):
        h = W[base(t.b)]
        for m in szs:
            pf = list(m.to_bytes(h, 'little' if t.s.endswith('le') else 'big'))
            for nm, el, w in (('b', u8, 1), ('w', u16, 2), ('c', Ref(inn2), 3)):
                c = [Fd('n', t, calc=Cast(Len('v'), t.s)), Fd('v', Arr(el, F('n'))), Fd('z', u8)]
                if nm == 'c':
                    c[1] = Fd('v', Arr(Ref(c1), F('n')))
                    w = 2
                d = D('T', Cont(c))
                sp = p.spec(Spec('g%s_%d' % (nm, m), [c1, d]))
                big(p, sp, d, pf, h + m * w + 1, sym=[h, h + m * w - 1], covers=(20, 21, 22), alter='v.n = u8s().into()')
            d = D('T', Cont([Fd('n', t, calc=Cast(Call('blen', F('c')), t.s)), Fd('c', Cont([Fd('a', u8), Fd('v', Arr(u8, None))], length=F('n'))), Fd('z', u8)]))
            sp = p.spec(Spec('gl_%d' % m, [d]))
            big(p, sp, d, pf, h + m + 1, sym=[h, h + m - 1], covers=(20, 21, 22), alter='v.n = u8s().into(); ' + ('v.v.push(u8s())' if m > 255 else 'v.v.pop()'))
    p.bounds = ['contents of 255-1025 elements with a fixed pattern and a few symbolic bytes', 'all byte strings up to the stated sizes (3-11 bytes), collections of at most 2 elements, texts of at most 3 bytes']
    return p
