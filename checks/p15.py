"""Transforms are stand-ins defined in `lib/rt.rs` (`xorx(k)`, `addx(k)`: bytewise; `tail`: the whole stream, with a trailing byte written on flush; `fin`: the same, written when the stream is dropped), so that
order, arguments, conditions and stream ends are observable; the third-party coders behind `gzip` and `base64` are outside the claim."""
from tmpl import *


def make(tier):
    p = Plan('P15', tier, IDS)
    u8, u16 = Sc('u8'), Sc('u16')
    k = F('k')
    X = lambda e, c=None: ('xorx', e, c)
    A = lambda e, c=None: ('addx', e, c)
    T, Z = ('tail', None), ('fin', None)
    gt = Bin('>', k, I(3))
    odd = Bin('==', Bin('&', k, I(1)), I(1))
    inn = D('Inn', Cont([Fd('p', u8), Fd('q', Arr(u8, F('p')))]))
    en = D('En', Enum('u16', [('p', 1), ('q', ('0x0201', 0x201))]))
    bf = D('Bf', Bits('u8', [('x', 1), ('y', ('0x10', 16))]))
    lists = [
        ('x', [X(I(0x5a))]), ('xk', [X(k)]), ('a', [A(I(7))]), ('xa', [X(I(0x5a)), A(I(7))]), ('ax', [A(k), X(I(0x33))]), ('axa', [A(I(1)), X(k), A(I(9))]),
        ('xe', [X(Bin('^', k, I(0x11)))]), ('xc', [X(I(0x5a), gt)]), ('xcx', [X(I(0x5a), gt), A(I(3))]), ('xxc', [A(I(3)), X(k, gt)]), ('cc', [X(I(0x5a), gt), A(k, odd)]),
        ('ccx', [A(I(5), odd), X(k, gt), A(I(1))]),
    ]
    cond = lambda xf: any(len(x) > 2 and x[2] is not None for x in xf)
    prim = [('u8', u8, 1), ('u16', u16, 2), ('i32le', Sc('i32le'), 4), ('b', Bo(), 1), ('f32', Fl('f32'), 4), ('a2', Arr(u8, I(2)), 2), ('an', Arr(u8, F('n')), 2),
            ('en', Ref(en), 2), ('bf', Ref(bf), 1), ('a16', Arr(u16, I(1)), 2), ('v', Var(32), 3)]
    rich = [('inn', Ref(inn), 3), ('ar', Arr(Ref(inn), I(1)), 3), ('s', Utf8(), 3), ('sn', Utf8(F('n')), 2), ('tm', Arr(u8, b'\0'), 3), ('s16', Utf16(I(1)), 2), ('unb', Arr(u8, None), 2), ('unb16', Arr(u16, None), 4)]
    for ln, xf in lists:
        ds = []
        for tn, t, w in prim + (rich if not cond(xf) else [x for x in rich if x[0] not in ('s', 'sn', 's16')]):
            if tn in ('s', 'sn') and ln not in ('x', 'xk'):
                continue   # decoding text from computed bytes is dear
            g = greedy(t)
            fs = [Fd('k', u8), Fd('n', u8), Fd('v', t, xf=xf)] + ([] if g else [Fd('z', u8)])
            ds.append((D('F_' + tn, Cont(fs)), w + 3))
            if tn in ('u16', 'an', 'inn', 'en'):
                ds.append((D('C_' + tn, Cont(fs[:2] + [Fd('v', t, cond=odd, xf=xf), Fd('z', u8)])), w + 3))
                ds.append((D('T_' + tn, Cont(fs[:2] + [Fd('l', Cont([Fd('v', t, xf=xf)], length=F('n'))), Fd('z', u8)])), w + 3))
            if tn in ('u8', 'u16'):
                ds.append((D('K_' + tn, Cont([Fd('k', u8), Fd('v', t, calc=Bin('+', Bin('&', k, I(7)), I(1)), xf=xf), Fd('z', u8)])), w + 2))
        # containers
        ds.append((D('Ic', Cont([Fd('k', u8), Fd('i', Cont([Fd('a', u8), Fd('b', u16), Fd('c', u8, cond=Bin('==', F('a'), I(2)))]), xf=xf), Fd('z', u8)])), 6))
        ds.append((D('Ix', Cont([Fd('k', u8), Fd('i', Cont([Fd('a', u8, xf=[X(I(0x0f))]), Fd('b', u16)]), xf=xf), Fd('z', u8, xf=[A(I(1))])])), 5))
        sp = p.spec(Spec('t_' + ln, [en, bf, inn] + [d for d, _ in ds]))
        for d, n in ds:
            pc = len(d.ty.fields) > 2
            dec(p, sp, d, n, lo=max(0, n - 3), covers=(20,) if greedy(d) else (20, 21), pre='assume(n < 2 || b[1] < 4);' if pc else '')
            enc(p, sp, d, covers=(22,))
    # arguments from type arguments, transforms on types, buffering transforms
    u = [
        (D('Ta', u16, xf=[X(I(0x21)), A(I(2))]), 3),
        (D('Tb', Arr(u8, I(2)), xf=[A(I(2)), X(I(0x21))]), 3),
        (D('Tc', Cont([Fd('a', u8), Fd('b', u16)]), xf=[X(I(0x21)), A(I(2))]), 4),
        (D('Td', Cont([Fd('a', u8), Fd('b', Arr(u8, F('k')))]), args=[('k', u8, None)], xf=[X(k), A(I(2))]), 4),
        (D('Te', u8, args=[('k', u8, None)], xf=[X(k, gt)]), 2),
        (D('Tf', u8, args=[('k', u8, I(5))], xf=[X(k), A(I(1))]), 2),
    ]
    sp = p.spec(Spec('types', [d for d, _ in u] + [D('Tg', Cont([Fd('a', Ref(u[0][0])), Fd('b', Ref(u[2][0])), Fd('c', Ref(u[4][0], F('s'))), Fd('d', Ref(u[5][0]))][:0] + [
        Fd('s', u8), Fd('a', Ref(u[0][0])), Fd('b', Ref(u[2][0]), xf=[A(I(1))]), Fd('c', Ref(u[4][0], F('s'))), Fd('d', Ref(u[5][0])), Fd('z', u8)]))]))
    for d, n in u + [(sp.decls[-1], 9)]:
        pre = 'assume(g0 < 4);' if d.name == 'Td' else ''
        dec(p, sp, d, n, lo=max(0, n - 4), pre=pre)
        enc(p, sp, d)
    # types which contain themselves, within a transform
    for nm, xf in (('rx', [X(k)]), ('rc', [X(I(0x5a), gt), A(I(1))])):
        d = D('T', Cont([Fd('k', u8)]))
        d.ty.fields += [Fd('v', Arr(Rec(d), Bin('&', k, I(1))), xf=xf), Fd('z', u8)]
        sp = p.spec(Spec('rec_' + nm, [d]))
        dec(p, sp, d, 5)
        enc(p, sp, d)
    # enums and bitfields which are transformed themselves
    e1, b1 = D('E1', Enum('u16', [('p', 1), ('q', ('0x0201', 0x201))]), xf=[X(I(0x21)), A(I(2))]), D('B1', Bits('u8', [('x', 1), ('y', ('0x10', 16))]), xf=[X(I(0x33))])
    ds = []
    for tn, r, w in (('e', Ref(e1), 2), ('b', Ref(b1), 1)):
        for xn, xf in (('', ()), ('x', [A(I(7))])):
            ds += [(D('F%s%s' % (tn, xn), Cont([Fd('k', u8), Fd('v', r, xf=xf), Fd('z', u8)])), w + 3),
                   (D('C%s%s' % (tn, xn), Cont([Fd('k', u8), Fd('v', r, cond=odd, xf=xf), Fd('z', u8)])), w + 3),
                   (D('A%s%s' % (tn, xn), Cont([Fd('n', u8), Fd('v', Arr(r, F('n')), xf=xf), Fd('z', u8)])), 2 * w + 2),
                   (D('L%s%s' % (tn, xn), Cont([Fd('v', Arr(r, I(2)), xf=xf)])), 2 * w + 1),
                   (D('U%s%s' % (tn, xn), Cont([Fd('v', Arr(r, None), xf=xf)])), 2 * w + 1),
                   (D('T%s%s' % (tn, xn), Cont([Fd('v', Arr(r, b'\xff'), xf=xf), Fd('z', u8)])), 2 * w + 2)]
    sp = p.spec(Spec('decl', [e1, b1] + [d for d, _ in ds]))
    for d, n in [(e1, 3), (b1, 2)] + ds:
        dec(p, sp, d, n, lo=max(0, n - 4))
        enc(p, sp, d)
    ds = []
    for nm, xf in [('t', [T]), ('xt', [X(I(0x5a)), T]), ('tx', [T, X(k)]), ('xta', [X(k), T, A(I(1))]), ('tt', [T, T]), ('tc', [('tail', None, gt)]), ('txc', [T, X(k, gt)]), ('xtc', [X(I(9)), ('tail', None, gt)]), ('f', [Z]), ('xf', [X(k), Z]), ('ft', [Z, T]), ('tf', [T, Z]), ('fc', [('fin', None, gt)]), ('tfc', [T, ('fin', None, gt)])]:
        for tn, t in [('u16', u16), ('a', Arr(u8, I(2)))] + [('unb', Arr(u8, None))]:
            ds.append((D('F_%s_%s' % (nm, tn), Cont([Fd('k', u8), Fd('v', t, xf=xf)])), 5))
            ds.append((D('L_%s_%s' % (nm, tn), Cont([Fd('k', u8), Fd('n', u8), Fd('i', Cont([Fd('v', t, xf=xf)], length=F('n'))), Fd('z', u8)])), 7))
            ds.append((D('S_%s_%s' % (nm, tn), Cont([Fd('k', u8), Fd('n', u8), Fd('i', Cont([Fd('v', t)], length=F('n')), xf=xf)])), 6))
            ds.append((D('E_%s_%s' % (nm, tn), Cont([Fd('k', u8), Fd('v', t, xf=xf)] + ([Fd('z', u8)]))), 0))
    sp = p.spec(Spec('tail', [d for d, _ in ds]))
    for d, n in ds:
        if n:
            dec(p, sp, d, n, lo=max(0, n - 3), covers=(20, 21) if 'unb' not in d.name or 'L_' in d.name else (20,),
                pre='assume(n < 2 || b[1] != 0);' if d.name[0] == 'S' else '')   # nothing is asked of a transform by a read of nothing
        enc(p, sp, d, covers=(22,), decode=n > 0 and not (d.name[0] == 'S' and 'unb' in d.name), trailer=0 if d.name[0] != 'L' else 2, trip=d.name[0] not in 'S')
    # in the variants of a tagged enum
    ds = []
    for nm, xf in [('t', [T]), ('xt', [X(k), T]), ('f', [Z]), ('tf', [T, Z]), ('tc', [('tail', None, gt)]), ('fc', [X(I(3)), ('fin', None, gt)])]:
        g = D('G_' + nm, Tag([Fd('a', Cont([Fd('x', u16), Fd('y', u8)]), cond=Bin('==', Bin('&', k, I(3)), I(1)), xf=xf), Fd('b', u16, cond=Bin('==', Bin('&', k, I(3)), I(2)), xf=xf), Fd('c', Arr(u8, None), cond=odd, xf=xf), Fd('d', Cont([Fd('q', u8), Fd('i', Cont([Fd('w', u8)]), xf=xf)]))]), args=[('k', u8, None)])
        ds.append(g)
        ds.append(D('W_' + nm, Cont([Fd('k', u8), Fd('n', u8), Fd('i', Cont([Fd('v', Ref(g, k))], length=F('n'))), Fd('z', u8)])))
    sp = p.spec(Spec('tailtag', ds))
    for d in ds:
        n = 4 if d.name[0] == 'G' else 7
        dec(p, sp, d, n, lo=n - 4)
        enc(p, sp, d, trailer=0 if d.name[0] == 'G' else 2)
    # many of them
    xs = [X(I(1 << i)) if i % 2 else A(I(i + 1)) for i in range(8)]
    ds = [(D('N1', Cont([Fd('k', u8), Fd('v', u16, xf=xs), Fd('z', u8)])), 5), (D('N2', Cont([Fd('k', u8), Fd('v', Arr(u8, I(2)), xf=[(x[0], x[1], Bin('>', k, I(i))) for i, x in enumerate(xs[:5])])])), 4)]
    sp = p.spec(Spec('n', [d for d, _ in ds]))
    for d, n in ds:
        dec(p, sp, d, n, lo=n - 2)
        enc(p, sp, d)
    p.bounds = ['every byte string up to 3-9 bytes, every value with lists of at most 2 elements, 12 lists of transforms on 19 kinds of content, 8 with a transform of the whole stream']
    return p
