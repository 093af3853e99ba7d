"""Types with arguments of every kind, given as literals, fields, expressions, constants, other arguments or left to their defaults, used as
lengths, conditions, values, paddings and arguments of further types, in every position a reference can stand in."""
from tmpl import *


def make(tier):
    p = Plan('P16', tier, IDS)
    u8, u16 = Sc('u8'), Sc('u16')
    en = D('En', Enum('u8', [('p', 1), ('q', None), ('r', 9)]))
    bf = D('Bf', Bits('u8', [('x', 1), ('y', None), ('z', ('0x10', 16))]))

    def put(name, ds, ns, consts=(), skip=(), **k):
        sp = p.spec(Spec(name, ds, consts=consts))
        for d, n in ns:
            dec(p, sp, d, n, lo=max(0, n - 4), covers=(20,) if greedy(d) or d.name in skip else (20, 21), **k)
            enc(p, sp, d, covers=(22,))
    # every scalar as argument: as value, in a condition, widened from a narrower field
    ds, ns = [], []
    for s in SCALARS:
        b = base(s)
        a = D('A_' + s, Cont([Fd('v', Sc(s), calc=F('k')), Fd('w', u8, cond=Bin('>', F('k'), I(5)))]), args=[('k', Sc(s), None)])
        ds.append(a)
        w = W[b]
        ds.append(D('R_' + s, Cont([Fd('x', Sc(s)), Fd('y', Ref(a, F('x'))), Fd('z', Ref(a, Bin('^', F('x'), I(2))))])))
        ds.append(D('L_' + s, Cont([Fd('y', Ref(a, I(7))), Fd('z', Ref(a, I(3)))])))
        ns += [(a, w + 2), (ds[-2], 3 * w + 2), (ds[-1], 2 * w + 2)]
        if w > 1 and not s.endswith('le'):
            f = Sc(b[0] + '8')
            ds.append(D('N_' + s, Cont([Fd('x', f), Fd('y', Ref(a, F('x'))), Fd('z', Ref(a, Bin('|', F('x'), I(64))))])))
            ns.append((ds[-1], 2 * w + 3))
    put('scal', ds, ns)
    # bool, enum and bitfield arguments
    b = D('B', Cont([Fd('v', u8, cond=F('k')), Fd('w', u16, cond=Un('!', F('k')))]), args=[('k', Bo(), None)])
    e = D('E', Cont([Fd('v', u8, cond=Bin('==', F('k'), EnumAcc(en, 'q'))), Fd('w', u16, cond=Bin('!=', F('k'), EnumAcc(en, 'r')))]), args=[('k', Ref(en), None)])
    f = D('F', Cont([Fd('v', u8, cond=Mem('k', 'x')), Fd('w', u8, cond=Bin('&&', Mem('k', 'y'), Un('!', Mem('k', 'z'))))]), args=[('k', Ref(bf), None)])
    w = D('W', Cont([Fd('t', Bo()), Fd('a', Ref(b, F('t'))), Fd('b', Ref(b, Un('!', F('t')))), Fd('c', Ref(b, B(True))), Fd('z', u8)]))
    we = D('We', Cont([Fd('t', Ref(en)), Fd('a', Ref(e, F('t'))), Fd('c', Ref(e, EnumAcc(en, 'q'))), Fd('z', u8)]))
    wf = D('Wf', Cont([Fd('t', Ref(bf)), Fd('a', Ref(f, F('t'))), Fd('z', u8)]))
    wc = D('Wc', Cont([Fd('n', u8), Fd('a', Ref(b, Bin('<', F('n'), I(9)))), Fd('b', Arr(Ref(b, Bin('==', F('n'), I(1))), F('n')))]))
    put('kinds', [en, bf, b, e, f, w, we, wf, wc], [(b, 3), (e, 4), (f, 3), (w, 7), (we, 7), (wf, 4), (wc, 5)])
    # positions of references with arguments
    v = D('V', Arr(u8, F('n')), args=[('n', u8, None)])
    c = D('C', Cont([Fd('a', u8), Fd('v', Arr(u8, F('n')))]), args=[('n', u8, None)])
    c2 = D('C2', Cont([Fd('m', u8), Fd('i', Ref(c, F('n'))), Fd('j', Ref(c, F('m')), cond=Bin('==', F('n'), F('m')))]), args=[('n', u8, None)])
    c3 = D('C3', Cont([Fd('n', u8), Fd('x', Ref(c2, F('n'))), Fd('y', Ref(v, Bin('-', F('n'), Bin('&', F('n'), I(2)))))]))
    pos = [
        D('P1', Cont([Fd('n', u8), Fd('a', Ref(c, F('n'))), Fd('z', u8)])),
        D('P2', Cont([Fd('n', u8), Fd('a', Ref(c, F('n')), cond=Bin('<', F('n'), I(2))), Fd('z', u8)])),
        D('P3', Cont([Fd('n', u8), Fd('a', Arr(Ref(c, F('n')), F('n'))), Fd('z', u8)])),
        D('P4', Cont([Fd('n', u8), Fd('a', Arr(Ref(c, Bin('&', F('n'), I(1))), None))])),
        D('P5', Cont([Fd('n', u8), Fd('a', Arr(Ref(c, I(1)), b'\xff')), Fd('z', u8)])),
        D('P6', Cont([Fd('n', u8), Fd('i', Cont([Fd('k', u8), Fd('a', Ref(c, F('n'))), Fd('b', Ref(v, F('k')))])), Fd('z', Ref(v, F('n')))])),
        D('P7', Cont([Fd('n', u8), Fd('i', Cont([Fd('a', Ref(c, Bin('&', F('n'), I(1)))), Fd('v', Arr(u8, None))], length=F('n'))), Fd('z', u8)])),
        D('P8', Tag([Fd('a', Ref(c, F('n')), cond=Bin('==', F('n'), I(1))), Fd('b', Cont([Fd('m', u8), Fd('x', Ref(v, F('m'))), Fd('y', Ref(v, F('n')))]))]), args=[('n', u8, None)]),
        D('P9', Ref(c, F('q')), args=[('q', u8, None)]),
        D('P10', Arr(Ref(c, F('q')), F('q')), args=[('q', u8, None)]),
    ]
    p11 = D('P11', Cont([Fd('q', u8), Fd('a', Ref(pos[8], F('q'))), Fd('b', Ref(pos[7], F('q'))), Fd('z', u8)]))
    pad = D('P12', Cont([Fd('a', u8), Pad(F('n')), Fd('b', u8)]), args=[('n', u8, None)])
    p13 = D('P13', Cont([Fd('n', u8), Fd('a', Ref(pad, F('n'))), Fd('b', Ref(pad, Bin('>>', F('n'), I(1))))]))
    ll = D('P14', Cont([Fd('a', u8), Fd('v', Arr(u8, None))], length=F('n')), args=[('n', u8, None)])
    p15 = D('P15', Cont([Fd('n', u8), Fd('a', Ref(ll, F('n'))), Fd('b', Ref(ll, I(1))), Fd('z', u8)]))
    al = pos + [p11, pad, p13, ll, p15]
    small = 'assume(n < 1 || b[0] < 4);'
    sp = p.spec(Spec('pos', [v, c, c2, c3] + al))
    for d, n in [(v, 3), (c, 4), (c2, 6), (c3, 7)] + [(d, 5) for d in al]:
        g = 'assume(g0 < 4);' if d.args else small
        dec(p, sp, d, n, lo=max(0, n - 4), covers=(20,) if d.name == 'P4' and False else (20, 21), pre=g, reenc=d.name != 'P7' or True)
        enc(p, sp, d, 2 if d.name not in ('C3',) else 1, covers=(22,))
    # defaults
    o1 = D('O1', Cont([Fd('a', u8, calc=F('k')), Fd('v', Arr(u8, F('n')))]), args=[('k', u8, I(5)), ('n', u16, I(1))])
    o2 = D('O2', Cont([Fd('v', u8, cond=Bin('>', F('k'), F('m')))]), args=[('k', u8, None), ('m', u8, I(9))])
    o3 = D('O3', Cont([Fd('v', u8, cond=Bin('==', F('k'), EnumAcc(en, 'q'))), Fd('w', u8, cond=F('t'))]), args=[('k', Ref(en), EnumAcc(en, 'q')), ('t', Bo(), B(False))])
    o4 = D('O4', Cont([Fd('v', Sc('u32'), calc=Bin('+', F('k'), I(1))), Fd('w', Ref(o2, F('m')))]), args=[('k', Sc('u32'), Bin('*', F('CC'), I(3))), ('m', u8, I(12))])
    o5 = D('O5', Sc('i16'), args=[('k', Sc('i16'), Un('-', I(3)))], cond=Bin('<', F('k'), I(0)))
    r1 = D('R1', Cont([Fd('n', u8), Fd('a', Ref(o1)), Fd('b', Ref(o1, F('n'))), Fd('c', Ref(o1, F('n'), F('n'))), Fd('z', u8)]))
    r2 = D('R2', Cont([Fd('n', u8), Fd('a', Ref(o2, F('n'))), Fd('b', Ref(o2, F('n'), I(2))), Fd('c', Ref(o2, I(3), F('n')))]))
    r3 = D('R3', Cont([Fd('e', Ref(en)), Fd('a', Ref(o3)), Fd('b', Ref(o3, F('e'))), Fd('c', Ref(o3, F('e'), B(True)))]))
    r4 = D('R4', Cont([Fd('n', u8), Fd('a', Ref(o4)), Fd('b', Ref(o4, F('n'))), Fd('c', Ref(o4, I(8), F('n')))]))
    r5 = D('R5', Cont([Fd('n', u8), Fd('a', Arr(Ref(o1), F('n'))), Fd('b', Arr(Ref(o1, I(2), F('n')), I(1)))]))
    sp = p.spec(Spec('dflt', [en, o1, o2, o3, o4, o5, r1, r2, r3, r4, r5], consts=[('CC', 'u32', I(7))]))
    for d, n in [(o1, 4), (o2, 2), (o3, 3), (o4, 6), (o5, 3), (r1, 8), (r2, 5), (r3, 6), (r4, 16), (r5, 7)]:
        g = 'assume(g1 < 3);' if d is o1 else small if d in (r1, r5) else ''
        dec(p, sp, d, n, lo=max(0, n - 4), pre=g, covers=(20, 21))
        enc(p, sp, d, covers=(22,))
    # arguments of alias types
    k1, k2 = D('K1', u8), D('K2', u16)
    k3 = D('K3', Al(k1))
    a1 = D('A1', Cont([Fd('v', Arr(u8, F('n'))), Fd('c', Al(k1), calc=F('n')), Fd('d', u8, cond=Bin('==', F('n'), F('m')))]), args=[('n', Al(k1), None), ('m', Al(k3), I(1))])
    a2 = D('A2', Al(k3), args=[('n', Al(k2), I(300))], cond=Bin('>', F('n'), I(299)))
    a3 = D('A3', Cont([Fd('n', Al(k3)), Fd('a', Ref(a1, F('n'))), Fd('b', Ref(a1, F('n'), F('n'))), Fd('c', Ref(a2)), Fd('d', Ref(a2, Cast(F('n'), 'u16'))), Fd('v', Arr(Al(k1), F('n')))]))
    sp = p.spec(Spec('alias', [k1, k2, k3, a1, a2, a3]))
    for d, n in [(a1, 5), (a2, 2), (a3, 9)]:
        g = 'assume(g0 < 4);' if d is a1 else 'assume(n < 1 || b[0] < 3);' if d is a3 else ''
        dec(p, sp, d, n, lo=max(0, n - 5), pre=g, covers=(20, 21))
        enc(p, sp, d, covers=(22,))
    # many arguments
    ks = ['k%d' % i for i in range(7)]
    m1 = D('M1', Cont([Fd('v', u8, cond=Bin('>', F('k0'), F('k6'))), Fd('w', Arr(u8, Bin('&', F('k3'), I(1)))), Fd('c', u8, calc=Bin('^', F('k1'), F('k4'))), Fd('d', u16, calc=F('k2')), Fd('e', u8, cond=F('k5'))]),
           args=[(k, u16 if i == 2 else Bo() if i == 5 else u8, None if i < 4 else [I(9), B(True), I(3)][i - 4]) for i, k in enumerate(ks)])
    m2 = D('M2', Cont([Fd('a', u8), Fd('b', u8), Fd('x', Ref(m1, F('a'), F('b'), I(300), F('a'))), Fd('y', Ref(m1, F('b'), F('a'), F('a'), I(1), F('b'), Bin('==', F('a'), F('b')), F('b')))]))
    sp = p.spec(Spec('many', [m1, m2]))
    dec(p, sp, m1, 7, lo=3, covers=(20, 21))
    enc(p, sp, m1, covers=(22,))
    dec(p, sp, m2, 15, lo=10, covers=(20, 21))
    enc(p, sp, m2, covers=(22,))
    p.bounds = ['every byte string of the stated lengths, every argument value, every value with lists of at most 2 elements']
    return p
