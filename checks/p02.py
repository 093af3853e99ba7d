"""Every kind of type in every position: top level, field, conditional, nested, array element, variant, length-constrained, alias."""
from tmpl import *


def types():
    u8 = Sc('u8')
    for s in SCALARS:
        yield s, [], Sc(s), W[base(s)]
    yield 'bool', [], Bo(), 1
    yield 'f32', [], Fl('f32'), 4
    yield 'f64', [], Fl('f64'), 8
    en = D('En', Enum('u16', [('p', 1), ('q', ('0x0201', 0x201)), ('r', None)]))
    yield 'enum', [en], Ref(en), 2
    en = D('En', Enum('u8', [('p', 3), ('q', None), ('o', 'default')]))
    yield 'enumd', [en], Ref(en), 1
    bf = D('Bf', Bits('u16le', [('p', 1), ('q', None), ('r', ('0x0400', 0x400))]))
    yield 'bits', [bf], Ref(bf), 2
    yield 'v8', [], Var(8), 2
    yield 'v32', [], Var(32), 3
    yield 'utf8', [], Utf8(), 2
    yield 'utf8n', [], Utf8(I(2)), 2
    yield 'utf16', [], Utf16(I(1)), 2
    yield 'arr', [], Arr(Sc('u16le'), I(2)), 4
    yield 'arrt', [], Arr(u8, b'\0'), 2
    inn = D('Inn', Cont([Fd('p', u8), Fd('q', Sc('u16'), cond=Bin('>', F('p'), I(5)))]))
    yield 'ref', [inn], Ref(inn), 3
    tg = D('Tg', Tag([Fd('x', u8, cond=Bin('==', F('k'), I(1))), Fd('y', Cont([Fd('v', Sc('u16'))]))]), args=[('k', u8, None)])
    inn = D('Inn', Cont([Fd('p', u8), Fd('q', Ref(tg, F('p')))]))
    yield 'tag', [tg, inn], Ref(inn), 3
    al = D('Al', Sc('u32le'))
    yield 'alias', [al], Ref(al), 4
    al = D('Al', Arr(u8, I(2)))
    yield 'aliasarr', [al], Ref(al), 2
    al = D('Al', Arr(Sc('u16'), F('n')), args=[('n', u8, None)])
    yield 'aliasarg', [al], Ref(al, I(1)), 2


def eq(n, v):
    return Bin('==', F(n), I(v))


def make(tier):
    p = Plan('P02', tier, IDS)
    u8 = Sc('u8')
    for nm, pre, t, w in types():
        low = lambda n: 0 if n <= 6 else n - 4
        ds = []
        text = nm in ('utf8', 'utf8n', 'utf16')

        def add(d, n, cov=(20, 21), ecov=(22,), kk=2, enc_=True):
            ds.append((d, n, cov, ecov, kk, enc_))
        part = (22, 23)
        add(D('Top', t), w + 1, cov=(20,) if nm in ('utf8', 'arrt') else (20, 21))
        add(D('Mid', Cont([Fd('a', u8), Fd('b', t), Fd('c', t), Fd('d', u8)])), 2 * w + 3)
        add(D('Cnd', Cont([Fd('f', u8), Fd('a', t, cond=eq('f', 1)), Fd('b', t, cond=Bin('&&', Bin('!=', F('f'), I(1)), Bin('<', F('f'), I(9)))), Fd('z', u8)])), w + 3, ecov=part)
        add(D('Cc', Cont([Fd('f', u8), Fd('i', Cont([Fd('a', t), Fd('b', u8), Fd('c', t, cond=eq('b', 1))]), cond=eq('f', 2)), Fd('z', u8)])), w + 4, ecov=part)
        add(D('Nst', Cont([Fd('f', u8), Fd('i', Cont([Fd('a', t), Fd('j', Cont([Fd('b', t)]))])), Fd('z', u8)])), 2 * w + 2)
        add(D('Cnt', Cont([Fd('n', u8), Fd('v', Arr(t, F('n'))), Fd('z', u8)])), 2 * w + 3, ecov=part)
        add(D('Fix', Arr(t, I(2))), 2 * w + 1, cov=(20,) if nm == 'arrt' else (20, 21), ecov=part)
        if not greedy(t):
            add(D('Unb', Arr(t, None)), 2 * w + 1, cov=(20,) if (w == 1 and nm not in ('enum', 'bits')) or nm == 'arrt' else (20, 21))
        add(D('Trm', Cont([Fd('v', Arr(t, b'\xff\x01')), Fd('z', u8)])), w + 4, kk=1)
        add(D('Dim', Arr(Arr(t, I(1)), I(2))), 2 * w, cov=(20,) if nm == 'arrt' else (20, 21), ecov=part)
        tg = D('Var', Tag([Fd('a', t, cond=eq('k', 1)), Fd('b', Cont([Fd('x', t), Fd('y', u8)]), cond=eq('k', 2)), Fd('c', Arr(t, I(1)))]), args=[('k', u8, None)])
        add(tg, w + 2, cov=(20,) if nm == 'arrt' else (20, 21), ecov=part)
        add(D('VarW', Cont([Fd('k', u8), Fd('t', Ref(tg, F('k'))), Fd('z', u8)])), w + 3, ecov=part)
        add(D('Len', Cont([Fd('n', u8), Fd('i', Cont([Fd('a', t), Fd('v', Arr(u8, None))], length=F('n'))), Fd('z', u8)])), w + 3)
        a1 = D('A1', t)
        a2 = D('A2', Ref(a1))
        al = Ref(a2)
        add(a1, w + 1, cov=(20,) if nm in ('utf8', 'arrt') else (20, 21))
        add(a2, w + 1, cov=(20,) if nm in ('utf8', 'arrt') else (20, 21))
        add(D('Als', Cont([Fd('n', u8), Fd('a', al), Fd('v', Arr(al, F('n'))), Fd('c', al, cond=eq('n', 2))])), 2 * w + 1, ecov=part)
        st = D('St', Cont([Fd('a', t), Fd('b', t)]))
        add(st, 2 * w + 1, cov=(20,) if nm == 'arrt' else (20, 21))
        add(D('Str', Cont([Fd('n', u8), Fd('s', Ref(st)), Fd('v', Arr(Ref(st), F('n')))])), 4 * w + 1, cov=(20,) if nm == 'arrt' else (20, 21), ecov=part, kk=1)
        sp = p.spec(Spec('m_' + nm, pre + [x[0] for x in ds]))
        for d, n, cov, ecov, kk, e in ds:
            dec(p, sp, d, n, lo=low(n), covers=cov, pre='assume(n == 0 || b[0] < 4);' if nm == 'arrt' and d.name in ('Cnt', 'Als', 'Str') else '')
            enc(p, sp, d, 1 if text and d.name in ('Dim', 'Als') else kk, covers=ecov)
    # many fields, many levels
    fs, n = [], 0
    for i in range(34):
        t = [u8, Sc('u16'), Bo(), Sc('i8'), Sc('u16le')][i % 5]
        c = eq('g0', i) if i % 7 == 6 else None
        fs.append(Fd('g%d' % i, t, cond=c))
        n += 0 if c else [1, 2, 1, 1, 2][i % 5]
    d = D('T', Cont(fs))
    x, m = u8, 1
    for i in range(9):
        x = Cont([Fd('a%d' % i, u8), Fd('c%d' % i, x, cond=Bin('<', F('a%d' % i), I(2 + i)))])
    e = D('E', x)
    y = D('Y0', Cont([Fd('v', u8)]))
    ys = [y]
    for i in range(1, 9):
        y = D('Y%d' % i, Cont([Fd('a', u8), Fd('y', Ref(y), cond=Bin('>=', F('a'), I(i)))]) if i % 2 else Arr(Ref(y), I(1)))
        ys.append(y)
    sp = p.spec(Spec('wide', [d, e] + ys))
    dec(p, sp, d, n + 1, lo=n - 2)
    enc(p, sp, d, covers=(22, 23))
    dec(p, sp, e, 10)
    enc(p, sp, e, covers=(22, 23))
    dec(p, sp, y, 6)
    enc(p, sp, ys[5], 1, covers=(22, 23))
    p.bounds = ['every byte string of the stated lengths (up to about two elements), every value with lists of at most 2 elements, for 36 kinds of type in 18 positions each']
    return p
