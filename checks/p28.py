"""Names: every name the language accepts, at every place, next to every other: words which are keywords of Rust, names of what the generated code is made of,
names which differ only in their case, one name for things of different kinds. The generated code compiles and encodes as specified."""
from tmpl import *

# keywords of Rust which are names in a specification
RS = 'break continue else extern fn for if impl in let loop match mod move mut pub ref return static struct super trait unsafe use where while self async await dyn abstract become box do final macro override priv try typeof unsized virtual yield'.split()
# what generated functions declare or use
GEN = 'reader writer value out read write buf decoded output target i raw total len_ length r w x n t0 result ok err none some std mem slice tokio io vec string option size usize int str bytes to bits default_ encode_sync decode_sync new ptr iter map error field_0 f_0 take ret end arg_k k a'.split()
METHODS = ('encode_sync', 'decode_sync', 'bits', 'from_repr', 'to_repr')   # of every bitfield: no names of flags and variants, see DESIGN
SPWORDS = {'as', 'const', 'enum', 'false', 'true', 'type', 'from', 'default', 'bool', 'import', 'function', 'transform', 'container', 'bitfield'}


def make(tier):
    p = Plan('P28', tier, IDS)
    q = tier == 'quick'
    u8, u16 = Sc('u8'), Sc('u16')

    def put(name, ds, consts=(), **k):
        sp = p.spec(Spec('n_' + name, [d for d, *_ in ds], consts=consts))
        for i, (d, m, *o) in enumerate(ds):
            o = o[0] if o else {}
            if m:
                dec(p, sp, d, m, lo=o.get('lo', max(0, m - 2)), covers=o.get('dc', (20, 21)), pre=o.get('pre', ''), name='dec_%s_%d' % (name, i), reenc=o.get('re', True))
                enc(p, sp, d, covers=o.get('ec', (22,)), name='enc_%s_%d' % (name, i), decode=o.get('d', True))
    ws = [w for w in RS + GEN if w not in SPWORDS]
    G = 6
    ws += ["zq%d" % i for i in range(-len(ws) % G)]
    groups = [ws[i:i + G] for i in range(0, len(ws), G)]
    for gi, g in enumerate(groups):
        ds = []
        # fields, calculated, as lengths, in conditions, conditional, as arrays
        ds.append((D('F', Cont([Fd(w, u8) for w in g])), len(g)))
        ds.append((D('C', Cont([Fd(g[0], u8, calc=Cast(Len(g[1]), 'u8')), Fd(g[1], Arr(u8, F(g[0]))), Fd(g[2], u8, cond=Bin('==', F(g[0]), I(1))), Fd(g[3], Arr(u16, F(g[0])), cond=Bin('>', Elvis(F(g[2]), I(3)), I(2)))])), 4, dict(ec=(22, 23))))
        # arguments, passed on, in defaults
        inn = D('A', Cont([Fd('q', Arr(u8, F(g[0]))), Fd('z', u8, cond=Bin('==', F(g[1]), I(1)))]), args=[(g[0], u8, None), (g[1], u8, I(1))])
        ds.append((inn, 4, dict(ec=(22, 23), pre='assume(g0 < 4);')))
        ds.append((D('B', Cont([Fd(g[2], u8), Fd(g[3], Ref(inn, F(g[2]))), Fd(g[4], Ref(inn, F(g[2]), F(g[2])))])), 5, dict(ec=(22, 23), pre='assume(n == 0 || b[0] < 3);')))
        # enum variants, bitfield flags, tagged variants
        mt = [w + '_f' if w in METHODS else w for w in g]
        en = D('En', Enum('u8', [(w, None if i else 1) for i, w in enumerate(mt)] + [('Other', 'default')]))
        bf = D('Bf', Bits('u8', [(w, None if i else 1) for i, w in enumerate(mt)]))
        ds += [(en, 1, dict(dc=(20, 21))), (bf, 1)]
        ds.append((D('T', Tag([Fd(mt[i], u8 if i % 2 else Cont([Fd(g[(i + 1) % G if len(g) == G else 0], u8)]), cond=Bin('==', F('kq'), I(i))) for i, w in enumerate(g)]), args=[('kq', u8, None)]), 2, dict(ec=(22, 23))))
        ds.append((D('U', Cont([Fd(g[0], Ref(en)), Fd(g[1], Ref(bf)), Fd('c1', u8, cond=Bin('==', F(g[0]), EnumAcc(en, mt[1]))), Fd('c2', u8, cond=Mem(g[1], bf.ty.items[-1][0]))])), 4, dict(ec=(22, 23))))
        # inline containers
        ds.append((D('I', Cont([Fd('nq', u8), Fd(g[0], Cont([Fd(g[1], u8), Fd(g[2], u8, cond=Bin('==', F(g[1]), I(2)))]), cond=Bin('<', F('nq'), I(4)))])), 3, dict(ec=(22, 23))))
        put('w%d' % gi, ds)
    # names of types, consts
    tw = [w for w in ws if w not in ('vec', 'string', 'option', 'slice', 'mem', 'std', 'tokio', 'io', 'str', 'usize', 'self', 'super')] + ['u9', 'Foo', 'foo', 'FOO', 'T', 'R', 'W', 'S', 'type_', '_x', 'x_', '__']
    for gi in range(0, len(tw), 12):
        ds = []
        g = tw[gi:gi + 12]
        for i, w in enumerate(g):
            k = i % 6
            if w in GEN and k in (2, 3, 4):
                k = (0, 1, 5)[k % 3]   # bitfields and aliases are tuple structs, whose names Rust does not allow for variables: see DESIGN
            if k == 0:
                d = D(w, Cont([Fd('a', u8), Fd('b', u16)]))
            elif k == 1:
                d = D(w, Enum('u8', [('A', 1), ('B', None)]))
            elif k == 2:
                d = D(w, Bits('u8', [('A', 1), ('B', None)]))
            elif k == 3:
                d = D(w, u16)
            elif k == 4:
                d = D(w, Arr(u8, I(2)))
            else:
                d = D(w, Cont([Fd('a', Arr(u8, F('k')))]), args=[('k', u8, None)])
            ds.append((d, 3 if k in (0, 5) else 2))
        ds.append((D('Use', Cont([Fd('nq', u8)] + [Fd('f%d' % i, Ref(d, *([F('nq')] if d.args else []))) for i, (d, _) in enumerate(ds)])), 0))
        for j in (0, 6):
            if j + 5 < len(ds) - 1:
                ds.append((D('Us%d' % j, Cont([Fd('nq', u8)] + [Fd('f%d' % i, Ref(d, *([F('nq')] if d.args else []))) for i, (d, _) in enumerate(ds[j:j + 6])])), 12, dict(pre='assume(n == 0 || b[0] < 3);')))
        put('t%d' % (gi // 12), ds)
    cw = [w for w in ws if w not in ('self', 'super')]
    for gi in range(0, len(cw), 8):
        g = cw[gi:gi + 8]
        put('c%d' % (gi // 8), [(D('K', Cont([Fd('nq', u8)] + [Fd('q%d' % i, Arr(u8, Bin('-', F(w), I(i)))) for i, w in enumerate(g)])), 1 + len(g)),
                                (D('L', Cont([Fd('nq', u8)] + [Fd('q%d' % i, u8, cond=Bin('==', F('nq'), F(w))) for i, w in enumerate(g)])), 2)], consts=[(w, "u8", I(i + 1)) for i, w in enumerate(g)])
    # the same name for things of different kinds; names which differ in case only
    x = D('x', Cont([Fd('x', u8), Fd('X', u16)]))
    e = D('e', Enum('u8', [('e', 1), ('E', 2)]))
    b = D('b', Bits('u8', [('b', 1), ('c', 2)]))
    a = D('a', Cont([Fd('a', Arr(u8, F('x')))]), args=[('x', u8, None)])
    put('same', [
        (x, 3), (e, 1), (b, 1), (a, 3, dict(pre='assume(g0 < 4);')),
        (D('y', Cont([Fd('x', Ref(x)), Fd('e', Ref(e)), Fd('b', Ref(b)), Fd('a', Ref(a, I(2))), Fd('y', u8, cond=Bin('==', F('e'), EnumAcc(e, 'E'))), Fd('Y', u8, cond=Mem('b', 'b'))])), 8),
        (D('z', Cont([Fd('a', u8), Fd('A', u8), Fd('aa', Ref(a, F('A'))), Fd('z', Ref(a, F('a')))])), 5, dict(pre='assume(n < 2 || (b[0] < 3 && b[1] < 3));')),
        (D('len', Cont([Fd('len', u8), Fd('v', Arr(u8, F('len'))), Fd('w', u8, calc=Cast(Len('v'), 'u8'))])), 4, dict(ec=(22, 23))),
        (D('t', Tag([Fd('t', u8, cond=Bin('==', F('tt'), I(1))), Fd('T', u16, cond=Bin('==', F('tt'), I(2))), Fd('e', Ref(e))]), args=[('tt', u8, None)]), 3),
        (D('sum', Cont([Fd('sum', u8), Fd('bits', u8), Fd('pad', u8, cond=Bin('==', F('sum'), F('bits')))])), 3, dict(ec=(22, 23))),
    ])
    p.bounds = ['%d words (every keyword of Rust which is a name in a specification, names of variables, traits and modules of generated code) as fields, arguments, variants, flags, consts, and types; every byte string of the stated lengths, every value with lists of at most 2 elements' % len(ws)]
    return p
