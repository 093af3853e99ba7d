"""Length-constrained containers."""
from tmpl import *


def make(tier):
    p = Plan('P13', tier, IDS)
    u8, u16, u32 = Sc('u8'), Sc('u16'), Sc('u32')

    def one(name, decls, T, n, kk=2, covers=(20, 21), ecov=(22,), **k):
        sp = p.spec(Spec('l_' + name, decls))
        dec(p, sp, T, n, covers=covers, **k)
        enc(p, sp, T, kk, covers=ecov, **k)

    def short(sp, w, t):
        # more than there is: an error, or what there is up to the end, but not less
        p.h('short_' + sp.name, '''
let k = pick(4) as usize;
let mut b = [0u8; %d];
for i in 0..%d + k { b[i] = u8s(); }
let n = u%d::from_%se_bytes([%s]);
assume(n > k as u%d);
let mut cur: &[u8] = &b[..%d + k];
match m::T::decode_sync(&mut cur) {
    Ok(v) => { check(cur.is_empty(), 40); check(v.v.len() == k, 41); if v.v.len() == k { for i in 0..k { check(v.v[i] == b[%d + i], 42) } } cover(20); }
    Err(_) => cover(21),
}
''' % (w + 3, w, 8 * w, 'l' if t.endswith('le') else 'b', ', '.join('b[%d]' % i for i in range(w)), 8 * w, w, w), covers=(), spec=sp.name)
    d = D('T', Cont([Fd('n', u8), Fd('in', Cont([Fd('v', Arr(u8, None))], length=F('n')))]))
    one('tail', [d], d, 5)
    d = D('T', Cont([Fd('n', u8), Fd('in', Cont([Fd('v', Arr(u8, None))], length=F('n'))), Fd('z', u16)]))
    one('mid', [d], d, 6)
    d = D('T', Cont([Fd('n', u8), Fd('in', Cont([Fd('a', u8), Fd('v', Arr(u16, None))], length=F('n'))), Fd('z', u8)]))
    one('elem', [d], d, 6)
    d = D('T', Cont([Fd('n', u8), Fd('in', Cont([Fd('s', Utf8()), Fd('v', Arr(u8, b'\0'))], length=F('n'))), Fd('z', u8)]))
    one('str', [d], d, 6, ecov=(22,))
    inn = D('Inn', Cont([Fd('p', u8), Fd('q', Arr(u8, F('p')))]))
    d = D('T', Cont([Fd('n', Sc('u16le')), Fd('in', Cont([Fd('v', Arr(Ref(inn), None))], length=F('n'))), Fd('z', u8)]))
    one('refs', [inn, d], d, 6, ecov=(22, 23))
    d = D('T', Cont([Fd('n', u8), Fd('in', Cont([Fd('m', u8), Fd('deep', Cont([Fd('v', Arr(u8, None))], length=F('m'))), Fd('w', Arr(u8, None))], length=F('n'))), Fd('z', u8)]))
    one('nest', [d], d, 6)
    d = D('T', Cont([Fd('v', Arr(u8, None))], length=F('n')), args=[('n', u8, None)])
    c = D('C', Cont([Fd('k', u8), Fd('t', Ref(d, F('k'))), Fd('z', u8)]))
    sp = p.spec(Spec('l_arg', [d, c]))
    dec(p, sp, d, 3, covers=(20,))
    enc(p, sp, d)
    dec(p, sp, c, 4)
    enc(p, sp, c)
    d = D('T', Cont([Fd('n', u8), Fd('in', Cont([Fd('a', u8), Fd('b', u8)], length=Bin('-', F('n'), I(1)))), Fd('z', u8)]))
    one('fixed', [d], d, 5)
    d = D('T', Cont([Fd('f', u8), Fd('n', u8), Fd('in', Cont([Fd('v', Arr(u8, None))], length=F('n')), cond=Bin('==', F('f'), I(1))), Fd('z', u8)]))
    one('cond', [d], d, 6, ecov=(22, 23))
    d = D('T', Cont([Fd('n', Sc('u64')), Fd('in', Cont([Fd('v', Arr(u8, None))], length=F('n'))), Fd('z', u8)]))
    one('n64', [d], d, 11)
    # lengths which do not fit into 32 bits take what there is
    for t in ('u32', 'u64le', 'u128'):
        d = D('T', Cont([Fd('n', Sc(t)), Fd('in', Cont([Fd('v', Arr(u8, None))], length=Cast(F('n'), 'u64') if t == 'u128' else F('n'))), Fd('z', u8, cond=Bin('<', F('n'), I(0x100000000)) if t != 'u32' else Bin('<', F('n'), I(0x1000000)))]))
        sp = p.spec(Spec('l_w' + t, [d]))
        dec(p, sp, d, Sc(t).minsz() + 3, covers=(20,), reenc=False)
        if t != 'u128':
            short(sp, Sc(t).minsz(), t)
    d = D('T', Cont([Fd('n', Sc('u64')), Fd('in', Cont([Fd('a', u8), Fd('d', Cont([Fd('v', Arr(u8, None))], length=Bin('>>', F('n'), I(8)))), Fd('w', Arr(u8, None))], length=F('n'))), Fd('z', Arr(u8, None))]))
    one('n64n', [d], d, 11)
    t = D('T', Tag([Fd('a', u8, cond=Bin('==', F('k'), I(1))), Fd('b', Arr(u8, None))], length=F('n')), args=[('k', u8, None), ('n', u8, None)])
    c = D('C', Cont([Fd('k', u8), Fd('n', u8), Fd('t', Ref(t, F('k'), F('n'))), Fd('z', u8)]))
    sp = p.spec(Spec('l_tag', [t, c]))
    dec(p, sp, c, 5)
    enc(p, sp, c, covers=(22, 23))
    # types which contain themselves
    d = D('T', Cont([Fd('n', u8), Fd('m', u8)]))
    d.ty.fields.append(Fd('in', Cont([Fd('v', Arr(Rec(d), F('n')))], length=F('m'))))
    one('rec', [d], d, 7, ecov=(22, 23))
    d = D('T', Cont([Fd('t', u8), Fd('m', u8)]))
    d.ty.fields.append(Fd('in', Cont([Fd('v', Arr(Rec(d), None), cond=Bin('==', F('t'), I(1))), Fd('w', Arr(u8, None), cond=Bin('!=', F('t'), I(1)))], length=F('m'))))
    one('tlv', [d], d, 6, ecov=(22, 23))
    # long content
    for t, szs in ((u8, [255]), (u16, [256, 300]), (Sc('u32le'), [1025])):
        h = W[base(t.b)]
        for m in szs:
            pf = list(m.to_bytes(h, 'little' if t.s.endswith('le') else 'big'))
            d = D('T', Cont([Fd('n', t), Fd('in', Cont([Fd('a', u8), Fd('v', Arr(u8, None))], length=F('n'))), Fd('z', Arr(u8, None))]))
            sp = p.spec(Spec('g_%d' % m, [d]))
            big(p, sp, d, pf, h + m + 2, sym=[h, h + m - 1, h + m], covers=(20, 22), spread=3)
            d = D('T', Cont([Fd('n', t), Fd('in', Cont([Fd('a', u16), Fd('s', Utf8()), Fd('deep', Cont([Fd('v', Arr(u16, None))], length=I(200))), Fd('w', Arr(u8, None))], length=F('n'))), Fd('z', u8)]))
            sp = p.spec(Spec('gn_%d' % m, [d]))
            big(p, sp, d, pf + [1, 2] + [0x61] * 21 + [0], h + m + 1, sym=[h, h + 25, h + m - 1, h + m], covers=(20, 21, 22))
    p.bounds = ['contents of 255-1025 bytes with a fixed pattern and a few symbolic bytes', 'all byte strings up to the stated sizes (4-11 bytes), collections of at most 2 elements; content shorter than its container is outside the claim']
    return p
