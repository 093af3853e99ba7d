"""Text."""
from tmpl import *


def make(tier):
    p = Plan('P08', tier, IDS)
    u8, u16 = Sc('u8'), Sc('u16')
    q = tier == 'quick'

    def one(name, decls, T, n, kk=3, covers=(20, 21), ecov=(22,), **k):
        sp = p.spec(Spec('x_' + name, decls))
        dec(p, sp, T, n, covers=covers, **k)
        safe(p, sp, T, n)
        enc(p, sp, T, kk, covers=ecov, **k)
    d = D('T', Utf8())
    one('nul', [d], d, 5 if q else 6, ecov=(22, 23))
    # without its terminator: an error, or what there is
    p.h('eof', '''
let n = pick(5) as usize;
let mut b = [0u8; 4];
for i in 0..n { b[i] = u8s(); assume(b[i] != 0); }
let mut cur: &[u8] = &b[..n];
match m::T::decode_sync(&mut cur) { Ok(v) => { cover(20); check(sameb(v.0.as_bytes(), &b[..n]) && cur.is_empty() && utf8_ok(&b[..n]), 2) } Err(_) => cover(21) }
''', covers=(), spec='x_nul')
    d = D('T', Cont([Fd('a', Utf8()), Fd('b', u8), Fd('c', Utf8())]))
    one('nul2', [d], d, 5, kk=1)
    for n in (0, 1, 2, 3, 4):
        d = D('T', Utf8(I(n)))
        one('n%d' % n, [d], d, n + 1, kk=max(n - 1, 1), covers=(20, 21) if n else (20,), ecov=(22,) if n != 0 else (22,))
    d = D('T', Cont([Fd('n', u8), Fd('s', Utf8(F('n'))), Fd('z', u8)]))
    one('len', [d], d, 5 if q else 6, kk=2)
    d = D('T', Cont([Fd('n', u16, calc=Cast(Len('s'), 'u16')), Fd('s', Utf8(F('n')))]))
    one('calc', [d], d, 5, kk=2)
    for n in (0, 1, 2):
        d = D('T', Utf16(I(n)))
        one('w%d' % n, [d], d, 2 * n + 1, kk=2, covers=(20, 21) if n else (20,))
    d = D('T', Cont([Fd('n', u8), Fd('s', Utf16(F('n'))), Fd('z', u8)]))
    one('wlen', [d], d, 6, kk=3, ecov=(22, 23))
    d = D('T', Cont([Fd('n', u8, calc=Cast(Len('s'), 'u8')), Fd('s', Utf16(F('n'))), Fd('z', u8)]))
    one('wcalc', [d], d, 5, kk=4)
    d = D('T', Cont([Fd('n', Sc('u64')), Fd('s', Utf8(F('n')))]))
    one('len64', [d], d, 10, kk=1)
    d = D('T', Cont([Fd('n', Sc('u64')), Fd('s', Utf16(F('n')))]))
    one('wlen64', [d], d, 10, kk=1)
    # long text
    def pre(n, t):
        return list(n.to_bytes(W[base(t.b)], 'little' if t.s.endswith('le') else 'big'))
    for t, szs in ((u8, [255]), (u16, [256, 300]), (Sc('u32le'), [1025] if q else [1025, 4097])):
        h = W[base(t.b)]
        for m in szs:
            for nm, calc in (('t', None), ('c', Cast(Len('s'), t.s))):
                d = D('T', Cont([Fd('n', t, calc=calc), Fd('s', Utf8(F('n'))), Fd('z', u8)]))
                sp = p.spec(Spec('l%s_%d' % (nm, m), [d]))
                big(p, sp, d, pre(m, t), h + m + 1, sym=[h, h + 15, h + 16, h + m - 1] + ([h + 255] if m > 256 else []), covers=(20, 21, 22), alter='v.n = u8s().into()' if calc else None)
                d = D('T', Cont([Fd('n', t, calc=calc), Fd('s', Utf16(F('n'))), Fd('z', u8)]))
                sp = p.spec(Spec('lw%s_%d' % (nm, m), [d]))
                big(p, sp, d, pre(m, t), h + 2 * m + 1, sym=[h + (510 if m > 256 else 32)], covers=(20, 21, 22), alter='v.n = u8s().into()' if calc else None)
    d = D('T', Cont([Fd('s', Utf8()), Fd('t', Utf8()), Fd('z', u8)]))
    sp = p.spec(Spec('lnul', [d]))
    for m in (258, 1030):
        big(p, sp, d, [], m, sym=[0, 17, 254, 255, 256, m - 3, m - 2] if m < 300 else [255, 511, 1023, 1024, m - 2], covers=(20, 21, 22))
    d = D('T', Cont([Fd('s', Utf8(I(300))), Fd('t', Utf16(I(257)))]))
    sp = p.spec(Spec('lfix', [d]))
    big(p, sp, d, [], 814, sym=[255, 256, 299, 300, 812], covers=(20, 21, 22))
    p.bounds = ['text of 255-1100 bytes or units with a fixed pattern and a few symbolic bytes', 'every byte string up to 5-10 bytes, every valid text of at most 3-4 bytes']
    return p
