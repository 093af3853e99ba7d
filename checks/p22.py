"""Integer literals: a literal is accepted exactly when its value fits the type it gets (from context or suffix), and decimal and hexadecimal
notation denote the same value. The value is made visible through acceptance: `A - B` in an unsigned constant is accepted iff A >= B."""
from fe import *

IDS = {1: 'a program of the language does not parse', 2: 'a literal which fits its type is rejected', 3: 'a literal out of range (or a wrong value) is accepted'}
TY = [(s + str(n), n, s == 'i') for s in 'ui' for n in (8, 16, 32, 64, 128)]


def make(tier):
    p = Plan('P22', tier, IDS)
    p.fe = rs('fe_const.rs') + 'use rt::*; use rf::*; use rt_const::*;\n'

    def t(name, body, covers=(1, 2), **k):
        p.feh('l_' + name, 'let mut b: Vec<u8> = vec![];\n' + body, covers, **k)
    q = tier == 'quick'
    for n, bits, s in TY:
        ty = 'let t = Ty { bits: %d, s: %s };\n' % (bits, 'true' if s else 'false')
        mx = (1 << (bits - (1 if s else 0))) - 1
        d = str(mx)
        k = min(len(d), 3 if q else 4)
        for place, pre, post in [('enum', 'type e=enum %s{a=' % n, '};'), ('const', 'const c:%s=' % n, ';'), ('bitf', 'type e=bitfield %s{a=' % n, '};')]:
            # every decimal literal which shares the leading digits of the largest value, and one digit more
            t('%s_%s_dec' % (n, place), ty + 'b.extend_from_slice(b"%s"); let d = dec(&mut b, b"%s", %d); b.extend_from_slice(b"%s");\nexpect(&b, t.lit(&d, 10).is_some());' % (
                pre, d[:-k], k, post))
        h = '%x' % mx
        t(n + '_hex', ty + 'b.extend_from_slice(b"type e=enum %s{a="); let d = hex(&mut b, b"%s", 2); b.extend_from_slice(b"};");\nexpect(&b, t.lit(&d, 16).is_some());' % (n, h[:-2]), (1,))
        t(n + '_hex2', ty + 'b.extend_from_slice(b"type e=enum %s{a="); let mut d = hex(&mut b, b"", 2); for _ in 0..%d { b.push(b\'0\'); d.push(b\'0\') } b.extend_from_slice(b"};");\nexpect(&b, t.lit(&d, 16).is_some());' % (n, bits // 4 - 1))
        t(n + '_long', ty + 'b.extend_from_slice(b"type e=enum %s{a="); let d = dec(&mut b, b"%s", 2); b.extend_from_slice(b"};");\nexpect(&b, t.lit(&d, 10).is_some());' % (n, d[:-1]), (2,))
        t(n + '_zeros', ty + 'b.extend_from_slice(b"type e=enum %s{a="); let d = dec(&mut b, b"00000", 2); b.extend_from_slice(b"};");\nexpect(&b, t.lit(&d, 10).is_some());' % n, (1,))
        # decimal against hexadecimal: A - B accepted iff A >= B
        if not s:
            t(n + '_dh', ty + '''b.extend_from_slice(b"type e=enum %s{a="); let x = dec(&mut b, b"", 3); b.push(b'-'); let y = hex(&mut b, b"", 2); b.extend_from_slice(b"};");
            let (x, y) = (t.lit(&x, 10), t.lit(&y, 16)); expect(&b, match (x, y) { (Some(x), Some(y)) => x >= y, _ => false });''' % n)
            t(n + '_hd', ty + '''b.extend_from_slice(b"type e=enum %s{a="); let x = hex(&mut b, b"", 2); b.push(b'-'); let y = dec(&mut b, b"", 3); b.extend_from_slice(b"};");
            let (x, y) = (t.lit(&x, 16), t.lit(&y, 10)); expect(&b, match (x, y) { (Some(x), Some(y)) => x >= y, _ => false });''' % n)
        else:
            # MAX - (A - B)... : MAX - A + B accepted iff the steps stay in range
            t(n + '_dh', ty + '''b.extend_from_slice(b"type e=enum %s{a=%d-"); let x = dec(&mut b, b"", 2); b.push(b'+'); let y = hex(&mut b, b"", 2); b.extend_from_slice(b"};");
            let (x, y) = (t.lit(&x, 10), t.lit(&y, 16)); expect(&b, match (x, y) { (Some(x), Some(y)) => x >= y, _ => false });''' % (n, mx))
        # a suffix overrides the context: the literal must fit the suffix, and the suffix must fit the context
        t(n + '_suffix', ty + 'b.extend_from_slice(b"const c:bool="); let d = dec(&mut b, b"%s", %d); b.extend_from_slice(b"%s==%d%s;");\nexpect(&b, t.lit(&d, 10).is_some());' % (d[:-k], k, n, 1, n))
    p.bounds = ['decimal literals with the leading digits of the largest value of each type and up to %d free digits; hexadecimal literals with up to 3 free digits; the ten integer types; enum values, bitfield values and constants' % (3 if q else 4)]
    return p
