"""Constant expressions in enum and bitfield values: the value is the one the operators give in the representation type, and an expression with
a step out of range is rejected. Values are made visible through acceptance: `(E) - K` is accepted iff no step leaves the type."""
from fe import *

IDS = {1: 'a program of the language does not parse', 2: 'a constant expression with a value is rejected', 3: 'a constant expression without a value (or with a wrong one) is accepted',
       4: 'wrong result of a constant operation', 5: 'a constant operation between different types has a value', 6: 'wrong order of constants'}
TY = [(s + str(n), n, s == 'i') for s in 'ui' for n in (8, 16, 32, 64, 128)]
OPS = ['+', '-', '*', '/', '%', '<<', '>>', '>>>', '&', '|', '^']
TR = {'+': 'Add::add', '-': 'Sub::sub', '*': 'Mul::mul', '/': 'Div::div', '%': 'Rem::rem', '<<': 'Shl::shl', '>>': 'Shr::shr', '&': 'BitAnd::bitand', '|': 'BitOr::bitor', '^': 'BitXor::bitxor'}
NM = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': 'rem', '<<': 'shl', '>>': 'shr', '>>>': 'shrs', '&': 'and', '|': 'or', '^': 'xor'}


def make(tier):
    p = Plan('P19', tier, IDS)
    q = tier == 'quick'
    p.fe = rs('fe_const.rs') + '''use rt::*; use rf::*; use rt_const::*;
use protospec_build::asg::ConstInt;
fn flat(c: Option<ConstInt>) -> Option<(u8, u128)> {
    Some(match c? { ConstInt::U8(x) => (0, x as u128), ConstInt::U16(x) => (1, x as u128), ConstInt::U32(x) => (2, x as u128), ConstInt::U64(x) => (3, x as u128), ConstInt::U128(x) => (4, x as u128),
        ConstInt::I8(x) => (5, x as i128 as u128), ConstInt::I16(x) => (6, x as i128 as u128), ConstInt::I32(x) => (7, x as i128 as u128), ConstInt::I64(x) => (8, x as i128 as u128), ConstInt::I128(x) => (9, x as u128) })
}
fn raw(bits: u32) -> u128 { let mut v = 0u128; for _ in 0..bits / 8 { v = v << 8 | u8s() as u128 } v }
fn mk(k: u8, v: u128) -> ConstInt {
    match k { 0 => ConstInt::U8(v as u8), 1 => ConstInt::U16(v as u16), 2 => ConstInt::U32(v as u32), 3 => ConstInt::U64(v as u64), 4 => ConstInt::U128(v),
        5 => ConstInt::I8(v as i8), 6 => ConstInt::I16(v as i16), 7 => ConstInt::I32(v as i32), 8 => ConstInt::I64(v as i64), _ => ConstInt::I128(v as i128) }
}
fn res(got: Option<(u8, u128)>, k: u8, want: Option<u128>) {
    cover(if want.is_some() { 1 } else { 2 });
    match (got, want) { (None, None) => {} (Some((j, x)), Some(y)) => check(j == k && x == y, 4), _ => check(false, 4) }
}
'''

    def t(name, body, covers=(1, 2), **k):
        p.feh('c_' + name, 'let mut b: Vec<u8> = vec![];\n' + body, covers, **k)

    def put(s):
        return 'b.extend_from_slice(b"%s");\n' % s
    for i, (n, bits, s) in enumerate(TY):
        ty = 'let t = Ty { bits: %d, s: %s };\n' % (bits, 'true' if s else 'false')
        mx = (1 << (bits - (1 if s else 0))) - 1
        for op in OPS:
            o = NM[op]
            # through program text: (X op Y) - Z, and the same with the minuend swapped
            if bits == 8 or op in ('+', '-', '<<', '>>', '&'):
                x = 'let x = dec(&mut b, b"", 2);' if bits == 8 else 'let x = dec(&mut b, b"%s", 2);' % str(mx)[:-2]
                if op in ('<<', '>>', '>>>'):
                    y = 'let y = dec(&mut b, b"", %d);' % (1 if bits == 8 else 2 if bits < 128 else 3)
                else:
                    y = 'let y = dec(&mut b, b"", %d);' % (2 if op != '&' or bits == 8 else 2)
                t('%s_%s' % (n, o), ty + put('type e=enum %s{a=(' % n) + x + put(op) + y + put(')-') + 'let z = dec(&mut b, b"%s", 2);' % ('' if bits == 8 else str(mx)[:-2] if op in ('+', '-') else '') + put('};') +
                  'let v = t.lit(&x, 10).and_then(|x| t.bin("%s", x, t.lit(&y, 10)?)).and_then(|v| t.bin("-", v, t.lit(&z, 10)?));\nexpect(&b, v.is_some());' % op,
                  () if q and bits > 16 else (1, 2) if not (s and op in '/%&|^') else (1,), wall=None)
            # every pair of values
            if op != '>>>' and not (bits > 8 and op in '*/%') or bits == 8 and op != '>>>':
                p.feh('v_%s_%s' % (n, o), ty + 'let x = raw(%d); let y = raw(%d); let want = t.bin("%s", t.wrap(x), t.wrap(y));\nres(flat(std::ops::%s(mk(%d, x), mk(%d, y))), %d, want);' % (bits, bits, op, TR[op], i, i, i),
                      (1,) if op in '&|^' else (1, 2))
        p.feh('v_%s_neg' % n, ty + 'let x = raw(%d); let w = t.wrap(x); let want = if w == 0 { Some(0) } else { t.neg(w) }; res(flat(std::ops::Neg::neg(mk(%d, x))), %d, want);' % (bits, i, i), (1, 2))
        p.feh('v_%s_not' % n, ty + 'let x = raw(%d); res(flat(std::ops::Not::not(mk(%d, x))), %d, Some(t.not(t.wrap(x))));' % (bits, i, i), (1,))
        p.feh('v_%s_cmp' % n, ty + 'let x = raw(%d); let y = raw(%d); let (a, c) = (mk(%d, x), mk(%d, y)); let (x, y) = (t.wrap(x), t.wrap(y)); cover(1);\n' % (bits, bits, i, i) +
              'check((a < c) == t.lt(x, y) && (a > c) == t.lt(y, x) && (a <= c) == !t.lt(y, x) && (a >= c) == !t.lt(x, y) && (a == c) == (x == y) && (a != c) == (x != y), 6);', (1,))
        # conversions: to every type, keeping the low bits
        p.feh('v_%s_cast' % n, ty + '''let x = raw(%d); let w = t.wrap(x); use protospec_build::ScalarType::*; cover(1);
        let c = mk(%d, x);
        let ts = [(U8, 8, false), (U16, 16, false), (U32, 32, false), (U64, 64, false), (U128, 128, false), (I8, 8, true), (I16, 16, true), (I32, 32, true), (I64, 64, true), (I128, 128, true)];
        for (k, (to, bits, s)) in ts.iter().enumerate() { let g = flat(Some(c.cast_to(*to))); check(g == Some((k as u8, Ty { bits: *bits, s: *s }.wrap(w))), 4) }''' % (bits, i), (1,))
    # operations between different types have no value
    p.feh('v_mixed', '''let i = pick(10) as u8; let j = pick(10) as u8; let x = raw(128); let y = raw(128); if i != j { cover(1);
    let (a, c) = (mk(i, x), mk(j, y));
    check((a + c).is_none() && (a - c).is_none() && (a & c).is_none() && (a | c).is_none() && (a ^ c).is_none() && (a << c).is_none() && (a >> c).is_none() && a != c && !(a < c) && !(a > c), 5); }''', (1,))
    u8 = 'let t = Ty { bits: 8, s: false };\n'
    i8 = 'let t = Ty { bits: 8, s: true };\n'
    d = lambda v, n=2: 'let %s = dec(&mut b, b"", %d); let %s = t.lit(&%s, 10);\n' % (v, n, v, v)
    # nesting, references, ternaries, casts
    t('nest', u8 + put('type e=enum u8{a=') + d('x') + put('*') + d('y', 1) + put('+') + d('z') + put('-') + d('w', 3) + put('};') +
      'expect(&b, (|| t.bin("-", t.bin("+", t.bin("*", x?, y?)?, z?)?, w?))().is_some());')
    t('nest2', u8 + put('type e=enum u8{a=') + d('x') + put('-(') + d('y', 1) + put('-') + d('z', 1) + put(')<<') + d('w', 1) + put('};') +
      'expect(&b, (|| t.bin("<<", t.bin("-", x?, t.bin("-", y?, z?)?)?, w?))().is_some());')
    t('neg', i8 + put('type e=enum i8{a=-') + d('x', 3) + put('-') + d('y', 2) + put('};') + 'expect(&b, (|| t.bin("-", t.neg(x?)?, y?))().is_some());')
    t('not', u8 + put('type e=enum u8{a=~') + d('x', 3) + put('-') + d('y', 3) + put('};') + 'expect(&b, (|| t.bin("-", t.not(x?), y?))().is_some());')
    t('ref', u8 + put('const k:u8=') + d('x') + put(';type f=enum u8{q=') + d('y', 1) + put('};type e=enum u8{a=k-f::q:>u8-') + d('z') + put('};') + 'expect(&b, (|| t.bin("-", t.bin("-", x?, y?)?, z?))().is_some());')
    t('count', u8 + put('type f=enum u8{q=') + d('x', 3) + put(',r,s};type e=enum u8{a=f::s:>u8-') + d('z', 3) + put('};') +
      'expect(&b, (|| t.bin("-", t.bin("+", x?, 2)?, z?))().is_some());')
    t('count2', u8 + put('type f=enum u8{q=1,r,s=') + d('x', 3) + put(',u,v=7,w};type e=enum u8{a=f::u:>u8-') + d('z', 3) + put('};') +
      'expect(&b, (|| t.bin("-", t.bin("+", x?, 1)?, z?))().is_some());')
    t('shift', u8 + put('type f=bitfield u8{q=') + d('x', 1) + put(',r,s};type e=enum u8{a=f::s:>u8-') + d('z', 2) + put('};') +
      'expect(&b, (|| t.bin("-", t.bin("<<", x?, 2)?, z?))().is_some());')
    for op, r in [('<', 'x? < y?'), ('>', 'x? > y?'), ('<=', 'x? <= y?'), ('>=', 'x? >= y?'), ('==', 'x? == y?'), ('!=', 'x? != y?')]:
        t('tern_' + {'<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge', '==': 'eq', '!=': 'ne'}[op], u8 + put('type e=enum u8{a=(') + d('x', 1) + put('u8' + op) + d('y', 1) + put('?') + d('z', 1) + put(':') + d('w', 1) + put(')-') + d('v', 1) + put('};') +
          'expect(&b, (|| t.bin("-", if %s { z? } else { w? }, v?))().is_some());' % r)
    t('bool', u8 + put('type e=enum u8{a=(!(') + d('x', 1) + put('u8<5)&&') + d('y', 1) + put('u8<5||') + d('z', 1) + put('u8==7?1:2)-') + d('w', 1) + put('};') +
      'expect(&b, (|| t.bin("-", if !(x? < 5) && y? < 5 || z? == 7 { 1 } else { 2 }, w?))().is_some());')
    t('cast', u8 + put('type e=enum u8{a=(') + 'let x = dec(&mut b, b"", 3); let x = Ty { bits: 16, s: false }.lit(&x, 10);' + put('u16:>u8)-') + d('y', 3) + put('};') +
      'expect(&b, (|| t.bin("-", t.wrap(x?), y?))().is_some());')
    t('cast2', i8 + put('type e=enum i8{a=(') + 'let x = dec(&mut b, b"", 3); let x = Ty { bits: 16, s: false }.lit(&x, 10);' + put('u16:>i8)-') + d('y', 3) + put('};') +
      'expect(&b, (|| t.bin("-", t.wrap(x?), y?))().is_some());')
    t('cast3', i8 + put('type e=enum i16{a=(-') + d('x', 2) + put('i8:>i16)-') + 'let y = dec(&mut b, b"327", 2); let t2 = Ty { bits: 16, s: true }; let y = t2.lit(&y, 10);' + put('};') +
      'expect(&b, (|| t2.bin("-", t.neg(x?)?, y?))().is_some());')
    t('cast4', i8 + put('type e=enum u16{a=(-') + d('x', 3) + put('i8:>u16)-') + 'let y = dec(&mut b, b"65", 3); let t2 = Ty { bits: 16, s: false }; let y = t2.lit(&y, 10);' + put('};') +
      'expect(&b, (|| t2.bin("-", t2.wrap(t.neg(x?)?), y?))().is_some());')
    p.bounds = ['program text: operands of up to 3 free decimal digits (the leading digits fixed near the largest value for wider types), up to 4 operands',
                'the constant operations themselves: every pair of values of every type (multiplication, division and remainder: 8-bit types)']
    return p
