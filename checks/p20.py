"""The tokenizer against a reference written from the language's description: every ASCII text of a few bytes, plus targeted shapes
(operators, keywords with a changed or an added byte, strings with escapes, comments, integers, text outside ASCII), comments kept and stripped."""
from fe import *

IDS = {1: 'a well-formed text is rejected', 2: 'a malformed text is accepted', 3: 'wrong number of tokens', 4: 'wrong token', 5: 'wrong token contents',
       6: 'wrong tokens when comments are stripped', 7: 'wrong span'}
KEYS = "type as import import_ffi i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 i16le i32le i64le i128le u16le u32le u64le u128le transform function const container f32 f64 enum default bitfield bool from true false".split()


def make(tier):
    p = Plan('P20', tier, IDS)
    p.fe = rs('fe_tok.rs') + 'use rt::*; use rf::*; use rt_tok::*;\n'
    q = tier == 'quick'

    def t(name, parts, covers=(1,), strip=False, **k):
        p.feh('t_' + name, text(parts) + 'cmp(&b, %s, false);' % ('true' if strip else 'false'), covers, **k)
    for n in range(0, (3 if q else 4) + 1):
        t('any%d' % n, [n], (1,) if n == 0 else (1, 2))
    t('strip', [3 if q else 4], (1, 2), True)
    t('ops', [('set', '<>=-.:?|&/*!', 4 if q else 5)])
    t('comment', ['//', 3, '\n', 1], (1,))
    t('comment_end', ['a//', 2])
    t('block', ['/*', ('set', '*/a\n', 4 if q else 6)], (1, 2))
    t('block2', ['a/*', ('set', '*/a\n', 3), '*/b'], (1, 2))
    t('block3', ['/*', 2, '*/', 1], (1, 2))
    t('strip_mix', ['a/*', 1, '*/b//', 1, '\nc', 1], (1,), True)
    t('str', ['"', ('set', '"\\aF0 g\n', 4 if q else 6), '"'], (1, 2))
    t('str_esc', ['"\\', 2, '"'], (1, 2))
    t('str_esc2', ['"\\', ('rng', 0x30, 0x66, 2), 1, '"a"'], (1, 2))
    t('str_any', ['"', 2, '" "', 1], (1, 2))
    t('str_end', ['"', ('set', '"\\a0', 3)], (1, 2))
    t('int', [('set', '0123456789', 1), ('set', '0x9aAfFgG_.', 4)], (1,))
    t('hex', ['0x', 2, 'z'], (1, 2))
    t('ident', [('set', 'azAZ_', 1), 2], (1, 2))
    t('space', ['a', ('set', ' \t\r\n\x0c\x0b', 3), 'b'], (1, 2))
    # text outside ASCII: fine in strings and comments, rejected elsewhere
    u2 = ('raw', 'let c = u8s(); assume(c >= 0xc2 && c <= 0xdf); b.push(c); let d = u8s(); assume(d >= 0x80 && d <= 0xbf); b.push(d);')
    t('utf8_str', ['"', u2, '"'])
    t('utf8_line', ['a//', u2, '\nb'])
    t('utf8_block', ['/*', u2, '*/', u2], (2,))
    t('utf8_bare', [u2], (2,))
    t('utf8_ident', ['a', u2], (2,))
    for k in KEYS:
        t('kw_%s' % k, [1, k, 1], (1, 2))
        t('km_%s' % k, [('raw', 'let w = b"%s"; let at = pick(w.len() as u64) as usize; let c = u8s(); assume(c < 128); for (i, x) in w.iter().enumerate() { b.push(if i == at { c } else { *x }) }' % k)], (1, 2))
    p.bounds = ['every ASCII text of up to %d bytes; longer texts only in the listed shapes, with up to 6 free bytes' % (3 if q else 4)]
    return p
