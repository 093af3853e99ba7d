"""Source positions: of every token the first line/column and one past the last, counted from 1, in texts with line breaks anywhere; of every name,
expression and type of the tree where its text starts and ends."""
from fe import *
from p20 import IDS as I20
from p24 import choice, BIN

IDS = dict(I20)
IDS.update({8: 'sum of two spans does not start at the earlier start', 9: 'sum of two spans does not end at the later end',
            10: 'a part of the program is said to start where it does not', 11: 'a part of the program is said to end where it does not'})


def make(tier):
    p = Plan('P21', tier, IDS)
    p.fe = rs('fe_tok.rs') + rs('fe_parse.rs') + 'use rt::*; use rf::*; use rt_tok::*; use rt_parse::cmp_pos;\n'
    q = tier == 'quick'

    def t(name, parts, covers=(1,), strip=False, **k):
        p.feh('t_' + name, text(parts) + 'cmp(&b, %s, true);' % ('true' if strip else 'false'), covers, **k)
    nl = ('set', '\n a;"', 1)
    t('any3', [3], (1, 2))
    t('ws', [('set', '\n ab;\r', 6 if q else 8)])
    t('str', ['a "', ('set', '\nx\\"', 3), '" b'], (1, 2))
    t('line', ['a//', ('set', '\nx ', 3), 'b'])
    t('block', ['a/*', ('set', '\nx*/', 4), '*/ b', 1], (1, 2))
    t('two', ['a/*', ('set', '\nx', 2), '*/ "', ('set', '\nx', 2), '"', ('set', '\n ', 2), 'foo', ('set', '>=-\n', 3), '\n12'])
    t('strip', ['a/*', ('set', '\nx', 2), '*/ //', ('set', '\nx', 2), '\nb', ('set', '\n ', 2), 'c'], (1,), True)
    p.feh('add', '''
    let v: Vec<u64> = (0..8).map(|_| u64s()).collect();
    let a = protospec_build::Span { line_start: v[0], col_start: v[1], line_stop: v[2], col_stop: v[3] };
    let c = protospec_build::Span { line_start: v[4], col_start: v[5], line_stop: v[6], col_stop: v[7] };
    let s = a + c;
    let fa = v[0] < v[4] || (v[0] == v[4] && v[1] <= v[5]);
    let la = v[2] > v[6] || (v[2] == v[6] && v[3] >= v[7]);
    cover(1);
    check(s.line_start == if fa { v[0] } else { v[4] } && s.col_start == if fa { v[1] } else { v[5] }, 8);
    check(s.line_stop == if la { v[2] } else { v[6] } && s.col_stop == if la { v[3] } else { v[7] }, 9);
    ''', (1,))
    # positions in the tree
    two = choice(BIN)

    def n(name, parts, **k):
        p.feh('n_' + name, text(parts) + 'cmp_pos(&b);', (1,), **k)

    def e(name, parts, **k):
        n('e_' + name, ['const a:u8='] + parts + [';'], **k)
    g = ('set', '\n ', 1)
    e('b2', ['a', g, two, g, 'b', two, 'c'])
    e('par', ['((a', two, '(b)', g, ')', g, two, g, 'c)'])
    e('par2', ['(a)', g, two, '((b', two, 'c', g, '))'])
    e('un', [choice(['-', '!', '~']), g, choice(['-', '!', '~', '']), 'a', two, g, choice(['-', '!', '~']), g, 'b'])
    e('cast', ['a', choice(['', '+b', '.b', '[1]', '*b']), g, ':>', g, choice(['u16', 'i8[2]', 'T', 'T(1)', 'bool', 'container{ x:u8}', 'enum u8{a=1}']), choice(['', '+c', '?:d', ':>u8', '==e'])])
    e('tern', ['a', choice(['', '||b', '+1']), g, '?', g, choice(['b', '(b?c:d)', 'b:>u8', 'b||c']), g, ':', choice(['c', 'c+d', '(c?d:e)', '-c', 'c||d'])])
    e('post', ['a', choice(['', '(1)', '()', '(b,)', '(b,c)', '(b,(c+ 1)\n)']), g, choice(['[0]', '.b', '[0][1]', '.b.c', '[b.c].d', '[b+1 ]']), g, choice(['', '.x', '[b]', '+c', '?c:d'])])
    e('prim', [g, choice(['1', '0x1', '1u8', '1 u16le', '"s"', '"s\n"', 'true', 'false', 'a', 'a::b', 'a:: b', 'f(1)', 'f( 1\n)', '(a)', '((a))']), g, two, g, 'b'])
    e('text', ['"', ('set', '\nx', 3), '"', g, '+b'])
    e('note', ['a/*', ('set', '\nx', 2), '*/+//', ('set', 'x ', 1), '\nb', g, '*c'])
    n('args', ['type a(', choice(['', 'x:u8', 'x :u8?1', 'x:T[2]?1+2', 'x:u8,']), g, choice(['y:u8', 'y: u8 ?(2)', 'y:\nT']), g, ')=u8;'])
    n('type', ['type', g, ' a=', g, choice(['u8', 'u16le', 'f32', 'bool', 'T', 'T()', 'T(1)', 'T(1,b)']), choice(['', '[1]', '[..]', '[..3]', '[a+1]', '[1][2]', '[..][a]']), g, choice(['', '=1', '+f', '{a}', '->x', '=1+2']), ';'])
    n('field', ['type a=container{f:u8', choice(['', '=1', '=a==b']), g, choice(['', '+au', '+a+b']), choice(['', '{b}', '{a==1}']), g, choice(['', '->t', '->t(1)', '->t(1,b){c}', '->t->u{d}']), ',', g, '.pad:', g, 'a+1};'])
    n('cont', ['type a=container', choice(['', '[l]', '[1+2]']), choice(['', '+tagged_enum']), '{', g, choice(['x:u8', '.pad:1', 'x:container{y:u8 }']), ',', g, choice(['y:u8[x]', 'y:T{(x)}']), '};'])
    n('enum', ['type a=', choice(['enum u8', 'enum u16le', 'bitfield u8']), '{a=', g, choice(['1', 'b+1', 'c::d', '(1)']), ',', g, 'b', choice(['', ',c', ',c=1', ',c=(a|b)']), g, '};'])
    n('decl', ['import', g, ' a', choice(['', ' as b']), ',', g, 'c', g, 'from', g, '"d";import_ffi', g, ' e as type;const f:', g, 'u8=', g, 'g;'])
    p.bounds = ['texts of up to 15 bytes in the listed shapes, line breaks at every free position; every pair of spans']
    return p
