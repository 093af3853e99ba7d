"""The parser against a reference recursive-descent parser (own tokenizer, own tree): which texts are programs and which tree they denote —
operator precedence and associativity, literals, calls, types and lengths, containers, fields, enums, declarations."""
from fe import *

IDS = {1: 'a program of the language is rejected', 2: 'a text which is not a program is accepted', 3: 'the tree differs (precedence, associativity, order or contents)'}
OPC = '<>=-:?|&/*!+%^'
BIN = ['<', '>', '<=', '>=', '==', '!=', '||', '&&', '|', '&', '^', '>>', '<<', '>>>', '+', '-', '*', '/', '%', '?:']


def choice(words):
    """one word out of a list, chosen by a symbolic index"""
    return ('raw', 'match pick(%d) { %s _ => {} }' % (len(words), ' '.join('%d => b.extend_from_slice(b"%s"),' % (i, w.replace('\\', '\\\\').replace('"', '\\"')) for i, w in enumerate(words))))


def make(tier):
    p = Plan('P24', tier, IDS)
    p.fe = rs('fe_tok.rs') + rs('fe_parse.rs') + 'use rt::*; use rf::*; use rt_parse::*;\n'
    q = tier == 'quick'

    def t(name, parts, covers=(1, 2), **k):
        p.feh('g_' + name, text(parts) + 'cmp_parse(&b);', covers, **k)

    def e(name, parts, covers=(1, 2), **k):
        t('e_' + name, ['const a:u8='] + parts + [';'], covers, **k)
    o1 = ('set', OPC, 1)
    two = choice(BIN)
    e('b2', ['a', two, 'b', two, 'c'], (1,))
    e('b3', ['a', two, 'b', choice(['*', '+', '<<', '<', '==', '&', '^', '|', '&&', '||']), 'c', two, 'd'] if q else ['a', two, 'b', two, 'c', two, 'd'], (1,))
    e('par', ['(a', two, 'b)', two, 'c'], (1,))
    e('par2', ['a', two, '(b', two, 'c)'], (1,))
    e('sym2', ['a', ('set', OPC, 2), 'b', ('set', OPC, 1), 'c'])
    e('un', [choice(['-', '!', '~', '']), choice(['-', '!', '~', '']), 'a', two, choice(['-', '!', '~', '']), 'b'], (1, ))
    e('cast', ['a', choice(['', '+b', '.b', '[1]', '*b']), ':>', choice(['u16', 'i8[2]', 'T', 'T(1)', 'bool']), choice(['', '+c', '?:d', ':>u8', '==e', '[1]'])], (1,))
    e('tern', ['a', choice(['', '||b', '+1']), '?', choice(['b', 'b?c:d', 'b:>u8', 'b||c']), ':', choice(['c', 'c+d', 'c?d:e', '-c', 'c||d'])])
    e('post', ['a', choice(['', '(1)', '(', '()', '(b,)', '(b,c)']), choice(['[0]', '.b', '[0][1]', '.b.c', '[b.c].d', '[', '.1']), choice(['', '.x', '[b]'])])
    e('prim', [choice(['1', '0x1', '1u8', '1u16le', '"s"', 'true', 'false', 'a', 'a::b', 'f(1)', '(a)', '((a))', '()', 'type', 'a::1', '']), two, 'b'])
    e('suffix', ['1', choice(['', ' ', 'u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128', 'u16le', 'u32le', 'u64le', 'u128le', 'i16le', 'i32le', 'i64le', 'i128le', 'f32', 'f64', 'bool', 'x'])])
    e('free', ['a', 3 if q else 4, 'b'])
    e('free2', [('set', 'a1(["-!?', 1), 2])
    t('decl', [choice(['type', 'const', 'import', 'import_ffi', 'enum', 'x', '']), choice([' a', '', ' type']), choice([' as type', ' as function', ' as transform', ':u8=1', '=u8', ' from "x"', ' as b from "x"', ',b from "x"', ',from "x"', ' as u8', '']), choice([';', '', ';;'])])
    t('args', ['type a(', choice(['', 'x:u8', 'x', 'x:u8?1', 'x:T[2]?1+2', 'x:u8,', ',']), choice(['', ',y:u8', ',y:u8?2', ',']), choice([')', '', '))']), '=u8;'])
    t('type', ['type a=', choice(['u8', 'u16le', 'i128', 'f32', 'f64', 'bool', 'T', 'T()', 'T(1)', 'T(1,b)', 'T(', 'type']), choice(['', '[]', '[1]', '[..]', '[..3]', '[a+1]', '[1][2]', '[..][a]', '[']), choice(['', '=1', '+f', '{a}', '->x', '=1+2']), ';'])
    t('field', ['type a=container{f:u8', choice(['', '=1', '=a==b']), choice(['', '+au', '+a+b', '+']), choice(['', '{b}', '{a==1}', '{', '{}']), choice(['', '->t', '->t(1)', '->t(1,b){c}', '->t->u{d}', '->', '->t{']), choice(['', ',', ',,', ',g:u8']), '};'])
    t('cont', ['type a=container', choice(['', '[l]', '[1+2]', '[]', '[..]']), choice(['', '+tagged_enum', '+']), '{', choice(['', 'x:u8', '.pad:1', '.pad:a+1', '.pads:1', '.pad', 'x:container{y:u8}', 'x']), choice(['', ',', ',y:u8[x]']), '};'])
    t('enum', ['type a=', choice(['enum u8', 'enum u16le', 'enum', 'enum f32', 'bitfield u8', 'bitfield i32le', 'bitfield']), '{', choice(['a=1', 'a', 'a=default', '', 'a=b+1']), choice(['', ',', ',b', ',b=2', ',b=default', ',b,']), choice(['', ',c', ',c=1,']), '};'])
    t('mut', [('raw', 'let w = b"type a=u8[..2]{b};const c:u8=1;"; let at = pick(w.len() as u64) as usize; let c = u8s(); assume(c < 128); for (i, x) in w.iter().enumerate() { b.push(if i == at { c } else { *x }) }')])
    t('mut2', [('raw', 'let w = b"type a=container[l]{x:T(1),.pad:2,y:u8=x->t(2){z}};"; let at = pick(w.len() as u64) as usize; let c = u8s(); assume(c < 128); for (i, x) in w.iter().enumerate() { b.push(if i == at { c } else { *x }) }')])
    t('cut', [('raw', 'let w = b"import a as b,c from \\"d\\";import_ffi e as type;type f(g:u8?1)=container[h]+i{j:enum u8{k=1,l=default}[..m]=n?o:p{q}->r(s){t},.pad:u(v)[w].x};"; let at = pick(w.len() as u64 + 1) as usize; b.extend_from_slice(&w[..at]);')])
    t('del', [('raw', 'let w = b"type f(g:u8?1)=container[h]+i{j:T[..m]=n?o:p{q}->r(s){t},.pad:u(v)[w].x};"; let at = pick(w.len() as u64) as usize; for (i, x) in w.iter().enumerate() { if i != at { b.push(*x) } }')])
    p.bounds = ['expressions of up to 4 operands with every combination of operators; declarations of one construct with every combination of the listed parts; every single-byte change, deletion and truncation of three programs']
    return p
