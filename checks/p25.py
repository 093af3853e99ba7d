"""The compiler answers every text: tokenizer, parser and analysis return for any text, and code generation for well-typed programs, in a number of
steps that does not explode with the nesting of the text, and without a panic."""
from fe import *
from p24 import choice
from p23 import REL, AR, NM, NP
IDS = {}
# names of every kind
ENV = 'import_ffi v32 as type;import_ffi utf8 as type;import_ffi gzip as transform;import_ffi pad as function;const k:u8=1;type e=enum u8{p=1,d=default};type b=bitfield u8{f=1};type g(y:u8)=u8[y];type al=u8;'
NAMES = ['k', 'e', 'b', 'g', 'al', 'v32', 'utf8', 'gzip', 'pad', 'len', 'blen', 'x', 'n', 'h', 't', 'zz']


def make(tier):
    p = Plan('P25', tier, IDS)
    p.fe = rs('fe_type.rs') + 'use rt::*; use rf::*; use rt_type::*;\n'
    q = tier == 'quick'
    N, ALL = 12, 39

    def t(name, pos, e, covers=(2, 3), **k):
        pos = '[%s][pick(%d) as usize]' % (', '.join(map(str, pos)), len(pos)) if len(pos) > 1 else str(pos[0])
        p.feh('t_' + name, 'let pos = %s;\nlet e = %s;\ngen(&e, pos, %s);' % (pos, e, 'pick(2) == 1' if not q else 'false'), covers, **k)

    def x(name, parts, covers=(), **k):
        p.feh('x_' + name, text(parts) + 'total(&b);', covers, **k)
    # code generation; without blen(), which only the length of a later container can take
    nb = 'Ex::A({ let i = pick(38) as usize; if i >= 35 { i + 1 } else { i } })'
    for i in range(NP):
        t('atom_%d' % i, [i], nb)
    n = N if q else 35
    t('rel', [0], 'Ex::Bin(["<", "==", ">="][pick(3) as usize], b(atom(%d)), b(atom(%d)))' % (n, n))
    t('ar', [1, 7], 'Ex::Bin(["+", "<<", "?:", ">>>"][pick(4) as usize], b(atom(%d)), b(atom(%d)))' % (n, n))
    t('cast', [0], 'Ex::Bin("==", b(Ex::Cast(b(%s), pick(8) as usize)), b(Ex::A([0, 1, 2, 3, 5][pick(5) as usize])))' % nb)
    t('un', [0, 1, 2], 'Ex::Un(["!", "-", "~"][pick(3) as usize], b(%s))' % nb)
    t('idx', [0, 1, 7], 'Ex::Idx(b(Ex::A([2, 3, 8, 27, 11][pick(5) as usize])), b(%s))' % nb)
    t('tern', [1], 'Ex::Tern(b(Ex::A(2)), b(atom(%d)), b(atom(%d)))' % (N, N))
    # code generation for uses with any number of arguments
    ar = choice(['', '()', '(1)', '(x)', '(v)', '(1,2)', '(x,1)', '(1,2,3)'])
    for i, (a, c) in enumerate([('type t=container{x:u8,v:u8[2],y:u64=', '};'), ('type t=container{x:u8,v:u8[2],z:u8[', ']};'), ('type t=container{x:u8,v:u8[2],z:', '};'), ('type t=container{x:u8,v:u8[2],z:', '[2]};')]):
        f = choice(['len', 'pad', 'bits', 'sum'] if i < 2 else ['g0', 'g1', 'g2', 'g3', 'g4'])
        p.feh('args_%d' % i, text(['import_ffi pad as function;import_ffi bits as function;import_ffi sum as function;type g0=u8;type g1(k:u8)=u8;type g2(k:u8?2)=u8[k];type g3(k:u8,n:u8?3)=u8[n];type g4(k:u8?2,n:u8)=u8[k];', a, f, ar, c]) +
              'if %s { let r = compiled(&b, %s); observe(r); cover(r as u32) }' % ('b.windows(6).any(|w| w == b"sum(x)" || w == b"sum(1)") == false' if i < 2 else 'true', 'pick(2) == 1' if not q else 'false'), (2, 3))
    # analysis: a name of every kind in every place
    nm = choice(NAMES)
    for i, (a, c) in enumerate([('type t(n:u8)=container{x:', ',h:u8};'), ('type t(n:u8)=container{x:u8,h:', '(x)};'), ('type t(n:u8)=container{x:u8,h:u8[', ']};'), ('type t(n:u8)=container{x:u8,h:u8=', '};'),
                                ('type t(n:u8)=container{x:u8,h:u8{', '==1}};'), ('type t(n:u8)=container{x:u8,h:u8->', '};'), ('type t(n:u8)=container{x:u8,h:u8->gzip{', '}};'), ('type t(n:u8)=container{x:u8,h:u8=', '(x)};'),
                                ('type t(n:u8)=container{x:u8,h:u8=', '::p:>u8};'), ('type t(n:', ')=container{x:u8,h:u8};'), ('type t(n:u8?', ')=container{x:u8,h:u8};'), ('type t(n:u8)=container{x:u8,.pad:', ',h:u8};'),
                                ('type t(n:u8)=container[', ']{x:u8,h:u8};'), ('const c:u8=', ';type t(n:u8)=container{x:u8,h:u8};'), ('const c:', '=1;type t(n:u8)=container{x:u8,h:u8};'), ('type q=enum u8{a=', ',b};type t(n:u8)=container{x:u8,h:u8};'),
                                ('type q=enum u8{a=', '::p};type t(n:u8)=container{x:u8,h:u8};'), ('type q=bitfield u8{a=', ',b};type t(n:u8)=container{x:u8,h:u8};'), ('type t(n:u8)=container{x:u8,h:u8}+', ';'), ('type t(n:u8)=container +', '{x:u8,h:u8};'),
                                ('type t(n:u8)=container{x:u8,h:u8};import_ffi ', ' as type;'), ('type t(n:u8)=container{x:u8,h:u8};import_ffi ', ' as transform;'), ('type t(n:u8)=container{x:u8,h:u8};import_ffi ', ' as function;'),
                                ('type t(n:u8)=container{x:u8,h:u8};type ', '=u8;'), ('type t(n:u8)=container{x:u8,h:u8};const ', ':u8=2;'), ('type t(n:u8)=container{x:u8,', ':u8};'), ('type t(', ':u8)=container{x:u8,h:u8};'),
                                ('type t(n:u8)=container{x:u8,h:u8};type u=', ';'), ('type t(n:u8)=container{x:u8,h:u8};type u=', '[1];'), ('type t(n:u8)=container{x:u8,h:u8};type u=t(', ');')]):
        x('name_%d' % i, [ENV, a, nm, c])
        x('name2_%d' % i, [ENV, a, nm, choice(['', '', '.f', '[0]', '+1', '(1)', '::d'])[0:2] if q else choice(['', '.f', '[0]', '+1', '(1)', '(1,2)', '::d', '?1:2', ':>u16', '?:1']), c])
    # self reference
    x('self', ['type a=', choice(['a', 'b', 'a[1]', 'b[1]', 'container{x:a}', 'container{x:b}', 'container{x:a[..]}', 'container{x:u8,y:a{x==1}}', 'enum u8{q=a::q}', 'enum u8{q=b::q}', 'bitfield u8{q=a::q}']), ';type b=',
               choice(['a', 'b', 'a[1]', 'container{x:a}', 'container{x:u8,y:b{x==1},z:b{x==2}=y}', 'enum u8{q=a::q}', 'container{x:a,y:b=x}', 'container{x:a,y:a=x}']), ';', 'type c=container{x:a,y:b,z:a=x,w:b=', choice(['x', 'y', 'z']), '};'])
    # one byte of a program replaced, removed
    P1 = 'type e=enum i8{a=-1,b};type t(n:u8?2)=container[n]{x:e,.pad:2,y:u8[n]{x==e::a},z:u64le=len(y)+1};'
    x('mut', [('raw', 'let w = b"%s"; let at = pick(w.len() as u64) as usize; let c = u8s(); assume(c < 128); for (i, x) in w.iter().enumerate() { b.push(if i == at { c } else { *x }) }' % P1)], (1, 2, 3), wall=200)
    x('del', [('raw', 'let w = b"%s"; let at = pick(w.len() as u64) as usize; for (i, x) in w.iter().enumerate() { if i != at { b.push(*x) } }' % P1)], (1, 2, 3))
    x('cut', [('raw', 'let w = b"%s"; let at = pick(w.len() as u64 + 1) as usize; b.extend_from_slice(&w[..at]);' % P1)], (1, 3))
    x('swap', [('raw', 'let w: Vec<&[u8]> = b"%s".split(|c| *c == b\' \').collect(); let at = pick(w.len() as u64 - 1) as usize; let to = pick(w.len() as u64 - 1) as usize; assume(at < to); for i in 0..w.len() { b.extend_from_slice(w[if i == at { to } else if i == to { at } else { i }]); b.push(b\' \') }' %
                        'type e = enum i8 { a = - 1 , b } ; type t ( n : u8 ? 2 ) = container [ n ] { x : e , .pad : 2 , y : u8 [ n ] { x == e :: a } , z : u64le = len ( y ) + 1 } ;')], (1, 2, 3))
    x('dup', [('raw', 'let w: Vec<&[u8]> = b"%s".split(|c| *c == b\' \').collect(); let at = pick(w.len() as u64) as usize; for i in 0..w.len() { b.extend_from_slice(w[i]); b.push(b\' \'); if i == at { b.extend_from_slice(w[i]); b.push(b\' \') } }' %
                       'type e = enum i8 { a = - 1 , b } ; type t ( n : u8 ? 2 ) = container [ n ] { x : e , .pad : 2 , y : u8 [ n ] { x == e :: a } , z : u64le = len ( y ) + 1 } ;')], (1, 3))
    # nesting: the number of steps is bounded (rejected and accepted variants)
    D = 34
    for name, pre, op, mid, cl, post in [
            ('un', 'type t=container{x:u8{', ['!', '-', '~', '!!'], ['true', '1', 'x', 'zz', '1==1'], '', '}};'),
            ('par', 'type t=container{x:u8,y:u8=', ['(', '((', '-(', '1+(', 'x+('], ['1', 'x', 'zz'], ')', '};'),
            ('left', 'type t=container{x:u8,y:u8=', [''], ['1', 'x', 'zz', 'true'], ['+x', '*2', '==x', '<x', '&&true', '<<1', '?:x', ':>u8', '||zz', '==zz', '+zz'], '};'),
            ('leftc', 'type t=container{x:u8,z:bool,y:u8{', [''], ['1', 'x', 'zz', 'z', '(x<zz)'], ['+x', '*2', '==x', '<x', '&&true', '==z', '!=z', '||zz', '==zz', '<1'], '}};'),
            ('tern', 'type t=container{x:u8,y:u8=', ['x==1?1:(', '(x==1)?', 'zz?1:(', 'true?x:('], ['1', 'zz', 'true'], None, '};'),
            ('arr', 'type t=u8', [''], [''], ['[1]', '[..]', '[zz]', '[k]'], ';'),
            ('cont', 'type t=', ['container{x:'], ['u8', 'zz'], '}', ';'),
            ('type', 'type a(x:u8)=u8;type t=', ['a('], ['1', 'zz', 'true'], ')', ';')]:
        body = text([pre])
        body += choice(op)[1].replace('match pick', 'let k = b.len(); match pick') + '; let o: Vec<u8> = b[k..].to_vec(); for _ in 1..%d { b.extend_from_slice(&o) }\n' % D
        body += choice(mid)[1] + '\n'
        if isinstance(cl, list):
            body += choice(cl)[1].replace('match pick', 'let k = b.len(); match pick') + '; let o: Vec<u8> = b[k..].to_vec(); for _ in 1..%d { b.extend_from_slice(&o) }\n' % D
        elif cl is None:
            body += 'if o[o.len() - 1] == b\'(\' { for _ in 0..%d { b.push(b\')\') } } else { for _ in 0..%d { b.extend_from_slice(b":1") } }\n' % (D, D)
        else:
            body += 'let n = o.iter().filter(|c| **c == b\'(\' || **c == b\'{\').count(); for _ in 0..n * %d { b.extend_from_slice(b"%s") }\n' % (D, cl)
        body += 'b.extend_from_slice(b"%s");\ntotal(&b);' % post
        p.feh('n_' + name, body, (), steps=60000000, depth=4000)
    p.bounds = ['expressions of up to two operators in every position; a name of every kind in 30 places, with a suffix; every single-byte change, deletion, truncation and every exchange or repetition of a token of a listed program; nesting to a depth of %d within 60 million instructions' % D,
                'recursion depth proportional to nesting is allowed']
    return p
