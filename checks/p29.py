"""The order of declarations does not matter: whatever order the declarations of a program stand in (constants and enums in the order of their own), it is
accepted or rejected alike and the same code is generated for every type."""
from fe import *
from itertools import permutations
IDS = {1: 'a program is accepted in one order of its declarations and rejected in another', 2: 'the order of declarations changes the code generated for a type', 3: 'the declarations are programs',
       11: 'witness: an accepted program', 12: 'witness: a rejected program'}
RS = '''
fn prog(t: &str) -> Result<protospec_build::asg::Program, u64> {
    let p = protospec_build::parse(t).map_err(|_| 1u64)?;
    let r = protospec_build::PreludeImportResolver(protospec_build::NullImportResolver);
    protospec_build::asg::Program::from_ast(&p, &r).map_err(|_| 2u64)
}
/// the items of the generated module, sorted
fn items(t: &str) -> Vec<&str> {
    let b = t.as_bytes();
    let (mut d, mut i, mut s, mut out) = (0i32, 0usize, 0usize, vec![]);
    while i < b.len() {
        match b[i] {
            b'"' => { i += 1; while b[i] != b'"' { if b[i] == b'\\\\' { i += 1 } i += 1 } }
            b'{' => { d += 1; if d == 1 { s = i + 1 } }
            b'}' => { d -= 1; if d == 1 { out.push(&t[s..i + 1]); s = i + 1 } }
            b';' => if d == 1 { out.push(&t[s..i + 1]); s = i + 1 },
            _ => (),
        }
        i += 1;
    }
    out.sort();
    out
}
/// with any digits where `#` stands
fn digits(t: &'static str) -> &'static str {
    let mut v = vec![];
    for b in t.bytes() {
        v.push(if b == b'#' { let c = u8s(); assume(c >= 48 && c < 58); c } else { b });
    }
    let v: &'static [u8] = v.leak();
    unsafe { std::str::from_utf8_unchecked(v) }
}
fn order(ds: &[&str], perm: &[u8], gen: bool) {
    let mut a = String::new();
    let mut b = String::new();
    for d in ds { a.push_str(d); a.push(' ') }
    for i in perm { b.push_str(ds[*i as usize]); b.push(' ') }
    let (x, y) = (prog(&a), prog(&b));
    check(!matches!(x, Err(1)) && !matches!(y, Err(1)), 3);
    observe(x.is_ok() as u64 * 2 + y.is_ok() as u64);
    check(x.is_ok() == y.is_ok(), 1);
    cover(if x.is_ok() { 11 } else { 12 });
    if let (Ok(x), Ok(y)) = (x, y) {
        check(x.types.len() == y.types.len(), 2);
        if gen {
            let o = protospec_build::compiler::CompileOptions::default();
            let (x, y) = (protospec_build::compiler::compile_program(&x, &o).to_string(), protospec_build::compiler::compile_program(&y, &o).to_string());
            observe(x.len() as u64);
            check(items(&x) == items(&y), 2);
        }
    }
}
'''


def make(tier):
    p = Plan('P29', tier, IDS)
    p.fe = 'use rt::*; use rf::*;\n' + RS
    q = tier == 'quick'

    def perms(n, fixed):
        """orders of n declarations; those in `fixed` keep the order they have"""
        out = [x for x in permutations(range(n)) if list(x) != list(range(n)) and [i for i in x if i in fixed] == sorted(fixed)]
        return out

    def t(name, ds, gen, covers=(11, 12), fixed=(), cap=8 if q else None, **k):
        """ds: text, or a list of alternatives"""
        ps = perms(len(ds), fixed)
        if cap and len(ps) > cap:
            ps = ps[::len(ps) // cap + 1] + [tuple(reversed(range(len(ds))))] * (not fixed)
        dg = lambda d, t: 'digits(%s)' % t if '#' in str(d) else t
        s = 'let ds: [&str; %d] = [%s];\n' % (len(ds), ', '.join(dg(d, '"%s"' % d if isinstance(d, str) else '[%s][pick(%d) as usize]' % (', '.join('"%s"' % x for x in d), len(d))) for d in ds))
        s += 'let ps: [[u8; %d]; %d] = [%s];\n' % (len(ds), len(ps), ', '.join('[%s]' % ', '.join(map(str, x)) for x in ps))
        s += 'order(&ds, &ps[pick(%d) as usize], %s);' % (len(ps), 'true' if gen else 'false')
        p.feh('o_' + name, s, covers, steps=60000000, **k)
    B = ['a', 'u8', 'e', 'a[2]', 'bf', 'container{q:u8}', 'v8', 'nope', 'utf8[2]', 'u16le', 'b']
    EX = ['x == 1', 'x', 'x + 1 == 2', '!x', 'x[0] == 1', 'x.F', 'x == e::P', 'len(x) == 1', 'x < 3', '(x :> u32) == 1', 'x == K']
    X = ['type c = container { x: b, y: bool = %s };' % e for e in EX]
    t('expr', ['type a = u16;', ['type b = %s;' % x for x in B], X, 'type e = enum u8 { P = 1, Q };'], False, wall=200)
    t('expr_ffi', ['import_ffi v8 as type;', ['type b = %s;' % x for x in ['v8', 'bf', 'e', 'u8']], X, 'type bf = bitfield u8 { F = 1, G };'], False, wall=200)
    t('expr_k', ['const K: u8 = 2;', ['type b = %s;' % x for x in ['u8', 'u16', 'a']], X, 'type a = u8;'], False, fixed=(), wall=200)
    t('pos', ['type a = u8;', 'type b = a;', ['type c = container { x: b, y: u8%s };' % s for s in ['[x]', '[b]', '{ x == 1 }', '{ x }', ' = x', ' = true', '[x][x]', ' = x + 1', ' = x :> u16', '[x + y]']] +
              ['type c(k: b) = container { x: u8[k] };', 'type c(k: b) = container { x: u8 { k } };', 'type c(k: a, l: b) = container { x: u8 { k == l } };', 'type c = container [b] { x: u8 };', 'type c(k: b) = container [k] { x: u8 };']], False)
    t('args', ['type t(n: u8) = container { v: u8[n] };', ['type u = container { n: a, t: t(%s) };' % x for x in ['n', '1', 'true', 'e::P', 'n + 1', '', 'n, n', 'n == 1', '(n :> u8)', 'a', 'e', 't']], ['type a = u8;', 'type a = u16;', 'type a = t;', 'type a = e;', 'type a = bool;'],
               'type e = enum u8 { P = 1, Q };'], False, wall=200)
    t('dflt', [['type k = u8;', 'type k = u16;', 'type k = bool;', 'type k = e;', 'type k = f32;'], ['type kk = k;', 'type kk = kkk; type kkk = k;'], ['type t(n: kk ? %s) = u8[2];' % x for x in ['1', 'true', 'e::P', '300', '1u8', 'K']] + ['type t(n: kk) = u8[n];', 'type t(n: kk) = u8[n == 1 ? 1 : 2];', 'type t(n: kk) = u8 { n };', 'type t(n: kk) = u8 { n == e::P };'], 'type e = enum u8 { P = 1, Q }; const K: u8 = 2;', ['type w = t(%s);' % x for x in ['', '2', 'e::Q', 'false', 'K']]], False, cap=3 if q else 60, wall=300)
    t('ffi', [['import_ffi gzip as transform;', 'import_ffi gzip as type;', 'import_ffi nope as transform;'], ['type z = container { a: u8[..] -> gzip };', 'type z = y;', 'type z = u8[..] -> gzip;'], ['type y = u8[..] -> gzip;', 'type y = z[2];', 'type y = u8;']], False)
    t('redef', ['type a = u8;', ['type a = u8;', 'type b = u8;', 'const a: u8 = 1;', 'import_ffi v8 as type;', 'import_ffi utf8 as type;'], ['type c = a;', 'type c = b;', 'type utf8 = u8;', 'type v8 = u16;', 'const a: u8 = 2;']], False)
    t('cyc', [['type a = %s;' % x for x in ['b', 'b[2]', 'container { n: u8, b: b { n == 1 } }', 'c']], ['type b = %s;' % x for x in ['a', 'c', 'container { m: u8, a: a { m == 1 }, c: c[m] }', 'u8']], ['type c = %s;' % x for x in ['u8[..]', 'a', 'b', 'container { a: a[..] }']]], False)
    # with any numbers
    t('n_args', [['type t(n: u8 ? ###) = container { v: u8[n] };', 'type t(n: k ? 1, m: i8 ? -###) = container { v: u8[n] };'], ['type u = container { t: t(2##) };', 'type u = container { t: t(2##, 1##) };', 'type u = container { t: t };'], 'type k = u8;'], False, wall=200)
    t('n_enum', [['const K: u8 = 1##;', 'const K: u16 = ###;'], ['type e = enum u8 { P = ###, Q };', 'type e = enum i8 { P = -1##, Q = 1## };', 'type e = enum u8 { P = ###, Q = K };'], ['type c = container { x: e, y: u8 = 2## { x == e::Q } };', 'type c(k: e ? e::P) = container { x: u8[K] { k == e::P }, y: bool = 2## == K };']], False, fixed=(0, 1), cap=4, wall=200)
    t('n_len', [['type a = u8[###];', 'type a = container [##] { x: u8[###] };'], ['type b = container { n: u8, x: a, y: u8[n + ###] };', 'type b = container { n: u8, x: u8[n * 3##], y: u8[n > 2##] };', 'type b = container { n: i8, x: a { n == 1## } };'], 'type d = b;'], False, wall=200)
    cap = 6 if q else 24
    t('g_alias', ['type a = u8;', 'type b = a;', ['type c = container { x: b, y: u8[x], z: a = x };', 'type c = container { x: b[2], y: u8 { x[1] == 2 } };', 'type c = container { n: b, x: container { y: b } { n == 1 } };'], 'type d = c[2];'], True, (11,), cap=cap, wall=200)
    t('g_args', ['type t(n: a, k: u8 ? 2) = container { v: u8[n + k] };', ['type u = container { n: a, t: t(n), s: t(n, 1) };', 'type u(m: a) = container +tagged_enum { x: t(m) { m == 1 }, y: u8 };'], 'type a = u8;', 'type w = t(3);'], True, (11,), cap=cap, wall=200)
    t('g_enum', ['type e = enum u8 { P = 1, Q };', 'type b = bitfield u16le { F = 1, G };', ['type c = container { x: e, y: u8 { x == e::Q }, z: b, w: u8 { z.F } };', 'type c = container { x: e[2], z: b[..] };'], 'type d(k: e) = container { v: u8 { k == e::P } };'], True, (11,), cap=cap, wall=200)
    t('g_ffi', ['import_ffi gzip as transform;', 'import_ffi v32 as type;', ['type c = container { n: v32, v: u8[..] -> gzip };', 'type c = container { n: v32, v: v32[2], s: utf8 };'], 'import_ffi utf8 as type;', 'type d = container { s: utf8[4] };'], True, (11,), cap=cap, wall=200)
    t('g_rec', ['type a = container { n: u8, b: b { n == 1 } };', 'type b = container { m: u8, a: a[m], c: c };', 'type c = u8[3];', 'type d = a;'], True, (11,), cap=cap, wall=200)
    p.bounds = ['programs of 3 to 5 declarations out of listed alternatives (some with numbers of any two or three digits) in every order (with code generation: %d orders each)' % cap, 'constants and enums keep their order among each other: they are evaluated in the order they are written']
    return p
