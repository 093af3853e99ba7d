"""Errors of the analysis: programs with one mistake, between any line breaks and comments; what the error says and points at."""
from fe import *

PROGS = ['type e = enum i8 { a = - 1 , b = default } ; type f = bitfield u16le { a = 1 , b , c = 0x4 } ;', 'type t ( n : u8 ? 2 , m : bool ? true ) = container [ n ] { x : e , .pad : 2 , y : u8 [ n ] { x == e :: a } , } ;',
         'import a , b as c from "q" ; import_ffi xf as transform ; const k : u8 = ( 1 + 2 ) * k :> u8 ;', 'type t = container + tagged_enum { a : al ( 1 , 2 ) [ .. "x" ] { n . m [ 1 ] } , b : v ( ) + auto { p } -> xf ( 1 ) { ! x } -> yf , c : u8 = f ( 1 , g ( ) ) } ;',
         'type u = utf8 [ .. ] -> xf ; const k : u64le = a ?: - b || c ^ d & e <= f << g % h ? ( i ? 1 : 2 ) : ~ 3 ;']
TOKS = ['}', '(', ';', ',', ':', 'zz', '1', 'u8', 'container', '"s"', '==', '[', '{', '.', '::', 'as', 'true', '=', '-', '->', '..', 'enum', 'import', 'type', '?']
IDS = {9: 'the beginning of a program is never unexpected', 10: 'the error is not before the mistake', 11: 'the error points at the token it names', 12: 'errors of the parser are of the expected kinds', 1: 'the programs are of the grammar', 2: 'a program with a mistake is rejected', 3: 'the error is of the kind of the mistake', 4: 'the error names what is wrong', 5: 'the error points at the beginning of what is wrong', 6: 'the error points at the end of what is wrong',
       7: 'the original is where the error says it begins', 8: 'the original is where the error says it ends'}
PRE = 'import_ffi xf as transform; import_ffi fun as function; const k: u8 = 1;~type e = enum u8 { p = 1, d = default };~type b = bitfield u8 { f = 1 };~type al(n: u8) = u8[n];~'
# «what is wrong», ‹the original›, ~ any white space
FIELDS = [
    ('x: «zz»', 'UnresolvedType', 'zz'), ('x: «zz»[3]', 'UnresolvedType', 'zz'), ('x: al(«zz»)', 'UnresolvedVar', 'zz'), ('x: u8[«zz»]', 'UnresolvedVar', 'zz'), ('x: u8[2][1 +~«zz»]', 'UnresolvedVar', 'zz'), ('x: u8 = 1 +~«zz»', 'UnresolvedVar', 'zz'),
    ('x: u8 { q ==~«zz» }', 'UnresolvedVar', 'zz'), ('x: u8 { «zz» }', 'UnresolvedVar', 'zz'), ('x: u8 ->~«zz»', 'UnresolvedTransform', 'zz'), ('x: u8 -> xf(«zz»)', 'UnresolvedVar', 'zz'), ('x: u8 -> xf { «zz» }', 'UnresolvedVar', 'zz'), ('x: u8 -> xf -> «zz»(1) -> xf', 'UnresolvedTransform', 'zz'),
    ('x: bool = «zz»(1)', 'UnresolvedFunction', 'zz'), ('x: bool = fun(«zz»)', 'UnresolvedVar', 'zz'), ('x: bool = fun(«true»)', 'UnexpectedType', ''), ('x: e = «zz»::p', 'UnresolvedType', 'zz'), ('x: e = e::«zz»', 'UnresolvedEnumVariant', 'zz'), ('x: e = e::«d»', 'ReferencedDefaultEnumVariant', 'd'),
    ('x: b = b::«zz»', 'UnresolvedBitfieldVariant', 'zz'), ('x: bool = bf.«zz»', 'BitfieldMemberUndefined', 'zz'), ('x: bool = «q».zz', 'UnexpectedType', ''), ('x: u8~+«zz»', 'InvalidFlag', 'zz'), ('x: container +«zz» { y: u8 }', 'InvalidFlag', 'zz'),
    ('x: u8 = «true»', 'UnexpectedType', ''), ('x: u8 = «q ==~1»', 'UnexpectedType', ''), ('x: u8 { «q» }', 'UnexpectedType', ''), ('x: u8[«bo»]', 'UnexpectedType', ''), ('x: u8 = «256»', 'InvalidInt', '256'), ('x: i8 = «128»i8', 'InvalidInt', '128'), ('x: u8[«-1»]', 'UnexpectedType', ''),
    ('x: bool = «!~q»', None, ''), ('x: u8 = «w»', 'UnexpectedType', ''), ('x: al(«w»)', 'UnexpectedType', ''), ('x: u32 = w + q + «bo»', 'UnexpectedType', ''), ('x: u8 = (q ==~1) ?~«w» : q', 'UnexpectedType', ''), ('x: u8 = «w»~? 1 : 2', 'UnexpectedType', ''),
    ('x: u8 = («bo~:>~u8»)', 'IllegalCast', ''), ('x: «enum~u8 {~a = 1 }»', 'MustBeToplevel', ''), ('x: «bitfield~u8 {~a = 1 }»', 'MustBeToplevel', ''), ('x: «container~+tagged_enum { y: u8~}»', 'MustBeToplevel', ''), ('x: «container {~y: u8 }»[2]', 'InlineRepetition', ''),
    ('«q»: u16', 'ContainerFieldRedefinition', 'q'), ('x: container { ‹a: u8›,~«a»: u16 }', 'ContainerFieldRedefinition', 'a'), ('x: container { y: «zz» }', 'UnresolvedType', 'zz'), ('x: container [«zz»] { y: u8 }', 'UnresolvedVar', 'zz'), ('x: container {~y: u8 } { «zz» }', 'UnresolvedVar', 'zz'),
    ('.pad: «zz»', 'UnresolvedVar', 'zz'), ('.pad: «true»', 'UnexpectedType', ''), ('x: «al»', 'InvalidTypeArgumentCount', ''), ('x: «al(1,~2)»', 'InvalidTypeArgumentCount', ''), ('x: bool = «fun(1,~2)»', 'InvalidFFIArgumentCount', ''), ('x: u8 -> «xf(1,~2)»', 'InvalidFFIArgumentCount', ''),
    ('x: al(1) { q == «al» }', 'UnresolvedVar', 'al'), ('x: u64 = len(«zz»)', 'UnresolvedVar', 'zz'), ('x: u8 = [«zz»]', None, ''), ('x: u8[2], y: u8 = x[«zz»]', 'UnresolvedVar', 'zz'), ('x: bool = q <~«true»', 'UnexpectedType', ''), ('x: e = «b~::~f»', 'UnexpectedType', ''), ('x: b = «e::p»', 'UnexpectedType', ''), ('x: bool = «al::p»', 'UnexpectedType', ''),
]
TOPS = [
    ('type r = «r»', None, ''), ('type r = «zz»', 'UnresolvedType', 'zz'), ('const c: «zz» = 1', 'UnresolvedType', 'zz'), ('const c: u8 = «zz»', 'UnresolvedVar', 'zz'), ('const c: u8 = «true»', 'UnexpectedType', ''), ('type r(n: «zz») = u8', 'UnresolvedType', 'zz'), ('type r(n: u8 ?~«zz») = u8', 'UnresolvedVar', 'zz'),
    ('type r(n: u8 ? «true») = u8', 'UnexpectedType', ''), ('type r(n: u8, «n»: u8) = u8', 'TypeArgumentRedefinition', 'n'), ('type r = enum u8 { a = 1,~«a» = 2 }', 'EnumVariantRedefinition', 'a'), ('type r = enum u8 { a = 1, c = default, «h» = default }', 'EnumDefaultRedefinition', 'h'),
    ('type r = bitfield u8 { ‹a› = 1,~«a» = 2 }', 'BitfieldFlagRedefinition', 'a'), ('type r = enum u8 { «a» =~200 + 100 }', 'InvalidConstValue', 'a'), ('type r = enum u8 { a = 255, «c» }', 'InvalidConstValue', 'c'), ('type r = bitfield u8 { a = 128, «c» }', None, ''), ('type r = enum u8 { a = «zz» }', 'UnresolvedVar', 'zz'),
    ('type r = enum u8 { a = «k2» }', 'UnresolvedVar', 'k2'), ('type r(n: u8) = container +tagged_enum { a: u8,~b: «u8~{ n == 1» } }', 'EnumContainerFieldAfterUnconditional', ''), ('type r(n: u8) = container +tagged_enum { a: u8 { n == 1 }, .pad: «n +~1» }', 'EnumContainerPad', ''), ('type r(n: u8) = container +«zz» { a: u8 }', 'InvalidFlag', 'zz'),
    ('type r(n: u8) = container [«zz»] { a: u8 }', 'UnresolvedVar', 'zz'), ('import_ffi «yy» as transform', None, ''), ('«import_ffi~yy as transform»;', 'FfiMissing', 'yy'), ('«import_ffi yy~as function»;', 'FfiMissing', 'yy'), ('«import_ffi yy as type»;', 'FfiMissing', 'yy'), ('import there from «"n"»', 'ImportMissing', 'n'), ('import «here» from~"f"', 'ImportUnresolved', 'here'), ('import there from «"g"»', 'ImportParse', 'g'),
    ('‹type r = u8›;~«type r =~u16»;', 'TypeRedefinition', 'r'), ('‹const r: u8 = 1›;~«const~r: u8 = 2»;', 'ConstRedefinition', 'r'), ('«import_ffi fun~as function»;', 'FunctionRedefinition', 'fun'), ('«import_ffi xf~as transform»;', 'TransformRedefinition', 'xf'), ('const c: u8 = «true :> u8»', 'IllegalCast', ''),
    ('const c: u8 = 1 :>~«container { a: u8 }»', None, ''), ('«const c: container { a: u8 } =~1»;', 'ConstTypeDefinition', 'c'), ('type r(n: «container { a: u8 }») = u8', None, ''), ('type r = e::«p»', None, ''), ('type r = u8[«n»]', 'UnresolvedVar', 'n'), ('type r = u8 { «zz» }', 'UnresolvedVar', 'zz'), ('type r = u8 -> «zz»', 'UnresolvedTransform', 'zz'),
]
KINDS = 'FfiMissing ImportMissing ImportUnresolved ImportCycle ImportParse TypeRedefinition TransformRedefinition FunctionRedefinition ConstRedefinition ConstTypeDefinition CastTypeDefinition IllegalComplexTypeDefinition EnumDefaultRedefinition EnumVariantRedefinition BitfieldFlagRedefinition ContainerFieldRedefinition UnresolvedType UnresolvedVar UnresolvedTransform UnresolvedFunction InvalidTransformInput InvalidTransformCondition UnexpectedType IllegalCast ReferencedDefaultEnumVariant UnresolvedEnumVariant UnresolvedBitfieldVariant UninferredType InvalidConstValue InvalidInt InvalidFFIArgumentCount InvalidTypeArgumentCount TypeArgumentRedefinition InvalidTypeArgumentOrder InvalidFlag InlineRepetition MustBeToplevel EnumContainerFieldAfterUnconditional EnumContainerPad TypeNotAutoCompatible BitfieldMemberUndefined CyclicType'.split()


def rust(t, kind, name):
    """parts of a program; white space is symbolic at ~"""
    cur, bad, prior, out, acc = '', None, None, [], []

    def lit():
        nonlocal cur
        if cur:
            acc.append('v.extend_from_slice(b"%s");' % cur.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n'))
        cur = ''

    def end():
        lit()
        if acc:
            out.append('{ let mut v: Vec<u8> = vec![]; %s v }' % ' '.join(acc))
        acc.clear()
    for ch in t:
        if ch in '«‹':
            end()
            if ch == '«':
                bad = len(out)
            else:
                prior = len(out)
        elif ch in '»›':
            end()
        elif ch == '~':
            lit()
            acc.append('v.extend_from_slice(&w);')
        else:
            cur += ch
    end()
    return 'let o: Vec<Vec<u8>> = vec![%s]; let o: Vec<&[u8]> = o.iter().map(|x| &x[..]).collect(); mistake(&o, %d, %s, %d, "%s");' % (', '.join(out), bad, 'None' if prior is None else 'Some(%d)' % prior, KINDS.index(kind), name)


def make(tier):
    p = Plan('P32', tier, IDS)
    p.fe = rs('fe_err.rs') + 'use rt::*; use rf::*; use rt_mis::*;\n'
    q = tier == 'quick'
    ws = 'let mut w: Vec<u8> = vec![]; let n = 1 + pick(%d); for _ in 0..n { let c = u8s(); assume(c == 32 || c == 10 || c == 9 || c == 13); w.push(c) }\nif pick(2) == 1 { w.extend_from_slice(b"/*\\n*/") }\n' % (1 if q else 3)
    for g, l in (('field', FIELDS), ('top', TOPS)):
        for i, (t, kind, name) in enumerate(l):
            if kind is None:
                continue
            if g == 'field':
                first = '‹q: u8›' if t.startswith('«q»') else 'q: u8'
                t = PRE + 'type t(n: u32) = container {~%s, w: u32, bo: bool, bf: b,~%s,~z: u8 };' % (first, t)
            else:
                t = PRE + '%s%s~type z = u8;' % (t, '' if t.endswith(';') else ';')
            p.feh('%s_%d' % (g, i), ws + rust(t, kind, name), (1,))
    for i, g in enumerate(PROGS):
        b = 'let ts: Vec<&str> = vec![%s];\n' % ', '.join('"%s"' % x.replace('"', '\\"') for x in g.split(' '))
        b += 'let ws = [" ", "\\n", " /*\\n*/ "][pick(%d) as usize];\n' % (2 if q else 3)
        n = len(g.split(' '))
        assert '+ tagged' not in g or True
        p.feh('cut_%d' % i, b + 'parse_cut(&ts, pick(%d) as usize, ws);' % (n + 1), (2, 3))
        p.feh('del_%d' % i, b + 'parse_change(&ts, pick(%d) as usize, 0, "", ws);' % n, (4,))
        toks = '[%s][pick(%d) as usize]' % (', '.join('"%s"' % x.replace('"', '\\"') for x in TOKS), len(TOKS))
        p.feh('ins_%d' % i, b.replace('pick(2)', '0').replace('pick(3)', 'pick(2)') + 'parse_change(&ts, pick(%d) as usize, 1, %s, ws);' % (n + 1, toks), (4,))
        p.feh('rep_%d' % i, b.replace('pick(2)', '1').replace('pick(3)', 'pick(2)') + 'parse_change(&ts, pick(%d) as usize, 2, %s, ws);' % (n, toks), (4,))
        at = [(i, min(i + 40, len(g))) for i in range(0, len(g), 40)]
        for j, (a, c) in enumerate(at):
            p.feh('byte_%d_%d' % (i, j), 'parse_byte(b"%s", %d + pick(%d) as usize);' % (g.replace('"', '\\"'), a, c - a), ())
    p.bounds = ['every single byte of five programs replaced by any other; every token of them removed, replaced by each of %d others, or these inserted' % len(TOKS), '%d mistakes in a fixed program; white space of one or two (thorough: four) characters, with or without a comment, at up to eleven places' % sum(1 for x in FIELDS + TOPS if x[1])]
    return p
