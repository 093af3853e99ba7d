/// Reference typing of expressions: trees over a small environment, rendered to program text, and judged by rules of its own.
pub mod rt_type {
    use super::rt::*; use super::rf::*;
    /// 0..5 = u8..u128, 5..10 = i8..i128
    #[derive(Clone, Copy, PartialEq)]
    pub enum T { S(u8), Bool, F32, F64, En(u8), Bf(u8), Arr(u8), Txt, V32, Cont, Con2, Bad }
    #[derive(Clone, Copy, PartialEq)]
    pub enum Exp { Any, Num, To(T), List, U64, Len }
    #[derive(Clone, Copy, PartialEq)]
    pub enum R { Ok(T), No, Skip }
    pub enum Ex { A(usize), Un(&'static str, Box<Ex>), Bin(&'static str, Box<Ex>, Box<Ex>), Tern(Box<Ex>, Box<Ex>, Box<Ex>), Cast(Box<Ex>, usize), Idx(Box<Ex>, Box<Ex>), Mem(Box<Ex>, &'static str), Call(&'static str, Vec<Ex>), L(Lit) }
    /// a number with digits of its own: `hi * unit + lo`
    pub struct Lit { pub t: Vec<u8>, pub hi: u128, pub unit: u128, pub lo: u32, pub sfx: Option<u8> }
    pub fn signed(s: u8) -> bool { s >= 5 }
    pub fn size(s: u8) -> u8 { s % 5 }
    pub fn widens(a: u8, b: u8) -> bool { signed(a) == signed(b) && size(a) <= size(b) }
    const REP: &[u8] = &[0, 6];
    const BREP: &[u8] = &[1];
    /// text, declarations, fields, type
    pub struct Atom { pub t: &'static str, pub d: &'static str, pub f: &'static str, pub ty: Option<T>, pub lit: u32 }
    const fn at(t: &'static str, d: &'static str, f: &'static str, ty: T) -> Atom { Atom { t, d, f, ty: Some(ty), lit: 0 } }
    pub const ATOMS: &[Atom] = &[
        Atom { t: "1", d: "", f: "", ty: None, lit: 1 }, Atom { t: "200", d: "", f: "", ty: None, lit: 200 },
        at("q", "", "q: bool,", T::Bool), at("w0", "", "w0: u8,", T::S(0)), at("w1", "", "w1: u16le,", T::S(1)), at("s0", "", "s0: i8,", T::S(5)),
        at("en", "type en_t = enum u8 { p = 1, r };", "en: en_t,", T::En(0)), at("bf", "type bf_t = bitfield u16 { f = 1, g };", "bf: bf_t,", T::Bf(0)),
        at("ar", "", "ar: u8[2],", T::Arr(0)), at("g0", "", "g0: f32,", T::F32),
        at("en_t::p", "type en_t = enum u8 { p = 1, r };", "", T::En(0)), at("nope", "", "", T::Bad),
        // thorough
        at("w2", "", "w2: u32,", T::S(2)), at("w3", "", "w3: u64le,", T::S(3)), at("w4", "", "w4: u128,", T::S(4)), at("s1", "", "s1: i16,", T::S(6)), at("s2", "", "s2: i32le,", T::S(7)),
        at("s3", "", "s3: i64,", T::S(8)), at("s4", "", "s4: i128,", T::S(9)), at("2u16", "", "", T::S(1)), at("3i8", "", "", T::S(5)), at("true", "", "", T::Bool),
        at("ao", "type al_t = u32;", "ao: al_t,", T::S(2)), at("kc", "const kc: u16 = 4;", "", T::S(1)), at("n", "", "", T::S(0)), at("m", "", "", T::Bool),
        at("eo", "type eo_t = enum i16le { p = -1, r };", "eo: eo_t,", T::En(1)), at("aw", "", "aw: u16[2],", T::Arr(1)), at("\"ab\"", "", "", T::Arr(0)),
        at("op", "", "q: bool, op: u8 { q },", T::S(0)), at("g1", "", "g1: f64,", T::F64), at("bf_t::g", "type bf_t = bitfield u16 { f = 1, g };", "", T::Bf(0)),
        at("vv", "import_ffi v32 as type;", "vv: v32,", T::V32), at("tx", "import_ffi utf8 as type;", "tx: utf8,", T::Txt), at("co", "type co_t = container { z: u8 };", "co: co_t,", T::Cont),
        at("blen(lc)", "", "lc: container [4] { la: u32 },", T::S(3)), at("len(lo)", "", "lo: u8[2],", T::S(3)),
        at("cq", "type cq_t = container { y: u16, z: u8 };", "cq: cq_t,", T::Con2), at("af", "type af_t = f64;", "af: af_t,", T::F64),
    ];
    pub const CASTS: &[(&str, T)] = &[("u8", T::S(0)), ("u32le", T::S(2)), ("i8", T::S(5)), ("i128", T::S(9)), ("bool", T::Bool), ("f32", T::F32), ("f64", T::F64), ("u8[2]", T::Arr(0))];
    /// does a value of `t` go where `e` is expected?
    pub fn fits(t: T, e: Exp) -> R {
        let w = match e { Exp::Any => return R::Ok(t), Exp::Num => return match t { T::S(_) => R::Ok(t), T::Bad => R::No, _ => R::Skip },
            Exp::List => return match t { T::Arr(_) => R::Ok(t), T::Txt | T::V32 => R::Skip, _ => R::No }, Exp::U64 => T::S(3), Exp::Len => if t == T::V32 { return R::Skip } else { T::S(3) }, Exp::To(w) => w };
        let yes = |b: bool| if b { R::Ok(w) } else { R::No };
        match (t, w) {
            (T::Bad, _) => R::No,
            (T::S(a), T::S(b)) => yes(widens(a, b)),
            (T::En(a), T::S(b)) => yes(widens(REP[a as usize], b)),
            (T::Bf(a), T::S(b)) => yes(widens(BREP[a as usize], b)),
            // numbers for enums and flags: not documented
            (T::S(a), T::En(b)) => if widens(a, REP[b as usize]) { R::Skip } else { R::No },
            (T::S(a), T::Bf(b)) => if widens(a, BREP[b as usize]) { R::Skip } else { R::No },
            (T::V32, T::S(b)) => yes(b == 7),
            (T::V32, T::V32) | (T::Txt, _) | (_, T::Txt) | (T::V32, _) | (_, T::V32) => R::Skip,
            (T::F32, T::F64) => R::Ok(w),
            // lists are alike if their elements and lengths are
            (T::Arr(a), T::Arr(b)) => if a == b { R::Ok(w) } else { R::No },
            (a, b) => yes(a == b),
        }
    }
    fn litfits(v: u32, s: u8) -> bool { match s { 0 => v < 256, 5 => v < 128, _ => true } }
    pub const MAX: [u128; 10] = [u8::MAX as u128, u16::MAX as u128, u32::MAX as u128, u64::MAX as u128, u128::MAX, i8::MAX as u128, i16::MAX as u128, i32::MAX as u128, i64::MAX as u128, i128::MAX as u128];
    pub const SUF: [&str; 10] = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"];
    /// what stands before the last digits of those
    const DEC: [&str; 10] = ["0", "65", "4294967", "18446744073709551", "340282366920938463463374607431768211", "0", "32", "2147483", "9223372036854775", "170141183460469231731687303715884105"];
    const HEX: [&str; 10] = ["0x0", "0xff", "0xffffff", "0xffffffffffffff", "0xffffffffffffffffffffffffffffff", "0x0", "0x7f", "0x7fffff", "0x7fffffffffffff", "0x7fffffffffffffffffffffffffffff"];
    fn litmax(l: &Lit, s: u8) -> bool {
        let (h, r) = (MAX[s as usize] / l.unit, (MAX[s as usize] % l.unit) as u32);
        l.hi < h || l.hi == h && l.lo <= r
    }
    /// any three last digits (two of hexadecimal) below, at and above the largest value of the type of size `s`
    pub fn lit(s: usize, hex: bool, sfx: Option<u8>) -> Ex {
        let (n, unit) = if hex { (2, 256) } else { (3, 1000) };
        let hi = MAX[s] / unit;
        let mut t = (if hex { HEX[s] } else { DEC[s] }).as_bytes().to_vec();
        let mut lo = 0u32;
        for _ in 0..n {
            let c = u8s();
            if hex { assume(c >= 48 && c < 58 || c >= 97 && c < 103) } else { assume(c >= 48 && c < 58) }
            lo = lo * if hex { 16 } else { 10 } + if c < 58 { c as u32 - 48 } else { c as u32 - 87 };
            t.push(c);
        }
        if let Some(x) = sfx { t.extend_from_slice(SUF[x as usize].as_bytes()) }
        Ex::L(Lit { t, hi, unit, lo, sfx })
    }
    /// no type of its own: only literals and what is built of them
    pub fn untyped(e: &Ex) -> bool {
        match e { Ex::A(i) => ATOMS[*i].ty.is_none(), Ex::L(l) => l.sfx.is_none(), Ex::Un(o, x) => *o != "!" && untyped(x), Ex::Bin(o, a, b) => arith(o) && untyped(a) && untyped(b), Ex::Tern(_, a, _) => untyped(a), _ => false }
    }
    fn arith(o: &str) -> bool { matches!(o, "+" | "-" | "*" | "/" | "%" | "<<" | ">>" | ">>>" | "&" | "|" | "^" | "?:") }
    pub fn judge(e: &Ex, x: Exp) -> R {
        let t = match e {
            Ex::A(i) => match ATOMS[*i].ty {
                Some(t) => t,
                None => match x { Exp::To(T::S(s)) => if litfits(ATOMS[*i].lit, s) { T::S(s) } else { return R::No }, Exp::U64 | Exp::Len => T::S(3), _ => return R::No },
            },
            Ex::L(l) => match (l.sfx, x) {
                (Some(s), _) => if litmax(l, s) { T::S(s) } else { return R::No },
                (None, Exp::To(T::S(s))) => if litmax(l, s) { T::S(s) } else { return R::No },
                (None, Exp::U64) | (None, Exp::Len) => if litmax(l, 3) { T::S(3) } else { return R::No },
                _ => return R::No,
            },
            Ex::Un(o, a) => match *o {
                "!" => match judge(a, x) { R::Ok(T::Bool) => T::Bool, R::Ok(_) => return if matches!(x, Exp::To(T::Bool) | Exp::Any | Exp::Num) { R::Skip } else { R::No }, r => return r },
                "-" => match judge(a, x) { R::Ok(T::S(s)) => if signed(s) { T::S(s) } else { return R::No }, R::Ok(_) => return R::Skip, r => return r },
                _ => match judge(a, x) { R::Ok(T::S(s)) => T::S(s), R::Ok(_) => return R::Skip, r => return r },
            },
            Ex::Bin(o, a, b) => {
                let log = !arith(o);
                if log && !matches!(x, Exp::Any | Exp::Num | Exp::To(T::Bool)) { return R::No }
                let init = match *o { "<" | ">" | "<=" | ">=" => Exp::Num, "==" | "!=" | "?:" => Exp::Any, "&&" | "||" => Exp::To(T::Bool), _ => x };
                let typed = matches!(init, Exp::To(T::S(_)) | Exp::U64 | Exp::Len);
                let (l, r);
                // an operand which has no type by itself takes that of the other one
                match if untyped(a) && !typed { R::No } else { judge(a, init) } {
                    R::Ok(t) => { l = t; r = match judge(b, to(l)) { R::Ok(t) => t, q => return q } }
                    R::Skip => return R::Skip,
                    R::No => {
                        if typed { return R::No }
                        r = match judge(b, init) { R::Ok(t) => t, q => return q };
                        l = match judge(a, to(r)) { R::Ok(t) => t, q => return q };
                    }
                }
                if *o == "?:" {
                    // only an optional has an alternative
                    match **a { Ex::A(i) if ATOMS[i].t == "op" => {} _ => return R::Skip }
                } else if arith(o) {
                    if !matches!((l, r), (T::S(_), T::S(_))) { return R::Skip }
                } else if matches!(*o, "==" | "!=") && !matches!(l, T::S(_) | T::Bool | T::En(_) | T::Bf(_)) { return R::Skip }
                if log { T::Bool } else { l }
            }
            Ex::Tern(c, a, b) => {
                match judge(c, Exp::To(T::Bool)) { R::Ok(_) => {} q => return q }
                let l = match judge(a, x) { R::Ok(t) => t, q => return q };
                match judge(b, if x == Exp::Any { to(l) } else { x }) { R::Ok(_) => {} q => return q }
                if x == Exp::Num { return R::Skip }
                l
            }
            Ex::Cast(a, k) => {
                let w = CASTS[*k].1;
                let f = match judge(a, Exp::Any) { R::Ok(t) => t, q => return q };
                match (f, w) {
                    (T::S(_), T::S(_)) => {}
                    (T::S(_), T::F32) | (T::S(_), T::F64) | (T::F32, T::S(_)) | (T::F64, T::S(_)) | (T::F32, T::F64) | (T::F64, T::F32) => {}
                    (T::Arr(_), T::Arr(_)) => return R::Skip,
                    (a, b) if a == b => {}
                    (T::En(_), T::S(_)) | (T::Bf(_), T::S(_)) | (T::V32, _) | (T::Txt, _) => return R::Skip,
                    _ => return R::No,
                }
                w
            }
            Ex::Idx(a, i) => {
                let l = match judge(a, Exp::List) { R::Ok(t) => t, q => return q };
                match judge(i, Exp::U64) { R::Ok(_) => {} q => return q }
                match l { T::Arr(s) => T::S(s), _ => return R::Skip }
            }
            Ex::Mem(a, m) => match judge(a, Exp::Any) { R::Ok(T::Bf(_)) => if matches!(*m, "f" | "g") { T::Bool } else { return R::No }, R::Ok(T::V32) | R::Ok(T::Txt) => return R::Skip, R::Ok(_) => return R::No, q => return q },
            Ex::Call(n, a) => match *n {
                "pad" => {
                    if a.len() != 2 { return R::No }
                    for x in a { match judge(x, Exp::U64) { R::Ok(_) => {} q => return q } }
                    T::S(3)
                }
                "bits" => {
                    if a.len() != 1 { return R::No }
                    match judge(&a[0], Exp::U64) { R::Ok(_) => {} q => return q }
                    T::S(0)
                }
                _ => return R::No,
            },
        };
        fits(t, x)
    }
    fn to(t: T) -> Exp { Exp::To(t) }
    pub fn render(e: &Ex, o: &mut Vec<u8>, d: &mut Vec<&'static str>, f: &mut Vec<&'static str>) {
        fn add(v: &mut Vec<&'static str>, s: &'static str) { if !s.is_empty() && !v.iter().any(|x| *x == s) { v.push(s) } }
        match e {
            Ex::A(i) => { let a = &ATOMS[*i]; o.extend_from_slice(a.t.as_bytes()); add(d, a.d); if a.f.starts_with("q: bool, ") { add(f, "q: bool,"); add(f, &a.f[9..]) } else { add(f, a.f) } }
            Ex::L(l) => o.extend_from_slice(&l.t),
            Ex::Un(s, a) => { o.extend_from_slice(s.as_bytes()); o.push(b'('); render(a, o, d, f); o.push(b')') }
            Ex::Bin(s, a, b) => { o.push(b'('); render(a, o, d, f); o.push(b' '); o.extend_from_slice(s.as_bytes()); o.push(b' '); render(b, o, d, f); o.push(b')') }
            Ex::Tern(c, a, b) => { o.push(b'('); render(c, o, d, f); o.extend_from_slice(b" ? "); render(a, o, d, f); o.extend_from_slice(b" : "); render(b, o, d, f); o.push(b')') }
            Ex::Cast(a, k) => { o.push(b'('); render(a, o, d, f); o.extend_from_slice(b" :> "); o.extend_from_slice(CASTS[*k].0.as_bytes()); o.push(b')') }
            Ex::Idx(a, i) => { render(a, o, d, f); o.push(b'['); render(i, o, d, f); o.push(b']') }
            Ex::Mem(a, m) => { render(a, o, d, f); o.push(b'.'); o.extend_from_slice(m.as_bytes()) }
            Ex::Call(n, a) => {
                add(d, if *n == "pad" { "import_ffi pad as function;" } else { "import_ffi bits as function;" });
                o.extend_from_slice(n.as_bytes());
                o.push(b'(');
                for x in a { render(x, o, d, f); o.push(b',') }
                o.push(b')')
            }
        }
    }
    /// where the expression stands: text before, text after, what is expected there
    pub const POS: &[(&str, &str, &str, Exp)] = &[
        ("", "h: u8 { ", " },", Exp::To(T::Bool)), ("", "h: u16 = ", ",", Exp::To(T::S(1))), ("", "h: bool = ", ",", Exp::To(T::Bool)), ("", "h: i32le = ", ",", Exp::To(T::S(7))),
        ("", "h: u8[", "],", Exp::U64), ("", ".pad: ", ",", Exp::U64), ("", "h: container [", "] { z: u8 },", Exp::Len), ("type tt(x: u8) = u8[x];", "h: tt(", "),", Exp::To(T::S(0))),
        ("", "h: u8 = ", ",", Exp::To(T::S(0))), ("", "h: u32 = ", ",", Exp::To(T::S(2))), ("", "h: u64le = ", ",", Exp::To(T::S(3))), ("", "h: u128 = ", ",", Exp::To(T::S(4))),
        ("", "h: i8 = ", ",", Exp::To(T::S(5))), ("", "h: i16le = ", ",", Exp::To(T::S(6))), ("", "h: i64 = ", ",", Exp::To(T::S(8))), ("", "h: i128 = ", ",", Exp::To(T::S(9))),
        ("type en_t = enum u8 { p = 1, r };", "h: en_t = ", ",", Exp::To(T::En(0))), ("type bf_t = bitfield u16 { f = 1, g };", "h: bf_t = ", ",", Exp::To(T::Bf(0))),
        ("import_ffi gzip as transform;", "h: u8 -> gzip { ", " },", Exp::To(T::Bool)), ("type tt(y: u8, x: bool ? true) = u8 { x };", "h: tt(1, ", "),", Exp::To(T::Bool)),
        ("", "h: container { ha: u8 } { ", " },", Exp::To(T::Bool)),
        ("", "h: f32 = ", ",", Exp::To(T::F32)), ("", "h: f64 = ", ",", Exp::To(T::F64)), ("type tt(x: f64) = u8;", "h: tt(", "),", Exp::To(T::F64)), ("type tt(y: u8, x: f32) = u8;", "h: tt(n, ", "),", Exp::To(T::F32)),
        ("", "h: u8[2] = ", ",", Exp::To(T::Arr(0))), ("", "h: u16[2] = ", ",", Exp::To(T::Arr(1))), ("type tt(x: u8[2]) = u8;", "h: tt(", "),", Exp::To(T::Arr(0))),
        ("type co_t = container { z: u8 };", "h: co_t = ", ",", Exp::To(T::Cont)),
    ];
    /// which slots the atoms come from
    pub fn atom(n: usize) -> Ex { Ex::A(pick(n as u64) as usize) }
    pub fn b(e: Ex) -> Box<Ex> { Box::new(e) }
    pub fn program(e: &Ex, pos: usize) -> Vec<u8> {
        let (pd, pre, post, _) = &POS[pos];
        let (mut o, mut d, mut f) = (vec![], vec![], vec![]);
        if !pd.is_empty() { d.push(*pd) }
        render(e, &mut o, &mut d, &mut f);
        let mut t = vec![];
        for x in &d { t.extend_from_slice(x.as_bytes()) }
        t.extend_from_slice(b"type top(n: u8, m: bool ? true) = container {");
        for x in &f { t.extend_from_slice(x.as_bytes()) }
        t.extend_from_slice(pre.as_bytes());
        t.extend_from_slice(&o);
        t.extend_from_slice(post.as_bytes());
        t.extend_from_slice(b"};");
        t
    }
    /// 1 = no program, 2 = rejected, 3 = compiled
    pub fn compiled(t: &[u8], async_: bool) -> u64 {
        let s = unsafe { std::str::from_utf8_unchecked(t) };
        let p = match protospec_build::parse(s) { Ok(p) => p, Err(_) => return 1 };
        let r = protospec_build::PreludeImportResolver(protospec_build::NullImportResolver);
        let p = match protospec_build::asg::Program::from_ast(&p, &r) { Ok(p) => p, Err(_) => return 2 };
        let mut o = protospec_build::compiler::CompileOptions::default();
        o.include_async = async_;
        let t = protospec_build::compiler::compile_program(&p, &o);
        if t.is_empty() { 4 } else { 3 }
    }
    /// analysis of any text returns
    pub fn total(t: &[u8]) {
        let s = unsafe { std::str::from_utf8_unchecked(t) };
        let r = match protospec_build::parse(s) {
            Ok(p) => { let r = protospec_build::PreludeImportResolver(protospec_build::NullImportResolver); if protospec_build::asg::Program::from_ast(&p, &r).is_ok() { 3 } else { 2 } }
            Err(_) => 1,
        };
        observe(r);
        cover(r as u32);
    }
    /// code is generated for what is well-typed
    pub fn gen(e: &Ex, pos: usize, async_: bool) {
        let t = program(e, pos);
        if matches!(judge(e, POS[pos].3), R::Ok(_)) { let r = compiled(&t, async_); observe(r); cover(r as u32) } else { total(&t) }
    }
    pub fn expect_type(e: &Ex, pos: usize) {
        let t = program(e, pos);
        let want = judge(e, POS[pos].3);
        let s = unsafe { std::str::from_utf8_unchecked(&t) };
        let p = match protospec_build::parse(s) { Ok(p) => p, Err(_) => { check(false, 1); return } };
        let r = protospec_build::PreludeImportResolver(protospec_build::NullImportResolver);
        let got = protospec_build::asg::Program::from_ast(&p, &r).is_ok();
        observe(got as u64);
        match want {
            R::Ok(_) => { cover(1); check(got, 2) }
            R::No => { cover(2); check(!got, 3) }
            R::Skip => cover(3),
        }
    }
}
