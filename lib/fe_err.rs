/// Arguments and errors: what is accepted with how many arguments, and what an error says and points at
pub mod rt_err {
    use super::rt::*; use super::rf::*;
    use protospec_build::asg::*;
    use protospec_build::*;
    use std::collections::HashMap;
    #[derive(Clone, Copy, PartialEq)]
    pub enum Ty { U8, U32, Bool, Any }
    #[derive(Clone, Copy)]
    pub struct Par { pub ty: Ty, pub opt: bool }
    fn ffi(s: &[Par]) -> Vec<FFIArgument> {
        s.iter().enumerate().map(|(i, p)| FFIArgument { name: ["a", "b", "c", "d"][i].to_string(), type_: match p.ty { Ty::U8 => Some(Type::Scalar(ScalarType::U8.into())), Ty::U32 => Some(Type::Scalar(ScalarType::U32.into())), Ty::Bool => Some(Type::Bool), Ty::Any => None }, optional: p.opt }).collect()
    }
    pub struct Xf(Vec<Par>);
    impl ForeignTransform for Xf {
        fn decoding_gen(&self, i: proc_macro2::TokenStream, _: Vec<proc_macro2::TokenStream>, _: bool) -> proc_macro2::TokenStream { i }
        fn encoding_gen(&self, i: proc_macro2::TokenStream, _: Vec<proc_macro2::TokenStream>, _: bool) -> proc_macro2::TokenStream { i }
        fn arguments(&self) -> Vec<FFIArgument> { ffi(&self.0) }
    }
    pub struct Fun(Vec<Par>);
    impl ForeignFunction for Fun {
        fn arguments(&self) -> Vec<FFIArgument> { ffi(&self.0) }
        fn return_type(&self) -> Type { Type::Bool }
        fn call(&self, _: &[FFIArgumentValue]) -> proc_macro2::TokenStream { Default::default() }
    }
    struct Res(Vec<Par>);
    impl ImportResolver for Res {
        fn normalize_import(&self, i: &str) -> protospec_build::Result<String> { Ok(i.to_string()) }
        fn resolve_import(&self, i: &str) -> protospec_build::Result<Option<String>> { Ok(match i { "f" => Some("type there = u8;".to_string()), "g" => Some("type there = ;".to_string()), "h" => Some("import there from \"h\";".to_string()), _ => None }) }
        fn resolve_ffi_transform(&self, n: &str) -> protospec_build::Result<Option<ForeignTransformObj>> { Ok(if n == "xf" { Some(Box::new(Xf(self.0.to_vec()))) } else { None }) }
        fn resolve_ffi_type(&self, _: &str) -> protospec_build::Result<Option<ForeignTypeObj>> { Ok(None) }
        fn resolve_ffi_function(&self, n: &str) -> protospec_build::Result<Option<ForeignFunctionObj>> { Ok(if n == "fun" { Some(Box::new(Fun(self.0.to_vec()))) } else { None }) }
        fn prelude_ffi_functions(&self) -> protospec_build::Result<HashMap<String, ForeignFunctionObj>> { Ok(HashMap::new()) }
    }
    pub fn analyse(t: &str, s: &[Par]) -> Option<std::result::Result<Program, AsgError>> {
        let a = match parse(t) { Ok(p) => p, Err(_) => return None };
        Some(Program::from_ast(&a, &PreludeImportResolver(Res(s.to_vec()))))
    }
    // what is given: 0.. : 1, true, q (u8), w (u32), no such name
    pub const GIVEN: [&str; 5] = ["", "true", "q", "w", "zz"];
    /// a literal is of three digits, of any value
    fn fits(t: Ty, g: usize, v: u64) -> bool {
        match (t, g) { (Ty::U8, 0) => v < 256, (_, 4) => false, (Ty::Any, 0) => false, (Ty::Any, _) => true, (Ty::Bool, _) => g == 1, (_, 1) => false, (Ty::U8, _) => g != 3, (Ty::U32, _) => true }
    }
    fn is(e: &Expression, lit: u64, g: usize) -> bool {
        match e {
            Expression::Cast(c) => is(&c.inner, lit, g),
            Expression::Int(x) => g == 0 && match x.value { ConstInt::U8(v) => v as u64 == lit, ConstInt::U32(v) => v as u64 == lit, _ => false },
            Expression::Bool(b) => g == 1 && *b,
            Expression::FieldRef(f) => f.name == GIVEN[g],
            _ => false,
        }
    }
    /// one type, function or transform of these parameters, and one use of it with these arguments
    pub fn args(kind: u8, pars: &[Par], given: &[usize], parens: bool) {
        let mut lits = vec![];
        let gs: Vec<String> = given.iter().map(|g| if *g == 0 {
            let b: Vec<u8> = (0..3).map(|_| { let c = u8s(); assume(c >= 48 && c < 58); c }).collect();
            lits.push(b.iter().fold(0, |a, c| a * 10 + (*c - 48) as u64));
            unsafe { String::from_utf8_unchecked(b) }
        } else { lits.push(0); GIVEN[*g].to_string() }).collect();
        let call = if gs.is_empty() && !parens { String::new() } else { format!("({})", gs.join(", ")) };
        let mut t = String::new();
        if kind < 4 {
            let ps: Vec<String> = pars.iter().enumerate().map(|(i, p)| format!("{}: {}{}", ["a", "b", "c", "d"][i], match p.ty { Ty::U8 => "u8", Ty::U32 | Ty::Any => "u32", Ty::Bool => "bool" }, if !p.opt { "" } else if p.ty == Ty::Bool { " ? true" } else { " ? 9" })).collect();
            t.push_str(&format!("type al({}) = u8[2];\n", ps.join(", ")));
        } else {
            t.push_str("import_ffi xf as transform; import_ffi fun as function;\n");
        }
        t.push_str("type t = container { q: u8, w: u32,\n");
        let (pre, name, post) = match kind { 0 => ("x: ", "al", ""), 1 => ("x: ", "al", "[3]"), 2 => ("x: ", "al", " { q == 1 }"), 3 => ("x: container { y: ", "al", ", }"),
            4 => ("x: bool = ", "fun", ""), 5 => ("x: u8 { true && ", "fun", " }"), 6 => ("x: u8 -> ", "xf", ""), 7 => ("x: u8 -> ", "xf", " { q == 1 }"), _ => ("x: u8[", "fun", "?1:2]") };
        let col = pre.len() as u64 + 1;
        t.push_str(pre); t.push_str(name); t.push_str(&call); let end = col + (name.len() + call.len()) as u64; t.push_str(post); t.push_str(",\n};");
        let min = pars.iter().filter(|p| !p.opt).count();
        let order = pars[..min].iter().all(|p| !p.opt);
        let count = given.len() >= min && given.len() <= pars.len();
        let fit = given.iter().zip(pars).zip(&lits).all(|((g, p), v)| fits(if kind < 4 && p.ty == Ty::Any { Ty::U32 } else { p.ty }, *g, *v));
        let r = match analyse(&t, pars) { Some(r) => r, None => { check(false, 1); return } };
        match r {
            Ok(p) => {
                cover(1);
                check(order, 2); check(count, 3); check(fit, 4);
                if !(order && count && fit) { return }
                let ty = p.types["t"].type_.borrow().clone();
                let c = match &ty { Type::Container(c) => c, _ => { check(false, 5); return } };
                let f = &c.items["x"];
                let mut found: Vec<Expression> = vec![];
                let mut there = false;
                fn rf(t: &Type, o: &mut Vec<Expression>, there: &mut bool) { match t { Type::Ref(r) => { *there = true; o.extend(r.arguments.iter().cloned()) } Type::Array(a) => { rf(&a.element, o, there); if let Some(l) = &a.length.value { call(l, o, there) } } Type::Container(c) => for f in c.items.values() { rf(&f.type_.borrow(), o, there) }, _ => () } }
                fn call(e: &Expression, o: &mut Vec<Expression>, there: &mut bool) { match e { Expression::Call(c) => { *there = true; o.extend(c.arguments.iter().cloned()) } Expression::Cast(c) => call(&c.inner, o, there), Expression::Binary(b) => { call(&b.left, o, there); call(&b.right, o, there) } Expression::Ternary(t) => call(&t.condition, o, there), _ => () } }
                match kind {
                    4 => if let Some(e) = &*f.calculated.borrow() { call(e, &mut found, &mut there) },
                    5 => if let Some(e) = &*f.condition.borrow() { call(e, &mut found, &mut there) },
                    6 | 7 => for t in f.transforms.borrow().iter() { there = true; found.extend(t.arguments.iter().cloned()) },
                    _ => rf(&f.type_.borrow(), &mut found, &mut there),
                }
                check(there && found.len() == given.len(), 5);
                if found.len() == given.len() { for (i, e) in found.iter().enumerate() { check(is(e, lits[i], given[i]), 6) } }
            }
            Err(e) => {
                cover(2);
                check(!(order && count && fit), 7);
                if !order { return }
                match e {
                    AsgError::InvalidTypeArgumentCount(a, b, c, s) => { check(!count && kind < 4, 8); check(a == min && b == pars.len() && c == given.len(), 9); at(&s, 3, col, if call.is_empty() { 0 } else { end }); }
                    AsgError::InvalidFFIArgumentCount(a, b, c, s) => { check(!count && kind >= 4, 8); check(a == min && b == pars.len() && c == given.len(), 9); check(s.line_start == 3 && s.line_stop == 3, 10); }
                    AsgError::UnresolvedVar(n, s) => { check(n == "zz" && given.iter().any(|g| *g == 4), 11); check(s.line_start == 3 && s.col_stop - s.col_start == 2 && t.lines().nth(2).map(|l| &l[s.col_start as usize - 1..s.col_stop as usize - 1]) == Some("zz"), 10); }
                    AsgError::UnexpectedType(_, _, s) => { check(count, 8); check(s.line_start == 3 && s.line_stop == 3 && s.col_start > col && s.col_stop < end, 10); }
                    AsgError::UninferredType(s) => { check(count && kind >= 4 && pars.iter().zip(given).any(|(p, g)| p.ty == Ty::Any && *g == 0), 8); check(s.line_start == 3 && s.line_stop == 3 && s.col_start > col && s.col_stop < end, 10); }
                    AsgError::InvalidInt(n, s) => { check(count && given.iter().zip(pars).zip(&gs).zip(&lits).any(|(((g, p), t), v)| *g == 0 && p.ty == Ty::U8 && *v > 255 && n == *t), 11); check(s.line_start == 3 && s.line_stop == 3 && s.col_start > col && s.col_stop < end && s.col_stop - s.col_start == 3, 10); }
                    _ => check(false, 12),
                }
            }
        }
    }
    fn at(s: &Span, line: u64, a: u64, b: u64) {
        check(s.line_start == line && s.line_stop == line, 10);
        check(s.col_start == a && (b == 0 || s.col_stop == b), 10);
    }
}
/// errors: mistakes, what the error says and the text it points at
pub mod rt_mis {
    use super::rt::*; use super::rf::*; use super::rt_err::*;
    use protospec_build::asg::*;
    use protospec_build::*;
    fn what(e: &AsgError) -> (u8, String, Option<Span>, Option<Span>) {
        use AsgError::*;
        let z = |n: u8, a: &str, s: &Span| (n, a.to_string(), Some(*s), None);
        match e {
            FfiMissing(n, s) => z(0, n, s), ImportMissing(n, s) => z(1, n, s), ImportUnresolved(n, _, s) => z(2, n, s), ImportCycle(n, s) => z(3, n, s), ImportParse(n, s, _) => z(4, n, s),
            TypeRedefinition(n, s, o) => (5, n.clone(), Some(*s), Some(*o)), TransformRedefinition(n, s, o) => (6, n.clone(), Some(*s), Some(*o)), FunctionRedefinition(n, s, o) => (7, n.clone(), Some(*s), Some(*o)), ConstRedefinition(n, s, o) => (8, n.clone(), Some(*s), Some(*o)),
            ConstTypeDefinition(n, s) => z(9, n, s), CastTypeDefinition(s) => z(10, "", s), IllegalComplexTypeDefinition(s) => z(11, "", s), EnumDefaultRedefinition(n, s) => z(12, n, s), EnumVariantRedefinition(n, s) => z(13, n, s),
            BitfieldFlagRedefinition(n, s, o) => (14, n.clone(), Some(*s), Some(*o)), ContainerFieldRedefinition(n, s, o) => (15, n.clone(), Some(*s), Some(*o)),
            UnresolvedType(n, s) => z(16, n, s), UnresolvedVar(n, s) => z(17, n, s), UnresolvedTransform(n, s) => z(18, n, s), UnresolvedFunction(n, s) => z(19, n, s),
            InvalidTransformInput(n, s, _) => z(20, n, s), InvalidTransformCondition(n, s, _, _) => z(21, n, s), UnexpectedType(_, _, s) => z(22, "", s), IllegalCast(_, _, s) => z(23, "", s),
            ReferencedDefaultEnumVariant(_, n, s) => z(24, n, s), UnresolvedEnumVariant(_, n, s) => z(25, n, s), UnresolvedBitfieldVariant(_, n, s) => z(26, n, s), UninferredType(s) => z(27, "", s), InvalidConstValue(n, s) => z(28, n, s), InvalidInt(n, s) => z(29, n, s),
            InvalidFFIArgumentCount(_, _, _, s) => z(30, "", s), InvalidTypeArgumentCount(_, _, _, s) => z(31, "", s), TypeArgumentRedefinition(n, s) => z(32, n, s), InvalidTypeArgumentOrder(s) => z(33, "", s), InvalidFlag(n, s) => z(34, n, s),
            InlineRepetition(s) => z(35, "", s), MustBeToplevel(s) => z(36, "", s), EnumContainerFieldAfterUnconditional(s) => z(37, "", s), EnumContainerPad(s) => z(38, "", s), TypeNotAutoCompatible(n, s) => z(39, n, s), BitfieldMemberUndefined(n, s) => z(40, n, s), CyclicType(n, s) => z(41, n, s),
            Unknown(_) => (99, String::new(), None, None),
        }
    }
    /// offset of a position, counted in lines and columns from 1
    fn off(t: &[u8], line: u64, col: u64) -> Option<usize> {
        let (mut l, mut c) = (1, 1);
        for i in 0..t.len() + 1 {
            if l == line && c == col { return Some(i) }
            if i < t.len() { if t[i] == b'\n' { l += 1; c = 1 } else { c += 1 } }
        }
        None
    }
    fn points(t: &[u8], s: &Span, from: usize, to: usize, id: u32) {
        check(off(t, s.line_start, s.col_start) == Some(from), id);
        check(off(t, s.line_stop, s.col_stop) == Some(to), id + 1);
    }
    /// a program with one mistake: its parts in order; the one at `bad` is what the error points at, the one at `prior` the original
    pub fn mistake(parts: &[&[u8]], bad: usize, prior: Option<usize>, kind: u8, name: &str) {
        let mut t: Vec<u8> = vec![];
        let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
        for (i, p) in parts.iter().enumerate() {
            if i == bad { a = t.len() }
            if Some(i) == prior { c = t.len() }
            t.extend_from_slice(p);
            if i == bad { b = t.len() }
            if Some(i) == prior { d = t.len() }
        }
        let s = unsafe { std::str::from_utf8_unchecked(&t) };
        match analyse(s, &[Par { ty: Ty::U8, opt: true }]) {
            None => check(false, 1),
            Some(Ok(_)) => check(false, 2),
            Some(Err(e)) => {
                cover(1);
                let (k, n, sp, orig) = what(&e);
                observe(k as u64);
                check(k == kind, 3);
                if k != kind { return }
                check(n == name, 4);
                if let Some(sp) = sp { points(&t, &sp, a, b, 5) } else { check(false, 5) }
                if prior.is_some() { if let Some(o) = orig { check(off(&t, o.line_start, o.col_start).map_or(false, |x| x >= c), 7); check(off(&t, o.line_stop, o.col_stop).map_or(false, |x| x <= d), 8) } else { check(false, 7) } }
            }
        }
    }

    fn join(ts: &[&str], ws: &str) -> (String, Vec<usize>) {
        let mut s = String::new();
        let mut at = vec![];
        for t in ts { at.push(s.len()); s.push_str(t); s.push_str(ws) }
        at.push(s.len());
        (s, at)
    }
    /// the first tokens of a program: either a program, or the end is missing
    pub fn parse_cut(ts: &[&str], n: usize, ws: &str) {
        let (s, _) = join(&ts[..n], ws);
        match parse(&s) {
            Ok(_) => { cover(2); check(n == ts.len() || n == 0 || ts[n - 1] == ";", 9) }
            Err(ParseError::UnexpectedEOF) => { cover(3); check(n < ts.len(), 9) }
            Err(ParseError::EnumMissingRep(_)) => check(ts[n - 1] == "enum", 9),
            Err(ParseError::BitfieldMissingRep(_)) => check(ts[n - 1] == "bitfield", 9),
            Err(_) => check(false, 9),
        }
    }
    /// a program with a token less, more or another one
    pub fn parse_change(ts: &[&str], n: usize, how: u8, tok: &str, ws: &str) {
        let mut v: Vec<&str> = ts[..n].to_vec();
        if how > 0 { v.push(tok) }
        v.extend_from_slice(&ts[if how == 1 { n } else { n + 1 }..]);
        let (s, at) = join(&v, ws);
        let near = |sp: &Span, word: Option<&str>| {
            let a = off(s.as_bytes(), sp.line_start, sp.col_start);
            let b = off(s.as_bytes(), sp.line_stop, sp.col_stop);
            match (a, b) {
                (Some(a), Some(b)) => {
                    check(b > at[n] || b == s.len(), 10);
                    if let Some(w) = word { check(a <= b && s.as_bytes()[a..b] == *w.as_bytes(), 11); check(at.iter().any(|x| *x == a), 11) }
                }
                _ => check(false, 11),
            }
        };
        let key = |sp: &Span, w: &str| {
            match (off(s.as_bytes(), sp.line_start, sp.col_start), off(s.as_bytes(), sp.line_stop, sp.col_stop)) {
                (Some(a), Some(b)) => { check(a <= b && s.as_bytes()[a..b] == *w.as_bytes(), 11); check(n < at.len() && at.iter().position(|x| *x == a).map_or(false, |i| i + 1 >= n), 10) }
                _ => check(false, 11),
            }
        };
        match parse(&s) {
            Ok(_) => cover(5),
            Err(ParseError::UnexpectedEOF) => cover(6),
            Err(ParseError::Unexpected(t, _)) => { cover(4); let w = t.token.to_string(); near(&t.span, Some(w.trim())) }
            Err(ParseError::EmptyLengthConstraint(sp)) => { cover(7); near(&sp, None) }
            // they point at the keyword
            Err(ParseError::EnumMissingRep(sp)) => { cover(7); key(&sp, "enum") }
            Err(ParseError::BitfieldMissingRep(sp)) => { cover(7); key(&sp, "bitfield") }
            Err(ParseError::UnknownContainerDirective(n, sp)) => { cover(8); near(&sp, Some(&n)) }
            Err(_) => check(false, 12),
        }
    }

    /// a program of which one byte is another one
    pub fn parse_byte(t: &[u8], n: usize) {
        let mut v = t.to_vec();
        let c = u8s();
        assume(c < 128);
        v[n] = c;
        // what is before the token with this byte or next to it is as it was
        let mut ok = 0;
        let mut i = 0;
        while i + 1 < n { if t[i] != b' ' && t[i + 1] == b' ' { ok = i + 1 } i += 1 }
        let s = unsafe { std::str::from_utf8_unchecked(&v) };
        let p = |sp: &Span, word: Option<&str>| {
            match (off(&v, sp.line_start, sp.col_start), off(&v, sp.line_stop, sp.col_stop)) {
                (Some(a), Some(b)) => { check(a >= ok, 10); if let Some(w) = word { check(a <= b && v[a..b] == *w.as_bytes(), 11) } }
                _ => check(false, 11),
            }
        };
        match parse(s) {
            Ok(_) => cover(5),
            Err(ParseError::UnexpectedEOF) => cover(6),
            Err(ParseError::Unexpected(t, _)) => { cover(4); if let Token::String(_) = &t.token { p(&t.span, None) } else { let w = t.token.to_string(); p(&t.span, Some(w.trim())) } }
            Err(ParseError::EmptyLengthConstraint(sp)) => p(&sp, None),
            Err(ParseError::EnumMissingRep(sp)) | Err(ParseError::BitfieldMissingRep(sp)) => { check(off(&v, sp.line_stop, sp.col_stop).map_or(false, |b| b >= ok), 10) }
            Err(ParseError::UnknownContainerDirective(n, sp)) => p(&sp, Some(&n)),
            Err(ParseError::TokenError(_)) => cover(7),
            Err(_) => cover(8),
        }
    }
}
