/// Names: programs whose declarations and one use of a name are chosen, and what that name must stand for
pub mod rt_name {
    use super::rt::*; use super::rf::*;
    use protospec_build::asg::*;
    use protospec_build::*;
    use std::collections::HashMap;
    pub struct Xf;
    impl ForeignTransform for Xf {
        fn decoding_gen(&self, i: proc_macro2::TokenStream, _: Vec<proc_macro2::TokenStream>, _: bool) -> proc_macro2::TokenStream { i }
        fn encoding_gen(&self, i: proc_macro2::TokenStream, _: Vec<proc_macro2::TokenStream>, _: bool) -> proc_macro2::TokenStream { i }
        fn arguments(&self) -> Vec<FFIArgument> { vec![FFIArgument { name: "k".to_string(), type_: Some(Type::Scalar(ScalarType::U64.into())), optional: false }] }
    }
    pub struct Fun;
    impl ForeignFunction for Fun {
        fn arguments(&self) -> Vec<FFIArgument> { vec![] }
        fn return_type(&self) -> Type { Type::Bool }
        fn call(&self, _: &[FFIArgumentValue]) -> proc_macro2::TokenStream { Default::default() }
    }
    struct Res;
    impl ImportResolver for Res {
        fn normalize_import(&self, i: &str) -> protospec_build::Result<String> { Ok(i.to_string()) }
        fn resolve_import(&self, _: &str) -> protospec_build::Result<Option<String>> { Ok(None) }
        fn resolve_ffi_transform(&self, _: &str) -> protospec_build::Result<Option<ForeignTransformObj>> { Ok(Some(Box::new(Xf))) }
        fn resolve_ffi_type(&self, _: &str) -> protospec_build::Result<Option<ForeignTypeObj>> { Ok(None) }
        fn resolve_ffi_function(&self, _: &str) -> protospec_build::Result<Option<ForeignFunctionObj>> { Ok(Some(Box::new(Fun))) }
        fn prelude_ffi_functions(&self) -> protospec_build::Result<HashMap<String, ForeignFunctionObj>> { Ok(HashMap::new()) }
    }
    pub fn analyse(t: &str) -> Option<std::result::Result<Program, AsgError>> {
        let a = match parse(t) { Ok(p) => p, Err(_) => return None };
        Some(Program::from_ast(&a, &PreludeImportResolver(Res)))
    }
    /// what is referred to: 0 field, 1 argument, 2 constant; its line (for arguments: the bits of its type)
    #[derive(Clone, Copy, PartialEq)]
    pub struct To(pub u8, pub u64);
    fn expr(e: &Expression, o: &mut Vec<(To, String)>) {
        match e {
            Expression::Binary(b) => { expr(&b.left, o); expr(&b.right, o) }
            Expression::Cast(c) => expr(&c.inner, o),
            Expression::FieldRef(f) => o.push((To(0, f.span.line_start), f.name.clone())),
            Expression::InputRef(i) => o.push((To(1, match &i.type_ { Type::Scalar(s) => if s.scalar == ScalarType::U32 { 32 } else { 16 }, _ => 0 }), i.name.clone())),
            Expression::ConstRef(c) => o.push((To(2, c.span.line_start), c.name.clone())),
            _ => (),
        }
    }
    fn ty(t: &Type, o: &mut Vec<(To, String)>) {
        match t {
            Type::Container(c) => { if let Some(l) = &c.length { expr(l, o) } for (_, f) in &c.items { field(f, o) } }
            Type::Array(a) => { ty(&a.element, o); if let Some(l) = &a.length.value { expr(l, o) } }
            Type::Ref(r) => for a in &r.arguments { expr(a, o) },
            Type::Enum(e) => for (_, c) in &e.items { if let EnumValue::Value(c) = c { expr(&c.value, o) } },
            _ => (),
        }
    }
    fn field(f: &Field, o: &mut Vec<(To, String)>) {
        for a in f.arguments.borrow().iter() { ty(&a.type_, o); if let Some(d) = &a.default_value { expr(d, o) } }
        ty(&f.type_.borrow(), o);
        if let Some(e) = &*f.calculated.borrow() { expr(e, o) }
        if let Some(e) = &*f.condition.borrow() { expr(e, o) }
        for t in f.transforms.borrow().iter() { for a in &t.arguments { expr(a, o) } if let Some(c) = &t.condition { expr(c, o) } }
    }
    pub struct It { pub name: &'static str, pub kids: Option<Vec<It>>, pub pad: bool }
    pub fn f(name: &'static str) -> It { It { name, kids: None, pad: false } }
    pub fn c(name: &'static str, kids: Vec<It>) -> It { It { name, kids: Some(kids), pad: false } }
    pub fn pad() -> It { It { name: "", kids: None, pad: true } }
    /// the one use of a name: at the item of that number (in the order of the text), in that role
    #[derive(Clone, Copy)]
    pub struct Use { pub at: usize, pub kind: u8, pub name: &'static str }
    pub struct Out { pub t: String, pub line: u64, n: usize, found: Option<Option<To>>, dup: bool, skip: bool, useline: u64, bare: bool }
    impl Out {
        pub fn ln(&mut self, s: &str) { self.t.push_str(s); self.t.push('\n'); self.line += 1 }
    }
    type Sc = Vec<(&'static str, To, bool)>;
    fn find(sc: &[Sc], n: &str) -> Option<(To, bool)> {
        for s in sc.iter().rev() { for x in s.iter().rev() { if x.0 == n { return Some((x.1, x.2)) } } }
        None
    }
    fn twice(v: &[&str]) -> bool { for i in 0..v.len() { for j in 0..i { if v[i] == v[j] { return true } } } false }
    /// render the items, and find what the use stands for; `base`: arguments and constants
    fn items(o: &mut Out, its: &[It], tagged: bool, u: Use, outer: &[Sc], base: &[Sc]) {
        let mut sc: Vec<Sc> = outer.to_vec();
        sc.push(vec![]);
        // those of containers within are other names
        let names: Vec<&str> = its.iter().filter(|i| !i.pad).map(|i| i.name).collect();
        if twice(&names) { o.dup = true }
        let mut late = false;
        for (ix, it) in its.iter().enumerate() {
            let cond = if tagged && ix + 1 < its.len() { " { true }" } else { "" };
            let me = o.n == u.at;
            o.n += 1;
            let look = |sc: &[Sc]| find(sc, u.name).or_else(|| find(base, u.name));
            let at = o.line;
            if me { o.useline = at }
            if it.pad {
                if me { o.found = Some(look(&sc).map(|x| { o.skip |= x.1; x.0 })); let s = format!(".pad: {},", u.name); o.ln(&s) } else { o.ln(".pad: 1,") }
                continue
            }
            match &it.kids {
                Some(k) => {
                    let mut s = format!("{}: container ", it.name);
                    if me && u.kind == 6 { s.push_str(&format!("[{}] ", u.name)) }
                    s.push('{');
                    if me { if u.kind == 0 { o.bare = true } else { o.found = Some(look(&sc).map(|x| { o.skip |= x.1; x.0 })) } }
                    o.ln(&s);
                    items(o, k, false, u, &sc, base);
                    let mut s = "}".to_string();
                    if me { match u.kind { 1 => s.push_str(&format!(" {{ {} == 1 }}", u.name)), 3 => s.push_str(&format!(" -> xf({})", u.name)), 4 => s.push_str(&format!(" -> xf(1) {{ {} == 1 }}", u.name)), 6 => (), _ => o.bare = true } o.useline = o.line }
                    if !(me && u.kind == 1) { s.push_str(cond) }
                    s.push(',');
                    if me && u.kind == 6 { o.useline = at }
                    o.ln(&s);
                }
                None => {
                    let x = u.name;
                    let s = if !me { format!("{}: u32,", it.name) } else { match u.kind {
                        0 => { late = true; format!("{}: u32 = {},", it.name, x) }
                        1 => format!("{}: u32 {{ {} == 1 }},", it.name, x),
                        2 => format!("{}: u8[{}],", it.name, x),
                        3 => format!("{}: u32 -> xf({}),", it.name, x),
                        4 => format!("{}: u32 -> xf(1) {{ {} == 1 }},", it.name, x),
                        5 => format!("{}: v({}),", it.name, x),
                        7 => format!("{}: u32 = 1 + {},", it.name, { late = true; x }),
                        8 => format!("{}: u8[1][{}],", it.name, x),
                        9 => format!("{}: u32 -> xf(1) -> xf(2 + {}),", it.name, x),
                        _ => { o.bare = true; format!("{}: u32,", it.name) }
                    } };
                    if me && !late { o.found = Some(look(&sc).map(|x| { o.skip |= x.1; x.0 })) }
                    if me && late && it.name == x { o.skip = true }   // calculated of itself
                    let s = if cond.is_empty() || me && u.kind == 1 { s } else { format!("{}{},", &s[..s.len() - 1], cond) };
                    o.ln(&s);
                }
            }
            if !tagged { let l = sc.len(); sc[l - 1].push((it.name, To(0, at), it.kids.is_some())) }
        }
        // a calculation sees every field of its container
        if late { o.found = Some(find(&sc, u.name).or_else(|| find(base, u.name)).map(|x| { o.skip |= x.1; x.0 })) }
    }
    /// `type t(arg: u32) = container { .. }`, with a constant, and another type whose names are the same
    pub fn program(arg: Option<&'static str>, con: Option<&'static str>, its: &[It], tagged: bool, u: Use, other_first: bool) {
        let mut o = Out { t: String::new(), line: 1, n: 0, found: None, dup: false, skip: false, useline: 0, bare: false };
        o.ln("import_ffi xf as transform; type v(q: u64) = container { z: u8 };");
        let other = |o: &mut Out| { o.ln("type o(b: u16, c: u16) = container {"); o.ln("a: u16, p: u16,"); o.ln("d: container { e: u16 }"); o.ln("};") };
        if other_first { other(&mut o) }
        let mut base: Vec<Sc> = vec![];
        if let Some(n) = con { base.push(vec![(n, To(2, o.line), false)]); let s = format!("const {}: u32 = 1;", n); o.ln(&s) }
        if let Some(n) = arg { base.push(vec![(n, To(1, 32), false)]) }
        let s = format!("type t{} = container{} {{", arg.map(|n| format!("({}: u32)", n)).unwrap_or_default(), if tagged { " +tagged_enum" } else { "" });
        o.ln(&s);
        items(&mut o, its, tagged, u, &[], &base);
        o.ln("};");
        if !other_first { other(&mut o) }
        assume(!o.bare && o.found.is_some());
        judge(&o.t, o.found.unwrap(), o.dup, o.skip, u.name, o.useline)
    }
    pub fn judge(t: &str, found: Option<To>, dup: bool, skip: bool, name: &str, useline: u64) {
        if skip { let _ = analyse(t); return }
        match analyse(t) {
            None => check(false, 1),
            Some(Ok(p)) => {
                observe(1);
                check(!dup, 2);
                check(found.is_some(), 3);
                let mut r = vec![];
                for (_, f) in &p.types { field(f, &mut r) }
                for (_, c) in &p.consts { expr(&c.value, &mut r) }
                check(r.len() == 1, 4);
                if let Some(w) = found { check(r[0].0 == w && r[0].1 == name, 5) }
                cover(1);
            }
            Some(Err(e)) => {
                observe(0);
                check(dup || found.is_none(), 6);
                match e {
                    AsgError::ContainerFieldRedefinition(_, _, _) => check(dup, 7),
                    AsgError::UnresolvedVar(n, s) => { check(found.is_none() && n == name, 8); check(s.line_start == useline && s.line_stop == useline, 9) }
                    _ => check(false, 7),
                }
                cover(2);
            }
        }
    }
    /// constants and defaults of arguments
    pub fn before(kind: u8, c1: &'static str, c2: &'static str, x: &'static str) {
        let mut t = String::new();
        let mut sc: Sc = vec![];
        let mut dup = false;
        match kind {
            // the value of a constant
            0 => { t.push_str(&format!("const {}: u32 = 1;\nconst {}: u32 = {};\nconst z: u32 = 2;\n", c1, c2, x)); sc.push((c1, To(2, 1), false)); dup = c1 == c2; }
            // the default of an argument
            1 => { t.push_str(&format!("const {}: u32 = 1;\ntype t({}: u32, z: u32 ? {}, y: u32 ? 1) = u8;\n", c1, c2, x)); sc.push((c1, To(2, 1), false)); sc.push((c2, To(1, 32), false)); }
            // the value of a member of an enum
            2 => { t.push_str(&format!("const {}: u32 = 1;\ntype e({}: u16) = enum u32 {{ p = {} }};\nconst z: u32 = 2;\n", c1, c2, x)); sc.push((c1, To(2, 1), false)); if c2 == x { let _ = analyse(&t); return } }
            // the length of a type itself
            3 => { t.push_str(&format!("const {}: u32 = 1;\ntype t({}: u32) = u8[{}];\ntype o(z: u16) = container {{ y: u16 }};\n", c1, c2, x)); sc.push((c1, To(2, 1), false)); sc.push((c2, To(1, 32), false)); }
            4 => { t.push_str(&format!("const {}: u32 = 1;\ntype t({}: u32) = u32 {{ {} == 1 }};\ntype o(z: u16) = container {{ y: u16 }};\n", c1, c2, x)); sc.push((c1, To(2, 1), false)); sc.push((c2, To(1, 32), false)); }
            5 => { t.push_str(&format!("const {}: u32 = 1;\ntype t({}: u32) = u32 = {};\ntype o(z: u16) = container {{ y: u16 }};\n", c1, c2, x)); sc.push((c1, To(2, 1), false)); sc.push((c2, To(1, 32), false)); }
            6 => { t.push_str(&format!("const {}: u32 = 1;\ntype t({}: u32) = container [{}] {{ y: u16,\n a: u16 }};\ntype o(z: u16) = container {{ y: u16 }};\n", c1, c2, x)); sc.push((c1, To(2, 1), false)); sc.push((c2, To(1, 32), false)); }
            _ => { t.push_str(&format!("const {}: u32 = 1; import_ffi xf as transform;\ntype t({}: u32) = container {{ y: u16,\n b: u16 }} -> xf({});\ntype o(z: u16) = container {{ y: u16 }};\n", c1, c2, x)); sc.push((c1, To(2, 1), false)); sc.push((c2, To(1, 32), false)); }
        }
        let found = find(&[sc], x).map(|y| y.0);
        match analyse(&t) {
            None => check(false, 1),
            Some(Ok(p)) => {
                check(!dup, 2);
                check(found.is_some(), 3);
                let mut r = vec![];
                for (_, f) in &p.types { field(f, &mut r) }
                for (_, c) in &p.consts { expr(&c.value, &mut r) }
                check(r.len() == 1, 4);
                if let Some(w) = found { check(r[0].0 == w && r[0].1 == x, 5) }
                cover(1)
            }
            Some(Err(e)) => {
                check(dup || found.is_none(), 6);
                match e { AsgError::ConstRedefinition(n, _, _) => check(dup && n == c1, 7), AsgError::UnresolvedVar(n, s) => { check(found.is_none() && n == x, 8); check(s.line_start == (if kind == 7 || kind == 6 && false { 3 } else { 2 }), 9) } _ => check(false, 7) }
                cover(2)
            }
        }
    }
    const NS: &[u8] = &[0, 0, 0, 0, 1, 2, 3, 0];
    pub fn decl(k: usize, n: &str) -> String {
        match k { 0 => format!("type {} = u8;\n", n), 1 => format!("type {} = container {{ x: u8 }};\n", n), 2 => format!("type {} = enum u8 {{ p = 1 }};\n", n), 3 => format!("type {} = bitfield u8 {{ p = 1 }};\n", n),
            4 => format!("const {}: u8 = 1;\n", n), 5 => format!("import_ffi {} as transform;\n", n), 6 => format!("import_ffi {} as function;\n", n), _ => format!("import_ffi {} as type;\n", n) }
    }
    /// declarations at the top of a program
    pub fn top(ds: &[(usize, &'static str)]) {
        let mut t = String::new();
        let mut clash: Vec<(u8, &str)> = vec![];
        for (i, d) in ds.iter().enumerate() {
            t.push_str(&decl(d.0, d.1));
            for e in &ds[..i] { if NS[e.0] == NS[d.0] && e.1 == d.1 { clash.push((NS[d.0], d.1)) } }
        }
        match analyse(&t) {
            None => check(false, 1),
            Some(Ok(_)) => { check(clash.is_empty(), 2); cover(1) }
            Some(Err(e)) => {
                let (k, n) = match e { AsgError::TypeRedefinition(n, _, _) => (0, n), AsgError::ConstRedefinition(n, _, _) => (1, n), AsgError::TransformRedefinition(n, _, _) => (2, n), AsgError::FunctionRedefinition(n, _, _) => (3, n), _ => (9, String::new()) };
                check(clash.iter().any(|c| c.0 == k && c.1 == n), 7);
                cover(2)
            }
        }
    }
    /// members of an enum, flags of a bitfield, arguments of a type, fields of a container, with these names
    pub fn members(kind: u8, ns: &[&'static str]) {
        let mut t = String::new();
        let mut n = 1u64;
        t.push_str(match kind { 0 => "type t = enum u8 {\n", 1 => "type t = bitfield u8 {\n", 2 => "type t(\n", 3 => "type t = container {\n", _ => "type t = container +tagged_enum {\n" });
        for (i, x) in ns.iter().enumerate() {
            t.push_str(x);
            t.push_str(&match kind { 0 | 1 => format!(" = {}", n), 2 | 3 => ": u8".to_string(), _ => if i + 1 < ns.len() { ": u8 { false }".to_string() } else { ": u8".to_string() } });
            t.push_str(",\n");
            n *= 2;
        }
        if kind == 2 { t.pop(); t.pop(); t.push_str(") = u8;") } else { t.push_str("};") }
        let mut first = None;
        for i in (0..ns.len()).rev() { for j in 0..i { if ns[i] == ns[j] { first = Some(i) } } }
        match analyse(&t) {
            None => check(false, 1),
            Some(Ok(_)) => { check(first.is_none(), 2); cover(1) }
            Some(Err(e)) => {
                check(first.is_some(), 6);
                let (k, n) = match e { AsgError::EnumVariantRedefinition(n, _) => (0, n), AsgError::BitfieldFlagRedefinition(n, _, _) => (1, n), AsgError::TypeArgumentRedefinition(n, _) => (2, n), AsgError::ContainerFieldRedefinition(n, _, _) => (3, n), _ => (9, String::new()) };
                check(k == if kind == 4 { 3 } else { kind } && first.map(|i| ns[i] == n).unwrap_or(false), 7);
                cover(2)
            }
        }
    }
    /// types which contain each other (arrays and other names of themselves are none): (shape, field names, what is contained)
    pub fn cycles(ds: &[(u8, &'static str, usize, &'static str, usize)]) {
        const TN: &[&str] = &["ta", "tb", "tc", "u8"];
        let mut t = String::new();
        let n = ds.len();
        let mut edge = vec![];
        let mut alias: Vec<Option<usize>> = vec![None; n];
        for (i, d) in ds.iter().enumerate() {
            let (a, b) = (TN[d.2], TN[d.4]);
            t.push_str(&match d.0 {
                0 => format!("type {} = container {{ {}: {}, {}: {} }};\n", TN[i], d.1, a, d.3, b),
                1 => format!("type {} = container {{ {}: {}[1], i: container {{ {}: {} }} {{ true }} }};\n", TN[i], d.1, a, d.3, b),
                2 => format!("type {} = container +tagged_enum {{ {}: {} {{ true }}, {}: container {{ y: {} }} }};\n", TN[i], d.1, a, d.3, b),
                3 => format!("type {} = {}[2];\n", TN[i], a),
                _ => format!("type {} = {};\n", TN[i], a),
            });
            if d.2 < n { edge.push((i, d.2)) }
            if d.0 < 3 && d.4 < n { edge.push((i, d.4)) }
            if d.0 >= 3 && d.2 < n { alias[i] = Some(d.2) }
        }
        let reach = |from: usize| { let mut r = vec![false; n]; loop { let mut ch = false; for (a, b) in &edge { if (*a == from || r[*a]) && !r[*b] { r[*b] = true; ch = true } } if !ch { break } } r };
        let mut bad = false;
        for i in 0..n { let mut j = i; for _ in 0..n { match alias[j] { Some(k) => { j = k; if k == i { bad = true } } None => break } } }
        match analyse(&t) {
            None => check(false, 1),
            Some(Ok(p)) => {
                check(!bad, 10);
                for i in 0..n { check(p.types[TN[i]].is_maybe_cyclical.get() == reach(i)[i], 11) }
                cover(1)
            }
            Some(Err(e)) => { check(bad, 12); check(matches!(e, AsgError::CyclicType(_, _)), 12); cover(2) }
        }
    }
}
