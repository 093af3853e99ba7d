#[allow(dead_code)]
mod rt_imp {
    use crate::rf::*;
    use crate::rt::*;
    use std::collections::HashMap;
    pub struct Files(pub Vec<(String, String)>);
    impl protospec_build::ImportResolver for Files {
        fn normalize_import(&self, import: &str) -> protospec_build::Result<String> { Ok(import.to_string()) }
        fn resolve_import(&self, import: &str) -> protospec_build::Result<Option<String>> {
            for (n, t) in &self.0 { if n == import { return Ok(Some(t.clone())) } }
            Ok(None)
        }
        fn resolve_ffi_transform(&self, _: &str) -> protospec_build::Result<Option<protospec_build::ForeignTransformObj>> { Ok(None) }
        fn resolve_ffi_type(&self, _: &str) -> protospec_build::Result<Option<protospec_build::ForeignTypeObj>> { Ok(None) }
        fn resolve_ffi_function(&self, _: &str) -> protospec_build::Result<Option<protospec_build::ForeignFunctionObj>> { Ok(None) }
        fn prelude_ffi_functions(&self) -> protospec_build::Result<HashMap<String, protospec_build::ForeignFunctionObj>> { Ok(HashMap::new()) }
    }
    /// accepted (3), rejected by the analysis (2) or by the parser (1)
    pub fn analyse(main: &str, files: Vec<(String, String)>) -> (u64, Option<String>) {
        let p = match protospec_build::parse(main) { Ok(p) => p, Err(_) => return (1, None) };
        let r = protospec_build::PreludeImportResolver(Files(files));
        match protospec_build::asg::Program::from_ast(&p, &r) {
            Ok(p) => {
                let mut g = String::new();
                for (n, _) in &p.types { g.push_str(n); g.push(' ') }
                (3, Some(g))
            }
            Err(_) => (2, None),
        }
    }
    pub fn generate(main: &str, files: Vec<(String, String)>) -> Option<String> {
        let p = match protospec_build::parse(main) { Ok(p) => p, Err(_) => return None };
        let r = protospec_build::PreludeImportResolver(Files(files));
        let p = match protospec_build::asg::Program::from_ast(&p, &r) { Ok(p) => p, Err(_) => return None };
        let o = protospec_build::compiler::CompileOptions::default();
        Some(protospec_build::compiler::compile_program(&p, &o).to_string())
    }
    // ---- the model: files, what they declare and import
    #[derive(Clone)]
    pub struct Im { pub item: &'static str, pub alias: Option<&'static str>, pub from: &'static str }
    /// kind 0: a container with one field of the type `uses`; 1: a const; 2: an enum; 3: an alias of `uses`; 4: a u8 array of the length `uses`
    #[derive(Clone)]
    pub struct De { pub kind: u8, pub name: &'static str, pub uses: &'static str }
    #[derive(Clone, Default)]
    pub struct Fi { pub name: &'static str, pub ims: Vec<Im>, pub des: Vec<De>, pub extra: &'static str, pub bad: bool }
    pub fn im(item: &'static str, alias: Option<&'static str>, from: &'static str) -> Im { Im { item, alias, from } }
    pub fn de(kind: u8, name: &'static str, uses: &'static str) -> De { De { kind, name, uses } }
    pub fn fi(name: &'static str, ims: Vec<Im>, des: Vec<De>) -> Fi { Fi { name, ims, des, extra: "", bad: false } }
    pub fn text(f: &Fi) -> String {
        let mut s = String::new();
        for i in &f.ims {
            s.push_str("import "); s.push_str(i.item);
            if let Some(a) = i.alias { s.push_str(" as "); s.push_str(a) }
            s.push_str(" from \""); s.push_str(i.from); s.push_str("\";\n");
        }
        for d in &f.des {
            match d.kind {
                0 => { s.push_str("type "); s.push_str(d.name); s.push_str(" = container { x: "); s.push_str(d.uses); s.push_str(" };\n") }
                1 => { s.push_str("const "); s.push_str(d.name); s.push_str(": u8 = 3;\n") }
                2 => { s.push_str("type "); s.push_str(d.name); s.push_str(" = enum u8 { P = 1, Q };\n") }
                3 => { s.push_str("type "); s.push_str(d.name); s.push_str(" = "); s.push_str(d.uses); s.push_str(";\n") }
                _ => { s.push_str("type "); s.push_str(d.name); s.push_str(" = u8["); s.push_str(d.uses); s.push_str("];\n") }
            }
        }
        s.push_str(f.extra);
        s
    }
    #[derive(Clone, Copy, PartialEq)]
    pub struct Id(pub usize, pub usize);   // file, declaration
    #[derive(Clone, Default)]
    pub struct Sc { pub types: Vec<(&'static str, Id)>, pub consts: Vec<(&'static str, Id)>, pub all: Vec<(&'static str, Id)> }
    pub fn get(v: &[(&'static str, Id)], n: &str) -> Option<Id> { for (k, i) in v { if *k == n { return Some(*i) } } None }
    fn put(v: &mut Vec<(&'static str, Id)>, n: &'static str, i: Id) -> bool {
        match get(v, n) { Some(o) => o == i, None => { v.push((n, i)); true } }
    }
    fn isnum(s: &str) -> bool { s.as_bytes()[0].is_ascii_digit() }
    /// names a file can use, or none when it is not a valid file
    pub fn model(fs: &[Fi], at: usize, stack: &mut Vec<usize>) -> Option<Sc> {
        let f = &fs[at];
        if f.bad { return None }
        stack.push(at);
        let mut sc = Sc::default();
        for i in &f.ims {
            let mut k = None;
            for (j, g) in fs.iter().enumerate() { if g.name == i.from { k = Some(j) } }
            let k = k?;
            if stack.contains(&k) { return None }
            let o = model(fs, k, stack)?;
            let n = i.alias.unwrap_or(i.item);
            if let Some(t) = get(&o.types, i.item) { if !put(&mut sc.types, n, t) { return None } }
            else if let Some(t) = get(&o.consts, i.item) { if !put(&mut sc.consts, n, t) { return None } }
            else { return None }
            for (n, t) in o.all { if !put(&mut sc.all, n, t) { return None } }
        }
        for (j, d) in f.des.iter().enumerate() {
            let id = Id(at, j);
            if d.kind == 1 {
                if get(&sc.consts, d.name).is_some() { return None }
                sc.consts.push((d.name, id));
            } else {
                if get(&sc.types, d.name).is_some() || get(&sc.all, d.name).is_some() { return None }
                sc.types.push((d.name, id));
                sc.all.push((d.name, id));
            }
        }
        for d in &f.des {
            match d.kind {
                0 | 3 => if d.uses != "u8" && get(&sc.types, d.uses).is_none() { return None },
                4 => if !isnum(d.uses) && get(&sc.consts, d.uses).is_none() { return None },
                _ => (),
            }
        }
        stack.pop();
        Some(sc)
    }
    /// fs[0] is the program
    pub fn cmp_imports(fs: &[Fi], gen: bool) {
        let want = model(fs, 0, &mut vec![]);
        let files: Vec<(String, String)> = fs[1..].iter().map(|f| (f.name.to_string(), text(f))).collect();
        let main = text(&fs[0]);
        if gen {
            let got = generate(&main, files);
            observe(got.is_some() as u64);
            check(got.is_some() == want.is_some(), if want.is_some() { 1 } else { 2 });
            cover(if want.is_some() { 1 } else { 2 });
            if let (Some(w), Some(g)) = (want, got) {
                for (_, id) in &w.all { let d = &fs[id.0].des[id.1]; check(count(&g, if d.kind == 2 { "pub enum " } else { "pub struct " }, d.name) == 1, 3) }
                for (n, id) in &w.types { let d = &fs[id.0].des[id.1]; if d.name != *n && get(&w.all, n).is_none() { check(count(&g, "pub type ", n) == 1, 4) } }
                observe(g.len() as u64);
            }
        } else {
            let (r, names) = analyse(&main, files);
            observe(r);
            check(r != 1, 5);
            check((r == 3) == want.is_some(), if want.is_some() { 1 } else { 2 });
            cover(if want.is_some() { 1 } else { 2 });
            if let (Some(w), Some(g)) = (want, names) {
                let mut n = 0;
                for x in g.split(' ') { if !x.is_empty() { n += 1; check(get(&w.types, x).is_some(), 6) } }
                check(n == w.types.len(), 6);
            }
        }
    }
    /// how often the words stand in the text, followed by the end of a name
    fn count(g: &str, a: &str, b: &str) -> usize {
        let (g, mut n) = (g.as_bytes(), 0);
        let w: Vec<u8> = a.bytes().chain(b.bytes()).collect();
        let mut i = 0;
        while i + w.len() < g.len() {
            if g[i..i + w.len()] == w[..] && !(g[i + w.len()] == b'_' || g[i + w.len()].is_ascii_alphanumeric()) { n += 1 }
            i += 1;
        }
        n
    }
    pub fn word(v: &[&'static str]) -> &'static str { v[pick(v.len() as u64) as usize] }
    pub fn alias(v: &[&'static str]) -> Option<&'static str> { let k = pick(v.len() as u64 + 1) as usize; if k == 0 { None } else { Some(v[k - 1]) } }
}
