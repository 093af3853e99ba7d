//! Runs the spec compiler of /repo on spec files: `pspec-gen OUTDIR [--async] [--anyhow] a.pspec b.pspec ...`
//! writes OUTDIR/a.rs (generated code) or OUTDIR/a.err (stage and message).
use proc_macro2::TokenStream;
use protospec_build::*;
use quote::quote;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Byte-wise test transforms: `xorx(k)`, `addx(k)`, `tail` which appends one 0xA5 byte on flush, `fin` which does so when dropped.
struct Xf(&'static str);
impl ForeignTransform for Xf {
    fn decoding_gen(&self, input: TokenStream, args: Vec<TokenStream>, is_async: bool) -> TokenStream {
        let a = if let Some(x) = args.get(0) { quote! { #x as u8 } } else { quote! { 0u8 } };
        let n = quote::format_ident!("{}{}R", self.0, if is_async { "Async" } else { "" });
        let m = quote::format_ident!("{}", if is_async { "ap" } else { "xf" });
        quote! { crate::#m::#n::new(#input, #a) }
    }
    fn encoding_gen(&self, input: TokenStream, args: Vec<TokenStream>, is_async: bool) -> TokenStream {
        let a = if let Some(x) = args.get(0) { quote! { #x as u8 } } else { quote! { 0u8 } };
        let n = quote::format_ident!("{}{}W", self.0, if is_async { "Async" } else { "" });
        let m = quote::format_ident!("{}", if is_async { "ap" } else { "xf" });
        quote! { crate::#m::#n::new(#input, #a) }
    }
    fn arguments(&self) -> Vec<FFIArgument> {
        if self.0 == "Tail" || self.0 == "Fin" {
            return vec![];
        }
        vec![FFIArgument { name: "key".to_string(), type_: Some(asg::Type::Scalar(ScalarType::U8.into())), optional: false }]
    }
}

struct Res(std::path::PathBuf);
impl ImportResolver for Res {
    fn normalize_import(&self, import: &str) -> Result<String> {
        Ok(import.to_string())
    }
    fn resolve_import(&self, import: &str) -> Result<Option<String>> {
        Ok(std::fs::read_to_string(self.0.join(format!("{}.pspec", import))).ok())
    }
    fn resolve_ffi_transform(&self, t: &str) -> Result<Option<ForeignTransformObj>> {
        Ok(match t {
            "xorx" => Some(Box::new(Xf("Xor"))),
            "addx" => Some(Box::new(Xf("Add"))),
            "tail" => Some(Box::new(Xf("Tail"))),
            "fin" => Some(Box::new(Xf("Fin"))),
            _ => None,
        })
    }
    fn resolve_ffi_type(&self, _: &str) -> Result<Option<ForeignTypeObj>> {
        Ok(None)
    }
    fn resolve_ffi_function(&self, _: &str) -> Result<Option<ForeignFunctionObj>> {
        Ok(None)
    }
    fn prelude_ffi_functions(&self) -> Result<std::collections::HashMap<String, ForeignFunctionObj>> {
        Ok(Default::default())
    }
}

fn main() {
    let mut a = std::env::args().skip(1);
    let out = std::path::PathBuf::from(a.next().unwrap());
    let mut o = CompileOptions::default();
    let mut files = vec![];
    for x in a {
        match x.as_str() {
            "--async" => o.include_async = true,
            "--anyhow" => o.use_anyhow = true,
            _ => files.push(x),
        }
    }
    std::panic::set_hook(Box::new(|_| {}));
    for f in files {
        let p = std::path::PathBuf::from(&f);
        let stem = p.file_stem().unwrap().to_string_lossy().to_string();
        let s = std::fs::read_to_string(&p).unwrap();
        let dir = p.parent().unwrap().to_path_buf();
        let o = o.clone();
        let r = catch_unwind(AssertUnwindSafe(move || -> std::result::Result<String, String> {
            let ast = parse(&s).map_err(|e| format!("parse error: {}", e))?;
            let p = asg::Program::from_ast(&ast, &PreludeImportResolver(Res(dir))).map_err(|e| format!("semantic error: {}", e))?;
            Ok(compiler::compile_program(&p, &o).to_string())
        }));
        let r = match r {
            Ok(r) => r,
            Err(e) => Err(format!("spec compiler panicked: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default())),
        };
        let _ = std::fs::remove_file(out.join(format!("{}.err", stem)));
        let _ = std::fs::remove_file(out.join(format!("{}.rs", stem)));
        match r {
            Ok(s) => std::fs::write(out.join(format!("{}.rs", stem)), s).unwrap(),
            Err(s) => std::fs::write(out.join(format!("{}.err", stem)), s).unwrap(),
        }
    }
}
