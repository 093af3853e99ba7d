/// Reference tokenizer, written from the language's description.
pub mod rt_tok {
    use super::rt::*;
    #[derive(Clone, PartialEq)]
    pub struct T { pub k: u16, pub p: Vec<u8>, pub s: usize, pub e: usize }
    pub const IDENT: u16 = 1; pub const STRING: u16 = 2; pub const INT: u16 = 3; pub const LINE: u16 = 4; pub const BLOCK: u16 = 5;
    pub const KEYS: &[&str] = &["type", "as", "import", "import_ffi", "i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128",
        "i16le", "i32le", "i64le", "i128le", "u16le", "u32le", "u64le", "u128le", "transform", "function", "const", "container", "f32", "f64",
        "enum", "default", "bitfield", "bool", "from", "true", "false"];
    // longest first
    pub const OPS: &[&str] = &[">>>", "==", "?:", "||", "&&", "..", ":>", "::", "<=", "<<", ">=", ">>", "->", "!=",
        "=", ",", ";", "?", "[", "]", "{", "}", "(", ")", "+", "*", "%", "^", "~", "|", "/", "&", ".", ":", "<", ">", "-", "!"];
    pub fn key(i: usize) -> u16 { 10 + i as u16 }
    pub fn op(i: usize) -> u16 { 100 + i as u16 }
    fn hexv(c: u8) -> Option<u8> {
        match c { b'0'..=b'9' => Some(c - b'0'), b'a'..=b'f' => Some(c - b'a' + 10), b'A'..=b'F' => Some(c - b'A' + 10), _ => None }
    }
    fn alpha(c: u8) -> bool { (c >= b'a' && c <= b'z') || (c >= b'A' && c <= b'Z') || c == b'_' }
    fn digit(c: u8) -> bool { c >= b'0' && c <= b'9' }
    /// None: the text is rejected
    pub fn tok(b: &[u8]) -> Option<Vec<T>> {
        let n = b.len();
        let mut o: Vec<T> = vec![];
        let mut i = 0;
        'outer: while i < n {
            let c = b[i];
            let s = i;
            if c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' || c == 12 { i += 1; continue }
            if alpha(c) {
                while i < n && (alpha(b[i]) || digit(b[i])) { i += 1 }
                let w = &b[s..i];
                let mut k = IDENT;
                for (j, x) in KEYS.iter().enumerate() { if x.as_bytes() == w { k = key(j) } }
                o.push(T { k, p: if k == IDENT { w.to_vec() } else { vec![] }, s, e: i });
                continue;
            }
            if digit(c) {
                if c == b'0' && i + 1 < n && b[i + 1] == b'x' {
                    i += 2;
                    while i < n && hexv(b[i]).is_some() { i += 1 }
                } else {
                    while i < n && digit(b[i]) { i += 1 }
                }
                o.push(T { k: INT, p: b[s..i].to_vec(), s, e: i });
                continue;
            }
            if c == b'"' {
                let mut p = vec![];
                i += 1;
                loop {
                    if i >= n { return None }
                    if b[i] == b'"' { i += 1; break }
                    if b[i] == b'\\' {
                        i += 1;
                        if i >= n { return None }
                        match hexv(b[i]) {
                            Some(h) => {
                                i += 1;
                                match if i < n { hexv(b[i]) } else { None } {
                                    Some(l) => { p.push(h << 4 | l); i += 1 }
                                    None => p.push(h),
                                }
                            }
                            None => { p.push(b[i]); i += 1 }
                        }
                        continue;
                    }
                    p.push(b[i]);
                    i += 1;
                }
                o.push(T { k: STRING, p, s, e: i });
                continue;
            }
            if c == b'/' && i + 1 < n && b[i + 1] == b'/' {
                i += 2;
                while i < n && b[i] != b'\n' { i += 1 }
                let p = b[s + 2..i].to_vec();
                if i < n { i += 1 }
                o.push(T { k: LINE, p, s, e: i });
                continue;
            }
            if c == b'/' && i + 1 < n && b[i + 1] == b'*' {
                i += 2;
                loop {
                    if i + 1 >= n { return None }
                    if b[i] == b'*' && b[i + 1] == b'/' { break }
                    i += 1;
                }
                o.push(T { k: BLOCK, p: b[s + 2..i].to_vec(), s, e: i + 2 });
                i += 2;
                continue;
            }
            for (j, x) in OPS.iter().enumerate() {
                let x = x.as_bytes();
                if x.len() <= n - i && &b[i..i + x.len()] == x {
                    i += x.len();
                    o.push(T { k: op(j), p: vec![], s, e: i });
                    continue 'outer;
                }
            }
            return None;
        }
        Some(o)
    }
    fn kw(s: &str) -> u16 { key(KEYS.iter().position(|x| *x == s).unwrap()) }
    fn opn(s: &str) -> u16 { op(OPS.iter().position(|x| *x == s).unwrap()) }
    /// the tokens of the code under test, described in the same way
    pub fn flat(t: &protospec_build::Token) -> (u16, Vec<u8>) {
        use protospec_build::Token::*;
        let z = vec![];
        match t {
            Ident(s) => (IDENT, s.as_bytes().to_vec()),
            String(s) => (STRING, s.clone()),
            Int(s) => (INT, s.as_bytes().to_vec()),
            CommentLine(s) => (LINE, s.as_bytes().to_vec()),
            CommentBlock(s) => (BLOCK, s.as_bytes().to_vec()),
            Type => (kw("type"), z), Equal => (opn("="), z), As => (kw("as"), z), Import => (kw("import"), z), Comma => (opn(","), z),
            From => (kw("from"), z), ImportFfi => (kw("import_ffi"), z), Transform => (kw("transform"), z), Function => (kw("function"), z),
            Const => (kw("const"), z), DotDot => (opn(".."), z), Dot => (opn("."), z), Elvis => (opn("?:"), z),
            U8 => (kw("u8"), z), U16 => (kw("u16"), z), U32 => (kw("u32"), z), U64 => (kw("u64"), z), U128 => (kw("u128"), z),
            I8 => (kw("i8"), z), I16 => (kw("i16"), z), I32 => (kw("i32"), z), I64 => (kw("i64"), z), I128 => (kw("i128"), z),
            U16Le => (kw("u16le"), z), U32Le => (kw("u32le"), z), U64Le => (kw("u64le"), z), U128Le => (kw("u128le"), z),
            I16Le => (kw("i16le"), z), I32Le => (kw("i32le"), z), I64Le => (kw("i64le"), z), I128Le => (kw("i128le"), z),
            F32 => (kw("f32"), z), F64 => (kw("f64"), z), Bool => (kw("bool"), z), Lt => (opn("<"), z), Gt => (opn(">"), z), Arrow => (opn("->"), z),
            Container => (kw("container"), z), LeftSquare => (opn("["), z), RightSquare => (opn("]"), z), LeftCurly => (opn("{"), z), RightCurly => (opn("}"), z),
            Enum => (kw("enum"), z), Default => (kw("default"), z), Bitfield => (kw("bitfield"), z), LtEq => (opn("<="), z), GtEq => (opn(">="), z),
            Eq => (opn("=="), z), Ne => (opn("!="), z), Question => (opn("?"), z), Colon => (opn(":"), z), DoubleColon => (opn("::"), z), Semicolon => (opn(";"), z),
            Plus => (opn("+"), z), Minus => (opn("-"), z), Mul => (opn("*"), z), Div => (opn("/"), z), Mod => (opn("%"), z), Not => (opn("!"), z),
            LeftParen => (opn("("), z), RightParen => (opn(")"), z), Cast => (opn(":>"), z), Or => (opn("||"), z), And => (opn("&&"), z),
            BitOr => (opn("|"), z), BitXor => (opn("^"), z), BitAnd => (opn("&"), z), Shr => (opn(">>"), z), Shl => (opn("<<"), z),
            ShrSigned => (opn(">>>"), z), BitNot => (opn("~"), z), True => (kw("true"), z), False => (kw("false"), z),
            #[allow(unreachable_patterns)]
            _ => (999, z),
        }
    }
    /// 1-based line and column of the byte at offset `i`
    pub fn pos(b: &[u8], i: usize) -> (u64, u64) {
        let mut l = 1u64;
        let mut c = 1u64;
        for x in &b[..i] { if *x == b'\n' { l += 1; c = 1 } else { c += 1 } }
        (l, c)
    }
    pub const C_ACC: u32 = 1; pub const C_REJ: u32 = 2; pub const C_N: u32 = 3; pub const C_KIND: u32 = 4; pub const C_PAY: u32 = 5;
    pub const C_STRIP: u32 = 6; pub const C_SPAN: u32 = 7;
    pub fn cmp(b: &[u8], strip: bool, spans: bool) {
        let s = unsafe { std::str::from_utf8_unchecked(b) };
        let want = tok(b);
        let got = protospec_build::tokenize(s, strip);
        match (want, got) {
            (None, Err(_)) => { cover(2); observe(0xe) }
            (None, Ok(_)) => check(false, C_REJ),
            (Some(_), Err(_)) => check(false, C_ACC),
            (Some(w), Ok(g)) => {
                cover(1);
                let w: Vec<T> = w.into_iter().filter(|t| !strip || (t.k != LINE && t.k != BLOCK)).collect();
                observe(w.len() as u64);
                if g.len() != w.len() { check(false, if strip { C_STRIP } else { C_N }); return }
                for (x, y) in w.iter().zip(g.iter()) {
                    let (k, p) = flat(&y.token);
                    observe(k as u64);
                    check(k == x.k, C_KIND);
                    if k == x.k { check(super::rf::sameb(&p, &x.p), C_PAY) }
                    if spans {
                        let sp = &y.span;
                        let (a, bb) = (pos(b, x.s), pos(b, x.e));
                        observe(sp.line_start * 1000 + sp.col_start);
                        observe(sp.line_stop * 1000 + sp.col_stop);
                        check(sp.line_start == a.0 && sp.col_start == a.1 && sp.line_stop == bb.0 && sp.col_stop == bb.1, C_SPAN);
                    }
                }
            }
        }
    }
}
