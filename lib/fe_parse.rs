/// Reference parser over the reference tokens: builds a flat pre-order description of the program.
pub mod rt_parse {
    use super::rt::*;
    use super::rt_tok::*;
    pub struct P<'a> { t: &'a [T], i: usize, pub o: Vec<u16>, pub pos: bool }
    type R<X> = Option<X>;
    // node codes
    pub const BIN: u16 = 300; pub const UN: u16 = 330; pub const CAST: u16 = 340; pub const INDEX: u16 = 341; pub const EACC: u16 = 342; pub const NINT: u16 = 343;
    pub const REF: u16 = 344; pub const STR: u16 = 345; pub const TERN: u16 = 346; pub const BOOL: u16 = 347; pub const CALL: u16 = 348; pub const MEMB: u16 = 349;
    pub const TCONT: u16 = 360; pub const TENUM: u16 = 361; pub const TBITF: u16 = 362; pub const TSCAL: u16 = 363; pub const TARR: u16 = 364; pub const TF32: u16 = 365;
    pub const TF64: u16 = 366; pub const TBOOL: u16 = 367; pub const TREF: u16 = 368;
    pub const FIELD: u16 = 380; pub const PAD: u16 = 381; pub const XFORM: u16 = 382; pub const NONE: u16 = 383; pub const SOME: u16 = 384; pub const DFLT: u16 = 385;
    pub const DTYPE: u16 = 390; pub const DIMP: u16 = 391; pub const DFFI: u16 = 392; pub const DCONST: u16 = 393; pub const END: u16 = 394; pub const POS: u16 = 500;
    const SCAL: &[&str] = &["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "u16le", "u32le", "u64le", "u128le", "i16le", "i32le", "i64le", "i128le"];
    /// binary operators, loosest level first
    const LEVELS: &[&[&str]] = &[&["||"], &["&&"], &["|"], &["^"], &["&"], &["==", "!="], &["<", "<=", ">", ">="], &["<<", ">>", ">>>"], &["+", "-"], &["*", "/", "%"]];
    fn opc(s: &str) -> u16 { op(OPS.iter().position(|x| *x == s).unwrap()) }
    fn kwc(s: &str) -> u16 { key(KEYS.iter().position(|x| *x == s).unwrap()) }
    pub fn bytes(o: &mut Vec<u16>, b: &[u8]) { o.push(b.len() as u16); for x in b { o.push(*x as u16) } }
    impl<'a> P<'a> {
        pub fn new(t: &'a [T]) -> Self { P { t, i: 0, o: vec![], pos: false } }
        /// the last token read
        fn l(&self) -> u16 { self.i as u16 - 1 }
        /// where a node stands: the tokens it has to cover, and those it may cover
        fn at(&self, a: u16, b: u16, c: u16, d: u16) -> Vec<u16> { if self.pos { vec![POS, a, b, c, d] } else { vec![] } }
        /// tokens of a node read before
        fn of(&self, n: &[u16]) -> [u16; 4] { if self.pos { [n[1], n[2], n[3], n[4]] } else { [0; 4] } }
        /// from `a` to `b`
        fn span(&self, a: &[u16], b: &[u16]) -> Vec<u16> { let (x, y) = (self.of(a), self.of(b)); self.at(x[0], y[1], x[2], y[3]) }
        fn k(&self) -> u16 { if self.i < self.t.len() { self.t[self.i].k } else { 0 } }
        fn eat(&mut self, c: u16) -> bool { if self.k() == c { self.i += 1; true } else { false } }
        fn eo(&mut self, s: &str) -> bool { self.eat(opc(s)) }
        fn ek(&mut self, s: &str) -> bool { self.eat(kwc(s)) }
        fn no(&mut self, s: &str) -> R<()> { if self.eo(s) { Some(()) } else { None } }
        fn ident(&mut self) -> R<Vec<u8>> { if self.k() == IDENT { self.i += 1; Some(self.t[self.i - 1].p.clone()) } else { None } }
        fn id(&mut self) -> R<()> { let b = self.ident()?; let p = self.at(self.l(), self.l(), self.l(), self.l()); self.o.extend(p); bytes(&mut self.o, &b); Some(()) }
        fn scalar(&mut self) -> Option<usize> { for (i, s) in SCAL.iter().enumerate() { if self.ek(s) { return Some(i) } } None }
        /// collect what `f` writes
        fn sub(&mut self, f: impl FnOnce(&mut Self) -> R<()>) -> R<Vec<u16>> {
            let old = std::mem::take(&mut self.o);
            let r = f(self);
            let n = std::mem::replace(&mut self.o, old);
            r.map(|_| n)
        }
        pub fn expr(&mut self) -> R<()> {
            let c = self.sub(|s| s.bin(0))?;
            if self.eo("?") {
                let a = self.sub(|s| s.expr())?;
                self.no(":")?;
                let b = self.sub(|s| s.bin(0))?;
                let p = self.span(&c, &b);
                self.o.extend(p);
                self.o.push(TERN);
                self.o.extend(c);
                self.o.extend(a);
                self.o.extend(b);
                Some(())
            } else { self.o.extend(c); Some(()) }
        }
        fn bin(&mut self, l: usize) -> R<()> {
            if l == LEVELS.len() { return self.cast() }
            let mut left = self.sub(|s| s.bin(l + 1))?;
            'a: loop {
                for x in LEVELS[l] {
                    if self.eo(x) {
                        let right = self.sub(|s| s.bin(l + 1))?;
                        let mut n = self.span(&left, &right);
                        n.extend(&[BIN, opc(x)]);
                        n.extend(left);
                        n.extend(right);
                        left = n;
                        continue 'a;
                    }
                }
                break;
            }
            self.o.extend(left);
            Some(())
        }
        fn cast(&mut self) -> R<()> {
            let mut left = self.sub(|s| s.unary())?;
            loop {
                if self.eo(":>") {
                    let t = self.sub(|s| s.ty())?;
                    let mut n = self.span(&left, &t);
                    n.push(CAST);
                    n.extend(left);
                    n.extend(t);
                    left = n;
                } else if self.eo("?:") {
                    let r = self.sub(|s| s.unary())?;
                    let mut n = self.span(&left, &r);
                    n.extend(&[BIN, opc("?:")]);
                    n.extend(left);
                    n.extend(r);
                    left = n;
                } else { break }
            }
            self.o.extend(left);
            Some(())
        }
        fn unary(&mut self) -> R<()> {
            for x in &["!", "-", "~"] {
                if self.eo(x) {
                    let a = self.l();
                    let e = self.sub(|s| s.unary())?;
                    let q = self.of(&e);
                    let p = self.at(a, q[1], a, q[3]);
                    self.o.extend(p);
                    self.o.push(UN);
                    self.o.push(opc(x));
                    self.o.extend(e);
                    return Some(());
                }
            }
            let mut e = self.sub(|s| s.prim())?;
            loop {
                if self.eo("[") {
                    let i = self.sub(|s| s.expr())?;
                    self.no("]")?;
                    let (x, y) = (self.of(&e), self.of(&i));
                    let mut n = self.at(x[0], y[1], x[2], self.l());
                    n.push(INDEX);
                    n.extend(e);
                    n.extend(i);
                    e = n;
                } else if self.eo(".") {
                    let m = self.sub(|s| s.id())?;
                    let mut n = self.span(&e, &m);
                    if self.pos { let x = self.of(&e); n = self.at(x[0], self.l(), x[2], self.l()) }
                    n.push(MEMB);
                    n.extend(e);
                    n.extend(m);
                    e = n;
                } else { break }
            }
            self.o.extend(e);
            Some(())
        }
        fn args(&mut self) -> R<()> {
            // after `(`
            loop {
                if self.eo(")") { break }
                self.expr()?;
                if !self.eo(",") { self.no(")")?; break }
            }
            self.o.push(END);
            Some(())
        }
        fn prim(&mut self) -> R<()> {
            if self.i >= self.t.len() { return None }
            let t = self.t[self.i].clone();
            let a = self.i as u16;
            self.i += 1;
            let me = self.at(a, a, a, a);
            if t.k == INT {
                let mut n = vec![NINT];
                bytes(&mut n, &t.p);
                match self.scalar() { Some(i) => { let b = if i >= 10 { i - 9 + if i >= 14 { 1 } else { 0 } } else { i }; n.push(SOME); n.push(b as u16) } None => n.push(NONE) }
                // the type after the number may belong to it
                let p = self.at(a, a, a, self.l());
                self.o.extend(p);
                self.o.extend(n);
            } else if t.k == STRING { self.o.extend(me); self.o.push(STR); bytes(&mut self.o, &t.p) }
            else if t.k == kwc("true") { self.o.extend(me); self.o.push(BOOL); self.o.push(1) }
            else if t.k == kwc("false") { self.o.extend(me); self.o.push(BOOL); self.o.push(0) }
            else if t.k == IDENT {
                if self.eo("::") {
                    let v = self.sub(|s| s.id())?;
                    let p = self.at(a, self.l(), a, self.l());
                    self.o.extend(p);
                    self.o.push(EACC);
                    self.o.extend(me);
                    bytes(&mut self.o, &t.p);
                    self.o.extend(v);
                } else if self.eo("(") {
                    let v = self.sub(|s| s.args())?;
                    let p = self.at(a, a, a, self.l());
                    self.o.extend(p);
                    self.o.push(CALL);
                    self.o.extend(me);
                    bytes(&mut self.o, &t.p);
                    self.o.extend(v);
                } else {
                    self.o.extend(&me);
                    self.o.push(REF);
                    self.o.extend(me);
                    bytes(&mut self.o, &t.p)
                }
            } else if t.k == opc("(") {
                let mut e = self.sub(|s| s.expr())?;
                self.no(")")?;
                if self.pos { e[3] = a; e[4] = self.l() }
                self.o.extend(e);
            } else { return None }
            Some(())
        }
        fn flags(&mut self) -> R<()> { while self.eo("+") { self.id()? } self.o.push(END); Some(()) }
        fn cond(&mut self) -> R<()> {
            if self.eo("{") { self.o.push(SOME); self.expr()?; self.no("}") } else { self.o.push(NONE); Some(()) }
        }
        pub fn ty(&mut self) -> R<()> {
            let a = self.i as u16;
            let b = self.sub(|s| s.ty0())?;
            let mut t = self.at(a, a, a, self.l());
            t.extend(b);
            while self.eo("[") {
                let l = self.sub(|s| {
                    let ex = s.eo("..");
                    s.o.push(ex as u16);
                    if s.k() == opc("]") { s.o.push(NONE); if !ex { return None } } else { s.o.push(SOME); s.expr()? }
                    s.no("]")
                })?;
                let x = self.of(&t);
                let mut n = self.at(x[0], x[0], x[2], self.l());
                n.push(TARR);
                n.extend(t);
                n.extend(l);
                t = n;
            }
            self.o.extend(t);
            Some(())
        }
        fn items(&mut self, dflt: bool) -> R<()> {
            match self.scalar() { Some(i) => self.o.push(i as u16), None => return None }
            self.no("{")?;
            let mut first = true;
            loop {
                self.id()?;
                if first || self.k() == opc("=") {
                    self.no("=")?;
                    if dflt && self.ek("default") { self.o.push(DFLT) } else { self.o.push(SOME); self.expr()? }
                } else { self.o.push(NONE) }
                first = false;
                if !self.eo(",") { break }
                if self.k() == opc("}") { break }
            }
            self.o.push(END);
            self.no("}")
        }
        fn ty0(&mut self) -> R<()> {
            if self.ek("container") {
                self.o.push(TCONT);
                if self.eo("[") { self.o.push(SOME); self.expr()?; self.no("]")? } else { self.o.push(NONE) }
                self.flags()?;
                self.no("{")?;
                while self.k() != opc("}") {
                    if self.eo(".") {
                        if self.ident()? != b"pad" { return None }
                        self.no(":")?;
                        self.o.push(PAD);
                        self.expr()?;
                    } else {
                        self.id()?;
                        self.no(":")?;
                        self.field()?;
                    }
                    if !self.eo(",") { break }
                }
                self.o.push(END);
                return self.no("}");
            }
            if self.ek("enum") { self.o.push(TENUM); return self.items(true) }
            if self.ek("bitfield") { self.o.push(TBITF); return self.items(false) }
            if let Some(i) = self.scalar() { self.o.push(TSCAL); self.o.push(i as u16); return Some(()) }
            if self.ek("f32") { self.o.push(TF32); return Some(()) }
            if self.ek("f64") { self.o.push(TF64); return Some(()) }
            if self.ek("bool") { self.o.push(TBOOL); return Some(()) }
            self.o.push(TREF);
            self.id()?;
            if self.eo("(") { self.args() } else { self.o.push(END); Some(()) }
        }
        fn field(&mut self) -> R<()> {
            self.o.push(FIELD);
            self.ty()?;
            if self.eo("=") { self.o.push(SOME); self.expr()? } else { self.o.push(NONE) }
            self.flags()?;
            self.cond()?;
            while self.eo("->") {
                self.o.push(XFORM);
                self.id()?;
                if self.eo("(") { self.args()? } else { self.o.push(END) }
                self.cond()?;
            }
            self.o.push(END);
            Some(())
        }
        fn decl(&mut self) -> R<()> {
            if self.ek("type") {
                self.o.push(DTYPE);
                self.id()?;
                if self.eo("(") {
                    while !self.eo(")") {
                        self.id()?;
                        self.no(":")?;
                        self.ty()?;
                        if self.eo("?") { self.o.push(SOME); self.expr()? } else { self.o.push(NONE) }
                        if !self.eo(",") { self.no(")")?; break }
                    }
                }
                self.o.push(END);
                self.no("=")?;
                self.field()?;
            } else if self.ek("import") {
                self.o.push(DIMP);
                loop {
                    self.id()?;
                    if self.ek("as") { self.o.push(SOME); self.id()? } else { self.o.push(NONE) }
                    if !self.eo(",") { break }
                    if self.k() == kwc("from") { break }
                }
                self.o.push(END);
                if !self.ek("from") { return None }
                if self.k() != STRING { return None }
                self.i += 1;
                let p = self.t[self.i - 1].p.clone();
                bytes(&mut self.o, &p);
            } else if self.ek("import_ffi") {
                self.o.push(DFFI);
                self.id()?;
                if !self.ek("as") { return None }
                if self.ek("transform") { self.o.push(0) } else if self.ek("type") { self.o.push(1) } else if self.ek("function") { self.o.push(2) } else { return None }
            } else if self.ek("const") {
                self.o.push(DCONST);
                self.id()?;
                self.no(":")?;
                self.ty()?;
                self.no("=")?;
                self.expr()?;
            } else { return None }
            self.no(";")
        }
        pub fn program(&mut self) -> R<()> {
            while self.i < self.t.len() { self.decl()? }
            Some(())
        }
    }

    // ---------------------------------------------------- description of the tree built by the code under test
    pub mod ser {
        use super::*;
        use protospec_build::ast::*;
        static mut ON: bool = false;
        static mut BASE: Vec<protospec_build::Span> = vec![];
        pub fn on(b: bool) { unsafe { ON = b } }
        /// the positions met on the way, in order
        pub fn spans() -> Vec<protospec_build::Span> { unsafe { std::mem::take(&mut *std::ptr::addr_of_mut!(BASE)) } }
        fn at(o: &mut Vec<u16>, s: &protospec_build::Span) { unsafe { if ON { o.extend_from_slice(&[POS, 0, 0, 0, 0]); (*std::ptr::addr_of_mut!(BASE)).push(*s) } } }
        fn name(o: &mut Vec<u16>, i: &Ident) { at(o, &i.span); bytes(o, i.name.as_bytes()) }
        fn bop(x: &BinaryOp) -> u16 {
            use BinaryOp::*;
            opc(match x { Lt => "<", Gt => ">", Lte => "<=", Gte => ">=", Eq => "==", Ne => "!=", Or => "||", And => "&&", BitOr => "|", BitAnd => "&", BitXor => "^",
                Shr => ">>", Shl => "<<", ShrSigned => ">>>", Add => "+", Sub => "-", Mul => "*", Div => "/", Mod => "%", Elvis => "?:" })
        }
        fn sc(x: &ScalarType) -> u16 {
            use ScalarType::*;
            match x { U8 => 0, U16 => 1, U32 => 2, U64 => 3, U128 => 4, I8 => 5, I16 => 6, I32 => 7, I64 => 8, I128 => 9 }
        }
        fn esc(x: &EndianScalarType) -> u16 {
            let b = sc(&x.scalar);
            if x.endian == Endian::Big { b } else if b < 5 { b + 9 } else { b + 8 }
        }
        fn list(o: &mut Vec<u16>, a: &[Expression]) { for x in a { expr(o, x) } o.push(END) }
        fn opt(o: &mut Vec<u16>, a: &Option<Box<Expression>>) { match a { Some(x) => { o.push(SOME); expr(o, x) } None => o.push(NONE) } }
        pub fn expr(o: &mut Vec<u16>, e: &Expression) {
            at(o, e.span());
            match e {
                Expression::Binary(b) => { o.push(BIN); o.push(bop(&b.op)); expr(o, &b.left); expr(o, &b.right) }
                Expression::Unary(u) => { o.push(UN); o.push(opc(match u.op { UnaryOp::Negate => "-", UnaryOp::Not => "!", UnaryOp::BitNot => "~" })); expr(o, &u.inner) }
                Expression::Cast(c) => { o.push(CAST); expr(o, &c.inner); ty(o, &c.type_) }
                Expression::ArrayIndex(a) => { o.push(INDEX); expr(o, &a.array); expr(o, &a.index) }
                Expression::EnumAccess(a) => { o.push(EACC); name(o, &a.name); name(o, &a.variant) }
                Expression::Int(i) => { o.push(NINT); bytes(o, i.value.as_bytes()); match &i.type_ { Some(t) => { o.push(SOME); o.push(sc(t)) } None => o.push(NONE) } }
                Expression::Ref(i) => { o.push(REF); name(o, i) }
                Expression::Str(s) => { o.push(STR); bytes(o, &s.content) }
                Expression::Ternary(t) => { o.push(TERN); expr(o, &t.condition); expr(o, &t.if_true); expr(o, &t.if_false) }
                Expression::Bool(b) => { o.push(BOOL); o.push(b.value as u16) }
                Expression::Call(c) => { o.push(CALL); name(o, &c.function); list(o, &c.arguments) }
                Expression::Member(m) => { o.push(MEMB); expr(o, &m.target); name(o, &m.member) }
            }
        }
        fn flags(o: &mut Vec<u16>, f: &[Ident]) { for x in f { name(o, x) } o.push(END) }
        pub fn ty(o: &mut Vec<u16>, t: &Type) {
            at(o, &t.span);
            match &t.raw_type {
                RawType::Container(c) => {
                    o.push(TCONT);
                    opt(o, &c.length);
                    flags(o, &c.flags);
                    for i in &c.items { match i { ContainerItem::Field(n, f) => { name(o, n); field(o, f) } ContainerItem::Pad(e) => { o.push(PAD); expr(o, e) } } }
                    o.push(END)
                }
                RawType::Enum(e) => {
                    o.push(TENUM);
                    o.push(esc(&e.rep));
                    for (n, v) in &e.items { name(o, n); match v { EnumValue::Expression(x) => { o.push(SOME); expr(o, x) } EnumValue::Default => o.push(DFLT), EnumValue::None => o.push(NONE) } }
                    o.push(END)
                }
                RawType::Bitfield(e) => {
                    o.push(TBITF);
                    o.push(esc(&e.rep));
                    for (n, v) in &e.items { name(o, n); opt(o, v) }
                    o.push(END)
                }
                RawType::Scalar(s) => { o.push(TSCAL); o.push(esc(s)) }
                RawType::Array(a) => { o.push(TARR); ty(o, &a.interior_type); o.push(a.length.expandable as u16); opt(o, &a.length.inner) }
                RawType::F32 => o.push(TF32),
                RawType::F64 => o.push(TF64),
                RawType::Bool => o.push(TBOOL),
                RawType::Ref(r) => { o.push(TREF); name(o, &r.name); list(o, &r.arguments) }
            }
        }
        fn field(o: &mut Vec<u16>, f: &Field) {
            o.push(FIELD);
            ty(o, &f.type_);
            opt(o, &f.calculated);
            flags(o, &f.flags);
            opt(o, &f.condition);
            for x in &f.transforms { o.push(XFORM); name(o, &x.name); list(o, &x.arguments); opt(o, &x.conditional) }
            o.push(END)
        }
        pub fn program(o: &mut Vec<u16>, p: &Program) {
            for d in &p.declarations {
                match d {
                    Declaration::Type(t) => {
                        o.push(DTYPE);
                        name(o, &t.name);
                        for a in &t.arguments { name(o, &a.name); ty(o, &a.type_); match &a.default_value { Some(x) => { o.push(SOME); expr(o, x) } None => o.push(NONE) } }
                        o.push(END);
                        field(o, &t.value)
                    }
                    Declaration::Import(i) => {
                        o.push(DIMP);
                        for x in &i.items { name(o, &x.name); match &x.alias { Some(a) => { o.push(SOME); name(o, a) } None => o.push(NONE) } }
                        o.push(END);
                        bytes(o, &i.from.content)
                    }
                    Declaration::Ffi(f) => { o.push(DFFI); name(o, &f.name); o.push(match f.ffi_type { FfiType::Transform => 0, FfiType::Type => 1, FfiType::Function => 2 }) }
                    Declaration::Const(c) => { o.push(DCONST); name(o, &c.name); ty(o, &c.type_); expr(o, &c.value) }
                }
            }
        }
    }
    /// every name, expression and type of the tree stands where its text is
    pub fn cmp_pos(b: &[u8]) {
        let s = unsafe { std::str::from_utf8_unchecked(b) };
        let t: Vec<T> = match tok(b) { Some(t) => t.into_iter().filter(|t| t.k != LINE && t.k != BLOCK).collect(), None => { assume(false); return } };
        let mut p = P::new(&t);
        p.pos = true;
        if p.program().is_none() { assume(false); return }
        let g = match protospec_build::parse(s) { Ok(g) => g, Err(_) => { assume(false); return } };
        let mut o = vec![];
        ser::on(true);
        ser::program(&mut o, &g);
        let sp = ser::spans();
        let w = p.o;
        // another tree is no matter of positions
        if o.len() != w.len() { cover(2); return }
        let at: Vec<((u64, u64), (u64, u64))> = t.iter().map(|t| (pos(b, t.s), pos(b, t.e))).collect();
        let (mut i, mut n) = (0, 0);
        while i < w.len() {
            if w[i] == POS {
                if o[i] != POS { cover(2); return }
                let (a, z) = ((sp[n].line_start, sp[n].col_start), (sp[n].line_stop, sp[n].col_stop));
                let q = [w[i + 1], w[i + 2], w[i + 3], w[i + 4]];
                observe(a.0 * 1000 + a.1);
                observe(z.0 * 1000 + z.1);
                check(a <= at[q[0] as usize].0 && a >= at[q[2] as usize].0, 10);
                check(z >= at[q[1] as usize].1 && z <= at[q[3] as usize].1, 11);
                n += 1;
                i += 5;
                continue;
            }
            i += 1;
        }
        cover(1);
    }
    /// the tree of `b` against the reference
    pub fn cmp_parse(b: &[u8]) {
        let s = unsafe { std::str::from_utf8_unchecked(b) };
        let want = match tok(b) {
            None => None,
            Some(t) => {
                let t: Vec<T> = t.into_iter().filter(|t| t.k != LINE && t.k != BLOCK).collect();
                let mut p = P::new(&t);
                match p.program() { Some(()) => Some(p.o), None => None }
            }
        };
        let got = protospec_build::parse(s);
        match (want, got) {
            (None, Err(_)) => { cover(2); observe(0xe) }
            (None, Ok(_)) => check(false, 2),
            (Some(_), Err(_)) => check(false, 1),
            (Some(w), Ok(g)) => {
                cover(1);
                let mut o = vec![];
                ser::program(&mut o, &g);
                observe(o.len() as u64);
                if o.len() != w.len() { check(false, 3); return }
                let mut d = 0u16;
                for i in 0..o.len() { d |= o[i] ^ w[i] }
                check(d == 0, 3);
            }
        }
    }
}
