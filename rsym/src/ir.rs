//! Parser for textual LLVM IR (as printed by llvm-dis) into a compact executable form.
use std::collections::HashMap;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Arr(u64, TyId),
    Vec(u64, TyId),
    Struct(Vec<TyId>, bool),
    Label,
    Meta,
    Opaque,
}

/// Constant as parsed; global addresses are already concrete.
#[derive(Clone, Debug)]
pub enum Cv {
    Int(u128),
    Agg(Vec<Cv>),
    Zero,
    Undef,
    Bytes(Vec<u8>),
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    C(u32), // constant pool index
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cmp {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    BitCast,
    FpTrunc,
    FpExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32), // function id
    Indirect(Op),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(u32, Bin, TyId, Op, Op, u8), // flags: 1 nuw 2 nsw 4 exact 8 disjoint (unused)
    ICmp(u32, Cmp, TyId, Op, Op),
    FCmp(u32, String, TyId, Op, Op),
    FNeg(u32, TyId, Op),
    Cast(u32, CastK, TyId, TyId, Op),
    Select(u32, TyId, Op, Op, Op, TyId), // last = cond type
    Alloca(u32, u64, Option<Op>, u64),
    Load(u32, TyId, Op),
    Store(TyId, Op, Op),
    Gep(u32, Op, i64, Vec<(Op, i64, u32)>),
    ExtractValue(u32, Op, Vec<u32>, TyId),
    InsertValue(u32, Op, TyId, Op, Vec<u32>),
    ExtractElem(u32, TyId, Op, Op),
    InsertElem(u32, TyId, Op, Op, Op),
    Shuffle(u32, TyId, Op, Op, Vec<i64>),
    Freeze(u32, Op),
    Call(Option<u32>, TyId, Callee, Vec<(TyId, Op)>, Option<u32>), // last: normal dest for invoke
    AtomicRmw(u32, String, TyId, Op, Op),
    CmpXchg(u32, TyId, Op, Op, Op),
    Fence,
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(TyId, Op, u32, Vec<(u128, u32)>),
    Ret(Option<(TyId, Op)>),
    Unreachable,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Phi {
    pub dst: u32,
    pub inc: Vec<(u32, Op)>, // pred block, value
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<Ins>,
}

#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>, // empty => declaration
    pub defined: bool,
}

#[derive(Clone, Debug)]
pub struct Global {
    pub name: String,
    pub ty: TyId,
    pub init: Option<Cv>,
    pub constant: bool,
}

pub struct Module {
    pub tys: Vec<Ty>,
    pub tymap: HashMap<Ty, TyId>,
    pub named: HashMap<String, TyId>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
    pub consts: Vec<(TyId, Cv)>,
}

/// object ids: 0 = null page, 1..=nfuncs are functions, then globals.
pub fn func_addr(id: u32) -> u64 {
    ((id as u64) + 1) << 32
}

impl Module {
    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(x) = self.tymap.get(&t) {
            return *x;
        }
        let id = self.tys.len() as u32;
        self.tys.push(t.clone());
        self.tymap.insert(t, id);
        id
    }
    pub fn align(&self, t: TyId) -> u64 {
        match &self.tys[t as usize] {
            Ty::Int(w) => {
                if *w <= 8 {
                    1
                } else if *w <= 16 {
                    2
                } else if *w <= 32 {
                    4
                } else if *w <= 64 {
                    8
                } else {
                    16
                }
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(_, e) => self.align(*e),
            Ty::Vec(..) => self.size(t).next_power_of_two(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|x| self.align(*x)).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn bits(&self, t: TyId) -> u32 {
        match &self.tys[t as usize] {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            Ty::Vec(n, e) => *n as u32 * self.bits(*e),
            _ => (self.size(t) * 8) as u32,
        }
    }
    /// store size
    pub fn size(&self, t: TyId) -> u64 {
        match &self.tys[t as usize] {
            Ty::Void | Ty::Label | Ty::Meta | Ty::Opaque => 0,
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(n, e) => n * self.alloc_size(*e),
            Ty::Vec(n, e) => (n * self.bits(*e) as u64 + 7) / 8,
            Ty::Struct(f, p) => {
                let mut o = 0u64;
                for x in f {
                    if !*p {
                        let a = self.align(*x);
                        o = (o + a - 1) / a * a;
                    }
                    o += self.alloc_size(*x);
                }
                if !*p {
                    let a = self.align(t);
                    o = (o + a - 1) / a * a;
                }
                o
            }
        }
    }
    pub fn alloc_size(&self, t: TyId) -> u64 {
        let s = self.size(t);
        let a = self.align(t);
        (s + a - 1) / a * a
    }
    pub fn field_off(&self, t: TyId, i: usize) -> (u64, TyId) {
        match &self.tys[t as usize] {
            Ty::Struct(f, p) => {
                let mut o = 0u64;
                for (k, x) in f.iter().enumerate() {
                    if !*p {
                        let a = self.align(*x);
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return (o, *x);
                    }
                    o += self.alloc_size(*x);
                }
                panic!("field index")
            }
            Ty::Arr(_, e) => (i as u64 * self.alloc_size(*e), *e),
            Ty::Vec(_, e) => (i as u64 * self.size(*e), *e),
            _ => panic!("field_off of scalar"),
        }
    }
    pub fn global_addr(&self, i: u32) -> u64 {
        (self.funcs.len() as u64 + 1 + i as u64) << 32
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    Local(String),
    Glob(String),
    Word(&'a str),
    Int(&'a str),
    Str(Vec<u8>),  // "..."
    CStr(Vec<u8>), // c"..."
    P(char),
    Dots,
    Eof,
}

struct Lex<'a> {
    s: &'a [u8],
    i: usize,
}

fn unescape(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && b[i + 1] != b'\\' {
            let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

impl<'a> Lex<'a> {
    fn next(&mut self) -> Tok<'a> {
        let s = self.s;
        while self.i < s.len() && (s[self.i] == b' ' || s[self.i] == b'\t' || s[self.i] == b'\n') {
            self.i += 1;
        }
        if self.i >= s.len() || s[self.i] == b';' {
            return Tok::Eof;
        }
        let c = s[self.i];
        let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
        if c == b'%' || c == b'@' {
            self.i += 1;
            let name;
            if self.i < s.len() && s[self.i] == b'"' {
                let st = self.i + 1;
                let mut j = st;
                while s[j] != b'"' {
                    j += 1;
                }
                name = String::from_utf8_lossy(&unescape(&s[st..j])).to_string();
                self.i = j + 1;
            } else {
                let st = self.i;
                while self.i < s.len() && isid(s[self.i]) {
                    self.i += 1;
                }
                name = String::from_utf8_lossy(&s[st..self.i]).to_string();
            }
            return if c == b'%' { Tok::Local(name) } else { Tok::Glob(name) };
        }
        if c == b'"' || (c == b'c' && self.i + 1 < s.len() && s[self.i + 1] == b'"') {
            let st = self.i + if c == b'c' { 2 } else { 1 };
            let mut j = st;
            while s[j] != b'"' {
                j += 1;
            }
            let v = unescape(&s[st..j]);
            self.i = j + 1;
            return if c == b'c' { Tok::CStr(v) } else { Tok::Str(v) };
        }
        if s[self.i..].starts_with(b"...") {
            self.i += 3;
            return Tok::Dots;
        }
        if c.is_ascii_digit() || (c == b'-' && self.i + 1 < s.len() && s[self.i + 1].is_ascii_digit()) {
            let st = self.i;
            self.i += 1;
            while self.i < s.len() && (s[self.i].is_ascii_alphanumeric() || s[self.i] == b'.' || ((s[self.i] == b'+' || s[self.i] == b'-') && s[self.i - 1] == b'e')) {
                self.i += 1;
            }
            return Tok::Int(std::str::from_utf8(&s[st..self.i]).unwrap());
        }
        if c.is_ascii_alphabetic() || c == b'_' {
            let st = self.i;
            while self.i < s.len() && (s[self.i].is_ascii_alphanumeric() || s[self.i] == b'_' || s[self.i] == b'.') {
                self.i += 1;
            }
            return Tok::Word(std::str::from_utf8(&s[st..self.i]).unwrap());
        }
        self.i += 1;
        Tok::P(c as char)
    }
}

struct P<'a> {
    t: Vec<Tok<'a>>,
    i: usize,
    line: &'a str,
}

impl<'a> P<'a> {
    fn new(line: &'a str) -> P<'a> {
        let mut l = Lex { s: line.as_bytes(), i: 0 };
        let mut t = vec![];
        loop {
            let k = l.next();
            if k == Tok::Eof {
                break;
            }
            t.push(k);
        }
        P { t, i: 0, line }
    }
    fn peek(&self) -> &Tok<'a> {
        self.t.get(self.i).unwrap_or(&Tok::Eof)
    }
    fn peek2(&self) -> &Tok<'a> {
        self.t.get(self.i + 1).unwrap_or(&Tok::Eof)
    }
    fn next(&mut self) -> Tok<'a> {
        let x = self.t.get(self.i).cloned().unwrap_or(Tok::Eof);
        self.i += 1;
        x
    }
    fn is_p(&self, c: char) -> bool {
        *self.peek() == Tok::P(c)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: char) {
        if !self.eat_p(c) {
            panic!("expected {} at tok {} in: {}", c, self.i, self.line);
        }
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Tok::Word(x) if *x == w)
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        self.exp_p('(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                Tok::Eof => panic!("eof in parens: {}", self.line),
                _ => (),
            }
        }
    }
}

fn is_type_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "token" | "opaque" | "x86_fp80" | "fp128" | "bfloat") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

struct FnCtx {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(l)
    }
    fn block(&mut self, n: &str) -> u32 {
        let l = self.blocks.len() as u32;
        *self.blocks.entry(n.to_string()).or_insert(l)
    }
}

impl Module {
    fn p_type(&mut self, p: &mut P) -> TyId {
        let t = match p.next() {
            Tok::Word(w) => match w {
                "void" => self.ty(Ty::Void),
                "ptr" => {
                    if p.is_w("addrspace") {
                        p.next();
                        p.skip_parens();
                    }
                    self.ty(Ty::Ptr)
                }
                "float" => self.ty(Ty::Float),
                "double" => self.ty(Ty::Double),
                "label" => self.ty(Ty::Label),
                "metadata" | "token" => self.ty(Ty::Meta),
                "opaque" => self.ty(Ty::Opaque),
                "x86_fp80" | "fp128" | "half" | "bfloat" => self.ty(Ty::Opaque),
                _ if w.starts_with('i') => {
                    let n: u32 = w[1..].parse().unwrap_or_else(|_| panic!("type {} in {}", w, p.line));
                    self.ty(Ty::Int(n))
                }
                _ => panic!("unknown type {} in {}", w, p.line),
            },
            Tok::Local(n) => *self.named.get(&n).unwrap_or_else(|| panic!("named type {}", n)),
            Tok::P('[') => {
                let n: u64 = match p.next() {
                    Tok::Int(x) => x.parse().unwrap(),
                    x => panic!("{:?}", x),
                };
                p.eat_w("x");
                let e = self.p_type(p);
                p.exp_p(']');
                self.ty(Ty::Arr(n, e))
            }
            Tok::P('{') => {
                let mut f = vec![];
                while !p.is_p('}') {
                    f.push(self.p_type(p));
                    p.eat_p(',');
                }
                p.exp_p('}');
                self.ty(Ty::Struct(f, false))
            }
            Tok::P('<') => {
                if p.eat_p('{') {
                    let mut f = vec![];
                    while !p.is_p('}') {
                        f.push(self.p_type(p));
                        p.eat_p(',');
                    }
                    p.exp_p('}');
                    p.exp_p('>');
                    self.ty(Ty::Struct(f, true))
                } else {
                    let n: u64 = match p.next() {
                        Tok::Int(x) => x.parse().unwrap(),
                        x => panic!("{:?} in {}", x, p.line),
                    };
                    p.eat_w("x");
                    let e = self.p_type(p);
                    p.exp_p('>');
                    self.ty(Ty::Vec(n, e))
                }
            }
            x => panic!("type? {:?} in {}", x, p.line),
        };
        // function type "ret (args)" only occurs in calls; handled there
        t
    }

    fn parse_int(s: &str, w: u32) -> u128 {
        let v: i128 = if let Some(x) = s.strip_prefix('-') {
            (x.parse::<u128>().unwrap() as i128).wrapping_neg()
        } else {
            s.parse::<u128>().unwrap() as i128
        };
        mask(v as u128, w)
    }

    fn addr_of(&self, n: &str) -> u128 {
        let mut n = n.to_string();
        let mut k = 0;
        while let Some(a) = self.aliases.get(&n) {
            n = a.clone();
            k += 1;
            if k > 10 {
                break;
            }
        }
        if let Some(f) = self.fmap.get(&n) {
            return func_addr(*f) as u128;
        }
        if let Some(g) = self.gmap.get(&n) {
            return self.global_addr(*g) as u128;
        }
        panic!("unknown global {}", n)
    }

    fn p_const(&mut self, p: &mut P, t: TyId) -> Cv {
        match p.next() {
            Tok::Int(s) => match self.tys[t as usize].clone() {
                Ty::Int(w) => Cv::Int(Self::parse_int(s, w)),
                Ty::Double => Cv::Int(parse_f64(s).to_bits() as u128),
                Ty::Float => Cv::Int((parse_f64(s) as f32).to_bits() as u128),
                x => panic!("int const of {:?} in {}", x, p.line),
            },
            Tok::Glob(n) => Cv::Int(self.addr_of(&n)),
            Tok::CStr(b) => Cv::Bytes(b),
            Tok::P('[') => {
                let mut v = vec![];
                while !p.is_p(']') {
                    let et = self.p_type(p);
                    v.push(self.p_const(p, et));
                    p.eat_p(',');
                }
                p.exp_p(']');
                Cv::Agg(v)
            }
            Tok::P('{') => {
                let mut v = vec![];
                while !p.is_p('}') {
                    let et = self.p_type(p);
                    v.push(self.p_const(p, et));
                    p.eat_p(',');
                }
                p.exp_p('}');
                Cv::Agg(v)
            }
            Tok::P('<') => {
                let packed = p.eat_p('{');
                let mut v = vec![];
                while !(if packed { p.is_p('}') } else { p.is_p('>') }) {
                    let et = self.p_type(p);
                    v.push(self.p_const(p, et));
                    p.eat_p(',');
                }
                if packed {
                    p.exp_p('}');
                }
                p.exp_p('>');
                Cv::Agg(v)
            }
            Tok::Word(w) => match w {
                "true" => Cv::Int(1),
                "false" => Cv::Int(0),
                "null" | "zeroinitializer" | "none" => Cv::Zero,
                "undef" | "poison" => Cv::Undef,
                "splat" => {
                    p.exp_p('(');
                    let et = self.p_type(p);
                    let c = self.p_const(p, et);
                    p.exp_p(')');
                    let n = match &self.tys[t as usize] {
                        Ty::Vec(n, _) | Ty::Arr(n, _) => *n,
                        _ => panic!("splat"),
                    };
                    Cv::Agg(vec![c; n as usize])
                }
                "getelementptr" => {
                    while !p.is_p('(') {
                        if matches!(p.peek(), Tok::Word("inrange")) {
                            p.next();
                            p.skip_parens();
                        } else {
                            p.next();
                        }
                    }
                    p.exp_p('(');
                    let et = self.p_type(p);
                    p.exp_p(',');
                    let pt = self.p_type(p);
                    let base = match self.p_const(p, pt) {
                        Cv::Int(x) => x as u64,
                        Cv::Zero => 0,
                        _ => panic!("gep base"),
                    };
                    let mut idx = vec![];
                    while p.eat_p(',') {
                        let it = self.p_type(p);
                        match self.p_const(p, it) {
                            Cv::Int(x) => idx.push(sext(x, self.bits(it)) as i64),
                            Cv::Zero => idx.push(0),
                            _ => panic!("gep idx"),
                        }
                    }
                    p.exp_p(')');
                    let mut off = idx[0] * self.alloc_size(et) as i64;
                    let mut ct = et;
                    for k in &idx[1..] {
                        let (o, nt) = match &self.tys[ct as usize] {
                            Ty::Struct(..) => self.field_off(ct, *k as usize),
                            Ty::Arr(_, e) => ((*k * self.alloc_size(*e) as i64) as u64, *e),
                            _ => panic!("gep"),
                        };
                        off += o as i64;
                        ct = nt;
                    }
                    Cv::Int(base.wrapping_add(off as u64) as u128)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" | "ptrtoaddr" => {
                    while !p.is_p('(') {
                        p.next();
                    }
                    p.exp_p('(');
                    let st = self.p_type(p);
                    let c = self.p_const(p, st);
                    assert!(p.eat_w("to"));
                    let dt = self.p_type(p);
                    p.exp_p(')');
                    match c {
                        Cv::Int(x) => {
                            let x = if w == "sext" { sext(x, self.bits(st)) as u128 } else { x };
                            Cv::Int(mask(x, self.bits(dt)))
                        }
                        c => c,
                    }
                }
                "add" | "sub" | "mul" | "xor" | "and" | "or" => {
                    while !p.is_p('(') {
                        p.next();
                    }
                    p.exp_p('(');
                    let t1 = self.p_type(p);
                    let a = self.p_const(p, t1);
                    p.exp_p(',');
                    let t2 = self.p_type(p);
                    let b = self.p_const(p, t2);
                    p.exp_p(')');
                    let f = |c: &Cv| match c {
                        Cv::Int(x) => *x,
                        _ => 0,
                    };
                    let (a, b) = (f(&a), f(&b));
                    let r = match w {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "mul" => a.wrapping_mul(b),
                        "xor" => a ^ b,
                        "and" => a & b,
                        _ => a | b,
                    };
                    Cv::Int(mask(r, self.bits(t1)))
                }
                _ => {
                    if w.starts_with('f') && w.contains('x') || w == "nan" || w == "inf" {
                        panic!("float const {} in {}", w, p.line)
                    }
                    panic!("const word {} in {}", w, p.line)
                }
            },
            Tok::P(sg @ ('+' | '-')) => {
                // `+inf`, `-inf`, `+qnan`
                let dbl = self.tys[t as usize] == Ty::Double;
                let w = match p.next() {
                    Tok::Word(w) => w,
                    x => panic!("const? {:?} in {}", x, p.line),
                };
                let f = match w {
                    "inf" => f64::INFINITY,
                    "qnan" => f64::NAN,
                    x => panic!("const? {:?} in {}", x, p.line),
                };
                let f = if sg == '-' { -f } else { f };
                Cv::Int(if dbl { f.to_bits() as u128 } else { (f as f32).to_bits() as u128 })
            }
            x => panic!("const? {:?} in {}", x, p.line),
        }
    }

    fn mkconst(&mut self, t: TyId, c: Cv) -> Op {
        self.consts.push((t, c));
        Op::C(self.consts.len() as u32 - 1)
    }

    fn p_op(&mut self, p: &mut P, f: &mut FnCtx, t: TyId) -> Op {
        if let Tok::Local(n) = p.peek() {
            let n = n.clone();
            p.next();
            return Op::Reg(f.reg(&n));
        }
        let c = self.p_const(p, t);
        self.mkconst(t, c)
    }

    fn p_tyop(&mut self, p: &mut P, f: &mut FnCtx) -> (TyId, Op) {
        let t = self.p_type(p);
        let o = self.p_op(p, f, t);
        (t, o)
    }

    fn skip_attrs(&mut self, p: &mut P) {
        // parameter/return attributes: words until a value or type
        loop {
            match p.peek() {
                Tok::Word(w) => {
                    let w = *w;
                    if is_type_word(w) || matches!(w, "true" | "false" | "null" | "undef" | "poison" | "none" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "splat" | "add" | "sub" | "trunc" | "asm" | "xor" | "mul" | "ptrtoaddr" | "blockaddress") {
                        return;
                    }
                    p.next();
                    if p.is_p('(') {
                        p.skip_parens();
                    } else if w == "align" {
                        p.next();
                    }
                }
                Tok::Str(_) => {
                    p.next();
                    if p.eat_p('=') {
                        p.next();
                    }
                }
                _ => return,
            }
        }
    }

    fn p_args(&mut self, p: &mut P, f: &mut FnCtx) -> Vec<(TyId, Op)> {
        p.exp_p('(');
        let mut v = vec![];
        while !p.is_p(')') {
            let t = self.p_type(p);
            if self.tys[t as usize] == Ty::Meta {
                // skip metadata operand up to , or )
                let mut d = 0;
                loop {
                    match p.peek() {
                        Tok::P('(') => d += 1,
                        Tok::P(')') => {
                            if d == 0 {
                                break;
                            }
                            d -= 1
                        }
                        Tok::P(',') if d == 0 => break,
                        Tok::Eof => panic!("eof"),
                        _ => (),
                    }
                    p.next();
                }
                p.eat_p(',');
                continue;
            }
            self.skip_attrs(p);
            let o = self.p_op(p, f, t);
            v.push((t, o));
            p.eat_p(',');
        }
        p.exp_p(')');
        v
    }

    fn p_label(&mut self, p: &mut P, f: &mut FnCtx) -> u32 {
        assert!(p.eat_w("label"), "label in {}", p.line);
        match p.next() {
            Tok::Local(n) => f.block(&n),
            x => panic!("label {:?}", x),
        }
    }

    fn p_call(&mut self, p: &mut P, f: &mut FnCtx, dst: Option<u32>, invoke: bool) -> Ins {
        // after 'call' / 'invoke'
        loop {
            match p.peek() {
                Tok::Word(w) if !is_type_word(w) => {
                    let al = *w == "align";
                    p.next();
                    if p.is_p('(') {
                        p.skip_parens();
                    } else if al {
                        p.next();
                    }
                }
                _ => break,
            }
        }
        let rt = self.p_type(p);
        if p.is_p('(') {
            // function type (varargs)
            p.skip_parens();
        }
        let callee = match p.peek().clone() {
            Tok::Glob(n) => {
                p.next();
                let mut n = n;
                let mut k = 0;
                while let Some(a) = self.aliases.get(&n) {
                    n = a.clone();
                    k += 1;
                    if k > 10 {
                        break;
                    }
                }
                match self.fmap.get(&n) {
                    Some(x) => Callee::Direct(*x),
                    None => {
                        let a = self.addr_of(&n);
                        let pt = self.ty(Ty::Ptr);
                        Callee::Indirect(self.mkconst(pt, Cv::Int(a)))
                    }
                }
            }
            Tok::Local(n) => {
                p.next();
                Callee::Indirect(Op::Reg(f.reg(&n)))
            }
            Tok::Word("asm") => {
                return if p.line.contains("asm sideeffect \"\"") && self.tys[rt as usize] == Ty::Void { Ins::Fence } else { Ins::Unsupported(format!("asm: {}", p.line)) };
            }
            Tok::Word("inttoptr") => {
                let pt = self.ty(Ty::Ptr);
                let c = self.p_const(p, pt);
                Callee::Indirect(self.mkconst(pt, c))
            }
            x => panic!("callee {:?} in {}", x, p.line),
        };
        let args = self.p_args(p, f);
        let mut norm = None;
        if invoke {
            while !p.is_w("to") {
                p.next();
            }
            p.next();
            norm = Some(self.p_label(p, f));
        }
        Ins::Call(dst, rt, callee, args, norm)
    }

    fn p_ins(&mut self, line: &str, f: &mut FnCtx, blk: &mut Block) {
        let mut p = P::new(line);
        let mut dst = None;
        if let Tok::Local(n) = p.peek() {
            if *p.peek2() == Tok::P('=') {
                let n = n.clone();
                dst = Some(f.reg(&n));
                p.i += 2;
            }
        }
        let w = match p.next() {
            Tok::Word(w) => w,
            Tok::P('#') => return, // debug record
            x => panic!("ins {:?} in {}", x, line),
        };
        let d = dst.unwrap_or(u32::MAX);
        let ins = match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let b = match w {
                    "add" => Bin::Add,
                    "sub" => Bin::Sub,
                    "mul" => Bin::Mul,
                    "udiv" => Bin::UDiv,
                    "sdiv" => Bin::SDiv,
                    "urem" => Bin::URem,
                    "srem" => Bin::SRem,
                    "shl" => Bin::Shl,
                    "lshr" => Bin::LShr,
                    "ashr" => Bin::AShr,
                    "and" => Bin::And,
                    "or" => Bin::Or,
                    "xor" => Bin::Xor,
                    "fadd" => Bin::FAdd,
                    "fsub" => Bin::FSub,
                    "fmul" => Bin::FMul,
                    "fdiv" => Bin::FDiv,
                    _ => Bin::FRem,
                };
                let mut fl = 0;
                loop {
                    match p.peek() {
                        Tok::Word("nuw") => fl |= 1,
                        Tok::Word("nsw") => fl |= 2,
                        Tok::Word("exact") => fl |= 4,
                        Tok::Word("disjoint") => fl |= 8,
                        Tok::Word(x) if !is_type_word(x) => (),
                        _ => break,
                    }
                    p.next();
                }
                let (t, a) = self.p_tyop(&mut p, f);
                p.exp_p(',');
                let c = self.p_op(&mut p, f, t);
                Ins::Bin(d, b, t, a, c, fl)
            }
            "icmp" => {
                p.eat_w("samesign");
                let c = match p.next() {
                    Tok::Word(x) => match x {
                        "eq" => Cmp::Eq,
                        "ne" => Cmp::Ne,
                        "ugt" => Cmp::Ugt,
                        "uge" => Cmp::Uge,
                        "ult" => Cmp::Ult,
                        "ule" => Cmp::Ule,
                        "sgt" => Cmp::Sgt,
                        "sge" => Cmp::Sge,
                        "slt" => Cmp::Slt,
                        "sle" => Cmp::Sle,
                        _ => panic!("icmp {}", x),
                    },
                    _ => panic!("icmp"),
                };
                let (t, a) = self.p_tyop(&mut p, f);
                p.exp_p(',');
                let b = self.p_op(&mut p, f, t);
                Ins::ICmp(d, c, t, a, b)
            }
            "fcmp" => {
                let mut k = String::new();
                loop {
                    match p.peek() {
                        Tok::Word(x) if !is_type_word(x) => {
                            k = x.to_string();
                            p.next();
                        }
                        _ => break,
                    }
                }
                let (t, a) = self.p_tyop(&mut p, f);
                p.exp_p(',');
                let b = self.p_op(&mut p, f, t);
                Ins::FCmp(d, k, t, a, b)
            }
            "fneg" => {
                while matches!(p.peek(), Tok::Word(x) if !is_type_word(x)) {
                    p.next();
                }
                let (t, a) = self.p_tyop(&mut p, f);
                Ins::FNeg(d, t, a)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "addrspacecast" | "ptrtoaddr" => {
                let k = match w {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "ptrtoint" | "ptrtoaddr" => CastK::PtrToInt,
                    "inttoptr" => CastK::IntToPtr,
                    "fptrunc" => CastK::FpTrunc,
                    "fpext" => CastK::FpExt,
                    "fptoui" => CastK::FpToUi,
                    "fptosi" => CastK::FpToSi,
                    "uitofp" => CastK::UiToFp,
                    "sitofp" => CastK::SiToFp,
                    _ => CastK::BitCast,
                };
                while matches!(p.peek(), Tok::Word(x) if !is_type_word(x)) {
                    p.next();
                }
                let (t, a) = self.p_tyop(&mut p, f);
                assert!(p.eat_w("to"), "cast {}", line);
                let dt = self.p_type(&mut p);
                Ins::Cast(d, k, t, dt, a)
            }
            "select" => {
                while matches!(p.peek(), Tok::Word(x) if !is_type_word(x)) {
                    p.next();
                }
                let (ct, c) = self.p_tyop(&mut p, f);
                p.exp_p(',');
                let (t, a) = self.p_tyop(&mut p, f);
                p.exp_p(',');
                let (_, b) = self.p_tyop(&mut p, f);
                Ins::Select(d, t, c, a, b, ct)
            }
            "alloca" => {
                p.eat_w("inalloca");
                let t = self.p_type(&mut p);
                let mut n = None;
                let mut al = 8;
                while p.eat_p(',') {
                    if p.eat_w("align") {
                        if let Tok::Int(x) = p.next() {
                            al = x.parse().unwrap();
                        }
                    } else if p.is_p('!') {
                        break;
                    } else {
                        n = Some(self.p_tyop(&mut p, f).1);
                    }
                }
                Ins::Alloca(d, self.alloc_size(t), n, al)
            }
            "load" => {
                p.eat_w("atomic");
                p.eat_w("volatile");
                let t = self.p_type(&mut p);
                p.exp_p(',');
                let (_, a) = self.p_tyop(&mut p, f);
                Ins::Load(d, t, a)
            }
            "store" => {
                p.eat_w("atomic");
                p.eat_w("volatile");
                let (t, v) = self.p_tyop(&mut p, f);
                p.exp_p(',');
                let (_, a) = self.p_tyop(&mut p, f);
                Ins::Store(t, v, a)
            }
            "getelementptr" => {
                while matches!(p.peek(), Tok::Word(x) if !is_type_word(x)) {
                    p.next();
                    if p.is_p('(') {
                        p.skip_parens();
                    }
                }
                let et = self.p_type(&mut p);
                p.exp_p(',');
                let (_, base) = self.p_tyop(&mut p, f);
                let mut off = 0i64;
                let mut dynidx = vec![];
                let mut ct = et;
                let mut first = true;
                while p.eat_p(',') {
                    if p.is_p('!') {
                        break;
                    }
                    let (it, o) = self.p_tyop(&mut p, f);
                    let cst = match &o {
                        Op::C(i) => match &self.consts[*i as usize].1 {
                            Cv::Int(x) => Some(sext(*x, self.bits(it)) as i64),
                            Cv::Zero | Cv::Undef => Some(0),
                            _ => panic!("gep const"),
                        },
                        _ => None,
                    };
                    let (scale, nt) = if first {
                        (self.alloc_size(ct), ct)
                    } else {
                        match self.tys[ct as usize].clone() {
                            Ty::Struct(..) => {
                                let k = cst.expect("struct gep idx") as usize;
                                let (o, nt) = self.field_off(ct, k);
                                off += o as i64;
                                ct = nt;
                                continue;
                            }
                            Ty::Arr(_, e) => (self.alloc_size(e), e),
                            Ty::Vec(_, e) => (self.size(e), e),
                            x => panic!("gep into {:?}", x),
                        }
                    };
                    first = false;
                    ct = nt;
                    match cst {
                        Some(k) => off = off.wrapping_add(k.wrapping_mul(scale as i64)),
                        None => dynidx.push((o, scale as i64, self.bits(it))),
                    }
                }
                Ins::Gep(d, base, off, dynidx)
            }
            "extractvalue" => {
                let (t, a) = self.p_tyop(&mut p, f);
                let mut ix = vec![];
                while p.eat_p(',') {
                    if let Tok::Int(x) = p.peek() {
                        ix.push(x.parse().unwrap());
                        p.next();
                    } else {
                        break;
                    }
                }
                Ins::ExtractValue(d, a, ix, t)
            }
            "insertvalue" => {
                let (t, a) = self.p_tyop(&mut p, f);
                p.exp_p(',');
                let (_, b) = self.p_tyop(&mut p, f);
                let mut ix = vec![];
                while p.eat_p(',') {
                    if let Tok::Int(x) = p.peek() {
                        ix.push(x.parse().unwrap());
                        p.next();
                    } else {
                        break;
                    }
                }
                Ins::InsertValue(d, a, t, b, ix)
            }
            "extractelement" => {
                let (t, a) = self.p_tyop(&mut p, f);
                p.exp_p(',');
                let (_, b) = self.p_tyop(&mut p, f);
                Ins::ExtractElem(d, t, a, b)
            }
            "insertelement" => {
                let (t, a) = self.p_tyop(&mut p, f);
                p.exp_p(',');
                let (_, b) = self.p_tyop(&mut p, f);
                p.exp_p(',');
                let (_, c) = self.p_tyop(&mut p, f);
                Ins::InsertElem(d, t, a, b, c)
            }
            "shufflevector" => {
                let (t, a) = self.p_tyop(&mut p, f);
                p.exp_p(',');
                let (_, b) = self.p_tyop(&mut p, f);
                p.exp_p(',');
                let mt = self.p_type(&mut p);
                let m = self.p_const(&mut p, mt);
                let n = match &self.tys[mt as usize] {
                    Ty::Vec(n, _) => *n as usize,
                    _ => panic!(),
                };
                let mask: Vec<i64> = match m {
                    Cv::Agg(v) => v
                        .iter()
                        .map(|c| match c {
                            Cv::Int(x) => *x as i64,
                            Cv::Zero => 0,
                            _ => -1,
                        })
                        .collect(),
                    Cv::Zero => vec![0; n],
                    _ => vec![-1; n],
                };
                Ins::Shuffle(d, t, a, b, mask)
            }
            "freeze" => {
                let (_, a) = self.p_tyop(&mut p, f);
                Ins::Freeze(d, a)
            }
            "tail" | "musttail" | "notail" => {
                p.eat_w("call");
                self.p_call(&mut p, f, dst, false)
            }
            "call" => self.p_call(&mut p, f, dst, false),
            "invoke" => self.p_call(&mut p, f, dst, true),
            "atomicrmw" => {
                p.eat_w("volatile");
                let op = match p.next() {
                    Tok::Word(x) => x.to_string(),
                    _ => panic!(),
                };
                let (_, a) = self.p_tyop(&mut p, f);
                p.exp_p(',');
                let (t, b) = self.p_tyop(&mut p, f);
                Ins::AtomicRmw(d, op, t, a, b)
            }
            "cmpxchg" => {
                p.eat_w("weak");
                p.eat_w("volatile");
                let (_, a) = self.p_tyop(&mut p, f);
                p.exp_p(',');
                let (t, b) = self.p_tyop(&mut p, f);
                p.exp_p(',');
                let (_, c) = self.p_tyop(&mut p, f);
                Ins::CmpXchg(d, t, a, b, c)
            }
            "fence" => Ins::Fence,
            "br" => {
                if p.is_w("label") {
                    Ins::Br(self.p_label(&mut p, f))
                } else {
                    let (_, c) = self.p_tyop(&mut p, f);
                    p.exp_p(',');
                    let a = self.p_label(&mut p, f);
                    p.exp_p(',');
                    let b = self.p_label(&mut p, f);
                    Ins::CondBr(c, a, b)
                }
            }
            "ret" => {
                if p.is_w("void") {
                    Ins::Ret(None)
                } else {
                    Ins::Ret(Some(self.p_tyop(&mut p, f)))
                }
            }
            "unreachable" => Ins::Unreachable,
            "phi" => {
                while matches!(p.peek(), Tok::Word(x) if !is_type_word(x)) {
                    p.next();
                }
                let t = self.p_type(&mut p);
                let mut inc = vec![];
                loop {
                    p.exp_p('[');
                    let o = self.p_op(&mut p, f, t);
                    p.exp_p(',');
                    let b = match p.next() {
                        Tok::Local(n) => f.block(&n),
                        _ => panic!("phi"),
                    };
                    p.exp_p(']');
                    inc.push((b, o));
                    if !p.eat_p(',') || !p.is_p('[') {
                        break;
                    }
                }
                blk.phis.push(Phi { dst: d, inc });
                return;
            }
            "landingpad" | "resume" | "cleanuppad" | "catchpad" => Ins::Unsupported(w.to_string()),
            _ => Ins::Unsupported(line.trim().to_string()),
        };
        blk.ins.push(ins);
    }

    fn p_switch(&mut self, text: &str, f: &mut FnCtx) -> Ins {
        let mut p = P::new(text);
        p.next();
        let (t, v) = self.p_tyop(&mut p, f);
        p.exp_p(',');
        let d = self.p_label(&mut p, f);
        p.exp_p('[');
        let mut cases = vec![];
        while !p.is_p(']') {
            let ct = self.p_type(&mut p);
            let c = match self.p_const(&mut p, ct) {
                Cv::Int(x) => x,
                Cv::Zero => 0,
                _ => panic!("switch"),
            };
            p.exp_p(',');
            let l = self.p_label(&mut p, f);
            cases.push((c, l));
        }
        Ins::Switch(t, v, d, cases)
    }

    pub fn parse(text: &str) -> Module {
        let mut m = Module { tys: vec![], tymap: HashMap::new(), named: HashMap::new(), globals: vec![], gmap: HashMap::new(), funcs: vec![], fmap: HashMap::new(), aliases: HashMap::new(), consts: vec![] };
        let lines: Vec<&str> = text.lines().collect();
        // pass 1: names
        let mut i = 0;
        let fname = |l: &str| -> String {
            // first @name followed by '('
            let b = l.as_bytes();
            let mut k = 0;
            loop {
                while b[k] != b'@' {
                    k += 1;
                }
                let mut lx = Lex { s: b, i: k };
                if let Tok::Glob(n) = lx.next() {
                    return n;
                }
                k += 1;
            }
        };
        let mut infn = false;
        for l in &lines {
            if infn {
                if *l == "}" {
                    infn = false;
                }
                continue;
            }
            if l.starts_with("define ") || l.starts_with("declare ") {
                let n = fname(l);
                let def = l.starts_with("define ");
                infn = def;
                let id = m.funcs.len() as u32;
                if let Some(o) = m.fmap.get(&n) {
                    let _ = o;
                    continue;
                }
                m.fmap.insert(n.clone(), id);
                m.funcs.push(Func { name: n, nparams: 0, nregs: 0, blocks: vec![], defined: def });
            } else if l.starts_with('@') {
                let mut p = P::new(l);
                if let Tok::Glob(n) = p.next() {
                    if l.contains(" alias ") && !l.contains(" constant ") && !l.contains(" global ") {
                        let t = p.t.iter().rev().find_map(|t| if let Tok::Glob(x) = t { Some(x.clone()) } else { None }).unwrap();
                        m.aliases.insert(n, t);
                    } else {
                        let id = m.globals.len() as u32;
                        m.gmap.insert(n.clone(), id);
                        m.globals.push(Global { name: n, ty: 0, init: None, constant: false });
                    }
                }
            } else if l.starts_with('%') {
                let mut p = P::new(l);
                if let Tok::Local(n) = p.next() {
                    p.exp_p('=');
                    p.next(); // type
                    let t = m.p_type(&mut p);
                    m.named.insert(n, t);
                }
            }
        }
        // pass 2
        while i < lines.len() {
            let l = lines[i];
            if l.starts_with('@') {
                let mut p = P::new(l);
                let n = match p.next() {
                    Tok::Glob(n) => n,
                    _ => panic!(),
                };
                if let Some(id) = m.gmap.get(&n).copied() {
                    p.exp_p('=');
                    let mut constant = false;
                    let mut external = false;
                    loop {
                        match p.next() {
                            Tok::Word("global") => break,
                            Tok::Word("constant") => {
                                constant = true;
                                break;
                            }
                            Tok::Word("external") | Tok::Word("extern_weak") => external = true,
                            Tok::Eof => panic!("global {}", l),
                            _ => (),
                        }
                    }
                    let t = m.p_type(&mut p);
                    let init = if external || matches!(p.peek(), Tok::Eof) || p.is_p(',') { None } else { Some(m.p_const(&mut p, t)) };
                    let g = &mut m.globals[id as usize];
                    g.ty = t;
                    g.init = init;
                    g.constant = constant;
                }
                i += 1;
            } else if l.starts_with("define ") {
                let name = fname(l);
                let id = m.fmap[&name];
                let mut f = FnCtx { regs: HashMap::new(), blocks: HashMap::new() };
                // params
                let mut p = P::new(l);
                loop {
                    match p.next() {
                        Tok::Glob(n) if n == name => break,
                        Tok::Eof => panic!("define"),
                        _ => (),
                    }
                }
                p.exp_p('(');
                let mut np = 0;
                while !p.is_p(')') {
                    if let Tok::Dots = p.peek() {
                        p.next();
                        break;
                    }
                    let _t = m.p_type(&mut p);
                    m.skip_attrs(&mut p);
                    if let Tok::Local(n) = p.peek().clone() {
                        p.next();
                        f.reg(&n);
                    } else {
                        f.reg(&format!("{}", np));
                    }
                    np += 1;
                    p.eat_p(',');
                }
                i += 1;
                let mut blocks: Vec<Block> = vec![];
                let mut cur: Option<u32> = None;
                let entry_name = format!("{}", np);
                while lines[i] != "}" {
                    let l = lines[i];
                    let t = l.trim_start();
                    if t.is_empty() || t.starts_with(';') {
                        i += 1;
                        continue;
                    }
                    if !l.starts_with(' ') {
                        // label
                        let lab = if l.starts_with('"') {
                            let e = l[1..].find('"').unwrap() + 1;
                            String::from_utf8_lossy(&unescape(l[1..e].as_bytes())).to_string()
                        } else {
                            l[..l.find(':').unwrap()].to_string()
                        };
                        let b = f.block(&lab);
                        cur = Some(b);
                        while blocks.len() <= b as usize {
                            blocks.push(Block::default());
                        }
                        i += 1;
                        continue;
                    }
                    if cur.is_none() {
                        let b = f.block(&entry_name);
                        cur = Some(b);
                        while blocks.len() <= b as usize {
                            blocks.push(Block::default());
                        }
                    }
                    let b = cur.unwrap() as usize;
                    if t.starts_with("switch ") {
                        let mut s = String::new();
                        loop {
                            s.push_str(lines[i]);
                            s.push(' ');
                            if lines[i].contains(']') && (lines[i].trim_start().starts_with(']') || s.trim_end().contains("[ ")) && lines[i].contains(']') && !lines[i].trim_end().ends_with('[') {
                                break;
                            }
                            i += 1;
                        }
                        let ins = m.p_switch(&s, &mut f);
                        blocks[b].ins.push(ins);
                        i += 1;
                        continue;
                    }
                    // join continuation lines for landingpad / invoke
                    let mut s = t.to_string();
                    if t.contains("invoke ") || t.contains("landingpad ") {
                        while i + 1 < lines.len() && lines[i + 1].starts_with("          ") {
                            i += 1;
                            s.push(' ');
                            s.push_str(lines[i].trim_start());
                        }
                    }
                    let mut blk = std::mem::take(&mut blocks[b]);
                    m.p_ins(&s, &mut f, &mut blk);
                    blocks[b] = blk;
                    i += 1;
                }
                while blocks.len() < f.blocks.len() {
                    blocks.push(Block::default());
                }
                // entry block must be index 0
                let eb = f.blocks.get(&entry_name).copied();
                let fu = &mut m.funcs[id as usize];
                fu.nparams = np;
                fu.nregs = f.regs.len() as u32;
                fu.blocks = blocks;
                fu.defined = true;
                let _ = eb;
                i += 1;
            } else {
                i += 1;
            }
        }
        m
    }
}

pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 || w == 0 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}
fn parse_f64(s: &str) -> f64 {
    if let Some(h) = s.strip_prefix("0x") {
        f64::from_bits(u64::from_str_radix(h, 16).unwrap())
    } else {
        s.parse().unwrap()
    }
}
