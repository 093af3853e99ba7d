//! Forking symbolic executor over parsed LLVM IR.
use crate::expr::{cbin, Ctx, B, E, N};
use crate::ir::*;
use crate::z3::{R, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    E(E),
    A(Rc<Vec<V>>),
}

#[derive(Clone)]
pub struct Obj {
    size: u64,
    bytes: Vec<u8>,       // concrete content; shorter than size => zero filled
    sym: Option<Vec<E>>,  // E+1 per byte, 0 = concrete; may be shorter than bytes
    ro: bool,
    stack: bool,
}

const PG: usize = 64;
type Page = [Option<Rc<Obj>>; PG];

#[derive(Clone, Default)]
struct Mem {
    pages: Vec<Option<Rc<Page>>>,
    next: u32,
    free: Vec<u32>,
}

impl Mem {
    fn get(&self, id: u32) -> Option<&Obj> {
        self.pages.get(id as usize / PG)?.as_ref()?[id as usize % PG].as_deref()
    }
    fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let p = self.pages.get_mut(id as usize / PG)?.as_mut()?;
        let p = Rc::make_mut(p);
        let o = p[id as usize % PG].as_mut()?;
        Some(Rc::make_mut(o))
    }
    fn set(&mut self, id: u32, o: Option<Rc<Obj>>) {
        let k = id as usize / PG;
        while self.pages.len() <= k {
            self.pages.push(None);
        }
        let p = self.pages[k].get_or_insert_with(|| Rc::new(std::array::from_fn(|_| None)));
        Rc::make_mut(p)[id as usize % PG] = o;
    }
    fn alloc(&mut self, size: u64, stack: bool) -> u64 {
        let id = if stack && !self.free.is_empty() {
            self.free.pop().unwrap()
        } else {
            self.next += 1;
            self.next - 1
        };
        let n = size.min(256) as usize;
        self.set(id, Some(Rc::new(Obj { size, bytes: vec![0; n], sym: None, ro: false, stack })));
        (id as u64) << 32
    }
}

#[derive(Clone)]
struct Frame {
    f: u32,
    block: u32,
    pc: usize,
    regs: Vec<V>,
    allocas: Vec<u32>,
    dst: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    mem: Mem,
    pc: Rc<Vec<E>>,
    model: Rc<Vec<u8>>,
    dom: Rc<Vec<[u64; 4]>>,
    multi: u128,
    nsym: u32,
    steps: u64,
    obs: Rc<Vec<V>>,
    covers: Rc<BTreeSet<u64>>,
    conc: Rc<Vec<(E, u128)>>,
    checked: Rc<BTreeSet<u64>>,
}

#[derive(Clone, Debug)]
pub enum Out {
    Ok,
    Pruned,
    Panic(String),
    Ub(String),
    Hang,
    Huge(String),
    Check(u64),
    Unsupported(String),
}

enum Stop {
    Fork(Vec<State>),
    End(Out),
}
type Res<T> = Result<T, Stop>;

#[derive(Clone, Debug, PartialEq)]
enum K {
    Defined,
    Memcpy,
    Memset,
    Nop,
    NumFmt(u32),
    Panic(String),
    Ext(String),
}

pub struct Violation {
    pub kind: String,
    pub detail: String,
    pub input: Vec<u8>,
    pub stack: Vec<String>,
}
pub struct Sample {
    pub input: Vec<u8>,
    pub outcome: String,
    pub obs: Vec<u64>,
}

pub struct Limits {
    pub steps: u64,
    pub paths: u64,
    pub wall: f64,
    pub depth: usize,
    pub huge: u64,
    pub max_viol: usize,
    pub samples: usize,
}

pub struct Exec {
    m: &'static Module,
    kinds: Rc<Vec<K>>,
    cvals: Rc<Vec<V>>,
    base: Mem,
    pub x: Ctx,
    pub z: Z3,
    cache: HashMap<Vec<E>, Option<Vec<(u32, u8)>>>,
    work: Vec<State>,
    pub lim: Limits,
    pub instrs: u64,
    pub forks: u64,
    pub domq: u64,
    pub cacheq: u64,
    pub checks: u64,
    pub check_queries: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub viol: Vec<Violation>,
    pub viol_count: u64,
    pub covers: BTreeMap<u64, u64>,
    pub samples: Vec<Sample>,
    pub funcs: BTreeSet<u32>,
    pub paths: u64,
    pub maxsym: u32,
    pub timed_out: bool,
    t0: Instant,
    symbolic_panics_ok: bool,
    trace: bool,
}

fn cv_val(m: &Module, t: TyId, c: &Cv) -> V {
    match &m.tys[t as usize] {
        Ty::Struct(f, _) => {
            let f = f.clone();
            match c {
                Cv::Agg(v) => V::A(Rc::new(v.iter().zip(f.iter()).map(|(c, t)| cv_val(m, *t, c)).collect())),
                _ => V::A(Rc::new(f.iter().map(|t| cv_val(m, *t, c)).collect())),
            }
        }
        Ty::Arr(n, e) | Ty::Vec(n, e) => match c {
            Cv::Agg(v) => V::A(Rc::new(v.iter().map(|c| cv_val(m, *e, c)).collect())),
            Cv::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u128)).collect())),
            _ => {
                let z = cv_val(m, *e, c);
                V::A(Rc::new(vec![z; *n as usize]))
            }
        },
        _ => match c {
            Cv::Int(x) => V::C(*x),
            _ => V::C(0),
        },
    }
}

fn cv_bytes(m: &Module, t: TyId, c: &Cv, out: &mut [u8]) {
    match c {
        Cv::Zero | Cv::Undef => return,
        Cv::Bytes(b) => {
            out[..b.len()].copy_from_slice(b);
            return;
        }
        _ => (),
    }
    match &m.tys[t as usize] {
        Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
            if let Cv::Agg(v) = c {
                for (i, x) in v.iter().enumerate() {
                    let (o, ft) = m.field_off(t, i);
                    let o = o as usize;
                    let n = m.size(ft) as usize;
                    cv_bytes(m, ft, x, &mut out[o..o + n]);
                }
            }
        }
        _ => {
            if let Cv::Int(x) = c {
                let n = m.size(t) as usize;
                out[..n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
        }
    }
}

fn classify(name: &str, defined: bool) -> K {
    if name.contains("4core9panicking") || name.contains("rust_begin_unwind") || name.contains("20rust_panic_with_hook") || name.contains("13rust_panic") || name.contains("18rust_panic_cannot_catch") {
        return K::Panic(short(name));
    }
    if name.contains("handle_alloc_error") || name.contains("rust_oom") || name.contains("oom") && name.contains("alloc") && name.contains("default_alloc_error_hook") {
        return K::Panic("alloc_error".to_string());
    }
    if defined {
        // decimal/hex rendering of an integer: when the integer is symbolic nothing is written (message text is not modelled)
        if name.contains("4core3fmt3num") && name.contains("$GT$3fmt17h") {
            if let Some(i) = name.find("for$u20$") {
                let t = &name[i + 9..];
                let w: String = t.chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(w) = w.parse::<u32>() {
                    return K::NumFmt(w);
                }
            }
        }
        return K::Defined;
    }
    if name.starts_with("llvm.memcpy") || name.starts_with("llvm.memmove") {
        return K::Memcpy;
    }
    if name.starts_with("llvm.memset") {
        return K::Memset;
    }
    if name.starts_with("llvm.lifetime") || name.starts_with("llvm.experimental.noalias") || name.starts_with("llvm.dbg") || name.starts_with("llvm.assume") || name.starts_with("llvm.x86.sse2.pause") || name.starts_with("llvm.donothing") || name.starts_with("llvm.invariant") || name.starts_with("llvm.prefetch") {
        return K::Nop;
    }
    K::Ext(name.to_string())
}

pub fn short(n: &str) -> String {
    // demangle legacy names roughly
    if let Some(s) = n.strip_prefix("_ZN") {
        let b = s.as_bytes();
        let mut i = 0;
        let mut parts = vec![];
        while i < b.len() && b[i].is_ascii_digit() {
            let mut l = 0usize;
            while i < b.len() && b[i].is_ascii_digit() {
                l = l * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            if i + l > b.len() {
                break;
            }
            parts.push(&s[i..i + l]);
            i += l;
        }
        if let Some(l) = parts.last() {
            if l.len() == 17 && l.starts_with('h') {
                parts.pop();
            }
        }
        return parts.join("::");
    }
    n.to_string()
}

pub struct Prepared {
    pub m: &'static Module,
    kinds: Vec<K>,
}

pub fn prepare(m: &'static Module) -> Prepared {
    let kinds = m.funcs.iter().map(|f| classify(&f.name, f.defined)).collect();
    Prepared { m, kinds }
}

const FULL: [u64; 4] = [u64::MAX; 4];

impl Exec {
    pub fn new(p: &Prepared, lim: Limits, ztimeout: u32) -> Exec {
        let m = p.m;
        let cvals = m.consts.iter().map(|(t, c)| cv_val(m, *t, c)).collect();
        let mut base = Mem::default();
        base.next = m.funcs.len() as u32 + 1;
        for g in &m.globals {
            let id = base.next;
            base.next += 1;
            let n = m.size(g.ty) as usize;
            let mut b = vec![0u8; n];
            if let Some(i) = &g.init {
                cv_bytes(m, g.ty, i, &mut b);
            }
            base.set(id, Some(Rc::new(Obj { size: n as u64, bytes: b, sym: None, ro: g.constant, stack: false })));
        }
        Exec {
            m,
            kinds: Rc::new(p.kinds.clone()),
            cvals: Rc::new(cvals),
            base,
            x: Ctx::new(),
            z: Z3::new(ztimeout),
            cache: HashMap::new(),
            work: vec![],
            lim,
            instrs: 0,
            forks: 0,
            domq: 0,
            cacheq: 0,
            checks: 0,
            check_queries: 0,
            outcomes: BTreeMap::new(),
            viol: vec![],
            viol_count: 0,
            covers: BTreeMap::new(),
            samples: vec![],
            funcs: BTreeSet::new(),
            paths: 0,
            maxsym: 0,
            timed_out: false,
            t0: Instant::now(),
            symbolic_panics_ok: false,
            trace: std::env::var("RSYM_TRACE").is_ok(),
        }
    }

    // ---------- solver ----------
    fn sat(&mut self, st: &State, c: E, force_z3: bool) -> Res<Option<Rc<Vec<u8>>>> {
        if let Some(v) = self.x.cst(c) {
            return Ok(if v == 1 { Some(st.model.clone()) } else { None });
        }
        if self.x.eval(c, &st.model) == 1 {
            return Ok(Some(st.model.clone()));
        }
        let sup = self.x.sup(c);
        if !force_z3 && sup.count_ones() == 1 && sup & st.multi == 0 {
            self.domq += 1;
            let s = sup.trailing_zeros() as usize;
            let t = self.x.truth(c);
            let d = st.dom.get(s).copied().unwrap_or(FULL);
            for k in 0..4 {
                let b = t[k] & d[k];
                if b != 0 {
                    let mut m = (*st.model).clone();
                    if m.len() <= s {
                        m.resize(s + 1, 0);
                    }
                    m[s] = (k * 64) as u8 + b.trailing_zeros() as u8;
                    return Ok(Some(Rc::new(m)));
                }
            }
            return Ok(None);
        }
        if !force_z3 && self.dom_unsat(st, c, false) {
            // the byte domains over-approximate the path condition
            self.domq += 1;
            return Ok(None);
        }
        if !force_z3 && sup.count_ones() == 1 {
            // try the values of this byte with the rest of the model kept
            let s = sup.trailing_zeros() as usize;
            let t = self.x.truth(c);
            let d = st.dom.get(s).copied().unwrap_or(FULL);
            let rel: Vec<E> = st.pc.iter().copied().filter(|e| self.x.sup(*e) >> s & 1 == 1).collect();
            let mut m = (*st.model).clone();
            if m.len() <= s {
                m.resize(s + 1, 0);
            }
            let mut tries = 0;
            for v in 0..256usize {
                if (t[v / 64] & d[v / 64]) >> (v % 64) & 1 == 1 {
                    m[s] = v as u8;
                    if rel.iter().all(|e| self.x.eval(*e, &m) == 1) {
                        self.domq += 1;
                        return Ok(Some(Rc::new(m)));
                    }
                    tries += 1;
                    if tries >= 8 {
                        break;
                    }
                }
            }
        }
        // slice
        let mut reach = sup;
        let mut used = vec![false; st.pc.len()];
        loop {
            let mut ch = false;
            for (i, e) in st.pc.iter().enumerate() {
                if !used[i] {
                    let s = self.x.sup(*e);
                    if s & reach != 0 {
                        used[i] = true;
                        ch = true;
                        reach |= s;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut key: Vec<E> = st.pc.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, e)| *e).collect();
        key.sort();
        key.dedup();
        key.push(c);
        let r = if let (Some(r), false) = (self.cache.get(&key), force_z3) {
            self.cacheq += 1;
            r.clone()
        } else {
            if self.t0.elapsed().as_secs_f64() > self.lim.wall {
                self.timed_out = true;
                return Err(Stop::End(Out::Unsupported("wall limit".into())));
            }
            let r = match self.z.check(&self.x, &key, reach, force_z3) {
                R::Sat(v) => Some(v),
                R::Unsat => None,
                R::Unknown => return Err(Stop::End(Out::Unsupported("solver unknown".into()))),
            };
            self.cache.insert(key.clone(), r.clone());
            r
        };
        Ok(match r {
            None => None,
            Some(v) => {
                let mut m = (*st.model).clone();
                for (i, b) in v {
                    let i = i as usize;
                    if m.len() <= i {
                        m.resize(i + 1, 0);
                    }
                    m[i] = b;
                }
                // self check of the solver's model against the concrete evaluator
                for e in &key {
                    if self.x.eval(*e, &m) != 1 {
                        return Err(Stop::End(Out::Unsupported("solver model does not satisfy the constraints".into())));
                    }
                }
                Some(Rc::new(m))
            }
        })
    }
    /// true only if the byte domains alone show that `c` (negated if `neg`) cannot hold
    fn dom_unsat(&mut self, st: &State, c: E, neg: bool) -> bool {
        if let Some(v) = self.x.cst(c) {
            return (v == 1) == neg;
        }
        let sup = self.x.sup(c);
        if sup.count_ones() == 1 {
            let s = sup.trailing_zeros() as usize;
            let t = self.x.truth(c);
            let d = st.dom.get(s).copied().unwrap_or(FULL);
            return (0..4).all(|k| (if neg { !t[k] } else { t[k] }) & d[k] == 0);
        }
        if self.x.w(c) != 1 {
            return false;
        }
        match self.x.n(c) {
            N::Bin(B::And, a, b) => {
                let p = self.dom_unsat(st, a, neg);
                if p != neg {
                    return p;
                }
                self.dom_unsat(st, b, neg)
            }
            N::Bin(B::Or, a, b) => {
                let p = self.dom_unsat(st, a, neg);
                if p == neg {
                    return p;
                }
                self.dom_unsat(st, b, neg)
            }
            N::Bin(B::Xor, a, b) if self.x.cst(b) == Some(1) => self.dom_unsat(st, a, !neg),
            _ => false,
        }
    }
    fn assume(&mut self, st: &mut State, c: E) {
        if self.x.cst(c).is_some() {
            return;
        }
        match self.x.n(c) {
            N::Bin(B::And, a, b) => {
                self.assume(st, a);
                self.assume(st, b);
                return;
            }
            N::Bin(B::Xor, a, b) if self.x.cst(b) == Some(1) => {
                if let N::Bin(B::Or, p, q) = self.x.n(a) {
                    let (p, q) = (self.x.not(p), self.x.not(q));
                    self.assume(st, p);
                    self.assume(st, q);
                    return;
                }
            }
            _ => (),
        }
        Rc::make_mut(&mut st.pc).push(c);
        let sup = self.x.sup(c);
        if sup.count_ones() == 1 {
            let s = sup.trailing_zeros() as usize;
            let t = self.x.truth(c);
            let d = Rc::make_mut(&mut st.dom);
            while d.len() <= s {
                d.push(FULL);
            }
            for k in 0..4 {
                d[s][k] &= t[k];
            }
        } else {
            st.multi |= sup;
        }
    }
    /// split the state on a boolean; returns feasible (value, state) pairs
    fn split(&mut self, st: &State, c: E) -> Res<Vec<(bool, State)>> {
        if let Some(v) = self.x.cst(c) {
            return Ok(vec![(v == 1, st.clone())]);
        }
        let cur = self.x.eval(c, &st.model) == 1;
        let nc = self.x.not(c);
        let (mine, other) = if cur { (c, nc) } else { (nc, c) };
        let om = self.sat(st, other, false)?;
        let mut out = vec![];
        let mut a = st.clone();
        if om.is_some() {
            self.assume(&mut a, mine);
        }
        out.push((cur, a));
        if let Some(m) = om {
            self.forks += 1;
            let mut b = st.clone();
            self.assume(&mut b, other);
            b.model = m;
            out.push((!cur, b));
        }
        Ok(out)
    }
    fn lookup_conc(&self, st: &State, e: E) -> Option<u128> {
        st.conc.iter().rev().find(|x| x.0 == e).map(|x| x.1)
    }
    /// concretise; forks when several values are feasible
    fn conc(&mut self, st: &State, v: &V, _w: u32, cap: usize) -> Res<u128> {
        let e = match v {
            V::C(x) => return Ok(*x),
            V::A(_) => return Err(Stop::End(Out::Unsupported("concretise aggregate".into()))),
            V::E(e) => *e,
        };
        if let Some(x) = self.x.cst(e) {
            return Ok(x);
        }
        if let Some(x) = self.lookup_conc(st, e) {
            return Ok(x);
        }
        let w = self.x.w(e);
        let mut vals: Vec<(u128, Rc<Vec<u8>>)> = vec![];
        let sup = self.x.sup(e);
        if sup.count_ones() == 1 && sup & st.multi == 0 {
            let s = sup.trailing_zeros() as usize;
            let d = st.dom.get(s).copied().unwrap_or(FULL);
            let mut m = (*st.model).clone();
            if m.len() <= s {
                m.resize(s + 1, 0);
            }
            let mut seen = BTreeSet::new();
            for b in 0..256usize {
                if (d[b / 64] >> (b % 64)) & 1 == 1 {
                    m[s] = b as u8;
                    let v = self.x.eval(e, &m);
                    if seen.insert(v) {
                        vals.push((v, Rc::new(m.clone())));
                    }
                }
            }
        } else {
            let mut tmp = st.clone();
            loop {
                let v = self.x.eval(e, &tmp.model);
                vals.push((v, tmp.model.clone()));
                if vals.len() > cap {
                    return Err(Stop::End(Out::Unsupported(format!("too many values to concretise (>{})", cap))));
                }
                let k = self.x.c(v, w);
                let q = self.x.eq(e, k);
                let ne = self.x.not(q);
                match self.sat(&tmp, ne, false)? {
                    None => break,
                    Some(m) => {
                        self.assume(&mut tmp, ne);
                        tmp.model = m;
                    }
                }
            }
        }
        if vals.len() == 1 {
            return Ok(vals[0].0);
        }
        self.forks += vals.len() as u64 - 1;
        let mut out = vec![];
        for (v, m) in vals {
            let mut s = st.clone();
            let k = self.x.c(v, w);
            let q = self.x.eq(e, k);
            self.assume(&mut s, q);
            s.model = m;
            Rc::make_mut(&mut s.conc).push((e, v));
            out.push(s);
        }
        Err(Stop::Fork(out))
    }

    // ---------- values ----------
    fn op(&self, st: &State, o: &Op) -> V {
        match o {
            Op::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Op::C(i) => self.cvals[*i as usize].clone(),
        }
    }
    fn ex(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(x) => self.x.c(*x, w),
            V::E(e) => *e,
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn norm(&self, e: E) -> V {
        match self.x.cst(e) {
            Some(v) => V::C(v),
            None => V::E(e),
        }
    }
    fn set(&self, st: &mut State, d: u32, v: V) {
        let f = Rc::make_mut(st.frames.last_mut().unwrap());
        f.regs[d as usize] = v;
    }
    fn elem(&self, t: TyId) -> Option<TyId> {
        match &self.m.tys[t as usize] {
            Ty::Vec(_, e) => Some(*e),
            _ => None,
        }
    }

    // ---------- memory ----------
    fn ub<T>(&self, s: String) -> Res<T> {
        Err(Stop::End(Out::Ub(s)))
    }
    fn chk<'a>(&self, st: &'a State, a: u64, n: u64, what: &str) -> Res<&'a Obj> {
        let id = (a >> 32) as u32;
        let off = a & 0xffff_ffff;
        match st.mem.get(id) {
            None => self.ub(format!("{} through invalid pointer {:#x}", what, a)),
            Some(o) => {
                if off + n > o.size {
                    self.ub(format!("{} out of bounds: offset {} size {} of object of {} bytes", what, off, n, o.size))
                } else {
                    Ok(o)
                }
            }
        }
    }
    fn byte(o: &Obj, i: usize) -> (u8, E) {
        let s = match &o.sym {
            Some(s) => s.get(i).copied().unwrap_or(0),
            None => 0,
        };
        (o.bytes.get(i).copied().unwrap_or(0), s)
    }
    fn load_int(&mut self, st: &State, a: u64, w: u32) -> Res<V> {
        let n = ((w + 7) / 8) as usize;
        let o = self.chk(st, a, n as u64, "load")?;
        let off = (a & 0xffff_ffff) as usize;
        let anysym = match &o.sym {
            None => false,
            Some(s) => off < s.len() && s[off..(off + n).min(s.len())].iter().any(|x| *x != 0),
        };
        if !anysym {
            let mut b = [0u8; 16];
            for k in 0..n {
                b[k] = o.bytes.get(off + k).copied().unwrap_or(0);
            }
            return Ok(V::C(mask(u128::from_le_bytes(b), w)));
        }
        let parts: Vec<(u8, E)> = (0..n).map(|k| Self::byte(o, off + k)).collect();
        let mut r: Option<E> = None;
        for (b, s) in parts {
            let e = if s == 0 { self.x.c(b as u128, 8) } else { s - 1 };
            r = Some(match r {
                None => e,
                Some(l) => self.x.concat(e, l),
            });
        }
        let e = r.unwrap();
        let e = self.x.extract(e, 0, w);
        Ok(self.norm(e))
    }
    fn load(&mut self, st: &State, a: u64, t: TyId) -> Res<V> {
        match &self.m.tys[t as usize] {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let n = match &self.m.tys[t as usize] {
                    Ty::Struct(f, _) => f.len(),
                    Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
                    _ => 0,
                };
                if let Ty::Vec(_, e) = &self.m.tys[t as usize] {
                    if self.m.bits(*e) % 8 != 0 {
                        // packed bit vector
                        let w = self.m.bits(t);
                        let v = self.load_int(st, a, w)?;
                        return Ok(self.int_to_vec(&v, n, self.m.bits(*e)));
                    }
                }
                let mut v = vec![];
                for i in 0..n {
                    let (o, ft) = self.m.field_off(t, i);
                    v.push(self.load(st, a + o, ft)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Void => Ok(V::C(0)),
            _ => {
                let w = self.m.bits(t);
                self.load_int(st, a, w)
            }
        }
    }
    fn int_to_vec(&mut self, v: &V, n: usize, ew: u32) -> V {
        let mut out = vec![];
        for i in 0..n {
            out.push(match v {
                V::C(x) => V::C(mask(*x >> (i as u32 * ew), ew)),
                V::E(e) => {
                    let r = self.x.extract(*e, i as u32 * ew, ew);
                    self.norm(r)
                }
                _ => panic!(),
            });
        }
        V::A(Rc::new(out))
    }
    fn vec_to_int(&mut self, v: &V, ew: u32) -> V {
        match v {
            V::A(l) => {
                let mut r: Option<E> = None;
                for x in l.iter() {
                    let e = self.ex(x, ew);
                    r = Some(match r {
                        None => e,
                        Some(lo) => self.x.concat(e, lo),
                    });
                }
                self.norm(r.unwrap())
            }
            v => v.clone(),
        }
    }
    fn wobj<'a>(&self, st: &'a mut State, a: u64, n: u64, what: &str) -> Res<&'a mut Obj> {
        let o = self.chk(st, a, n, what)?;
        if o.ro {
            return self.ub(format!("{} to read-only object", what));
        }
        let o = st.mem.get_mut((a >> 32) as u32).unwrap();
        let off = (a & 0xffff_ffff) as usize;
        let end = off + n as usize;
        if o.bytes.len() < end {
            let cap = (end * 2).min(o.size as usize).max(end);
            o.bytes.resize(cap, 0);
        }
        Ok(o)
    }
    fn store_int(&mut self, st: &mut State, a: u64, w: u32, v: &V) -> Res<()> {
        let n = ((w + 7) / 8) as usize;
        let off = (a & 0xffff_ffff) as usize;
        match v {
            V::C(x) => {
                let o = self.wobj(st, a, n as u64, "store")?;
                o.bytes[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if let Some(s) = &mut o.sym {
                    for k in off..(off + n).min(s.len()) {
                        s[k] = 0;
                    }
                }
            }
            V::E(e) => {
                let e = if w % 8 != 0 { self.x.zext(*e, n as u32 * 8) } else { *e };
                let bs: Vec<(u8, E)> = (0..n)
                    .map(|k| {
                        let b = self.x.extract(e, k as u32 * 8, 8);
                        match self.x.cst(b) {
                            Some(c) => (c as u8, 0),
                            None => (0, b + 1),
                        }
                    })
                    .collect();
                let o = self.wobj(st, a, n as u64, "store")?;
                let s = o.sym.get_or_insert_with(Vec::new);
                if s.len() < off + n {
                    s.resize(off + n, 0);
                }
                for (k, (b, y)) in bs.into_iter().enumerate() {
                    o.bytes[off + k] = b;
                    s[off + k] = y;
                }
            }
            V::A(_) => panic!("store agg as int"),
        }
        Ok(())
    }
    fn store(&mut self, st: &mut State, a: u64, t: TyId, v: &V) -> Res<()> {
        match &self.m.tys[t as usize] {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                if let Ty::Vec(_, e) = &self.m.tys[t as usize] {
                    let ew = self.m.bits(*e);
                    if ew % 8 != 0 {
                        let i = self.vec_to_int(v, ew);
                        return self.store_int(st, a, self.m.bits(t), &i);
                    }
                }
                if let V::A(l) = v {
                    for (i, x) in l.iter().enumerate() {
                        let (o, ft) = self.m.field_off(t, i);
                        self.store(st, a + o, ft, x)?;
                    }
                }
                Ok(())
            }
            Ty::Void => Ok(()),
            _ => {
                let w = self.m.bits(t);
                self.store_int(st, a, w, v)
            }
        }
    }
    fn read_bytes(&self, st: &State, a: u64, n: usize, what: &str) -> Res<Vec<(u8, E)>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let o = self.chk(st, a, n as u64, what)?;
        let off = (a & 0xffff_ffff) as usize;
        Ok((0..n).map(|k| Self::byte(o, off + k)).collect())
    }
    fn write_bytes(&self, st: &mut State, a: u64, b: &[(u8, E)]) -> Res<()> {
        if b.is_empty() {
            return Ok(());
        }
        let off = (a & 0xffff_ffff) as usize;
        let o = self.wobj(st, a, b.len() as u64, "copy destination")?;
        let any = b.iter().any(|x| x.1 != 0);
        for (k, x) in b.iter().enumerate() {
            o.bytes[off + k] = x.0;
        }
        if any {
            let s = o.sym.get_or_insert_with(Vec::new);
            if s.len() < off + b.len() {
                s.resize(off + b.len(), 0);
            }
        }
        if let Some(s) = &mut o.sym {
            for (k, x) in b.iter().enumerate() {
                if off + k < s.len() {
                    s[off + k] = x.1;
                }
            }
        }
        Ok(())
    }
    fn copy(&self, st: &mut State, d: u64, s: u64, n: usize) -> Res<()> {
        if n == 0 {
            return Ok(());
        }
        let so = self.chk(st, s, n as u64, "copy source")?;
        let off = (s & 0xffff_ffff) as usize;
        if so.sym.is_none() {
            let mut b = vec![0u8; n];
            if off < so.bytes.len() {
                let e = (off + n).min(so.bytes.len());
                b[..e - off].copy_from_slice(&so.bytes[off..e]);
            }
            let doff = (d & 0xffff_ffff) as usize;
            let o = self.wobj(st, d, n as u64, "copy destination")?;
            o.bytes[doff..doff + n].copy_from_slice(&b);
            if let Some(s) = &mut o.sym {
                for k in doff..(doff + n).min(s.len()) {
                    s[k] = 0;
                }
            }
            return Ok(());
        }
        let b = self.read_bytes(st, s, n, "copy source")?;
        self.write_bytes(st, d, &b)
    }

    // ---------- instruction helpers ----------
    fn bin(&mut self, op: Bin, w: u32, a: &V, b: &V, isf: Option<bool>) -> Res<V> {
        if let Some(dbl) = isf {
            if let (V::C(x), V::C(y)) = (a, b) {
                let r = if dbl {
                    let (x, y) = (f64::from_bits(*x as u64), f64::from_bits(*y as u64));
                    (match op {
                        Bin::FAdd => x + y,
                        Bin::FSub => x - y,
                        Bin::FMul => x * y,
                        Bin::FDiv => x / y,
                        _ => x % y,
                    })
                    .to_bits() as u128
                } else {
                    let (x, y) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
                    (match op {
                        Bin::FAdd => x + y,
                        Bin::FSub => x - y,
                        Bin::FMul => x * y,
                        Bin::FDiv => x / y,
                        _ => x % y,
                    })
                    .to_bits() as u128
                };
                return Ok(V::C(r));
            }
            return Err(Stop::End(Out::Unsupported("symbolic floating point arithmetic".into())));
        }
        let o = match op {
            Bin::Add => B::Add,
            Bin::Sub => B::Sub,
            Bin::Mul => B::Mul,
            Bin::UDiv => B::UDiv,
            Bin::SDiv => B::SDiv,
            Bin::URem => B::URem,
            Bin::SRem => B::SRem,
            Bin::Shl => B::Shl,
            Bin::LShr => B::LShr,
            Bin::AShr => B::AShr,
            Bin::And => B::And,
            Bin::Or => B::Or,
            Bin::Xor => B::Xor,
            _ => unreachable!(),
        };
        if let (V::C(x), V::C(y)) = (a, b) {
            if *y == 0 && matches!(o, B::UDiv | B::SDiv | B::URem | B::SRem) {
                return self.ub("division by zero".into());
            }
            return Ok(V::C(cbin(o, w, *x, *y)));
        }
        let (p, q) = (self.ex(a, w), self.ex(b, w));
        let r = self.x.bin(o, p, q);
        Ok(self.norm(r))
    }
    fn cmp(&mut self, c: Cmp, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (sx, sy) = (sext(*x, w), sext(*y, w));
            let r = match c {
                Cmp::Eq => x == y,
                Cmp::Ne => x != y,
                Cmp::Ugt => x > y,
                Cmp::Uge => x >= y,
                Cmp::Ult => x < y,
                Cmp::Ule => x <= y,
                Cmp::Sgt => sx > sy,
                Cmp::Sge => sx >= sy,
                Cmp::Slt => sx < sy,
                Cmp::Sle => sx <= sy,
            };
            return V::C(r as u128);
        }
        let (p, q) = (self.ex(a, w), self.ex(b, w));
        let r = match c {
            Cmp::Eq => self.x.eq(p, q),
            Cmp::Ne => {
                let e = self.x.eq(p, q);
                self.x.not(e)
            }
            Cmp::Ugt => self.x.ult(q, p),
            Cmp::Uge => self.x.ule(q, p),
            Cmp::Ult => self.x.ult(p, q),
            Cmp::Ule => self.x.ule(p, q),
            Cmp::Sgt => self.x.slt(q, p),
            Cmp::Sge => self.x.sle(q, p),
            Cmp::Slt => self.x.slt(p, q),
            Cmp::Sle => self.x.sle(p, q),
        };
        self.norm(r)
    }
    fn select(&mut self, c: &V, t: TyId, a: &V, b: &V) -> V {
        match c {
            V::C(1) => return a.clone(),
            V::C(_) => return b.clone(),
            _ => (),
        }
        if let (V::A(x), V::A(y)) = (a, b) {
            let v: Vec<V> = (0..x.len())
                .map(|i| {
                    let ft = match &self.m.tys[t as usize] {
                        Ty::Struct(f, _) => f[i],
                        Ty::Arr(_, e) | Ty::Vec(_, e) => *e,
                        _ => t,
                    };
                    self.select(c, ft, &x[i], &y[i])
                })
                .collect();
            return V::A(Rc::new(v));
        }
        let w = self.m.bits(t);
        let k = self.ex(c, 1);
        let (p, q) = (self.ex(a, w), self.ex(b, w));
        let r = self.x.ite(k, p, q);
        self.norm(r)
    }
    fn cast1(&mut self, k: CastK, sw: u32, dw: u32, sd: bool, dd: bool, v: &V) -> Res<V> {
        // sd/dd : source / dest is a double (for fp)
        let ff = |v: u128| if sd { f64::from_bits(v as u64) } else { f32::from_bits(v as u32) as f64 };
        let tf = |x: f64| if dd { x.to_bits() as u128 } else { (x as f32).to_bits() as u128 };
        if dw > 128 || sw > 128 {
            return Err(Stop::End(Out::Unsupported("integer of more than 128 bits".into())));
        }
        Ok(match k {
            CastK::PtrToInt | CastK::IntToPtr | CastK::BitCast | CastK::Trunc | CastK::ZExt => match v {
                V::C(x) => V::C(mask(*x, dw)),
                V::E(e) => {
                    let r = if dw < sw {
                        self.x.trunc(*e, dw)
                    } else {
                        self.x.zext(*e, dw)
                    };
                    self.norm(r)
                }
                _ => panic!("cast agg"),
            },
            CastK::SExt => match v {
                V::C(x) => V::C(mask(sext(*x, sw) as u128, dw)),
                V::E(e) => {
                    let r = self.x.sext(*e, dw);
                    self.norm(r)
                }
                _ => panic!("cast agg"),
            },
            _ => match v {
                V::C(x) => V::C(match k {
                    CastK::FpTrunc | CastK::FpExt => tf(ff(*x)),
                    CastK::FpToUi => mask(ff(*x) as u128, dw),
                    CastK::FpToSi => mask((ff(*x) as i128) as u128, dw),
                    CastK::UiToFp => {
                        if dd {
                            (*x as f64).to_bits() as u128
                        } else {
                            (*x as f32).to_bits() as u128
                        }
                    }
                    CastK::SiToFp => {
                        let s = sext(*x, sw);
                        if dd {
                            (s as f64).to_bits() as u128
                        } else {
                            (s as f32).to_bits() as u128
                        }
                    }
                    _ => unreachable!(),
                }),
                _ => return Err(Stop::End(Out::Unsupported("symbolic floating point cast".into()))),
            },
        })
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let fr = Rc::make_mut(fr);
        let m: &'static Module = self.m;
        let blk = &m.funcs[fr.f as usize].blocks[to as usize];
        let from = fr.block;
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for p in &blk.phis {
                let o = &p.inc.iter().find(|x| x.0 == from).expect("phi").1;
                vals.push(match o {
                    Op::Reg(r) => fr.regs[*r as usize].clone(),
                    Op::C(i) => self.cvals[*i as usize].clone(),
                });
            }
            for (p, v) in blk.phis.iter().zip(vals) {
                fr.regs[p.dst as usize] = v;
            }
        }
        fr.block = to;
        fr.pc = 0;
    }
    fn enter(&mut self, st: &mut State, f: u32, args: Vec<V>, dst: Option<u32>) -> Res<()> {
        if st.frames.len() >= self.lim.depth {
            return Err(Stop::End(Out::Hang));
        }
        let fu = &self.m.funcs[f as usize];
        let mut regs = args;
        regs.truncate(fu.nparams as usize);
        regs.resize(fu.nregs as usize, V::C(0));
        self.funcs.insert(f);
        st.frames.push(Rc::new(Frame { f, block: 0, pc: 0, regs, allocas: vec![], dst }));
        Ok(())
    }
    fn ret(&mut self, st: &mut State, v: Option<V>) -> Res<()> {
        let fr = st.frames.pop().unwrap();
        for a in &fr.allocas {
            st.mem.set(*a, None);
            st.mem.free.push(*a);
        }
        if st.frames.is_empty() {
            return Err(Stop::End(Out::Ok));
        }
        let top = Rc::make_mut(st.frames.last_mut().unwrap());
        if let (Some(d), Some(v)) = (fr.dst, v) {
            top.regs[d as usize] = v;
        }
        Ok(())
    }
    fn next(&self, st: &mut State) {
        Rc::make_mut(st.frames.last_mut().unwrap()).pc += 1;
    }
    fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| short(&self.m.funcs[f.f as usize].name)).collect()
    }
    fn addr_load(&mut self, st: &State, e: E, t: TyId) -> Res<Option<V>> {
        // table read through an address depending on a single input byte
        let sup = self.x.sup(e);
        if sup.count_ones() != 1 || self.lookup_conc(st, e).is_some() {
            return Ok(None);
        }
        if !matches!(self.m.tys[t as usize], Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double) {
            return Ok(None);
        }
        let w = self.m.bits(t);
        let s = sup.trailing_zeros() as usize;
        let d = st.dom.get(s).copied().unwrap_or(FULL);
        let mut m = (*st.model).clone();
        if m.len() <= s {
            m.resize(s + 1, 0);
        }
        let mut vals = vec![0u128; 256];
        for b in 0..256usize {
            if (d[b / 64] >> (b % 64)) & 1 == 1 {
                m[s] = b as u8;
                let a = self.x.eval(e, &m) as u64;
                match self.load_int(st, a, w) {
                    Ok(V::C(v)) => vals[b] = v,
                    Ok(_) => return Ok(None),
                    Err(_) => return Ok(None),
                }
            }
        }
        let i = self.x.sym(s as u32);
        let r = self.x.table(vals, i, w);
        Ok(Some(self.norm(r)))
    }
    fn objlen_ok(&self, n: u64) -> bool {
        n <= self.lim.huge
    }
    fn alloc_size(&mut self, st: &State, v: &V, what: &str) -> Res<u64> {
        match v {
            V::C(n) => {
                let n = *n as u64;
                if !self.objlen_ok(n) {
                    return Err(Stop::End(Out::Huge(format!("{} of {} bytes requested", what, n))));
                }
                Ok(n)
            }
            V::E(e) => {
                if let Some(v) = self.lookup_conc(st, *e | 0x8000_0000) {
                    if v == u128::MAX {
                        return Err(Stop::End(Out::Huge(format!("{} of an input-controlled size above {} bytes requested", what, self.lim.huge))));
                    }
                    if v == u128::MAX - 1 {
                        return Ok(self.lim.huge);
                    }
                    return Ok(v as u64);
                }
                let w = self.x.w(*e);
                let k = self.x.c(self.lim.huge as u128, w);
                let big = self.x.ult(k, *e);
                let mut sp = self.split(st, big)?;
                for (b, s) in sp.iter_mut() {
                    Rc::make_mut(&mut s.conc).push((*e | 0x8000_0000, if *b { u128::MAX } else { u128::MAX - 1 }));
                }
                Err(Stop::Fork(sp.into_iter().map(|x| x.1).collect()))
            }
            V::A(_) => panic!(),
        }
    }

    fn ext(&mut self, st: &mut State, name: &str, args: &[(TyId, Op)], rt: TyId) -> Res<Option<V>> {
        let av: Vec<V> = args.iter().map(|a| self.op(st, &a.1)).collect();
        let aw: Vec<u32> = args.iter().map(|a| self.m.bits(a.0)).collect();
        let z = Ok(Some(V::C(0)));
        match name {
            "sym_u8" => {
                let i = st.nsym;
                if i >= 128 {
                    return Err(Stop::End(Out::Unsupported("more than 128 symbolic bytes".into())));
                }
                st.nsym += 1;
                self.maxsym = self.maxsym.max(st.nsym);
                let e = self.x.sym(i);
                return Ok(Some(V::E(e)));
            }
            "sym_assume" => {
                let c = self.ex(&av[0], aw[0]);
                let c = if aw[0] > 1 {
                    let k = self.x.c(0, aw[0]);
                    let q = self.x.eq(c, k);
                    self.x.not(q)
                } else {
                    c
                };
                match self.sat(st, c, false)? {
                    None => return Err(Stop::End(Out::Pruned)),
                    Some(m) => {
                        self.assume(st, c);
                        st.model = m;
                        return z;
                    }
                }
            }
            "sym_check" => {
                let id = self.conc(st, &av[1], aw[1], 64)? as u64;
                self.checks += 1;
                let c = self.ex(&av[0], aw[0]);
                let k = self.x.c(0, aw[0]);
                let bad = self.x.eq(c, k);
                if self.x.cst(bad).is_none() {
                    self.check_queries += 1;
                }
                match self.sat(st, bad, true)? {
                    None => {
                        if self.x.cst(bad).is_none() {
                            let g = self.x.not(bad);
                            let _ = g;
                        }
                    }
                    Some(m) => {
                        let mut s2 = st.clone();
                        s2.model = m;
                        self.assume(&mut s2, bad);
                        self.finish(&s2, Out::Check(id));
                        let g = self.x.not(bad);
                        match self.sat(st, g, false)? {
                            None => return Err(Stop::End(Out::Pruned)),
                            Some(m) => {
                                self.assume(st, g);
                                st.model = m;
                            }
                        }
                    }
                }
                Rc::make_mut(&mut st.checked).insert(id);
                return z;
            }
            "sym_cover" => {
                let id = self.conc(st, &av[0], aw[0], 64)? as u64;
                Rc::make_mut(&mut st.covers).insert(id);
                return z;
            }
            "sym_observe" => {
                Rc::make_mut(&mut st.obs).push(av[0].clone());
                return z;
            }
            // evaluates to a feasible split: 1 / 0 (forces a fork on a condition)
            "sym_fork" => {
                let c = self.ex(&av[0], aw[0]);
                let k = self.x.c(0, aw[0]);
                let q = self.x.eq(c, k);
                let q = self.x.not(q);
                let e = V::E(q);
                let e = match self.x.cst(q) {
                    Some(v) => V::C(v),
                    None => e,
                };
                return Ok(Some(V::C(self.conc(st, &e, 1, 2)?)));
            }
            "sym_conc" => {
                return Ok(Some(V::C(self.conc(st, &av[0], aw[0], 1024)?)));
            }
            "malloc" | "__rust_alloc" => {
                let n = self.alloc_size(st, &av[0], "allocation")?;
                return Ok(Some(V::C(st.mem.alloc(n, false) as u128)));
            }
            "calloc" => {
                let p = self.bin(Bin::Mul, 64, &av[0], &av[1], None)?;
                let n = self.alloc_size(st, &p, "allocation")?;
                return Ok(Some(V::C(st.mem.alloc(n, false) as u128)));
            }
            "realloc" => {
                let n = self.alloc_size(st, &av[1], "reallocation")?;
                let p = self.conc(st, &av[0], 64, 16)? as u64;
                if p == 0 {
                    return Ok(Some(V::C(st.mem.alloc(n, false) as u128)));
                }
                let o = self.chk(st, p, 0, "realloc")?;
                let mut o = o.clone();
                o.size = n;
                if o.bytes.len() as u64 > n {
                    o.bytes.truncate(n as usize);
                }
                if let Some(s) = &mut o.sym {
                    if s.len() as u64 > n {
                        s.truncate(n as usize);
                    }
                }
                st.mem.set((p >> 32) as u32, None);
                let a = st.mem.alloc(n, false);
                st.mem.set((a >> 32) as u32, Some(Rc::new(o)));
                return Ok(Some(V::C(a as u128)));
            }
            "posix_memalign" => {
                let n = self.alloc_size(st, &av[2], "allocation")?;
                let p = self.conc(st, &av[0], 64, 16)? as u64;
                let a = st.mem.alloc(n, false);
                self.store_int(st, p, 64, &V::C(a as u128))?;
                return z;
            }
            "free" => {
                let p = self.conc(st, &av[0], 64, 16)? as u64;
                if p != 0 {
                    let id = (p >> 32) as u32;
                    match st.mem.get(id) {
                        Some(o) if !o.stack && p & 0xffff_ffff == 0 && !o.ro => (),
                        _ => return self.ub(format!("free of invalid pointer {:#x}", p)),
                    }
                    st.mem.set(id, None);
                }
                return z;
            }
            "bcmp" | "memcmp" => {
                let n = self.conc(st, &av[2], 64, 300)? as usize;
                let a = self.conc(st, &av[0], 64, 300)? as u64;
                let b = self.conc(st, &av[1], 64, 300)? as u64;
                let x = self.read_bytes(st, a, n, "memcmp")?;
                let y = self.read_bytes(st, b, n, "memcmp")?;
                let mut r = self.x.c(0, 32);
                let one = self.x.c(1, 32);
                let neg = self.x.c(u128::MAX, 32);
                if name == "bcmp" {
                    let mut all = self.x.c(1, 1);
                    for (p, q) in x.iter().zip(y.iter()) {
                        let p = if p.1 == 0 { self.x.c(p.0 as u128, 8) } else { p.1 - 1 };
                        let q = if q.1 == 0 { self.x.c(q.0 as u128, 8) } else { q.1 - 1 };
                        let e = self.x.eq(p, q);
                        all = self.x.bin(B::And, all, e);
                    }
                    let zero = self.x.c(0, 32);
                    r = self.x.ite(all, zero, one);
                } else {
                    for (p, q) in x.iter().zip(y.iter()).rev() {
                        let p = if p.1 == 0 { self.x.c(p.0 as u128, 8) } else { p.1 - 1 };
                        let q = if q.1 == 0 { self.x.c(q.0 as u128, 8) } else { q.1 - 1 };
                        let e = self.x.eq(p, q);
                        let l = self.x.ult(p, q);
                        let i = self.x.ite(l, neg, one);
                        r = self.x.ite(e, r, i);
                    }
                }
                return Ok(Some(self.norm(r)));
            }
            "strlen" => {
                let a = self.conc(st, &av[0], 64, 16)? as u64;
                let mut n = 0;
                loop {
                    let b = self.load_int(st, a + n, 8)?;
                    match b {
                        V::C(0) => return Ok(Some(V::C(n as u128))),
                        V::C(_) => n += 1,
                        _ => return Err(Stop::End(Out::Unsupported("symbolic strlen".into()))),
                    }
                }
            }
            "memchr" | "memrchr" => {
                let n = self.conc(st, &av[2], 64, 300)? as usize;
                let a = self.conc(st, &av[0], 64, 300)? as u64;
                let c = self.conc(st, &av[1], 32, 300)? as u8;
                let x = self.read_bytes(st, a, n, "memchr")?;
                let mut r = self.x.c(0, 64);
                let kc = self.x.c(c as u128, 8);
                let it: Vec<usize> = if name == "memchr" { (0..n).rev().collect() } else { (0..n).collect() };
                for i in it {
                    let p = if x[i].1 == 0 { self.x.c(x[i].0 as u128, 8) } else { x[i].1 - 1 };
                    let e = self.x.eq(p, kc);
                    let at = self.x.c(a as u128 + i as u128, 64);
                    r = self.x.ite(e, at, r);
                }
                return Ok(Some(self.norm(r)));
            }
            "getenv" => return z,
            "__errno_location" => {
                let a = st.mem.alloc(4, false);
                return Ok(Some(V::C(a as u128)));
            }
            "syscall" => {
                if let (V::C(318), V::C(p), V::C(n)) = (&av[0], &av[1], &av[2]) {
                    let b: Vec<(u8, E)> = (0..*n as usize).map(|i| (0x5a ^ i as u8, 0)).collect();
                    self.write_bytes(st, *p as u64, &b)?;
                    return Ok(Some(V::C(*n)));
                }
            }
            "getrandom" => {
                if let (V::C(p), V::C(n)) = (&av[0], &av[1]) {
                    let b: Vec<(u8, E)> = (0..*n as usize).map(|i| (0x5a ^ i as u8, 0)).collect();
                    self.write_bytes(st, *p as u64, &b)?;
                    return Ok(Some(V::C(*n)));
                }
            }
            "write" => {
                let n = av[2].clone();
                return Ok(Some(n));
            }
            "abort" | "llvm.trap" | "exit" | "_exit" => return Err(Stop::End(Out::Panic(name.to_string()))),
            _ => (),
        }
        if name.starts_with("_Unwind") {
            return Err(Stop::End(Out::Panic(name.to_string())));
        }
        if let Some(r) = name.strip_prefix("llvm.") {
            let base: &str = r;
            let t0 = args.first().map(|a| a.0).unwrap_or(0);
            // element-wise on vectors
            if let Some(et) = args.first().and_then(|a| self.elem(a.0)) {
                let n = match &av[0] {
                    V::A(l) => l.len(),
                    _ => 0,
                };
                if base.starts_with("vector.reduce.") {
                    let op = base["vector.reduce.".len()..].split('.').next().unwrap_or("");
                    let w = self.m.bits(et);
                    let b = match op {
                        "or" => Bin::Or,
                        "and" => Bin::And,
                        "xor" => Bin::Xor,
                        "add" => Bin::Add,
                        "mul" => Bin::Mul,
                        _ => return Err(Stop::End(Out::Unsupported(format!("intrinsic {}", name)))),
                    };
                    if let V::A(l) = &av[0] {
                        let mut acc = l[0].clone();
                        for x in l[1..].iter() {
                            acc = self.bin(b, w, &acc, x, None)?;
                        }
                        return Ok(Some(acc));
                    }
                }
                let mut out = vec![];
                for i in 0..n {
                    let a: Vec<V> = av
                        .iter()
                        .map(|v| match v {
                            V::A(l) => l[i].clone(),
                            v => v.clone(),
                        })
                        .collect();
                    let w: Vec<u32> = aw.iter().map(|_| self.m.bits(et)).collect();
                    match self.intr(base, &a, &w)? {
                        Some(v) => out.push(v),
                        None => return Err(Stop::End(Out::Unsupported(format!("intrinsic {}", name)))),
                    }
                }
                return Ok(Some(V::A(Rc::new(out))));
            }
            let _ = (t0, rt);
            if let Some(v) = self.intr(base, &av, &aw)? {
                return Ok(Some(v));
            }
        }
        Err(Stop::End(Out::Unsupported(format!("external {}", name))))
    }
    fn intr(&mut self, base: &str, av: &[V], aw: &[u32]) -> Res<Option<V>> {
        let w = aw.first().copied().unwrap_or(0);
        let pre = |p: &str| base.starts_with(p);
        if pre("threadlocal.address") || pre("expect") || pre("ssa.copy") || pre("launder") || pre("strip") || pre("ptrmask") && false {
            return Ok(Some(av[0].clone()));
        }
        if pre("ptrmask") {
            return Ok(Some(self.bin(Bin::And, 64, &av[0], &av[1], None)?));
        }
        if pre("stacksave") {
            return Ok(Some(V::C(0)));
        }
        if pre("stackrestore") {
            return Ok(Some(V::C(0)));
        }
        if pre("is.constant") || pre("objectsize") {
            return Ok(Some(V::C(0)));
        }
        if pre("umax.") || pre("umin.") || pre("smax.") || pre("smin.") {
            let c = match &base[..4] {
                "umax" => Cmp::Ugt,
                "umin" => Cmp::Ult,
                "smax" => Cmp::Sgt,
                _ => Cmp::Slt,
            };
            let k = self.cmp(c, w, &av[0], &av[1]);
            let k = self.ex(&k, 1);
            let (p, q) = (self.ex(&av[0], w), self.ex(&av[1], w));
            let r = self.x.ite(k, p, q);
            return Ok(Some(self.norm(r)));
        }
        if pre("abs.") {
            let z = V::C(0);
            let k = self.cmp(Cmp::Slt, w, &av[0], &z);
            let n = self.bin(Bin::Sub, w, &z, &av[0], None)?;
            let k = self.ex(&k, 1);
            let (p, q) = (self.ex(&n, w), self.ex(&av[0], w));
            let r = self.x.ite(k, p, q);
            return Ok(Some(self.norm(r)));
        }
        if pre("ucmp.") || pre("scmp.") {
            let (lt, gt) = if pre("ucmp") { (Cmp::Ult, Cmp::Ugt) } else { (Cmp::Slt, Cmp::Sgt) };
            let l = self.cmp(lt, w, &av[0], &av[1]);
            let g = self.cmp(gt, w, &av[0], &av[1]);
            let rw: u32 = base[5..].split('.').next().unwrap().trim_start_matches('i').parse().unwrap_or(8);
            let (l, g) = (self.ex(&l, 1), self.ex(&g, 1));
            let (m1, p1, z) = (self.x.c(u128::MAX, rw), self.x.c(1, rw), self.x.c(0, rw));
            let i = self.x.ite(g, p1, z);
            let r = self.x.ite(l, m1, i);
            return Ok(Some(self.norm(r)));
        }
        if base.contains(".with.overflow.") {
            let (p, q) = (self.ex(&av[0], w), self.ex(&av[1], w));
            let signed = base.starts_with('s');
            let op = match &base[1..4] {
                "add" => B::Add,
                "sub" => B::Sub,
                _ => B::Mul,
            };
            let r = self.x.bin(op, p, q);
            let of = match (op, signed) {
                (B::Add, false) => self.x.ult(r, p),
                (B::Sub, false) => self.x.ult(p, q),
                (B::Mul, _) => {
                    if let (Some(a), Some(b)) = (self.x.cst(p), self.x.cst(q)) {
                        let ov = if signed {
                            match sext(a, w).checked_mul(sext(b, w)) {
                                None => true,
                                Some(v) => sext(mask(v as u128, w), w) != v,
                            }
                        } else {
                            match a.checked_mul(b) {
                                None => true,
                                Some(v) => mask(v, w) != v,
                            }
                        };
                        self.x.c(ov as u128, 1)
                    } else if self.x.cst(p).is_some() || self.x.cst(q).is_some() {
                        // one factor known: the other one has to lie in a range
                        let (c, o) = match self.x.cst(q) {
                            Some(c) => (c, p),
                            None => (self.x.cst(p).unwrap(), q),
                        };
                        if signed {
                            let c = sext(c, w);
                            let max = i128::MAX >> (128 - w);
                            let min = i128::MIN >> (128 - w);
                            let (lo, hi) = match c {
                                0 => (min, max),
                                -1 => (-max, max),
                                c if c > 0 => (min / c, max / c),
                                c => (max / c, min / c),
                            };
                            let (lo, hi) = (self.x.c(mask(lo as u128, w), w), self.x.c(mask(hi as u128, w), w));
                            let l = self.x.slt(o, lo);
                            let h = self.x.slt(hi, o);
                            self.x.bin(B::Or, l, h)
                        } else {
                            let hi = if c == 0 { mask(u128::MAX, w) } else { mask(u128::MAX, w) / c };
                            let hi = self.x.c(hi, w);
                            self.x.ult(hi, o)
                        }
                    } else if w > 64 {
                        // q != 0 && r / q != p (unsigned only)
                        if signed {
                            return Err(Stop::End(Out::Unsupported("wide signed mul overflow".into())));
                        }
                        let z = self.x.c(0, w);
                        let d = self.x.bin(B::UDiv, r, q);
                        let nz = self.x.eq(q, z);
                        let nz = self.x.not(nz);
                        let e = self.x.eq(d, p);
                        let ne = self.x.not(e);
                        self.x.bin(B::And, nz, ne)
                    } else {
                        let (a, b) = if signed { (self.x.sext(p, 2 * w), self.x.sext(q, 2 * w)) } else { (self.x.zext(p, 2 * w), self.x.zext(q, 2 * w)) };
                        let f = self.x.bin(B::Mul, a, b);
                        let rr = if signed { self.x.sext(r, 2 * w) } else { self.x.zext(r, 2 * w) };
                        let e = self.x.eq(f, rr);
                        self.x.not(e)
                    }
                }
                // the sign of the result differs from what the operands allow
                (B::Add, true) => {
                    let (a, b) = (self.x.bin(B::Xor, p, r), self.x.bin(B::Xor, q, r));
                    let t = self.x.bin(B::And, a, b);
                    let z = self.x.c(0, w);
                    self.x.slt(t, z)
                }
                (_, true) => {
                    let (a, b) = (self.x.bin(B::Xor, p, q), self.x.bin(B::Xor, p, r));
                    let t = self.x.bin(B::And, a, b);
                    let z = self.x.c(0, w);
                    self.x.slt(t, z)
                }
                _ => unreachable!(),
            };
            let v = vec![self.norm(r), self.norm(of)];
            return Ok(Some(V::A(Rc::new(v))));
        }
        if pre("usub.sat") || pre("uadd.sat") {
            let (p, q) = (self.ex(&av[0], w), self.ex(&av[1], w));
            let r = if pre("usub") {
                let l = self.x.ult(p, q);
                let d = self.x.bin(B::Sub, p, q);
                let z = self.x.c(0, w);
                self.x.ite(l, z, d)
            } else {
                let s = self.x.bin(B::Add, p, q);
                let l = self.x.ult(s, p);
                let o = self.x.c(u128::MAX, w);
                self.x.ite(l, o, s)
            };
            return Ok(Some(self.norm(r)));
        }
        if pre("ctlz.") || pre("cttz.") || pre("ctpop.") {
            let r = match &av[0] {
                V::C(v) => {
                    let v = *v;
                    V::C(if pre("ctlz") {
                        (v.leading_zeros() - (128 - w)) as u128
                    } else if pre("cttz") {
                        (if v == 0 { w } else { v.trailing_zeros() }) as u128
                    } else {
                        v.count_ones() as u128
                    })
                }
                V::E(e) => {
                    let e = *e;
                    let r = if pre("ctpop") {
                        let mut acc = self.x.c(0, w);
                        for i in 0..w {
                            let b = self.x.extract(e, i, 1);
                            let b = self.x.zext(b, w);
                            acc = self.x.bin(B::Add, acc, b);
                        }
                        acc
                    } else {
                        let mut acc = self.x.c(w as u128, w);
                        let order: Vec<u32> = if pre("ctlz") { (0..w).collect() } else { (0..w).rev().collect() };
                        for i in order {
                            let b = self.x.extract(e, i, 1);
                            let k = self.x.c(if pre("ctlz") { (w - 1 - i) as u128 } else { i as u128 }, w);
                            acc = self.x.ite(b, k, acc);
                        }
                        acc
                    };
                    self.norm(r)
                }
                _ => panic!(),
            };
            return Ok(Some(r));
        }
        if pre("bswap.") {
            let e = self.ex(&av[0], w);
            let mut r: Option<E> = None;
            for i in (0..w / 8).rev() {
                let b = self.x.extract(e, i * 8, 8);
                r = Some(match r {
                    None => b,
                    Some(l) => self.x.concat(b, l),
                });
            }
            return Ok(Some(self.norm(r.unwrap())));
        }
        if pre("bitreverse.") {
            let e = self.ex(&av[0], w);
            let mut r: Option<E> = None;
            for i in (0..w).rev() {
                let b = self.x.extract(e, i, 1);
                r = Some(match r {
                    None => b,
                    Some(l) => self.x.concat(b, l),
                });
            }
            return Ok(Some(self.norm(r.unwrap())));
        }
        if pre("fshl.") || pre("fshr.") {
            let (a, b, s) = (self.ex(&av[0], w), self.ex(&av[1], w), self.ex(&av[2], w));
            let wc = self.x.c(w as u128, w);
            let s = self.x.bin(B::URem, s, wc);
            let inv = self.x.bin(B::Sub, wc, s);
            let r = if pre("fshl") {
                let h = self.x.bin(B::Shl, a, s);
                let l = self.x.bin(B::LShr, b, inv);
                self.x.bin(B::Or, h, l)
            } else {
                let h = self.x.bin(B::Shl, a, inv);
                let l = self.x.bin(B::LShr, b, s);
                self.x.bin(B::Or, h, l)
            };
            return Ok(Some(self.norm(r)));
        }
        if pre("fptoui.sat") || pre("fptosi.sat") || pre("fabs") || pre("floor") || pre("fmuladd") {
            return Err(Stop::End(Out::Unsupported(format!("fp intrinsic {}", base))));
        }
        Ok(None)
    }

    fn step(&mut self, st: &mut State) -> Res<()> {
        let m: &'static Module = self.m;
        let (f, block, pc) = {
            let fr = st.frames.last().unwrap();
            (fr.f, fr.block, fr.pc)
        };
        let ins = &m.funcs[f as usize].blocks[block as usize].ins[pc];
        if self.trace {
            eprintln!("{}{} b{} {}: {:?}", " ".repeat(st.frames.len()), short(&m.funcs[f as usize].name), block, pc, ins);
        }
        st.steps += 1;
        self.instrs += 1;
        if st.steps > self.lim.steps {
            return Err(Stop::End(Out::Hang));
        }
        match ins {
            Ins::Bin(d, op, t, a, b, _) => {
                let (a, b) = (self.op(st, a), self.op(st, b));
                let (et, isv) = match self.elem(*t) {
                    Some(e) => (e, true),
                    None => (*t, false),
                };
                let isf = match &m.tys[et as usize] {
                    Ty::Float => Some(false),
                    Ty::Double => Some(true),
                    _ => None,
                };
                let w = m.bits(et);
                let r = if isv {
                    let (V::A(x), V::A(y)) = (&a, &b) else { panic!() };
                    let mut o = vec![];
                    for i in 0..x.len() {
                        o.push(self.bin(*op, w, &x[i], &y[i], isf)?);
                    }
                    V::A(Rc::new(o))
                } else {
                    self.bin(*op, w, &a, &b, isf)?
                };
                self.set(st, *d, r);
                self.next(st);
            }
            Ins::ICmp(d, c, t, a, b) => {
                let (a, b) = (self.op(st, a), self.op(st, b));
                let r = if let Some(et) = self.elem(*t) {
                    let w = m.bits(et);
                    let (V::A(x), V::A(y)) = (&a, &b) else { panic!() };
                    V::A(Rc::new((0..x.len()).map(|i| self.cmp(*c, w, &x[i], &y[i])).collect()))
                } else {
                    self.cmp(*c, m.bits(*t), &a, &b)
                };
                self.set(st, *d, r);
                self.next(st);
            }
            Ins::FCmp(d, k, t, a, b) => {
                let (a, b) = (self.op(st, a), self.op(st, b));
                let (V::C(x), V::C(y)) = (&a, &b) else {
                    return Err(Stop::End(Out::Unsupported("symbolic fcmp".into())));
                };
                let dbl = m.tys[*t as usize] == Ty::Double;
                let g = |v: u128| if dbl { f64::from_bits(v as u64) } else { f32::from_bits(v as u32) as f64 };
                let (x, y) = (g(*x), g(*y));
                let uno = x.is_nan() || y.is_nan();
                let r = match k.as_str() {
                    "oeq" => x == y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "one" => !uno && x != y,
                    "ord" => !uno,
                    "ueq" => uno || x == y,
                    "ugt" => uno || x > y,
                    "uge" => uno || x >= y,
                    "ult" => uno || x < y,
                    "ule" => uno || x <= y,
                    "une" => uno || x != y,
                    "uno" => uno,
                    "true" => true,
                    _ => false,
                };
                self.set(st, *d, V::C(r as u128));
                self.next(st);
            }
            Ins::FNeg(d, t, a) => {
                let a = self.op(st, a);
                let w = m.bits(*t);
                let r = self.bin(Bin::Xor, w, &a, &V::C(1u128 << (w - 1)), None)?;
                self.set(st, *d, r);
                self.next(st);
            }
            Ins::Cast(d, k, t, dt, a) => {
                let a = self.op(st, a);
                let r = match (self.elem(*t), self.elem(*dt)) {
                    (None, None) => {
                        let sd = m.tys[*t as usize] == Ty::Double;
                        let dd = m.tys[*dt as usize] == Ty::Double;
                        self.cast1(*k, m.bits(*t), m.bits(*dt), sd, dd, &a)?
                    }
                    (Some(se), Some(de)) if *k != CastK::BitCast => {
                        let (sd, dd) = (m.tys[se as usize] == Ty::Double, m.tys[de as usize] == Ty::Double);
                        let V::A(x) = &a else { panic!() };
                        let mut o = vec![];
                        for v in x.iter() {
                            o.push(self.cast1(*k, m.bits(se), m.bits(de), sd, dd, v)?);
                        }
                        V::A(Rc::new(o))
                    }
                    (s, dv) => {
                        if m.bits(*t) > 128 {
                            return Err(Stop::End(Out::Unsupported("wide vector bitcast".into())));
                        }
                        let i = match s {
                            Some(se) => self.vec_to_int(&a, m.bits(se)),
                            None => a,
                        };
                        match dv {
                            Some(de) => {
                                let n = match &m.tys[*dt as usize] {
                                    Ty::Vec(n, _) => *n as usize,
                                    _ => 0,
                                };
                                self.int_to_vec(&i, n, m.bits(de))
                            }
                            None => i,
                        }
                    }
                };
                self.set(st, *d, r);
                self.next(st);
            }
            Ins::Select(d, t, c, a, b, ct) => {
                let c = self.op(st, c);
                let (a, b) = (self.op(st, a), self.op(st, b));
                let r = if self.elem(*ct).is_some() {
                    let et = self.elem(*t).unwrap();
                    let (V::A(k), V::A(x), V::A(y)) = (&c, &a, &b) else { panic!() };
                    V::A(Rc::new((0..x.len()).map(|i| self.select(&k[i], et, &x[i], &y[i])).collect()))
                } else {
                    self.select(&c, *t, &a, &b)
                };
                self.set(st, *d, r);
                self.next(st);
            }
            Ins::Alloca(d, sz, n, _) => {
                let n = match n {
                    Some(o) => {
                        let v = self.op(st, o);
                        self.conc(st, &v, 64, 64)? as u64
                    }
                    None => 1,
                };
                let a = st.mem.alloc(sz * n, true);
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.allocas.push((a >> 32) as u32);
                fr.regs[*d as usize] = V::C(a as u128);
                fr.pc += 1;
            }
            Ins::Load(d, t, a) => {
                let av = self.op(st, a);
                let r = match &av {
                    V::C(x) => self.load(st, *x as u64, *t)?,
                    V::E(e) => match self.addr_load(st, *e, *t)? {
                        Some(v) => v,
                        None => {
                            let x = self.conc(st, &av, 64, 300)?;
                            self.load(st, x as u64, *t)?
                        }
                    },
                    _ => panic!(),
                };
                self.set(st, *d, r);
                self.next(st);
            }
            Ins::Store(t, v, a) => {
                let v = self.op(st, v);
                let a = self.op(st, a);
                let x = self.conc(st, &a, 64, 300)?;
                self.store(st, x as u64, *t, &v)?;
                self.next(st);
            }
            Ins::Gep(d, base, off, idx) => {
                let b = self.op(st, base);
                let mut r = match &b {
                    V::C(x) => V::C(mask(x.wrapping_add(*off as i128 as u128), 64)),
                    V::E(e) => {
                        let k = self.x.c(*off as i128 as u128, 64);
                        let s = self.x.bin(B::Add, *e, k);
                        self.norm(s)
                    }
                    _ => panic!("gep vec"),
                };
                for (o, sc, w) in idx {
                    let i = self.op(st, o);
                    let s = match &i {
                        V::C(x) => V::C(mask((sext(*x, *w).wrapping_mul(*sc as i128)) as u128, 64)),
                        V::E(e) => {
                            let e = if *w < 64 { self.x.sext(*e, 64) } else { *e };
                            let k = self.x.c(*sc as u128, 64);
                            let p = self.x.bin(B::Mul, e, k);
                            self.norm(p)
                        }
                        _ => panic!("gep vec"),
                    };
                    r = self.bin(Bin::Add, 64, &r, &s, None)?;
                }
                self.set(st, *d, r);
                self.next(st);
            }
            Ins::ExtractValue(d, a, ix, _) => {
                let mut v = self.op(st, a);
                for i in ix {
                    v = match &v {
                        V::A(l) => l[*i as usize].clone(),
                        _ => V::C(0),
                    };
                }
                self.set(st, *d, v);
                self.next(st);
            }
            Ins::InsertValue(d, a, _, b, ix) => {
                let a = self.op(st, a);
                let b = self.op(st, b);
                fn ins(a: &V, b: V, ix: &[u32]) -> V {
                    if ix.is_empty() {
                        return b;
                    }
                    let V::A(l) = a else { panic!("insertvalue") };
                    let mut l = (**l).clone();
                    l[ix[0] as usize] = ins(&l[ix[0] as usize], b, &ix[1..]);
                    V::A(Rc::new(l))
                }
                let r = ins(&a, b, ix);
                self.set(st, *d, r);
                self.next(st);
            }
            Ins::ExtractElem(d, _, a, i) => {
                let a = self.op(st, a);
                let i = self.op(st, i);
                let i = self.conc(st, &i, 64, 64)? as usize;
                let V::A(l) = &a else { panic!() };
                let r = l.get(i).cloned().unwrap_or(V::C(0));
                self.set(st, *d, r);
                self.next(st);
            }
            Ins::InsertElem(d, _, a, b, i) => {
                let a = self.op(st, a);
                let b = self.op(st, b);
                let i = self.op(st, i);
                let i = self.conc(st, &i, 64, 64)? as usize;
                let V::A(l) = &a else { panic!() };
                let mut l = (**l).clone();
                if i < l.len() {
                    l[i] = b;
                }
                self.set(st, *d, V::A(Rc::new(l)));
                self.next(st);
            }
            Ins::Shuffle(d, _, a, b, mk) => {
                let (a, b) = (self.op(st, a), self.op(st, b));
                let (V::A(x), V::A(y)) = (&a, &b) else { panic!() };
                let r = mk
                    .iter()
                    .map(|k| {
                        if *k < 0 {
                            V::C(0)
                        } else if (*k as usize) < x.len() {
                            x[*k as usize].clone()
                        } else {
                            y.get(*k as usize - x.len()).cloned().unwrap_or(V::C(0))
                        }
                    })
                    .collect();
                self.set(st, *d, V::A(Rc::new(r)));
                self.next(st);
            }
            Ins::Freeze(d, a) => {
                let v = self.op(st, a);
                self.set(st, *d, v);
                self.next(st);
            }
            Ins::Call(dst, rt, callee, args, norm) => {
                let id = match callee {
                    Callee::Direct(i) => *i,
                    Callee::Indirect(o) => {
                        let v = self.op(st, o);
                        let a = self.conc(st, &v, 64, 64)? as u64;
                        let k = (a >> 32) as u32;
                        if k == 0 || k > m.funcs.len() as u32 || a & 0xffff_ffff != 0 {
                            return self.ub(format!("call through invalid function pointer {:#x}", a));
                        }
                        k - 1
                    }
                };
                let kinds = self.kinds.clone();
                match &kinds[id as usize] {
                    K::NumFmt(w) if {
                        let a = self.op(st, &args[0].1);
                        match a {
                            V::C(p) => !matches!(self.load_int(st, p as u64, *w), Ok(V::C(_))),
                            _ => false,
                        }
                    } => {
                        if let Some(d) = dst {
                            self.set(st, *d, V::C(0));
                        }
                    }
                    K::Defined | K::NumFmt(_) => {
                        let av: Vec<V> = args.iter().map(|a| self.op(st, &a.1)).collect();
                        if let Some(_n) = norm {
                            return Err(Stop::End(Out::Unsupported("invoke".into())));
                        }
                        self.next(st);
                        return self.enter(st, id, av, *dst);
                    }
                    K::Panic(n) => return Err(Stop::End(Out::Panic(n.clone()))),
                    K::Nop => (),
                    K::Memcpy => {
                        let n = self.op(st, &args[2].1);
                        let n = self.conc(st, &n, 64, 300)? as u64;
                        let d = self.op(st, &args[0].1);
                        let s = self.op(st, &args[1].1);
                        let d = self.conc(st, &d, 64, 300)? as u64;
                        let s = self.conc(st, &s, 64, 300)? as u64;
                        self.copy(st, d, s, n as usize)?;
                    }
                    K::Memset => {
                        let d = self.op(st, &args[0].1);
                        let d = self.conc(st, &d, 64, 300)? as u64;
                        let c = self.op(st, &args[1].1);
                        let nv = self.op(st, &args[2].1);
                        let off = (d & 0xffff_ffff) as usize;
                        let fresh = matches!(c, V::C(0)) && st.mem.get((d >> 32) as u32).map_or(false, |o| !o.ro && (off >= o.bytes.len() || (o.sym.is_none() && o.bytes[off..].iter().all(|b| *b == 0))));
                        if let (V::E(_), true) = (&nv, fresh) {
                            // zero fill of memory that is already zero: only the bounds matter, and
                            // those are over-approximated by the allocation bound
                        } else {
                            let n = self.conc(st, &nv, 64, 300)? as u64;
                            if n > 0 {
                                let b = match &c {
                                    V::C(x) => (*x as u8, 0),
                                    V::E(e) => (0, *e + 1),
                                    _ => panic!(),
                                };
                                if fresh && n > 4096 {
                                    self.chk(st, d, n, "memset")?;
                                } else {
                                    self.write_bytes(st, d, &vec![b; n as usize])?;
                                }
                            }
                        }
                    }
                    K::Ext(n) => {
                        let r = self.ext(st, n, args, *rt)?;
                        if let (Some(d), Some(v)) = (dst, r) {
                            self.set(st, *d, v);
                        }
                    }
                }
                match norm {
                    Some(n) => self.jump(st, *n),
                    None => self.next(st),
                }
            }
            Ins::AtomicRmw(d, op, t, a, b) => {
                let a = self.op(st, a);
                let a = self.conc(st, &a, 64, 64)? as u64;
                let w = m.bits(*t);
                let old = self.load_int(st, a, w)?;
                let b = self.op(st, b);
                let new = match op.as_str() {
                    "xchg" => b,
                    "add" => self.bin(Bin::Add, w, &old, &b, None)?,
                    "sub" => self.bin(Bin::Sub, w, &old, &b, None)?,
                    "and" => self.bin(Bin::And, w, &old, &b, None)?,
                    "or" => self.bin(Bin::Or, w, &old, &b, None)?,
                    "xor" => self.bin(Bin::Xor, w, &old, &b, None)?,
                    _ => return Err(Stop::End(Out::Unsupported(format!("atomicrmw {}", op)))),
                };
                self.store_int(st, a, w, &new)?;
                self.set(st, *d, old);
                self.next(st);
            }
            Ins::CmpXchg(d, t, a, b, c) => {
                let a = self.op(st, a);
                let a = self.conc(st, &a, 64, 64)? as u64;
                let w = m.bits(*t);
                let old = self.load_int(st, a, w)?;
                let (b, c) = (self.op(st, b), self.op(st, c));
                let ok = self.cmp(Cmp::Eq, w, &old, &b);
                let okc = self.conc(st, &ok, 1, 2)?;
                if okc == 1 {
                    self.store_int(st, a, w, &c)?;
                }
                self.set(st, *d, V::A(Rc::new(vec![old, V::C(okc)])));
                self.next(st);
            }
            Ins::Fence => self.next(st),
            Ins::Br(b) => self.jump(st, *b),
            Ins::CondBr(c, a, b) => {
                let c = self.op(st, c);
                match c {
                    V::C(v) => self.jump(st, if v == 1 { *a } else { *b }),
                    V::E(e) => {
                        let mut sp = self.split(st, e)?;
                        if sp.len() == 1 {
                            let v = sp[0].0;
                            self.jump(st, if v { *a } else { *b });
                        } else {
                            for (v, s) in sp.iter_mut() {
                                self.jump(s, if *v { *a } else { *b });
                            }
                            return Err(Stop::Fork(sp.into_iter().map(|x| x.1).collect()));
                        }
                    }
                    _ => panic!(),
                }
            }
            Ins::Switch(t, v, def, cases) => {
                let v = self.op(st, v);
                match v {
                    V::C(x) => {
                        let b = cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*def);
                        self.jump(st, b);
                    }
                    V::E(e) => {
                        let w = m.bits(*t);
                        // group by target
                        let mut by: Vec<(u32, E)> = vec![];
                        let mut none = self.x.c(1, 1);
                        for (k, b) in cases {
                            let kc = self.x.c(*k, w);
                            let q = self.x.eq(e, kc);
                            let nq = self.x.not(q);
                            none = self.x.bin(B::And, none, nq);
                            match by.iter_mut().find(|z| z.0 == *b) {
                                Some(z) => z.1 = self.x.bin(B::Or, z.1, q),
                                None => by.push((*b, q)),
                            }
                        }
                        match by.iter_mut().find(|z| z.0 == *def) {
                            Some(z) => z.1 = self.x.bin(B::Or, z.1, none),
                            None => by.push((*def, none)),
                        }
                        let mut out = vec![];
                        for (b, c) in by {
                            if let Some(md) = self.sat(st, c, false)? {
                                let mut s = st.clone();
                                self.assume(&mut s, c);
                                s.model = md;
                                self.jump(&mut s, b);
                                out.push(s);
                            }
                        }
                        if out.len() > 1 {
                            self.forks += out.len() as u64 - 1;
                        }
                        return Err(Stop::Fork(out));
                    }
                    _ => panic!(),
                }
            }
            Ins::Ret(v) => {
                let v = v.as_ref().map(|v| self.op(st, &v.1));
                return self.ret(st, v);
            }
            Ins::Unreachable => return self.ub("unreachable code reached".into()),
            Ins::Unsupported(s) => return Err(Stop::End(Out::Unsupported(s.clone()))),
        }
        Ok(())
    }

    fn finish(&mut self, st: &State, o: Out) {
        if self.trace {
            eprintln!("FINISH {:?} model {:?} pc {:?}", o, st.model, st.pc.iter().map(|e| self.show(*e)).collect::<Vec<_>>());
        }
        let name = match &o {
            Out::Ok => "ok".to_string(),
            Out::Pruned => "pruned".into(),
            Out::Panic(_) => "panic".into(),
            Out::Ub(_) => "ub".into(),
            Out::Hang => "hang".into(),
            Out::Huge(_) => "huge".into(),
            Out::Check(_) => "check".into(),
            Out::Unsupported(s) => format!("unsupported: {}", s),
        };
        *self.outcomes.entry(name.clone()).or_insert(0) += 1;
        if matches!(o, Out::Pruned) {
            return;
        }
        self.paths += 1;
        for c in st.covers.iter() {
            *self.covers.entry(*c).or_insert(0) += 1;
        }
        let mut input = (*st.model).clone();
        input.resize(st.nsym as usize, 0);
        let viol = match &o {
            Out::Panic(s) => Some(("panic", s.clone())),
            Out::Ub(s) => Some(("ub", s.clone())),
            Out::Hang => Some(("hang", format!("more than {} instructions or {} frames", self.lim.steps, self.lim.depth))),
            Out::Huge(s) => Some(("huge", s.clone())),
            Out::Check(i) => Some(("check", i.to_string())),
            Out::Unsupported(s) => Some(("unsupported", s.clone())),
            _ => None,
        };
        if let Some((k, d)) = viol {
            self.viol_count += 1;
            if self.viol.len() < self.lim.max_viol {
                let stack = self.stack(st);
                self.viol.push(Violation { kind: k.to_string(), detail: d, input, stack });
            }
            return;
        }
        let keep = self.samples.len() < self.lim.samples || self.paths % 97 == 0 && self.samples.len() < 2 * self.lim.samples;
        if keep {
            let obs = st
                .obs
                .iter()
                .map(|v| match v {
                    V::C(x) => *x as u64,
                    V::E(e) => self.x.eval(*e, &st.model) as u64,
                    _ => 0,
                })
                .collect();
            self.samples.push(Sample { input, outcome: name, obs });
        }
    }

    pub fn run(&mut self, entry: &str) -> bool {
        let Some(f) = self.m.fmap.get(entry).copied() else { return false };
        if !self.m.funcs[f as usize].defined {
            return false;
        }
        self.t0 = Instant::now();
        let mut st = State {
            frames: vec![],
            mem: self.base.clone(),
            pc: Rc::new(vec![]),
            model: Rc::new(vec![]),
            dom: Rc::new(vec![]),
            multi: 0,
            nsym: 0,
            steps: 0,
            obs: Rc::new(vec![]),
            covers: Rc::new(BTreeSet::new()),
            conc: Rc::new(vec![]),
            checked: Rc::new(BTreeSet::new()),
        };
        let _ = self.enter(&mut st, f, vec![], None);
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.viol_count >= self.lim.max_viol as u64 * 4 {
                self.work.clear();
                break;
            }
            let mut k = 0u32;
            loop {
                k += 1;
                if k % 4096 == 0 && self.t0.elapsed().as_secs_f64() > self.lim.wall {
                    self.timed_out = true;
                }
                if self.timed_out || self.paths >= self.lim.paths {
                    self.timed_out = true;
                    self.work.clear();
                    break;
                }
                match self.step(&mut st) {
                    Ok(()) => (),
                    Err(Stop::Fork(v)) => {
                        self.work.extend(v);
                        break;
                    }
                    Err(Stop::End(o)) => {
                        self.finish(&st, o);
                        break;
                    }
                }
            }
        }
        let _ = self.symbolic_panics_ok;
        true
    }
    pub fn show(&self, e: E) -> String {
        let w = self.x.w(e);
        match self.x.n(e) {
            N::C(v) => format!("{:#x}:{}", v, w),
            N::Sym(i) => format!("s{}", i),
            N::Bin(o, a, b) => format!("({:?} {} {})", o, self.show(a), self.show(b)),
            N::Eq(a, b) => format!("(= {} {})", self.show(a), self.show(b)),
            N::Ult(a, b) => format!("(u< {} {})", self.show(a), self.show(b)),
            N::Ule(a, b) => format!("(u<= {} {})", self.show(a), self.show(b)),
            N::Slt(a, b) => format!("(s< {} {})", self.show(a), self.show(b)),
            N::Sle(a, b) => format!("(s<= {} {})", self.show(a), self.show(b)),
            N::Ite(c, a, b) => format!("(ite {} {} {})", self.show(c), self.show(a), self.show(b)),
            N::Concat(a, b) => format!("(++ {} {})", self.show(a), self.show(b)),
            N::Extract(a, l) => format!("{}[{}+{}]", self.show(a), l, w),
            N::ZExt(a) => format!("(z{} {})", w, self.show(a)),
            N::SExt(a) => format!("(s{} {})", w, self.show(a)),
            N::Table(t, a) => format!("T{}[{}]", t, self.show(a)),
        }
    }
    pub fn fname(&self, f: u32) -> String {
        short(&self.m.funcs[f as usize].name)
    }
    pub fn elapsed(&self) -> f64 {
        self.t0.elapsed().as_secs_f64()
    }
}
