//! Hash-consed bit-vector expression DAG over symbolic input bytes, with local simplification.
use crate::ir::{mask, sext};
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum N {
    C(u128),
    Sym(u32),
    Bin(B, E, E),
    Eq(E, E),
    Ult(E, E),
    Ule(E, E),
    Slt(E, E),
    Sle(E, E),
    Ite(E, E, E),
    Concat(E, E), // hi, lo
    Extract(E, u32),
    ZExt(E),
    SExt(E),
    Table(u32, E), // table id, single-symbol index symbol expr (8 bit Sym)
}

#[derive(Clone, Copy)]
pub struct Node {
    pub n: N,
    pub w: u32,
    pub sup: u128,
    pub kz: u128, // bits known to be zero
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<(N, u32), E>,
    pub tables: Vec<Vec<u128>>,
    tabmap: HashMap<Vec<u128>, u32>,
    gen: Vec<u32>,
    val: Vec<u128>,
    cur: u32,
    tt: HashMap<E, [u64; 4]>,
}

fn ones(w: u32) -> u128 {
    mask(u128::MAX, w)
}

/// concrete semantics of a binary operator on w-bit values (SMT-LIB for division by zero)
pub fn cbin(op: B, w: u32, a: u128, b: u128) -> u128 {
    let r = match op {
        B::Add => a.wrapping_add(b),
        B::Sub => a.wrapping_sub(b),
        B::Mul => a.wrapping_mul(b),
        B::UDiv => {
            if b == 0 {
                ones(w)
            } else {
                a / b
            }
        }
        B::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        B::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    ones(w)
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        B::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        B::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        B::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        B::AShr => {
            let x = sext(a, w);
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (x >> s) as u128
        }
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
    };
    mask(r, w)
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx { nodes: vec![], map: HashMap::new(), tables: vec![], tabmap: HashMap::new(), gen: vec![], val: vec![], cur: 0, tt: HashMap::new() }
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w
    }
    pub fn sup(&self, e: E) -> u128 {
        self.nodes[e as usize].sup
    }
    pub fn n(&self, e: E) -> N {
        self.nodes[e as usize].n
    }
    pub fn cst(&self, e: E) -> Option<u128> {
        if let N::C(v) = self.nodes[e as usize].n {
            Some(v)
        } else {
            None
        }
    }
    fn kz(&self, e: E) -> u128 {
        self.nodes[e as usize].kz
    }
    fn mk(&mut self, n: N, w: u32) -> E {
        if let Some(x) = self.map.get(&(n, w)) {
            return *x;
        }
        let m = ones(w);
        let (sup, kz) = match n {
            N::C(v) => (0, !v & m),
            N::Sym(i) => (1u128 << i, 0),
            N::Bin(op, a, b) => {
                let k = match op {
                    B::And => self.kz(a) | self.kz(b),
                    B::Or | B::Xor => self.kz(a) & self.kz(b),
                    B::Add => {
                        // both have z leading zeros => sum has z-1
                        let la = (self.kz(a) | !m).leading_ones() - (128 - w);
                        let lb = (self.kz(b) | !m).leading_ones() - (128 - w);
                        let l = la.min(lb);
                        if l > 1 {
                            m & !ones(w - (l - 1))
                        } else {
                            0
                        }
                    }
                    B::Mul => {
                        let la = (self.kz(a) | !m).leading_ones() - (128 - w);
                        let lb = (self.kz(b) | !m).leading_ones() - (128 - w);
                        let used = (w - la) + (w - lb);
                        if used < w {
                            m & !ones(used)
                        } else {
                            0
                        }
                    }
                    B::UDiv | B::LShr | B::URem => {
                        let la = (self.kz(a) | !m).leading_ones() - (128 - w);
                        if op == B::UDiv && self.cst(b).map_or(true, |c| c == 0) {
                            0
                        } else {
                            m & !ones(w - la)
                        }
                    }
                    _ => 0,
                };
                (self.sup(a) | self.sup(b), k & m)
            }
            N::Eq(a, b) | N::Ult(a, b) | N::Ule(a, b) | N::Slt(a, b) | N::Sle(a, b) => (self.sup(a) | self.sup(b), 0),
            N::Ite(c, a, b) => (self.sup(c) | self.sup(a) | self.sup(b), self.kz(a) & self.kz(b)),
            N::Concat(h, l) => (self.sup(h) | self.sup(l), self.kz(l) | (self.kz(h) << self.w(l))),
            N::Extract(a, lo) => (self.sup(a), (self.kz(a) >> lo) & m),
            N::ZExt(a) => (self.sup(a), (self.kz(a) | !ones(self.w(a))) & m),
            N::SExt(a) => (self.sup(a), self.kz(a) & ones(self.w(a) - 1)),
            N::Table(t, a) => {
                let k = self.tables[t as usize].iter().fold(0u128, |x, y| x | *y);
                (self.sup(a), !k & m)
            }
        };
        let id = self.nodes.len() as u32;
        self.nodes.push(Node { n, w, sup, kz });
        self.map.insert((n, w), id);
        id
    }
    pub fn c(&mut self, v: u128, w: u32) -> E {
        self.mk(N::C(mask(v, w)), w)
    }
    pub fn sym(&mut self, i: u32) -> E {
        self.mk(N::Sym(i), 8)
    }
    pub fn table(&mut self, vals: Vec<u128>, idx: E, w: u32) -> E {
        if vals.iter().all(|x| *x == vals[0]) {
            return self.c(vals[0], w);
        }
        let t = match self.tabmap.get(&vals) {
            Some(t) => *t,
            None => {
                let t = self.tables.len() as u32;
                self.tables.push(vals.clone());
                self.tabmap.insert(vals, t);
                t
            }
        };
        self.mk(N::Table(t, idx), w)
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        if w == 1 {
            match self.n(a) {
                N::Ult(x, y) => return self.mk(N::Ule(y, x), 1),
                N::Ule(x, y) => return self.mk(N::Ult(y, x), 1),
                N::Slt(x, y) => return self.mk(N::Sle(y, x), 1),
                N::Sle(x, y) => return self.mk(N::Slt(y, x), 1),
                _ => (),
            }
        }
        let o = self.c(u128::MAX, w);
        self.bin(B::Xor, a, o)
    }
    /// split into segments (lo to hi): (expr, width)
    fn segs(&mut self, e: E, out: &mut Vec<E>) {
        match self.n(e) {
            N::Concat(h, l) => {
                self.segs(l, out);
                self.segs(h, out);
            }
            N::ZExt(a) => {
                self.segs(a, out);
                let z = self.c(0, self.w(e) - self.w(a));
                out.push(z);
            }
            _ => out.push(e),
        }
    }
    fn merge_disjoint(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let (mut sa, mut sb) = (vec![], vec![]);
        self.segs(a, &mut sa);
        self.segs(b, &mut sb);
        if sa.len() == 1 && sb.len() == 1 {
            return None;
        }
        let mut cuts = vec![0u32];
        let mut o = 0;
        for s in &sa {
            o += self.w(*s);
            cuts.push(o);
        }
        o = 0;
        for s in &sb {
            o += self.w(*s);
            cuts.push(o);
        }
        cuts.sort();
        cuts.dedup();
        let (ka, kb) = (self.kz(a), self.kz(b));
        let mut parts = vec![];
        for k in 0..cuts.len() - 1 {
            let (lo, hi) = (cuts[k], cuts[k + 1]);
            let m = ones(hi - lo) << lo;
            if ka & m == m {
                parts.push((false, lo, hi - lo));
            } else if kb & m == m {
                parts.push((true, lo, hi - lo));
            } else {
                return None;
            }
        }
        let mut r: Option<E> = None;
        for (isa, lo, pw) in parts {
            let x = self.extract(if isa { a } else { b }, lo, pw);
            r = Some(match r {
                None => x,
                Some(l) => self.concat(x, l),
            });
        }
        let r = r.unwrap();
        debug_assert!(self.w(r) == w);
        Some(r)
    }
    pub fn bin(&mut self, op: B, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        assert!(w == self.w(b), "width mismatch {:?} {} {}", op, w, self.w(b));
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) {
            return self.c(cbin(op, w, x, y), w);
        }
        if matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor) && (self.cst(a).is_some() || (self.cst(b).is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
        }
        let cb = self.cst(b);
        let m = ones(w);
        match op {
            B::Add => {
                if cb == Some(0) {
                    return a;
                }
                if w == 1 {
                    return self.bin(B::Xor, a, b);
                }
                if let (Some(k), N::Bin(B::Add, x, y)) = (cb, self.n(a)) {
                    if let Some(k2) = self.cst(y) {
                        let c = self.c(k.wrapping_add(k2), w);
                        return self.bin(B::Add, x, c);
                    }
                }
                if self.kz(a) | self.kz(b) == m {
                    if let Some(r) = self.merge_disjoint(a, b) {
                        return r;
                    }
                }
            }
            B::Sub => {
                if a == b {
                    return self.c(0, w);
                }
                if let Some(k) = cb {
                    let c = self.c(0u128.wrapping_sub(k), w);
                    return self.bin(B::Add, a, c);
                }
                if let N::Bin(B::Add, x, y) = self.n(a) {
                    if x == b {
                        return y;
                    }
                    if y == b {
                        return x;
                    }
                }
            }
            B::Mul => match cb {
                Some(0) => return b,
                Some(1) => return a,
                Some(k) if k.is_power_of_two() => {
                    let c = self.c(k.trailing_zeros() as u128, w);
                    return self.bin(B::Shl, a, c);
                }
                _ => (),
            },
            B::UDiv => match cb {
                Some(1) => return a,
                Some(k) if k != 0 && k.is_power_of_two() => {
                    let c = self.c(k.trailing_zeros() as u128, w);
                    return self.bin(B::LShr, a, c);
                }
                _ => (),
            },
            B::URem => match cb {
                Some(k) if k != 0 && k.is_power_of_two() => {
                    let c = self.c(k - 1, w);
                    return self.bin(B::And, a, c);
                }
                _ => (),
            },
            B::SDiv => {
                if cb == Some(1) {
                    return a;
                }
            }
            B::SRem => (),
            B::Shl => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.c(0, w);
                    }
                    let k = k as u32;
                    let h = self.extract(a, 0, w - k);
                    let z = self.c(0, k);
                    return self.concat(h, z);
                }
            }
            B::LShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.c(0, w);
                    }
                    let k = k as u32;
                    let h = self.extract(a, k, w - k);
                    return self.zext(h, w);
                }
            }
            B::AShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    let k = if k >= w as u128 { w - 1 } else { k as u32 };
                    let h = self.extract(a, k, w - k);
                    return self.sext(h, w);
                }
            }
            B::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if (k | self.kz(a)) == m {
                        return a;
                    }
                    if let (N::Bin(B::And, x, y), true) = (self.n(a), true) {
                        if let Some(k2) = self.cst(y) {
                            let c = self.c(k & k2, w);
                            return self.bin(B::And, x, c);
                        }
                    }
                    // decompose into runs when few
                    let mut runs = vec![];
                    let mut i = 0;
                    while i < w {
                        let bit = (k >> i) & 1;
                        let mut j = i;
                        while j < w && (k >> j) & 1 == bit {
                            j += 1;
                        }
                        runs.push((bit, i, j - i));
                        i = j;
                    }
                    if runs.len() <= 3 {
                        let mut r: Option<E> = None;
                        for (bit, lo, pw) in runs {
                            let x = if bit == 1 { self.extract(a, lo, pw) } else { self.c(0, pw) };
                            r = Some(match r {
                                None => x,
                                Some(l) => self.concat(x, l),
                            });
                        }
                        return r.unwrap();
                    }
                }
                if w == 1 {
                    let nb = self.not(b);
                    if a == nb {
                        return self.c(0, 1);
                    }
                }
            }
            B::Or => {
                if a == b || cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if self.kz(a) | self.kz(b) == m && w > 1 {
                    if let Some(r) = self.merge_disjoint(a, b) {
                        return r;
                    }
                }
                if w == 1 {
                    let nb = self.not(b);
                    if a == nb {
                        return self.c(1, 1);
                    }
                }
            }
            B::Xor => {
                if a == b {
                    return self.c(0, w);
                }
                if cb == Some(0) {
                    return a;
                }
                if let (Some(k), N::Bin(B::Xor, x, y)) = (cb, self.n(a)) {
                    if let Some(k2) = self.cst(y) {
                        let c = self.c(k ^ k2, w);
                        return self.bin(B::Xor, x, c);
                    }
                }
                if w == 1 && cb == Some(1) {
                    match self.n(a) {
                        N::Ult(..) | N::Ule(..) | N::Slt(..) | N::Sle(..) => return self.not(a),
                        _ => (),
                    }
                }
                if self.kz(a) | self.kz(b) == m && w > 1 {
                    if let Some(r) = self.merge_disjoint(a, b) {
                        return r;
                    }
                }
            }
        }
        self.mk(N::Bin(op, a, b), w)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        assert!(w <= 128, "concat too wide");
        match (self.n(h), self.n(l)) {
            (N::C(a), N::C(b)) => return self.c((a << wl) | b, w),
            (N::C(0), _) => return self.zext(l, w),
            (N::Extract(x, lo), N::Extract(y, lo2)) if x == y && lo == lo2 + wl => return self.extract(x, lo2, w),
            (N::Extract(x, lo), N::Concat(m, l2)) => {
                if let N::Extract(y, lo2) = self.n(m) {
                    if x == y && lo == lo2 + self.w(m) {
                        let wm = self.w(m);
                        let nh = self.extract(x, lo2, wh + wm);
                        return self.concat(nh, l2);
                    }
                }
            }
            (N::ZExt(x), _) => {
                // concat(zext(x), l) = zext(concat(x,l))
                let i = self.concat(x, l);
                return self.zext(i, w);
            }
            (N::Concat(a, b), _) => {
                // right-nested canonical form: concat(a, concat(b, l))
                let i = self.concat(b, l);
                return self.concat(a, i);
            }
            (N::C(a), N::Concat(m, l2)) => {
                if let Some(b) = self.cst(m) {
                    let wm = self.w(m);
                    let nh = self.c((a << wm) | b, wh + wm);
                    return self.concat(nh, l2);
                }
            }
            (N::Extract(x, lo), _) if x == l && lo == wl => (),
            _ => (),
        }
        // extract(x, wl..) ++ x where l is whole of a low part
        if let N::Extract(x, lo) = self.n(h) {
            if let N::Extract(y, 0) = self.n(l) {
                if x == y && lo == wl {
                    return self.extract(x, 0, w);
                }
            }
        }
        self.mk(N::Concat(h, l), w)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let wa = self.w(a);
        assert!(lo + w <= wa && w > 0, "extract {}+{} of {}", lo, w, wa);
        if w == wa {
            return a;
        }
        let m = ones(w);
        if (self.kz(a) >> lo) & m == m {
            return self.c(0, w);
        }
        match self.n(a) {
            N::C(v) => return self.c(v >> lo, w),
            N::Extract(x, l2) => return self.extract(x, lo + l2, w),
            N::ZExt(x) => {
                let wx = self.w(x);
                if lo + w <= wx {
                    return self.extract(x, lo, w);
                }
                // lo < wx
                let p = self.extract(x, lo, wx - lo);
                return self.zext(p, w);
            }
            N::SExt(x) => {
                let wx = self.w(x);
                if lo + w <= wx {
                    return self.extract(x, lo, w);
                }
                if lo < wx {
                    let p = self.extract(x, lo, wx - lo);
                    return self.sext(p, w);
                }
                let p = self.extract(x, wx - 1, 1);
                return self.sext(p, w);
            }
            N::Concat(h, l) => {
                let wl = self.w(l);
                if lo + w <= wl {
                    return self.extract(l, lo, w);
                }
                if lo >= wl {
                    return self.extract(h, lo - wl, w);
                }
                let pl = self.extract(l, lo, wl - lo);
                let ph = self.extract(h, 0, w - (wl - lo));
                return self.concat(ph, pl);
            }
            N::Bin(op @ (B::And | B::Or | B::Xor), x, y) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                return self.bin(op, p, q);
            }
            N::Bin(op @ (B::Add | B::Sub | B::Mul), x, y) if lo == 0 => {
                let p = self.extract(x, 0, w);
                let q = self.extract(y, 0, w);
                return self.bin(op, p, q);
            }
            N::Ite(c, x, y) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                return self.ite(c, p, q);
            }
            N::Table(t, i) => {
                let v: Vec<u128> = self.tables[t as usize].iter().map(|x| mask(*x >> lo, w)).collect();
                return self.table(v, i, w);
            }
            _ => (),
        }
        self.mk(N::Extract(a, lo), w)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        assert!(w >= wa);
        if w == wa {
            return a;
        }
        match self.n(a) {
            N::C(v) => self.c(v, w),
            N::ZExt(x) => self.zext(x, w),
            N::Table(t, i) => self.mk(N::Table(t, i), w),
            _ => self.mk(N::ZExt(a), w),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if w == wa {
            return a;
        }
        if (self.kz(a) >> (wa - 1)) & 1 == 1 {
            return self.zext(a, w);
        }
        match self.n(a) {
            N::C(v) => self.c(sext(v, wa) as u128, w),
            N::SExt(x) => self.sext(x, w),
            _ => self.mk(N::SExt(a), w),
        }
    }
    pub fn trunc(&mut self, a: E, w: u32) -> E {
        self.extract(a, 0, w)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cst(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        assert!(w == self.w(b));
        if w == 1 {
            match (self.cst(a), self.cst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(B::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(B::And, n, b);
                }
                (None, Some(0)) => return self.bin(B::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(B::Or, n, a);
                }
                _ => (),
            }
        }
        if let N::Bin(B::Xor, x, y) = self.n(c) {
            if self.cst(y) == Some(1) {
                return self.ite(x, b, a);
            }
        }
        self.mk(N::Ite(c, a, b), w)
    }
    pub fn eq(&mut self, mut a: E, mut b: E) -> E {
        assert!(self.w(a) == self.w(b), "eq width");
        if a == b {
            return self.c(1, 1);
        }
        if self.cst(a).is_some() || (self.cst(b).is_none() && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
        let w = self.w(a);
        if let Some(k) = self.cst(b) {
            if let Some(x) = self.cst(a) {
                return self.c((x == k) as u128, 1);
            }
            if w == 1 {
                return if k == 1 { a } else { self.not(a) };
            }
            if k & self.kz(a) != 0 {
                return self.c(0, 1);
            }
            match self.n(a) {
                N::ZExt(x) => {
                    let wx = self.w(x);
                    let c = self.c(k, wx);
                    return self.eq(x, c);
                }
                N::SExt(x) => {
                    let wx = self.w(x);
                    if mask(sext(mask(k, wx), wx) as u128, w) != k {
                        return self.c(0, 1);
                    }
                    let c = self.c(k, wx);
                    return self.eq(x, c);
                }
                N::Concat(h, l) => {
                    let (wh, wl) = (self.w(h), self.w(l));
                    let ch = self.c(k >> wl, wh);
                    let cl = self.c(k, wl);
                    let p = self.eq(h, ch);
                    let q = self.eq(l, cl);
                    return self.bin(B::And, p, q);
                }
                N::Bin(B::Xor, x, y) => {
                    if let Some(k2) = self.cst(y) {
                        let c = self.c(k ^ k2, w);
                        return self.eq(x, c);
                    }
                }
                N::Bin(B::Add, x, y) => {
                    if let Some(k2) = self.cst(y) {
                        let c = self.c(k.wrapping_sub(k2), w);
                        return self.eq(x, c);
                    }
                }
                N::Ite(c, x, y) => {
                    let (cx, cy) = (self.cst(x), self.cst(y));
                    if cx.is_some() || cy.is_some() {
                        let p = self.eq(x, b);
                        let q = self.eq(y, b);
                        return self.ite(c, p, q);
                    }
                }
                _ => (),
            }
        } else {
            match (self.n(a), self.n(b)) {
                (N::Concat(h1, l1), N::Concat(h2, l2)) if self.w(h1) == self.w(h2) => {
                    let p = self.eq(h1, h2);
                    let q = self.eq(l1, l2);
                    return self.bin(B::And, p, q);
                }
                (N::ZExt(x), N::ZExt(y)) => {
                    let m = self.w(x).max(self.w(y));
                    let x = self.zext(x, m);
                    let y = self.zext(y, m);
                    return self.eq(x, y);
                }
                (N::SExt(x), N::SExt(y)) if self.w(x) == self.w(y) => return self.eq(x, y),
                _ => (),
            }
        }
        self.mk(N::Eq(a, b), 1)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.c(0, 1);
        }
        match (self.cst(a), self.cst(b)) {
            (Some(x), Some(y)) => return self.c((x < y) as u128, 1),
            (_, Some(0)) => return self.c(0, 1),
            (_, Some(1)) => {
                let z = self.c(0, w);
                return self.eq(a, z);
            }
            (Some(x), _) if x == ones(w) => return self.c(0, 1),
            (Some(0), _) => {
                let z = self.c(0, w);
                let e = self.eq(b, z);
                return self.not(e);
            }
            (_, Some(k)) => {
                // max possible of a
                let mx = ones(w) & !self.kz(a);
                if mx < k {
                    return self.c(1, 1);
                }
                if let N::ZExt(x) = self.n(a) {
                    let wx = self.w(x);
                    let c = self.c(k, wx);
                    return self.ult(x, c);
                }
            }
            (Some(k), _) => {
                let mx = ones(w) & !self.kz(b);
                if mx <= k {
                    return self.c(0, 1);
                }
                if let N::ZExt(x) = self.n(b) {
                    let wx = self.w(x);
                    let c = self.c(k, wx);
                    return self.ult(c, x);
                }
            }
            _ => {
                if let (N::ZExt(x), N::ZExt(y)) = (self.n(a), self.n(b)) {
                    let m = self.w(x).max(self.w(y));
                    let x = self.zext(x, m);
                    let y = self.zext(y, m);
                    return self.ult(x, y);
                }
            }
        }
        self.mk(N::Ult(a, b), 1)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let r = self.ult(b, a);
        self.not(r)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.c(0, 1);
        }
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) {
            return self.c((sext(x, w) < sext(y, w)) as u128, 1);
        }
        let s = 1u128 << (w - 1);
        if self.kz(a) & s != 0 && self.kz(b) & s != 0 {
            return self.ult(a, b);
        }
        if self.cst(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if self.cst(a) == Some(ones(w)) {
            let x = self.extract(b, w - 1, 1);
            return self.not(x);
        }
        if let (N::SExt(x), N::SExt(y)) = (self.n(a), self.n(b)) {
            if self.w(x) == self.w(y) {
                return self.slt(x, y);
            }
        }
        self.mk(N::Slt(a, b), 1)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let r = self.slt(b, a);
        self.not(r)
    }

    // ---- evaluation ----
    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        self.cur += 1;
        let n = self.nodes.len();
        self.gen.resize(n, 0);
        self.val.resize(n, 0);
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, m: &[u8]) -> u128 {
        let i = e as usize;
        let nd = self.nodes[i];
        match nd.n {
            N::C(v) => return v,
            N::Sym(s) => return m.get(s as usize).copied().unwrap_or(0) as u128,
            _ => (),
        }
        if self.gen[i] == self.cur {
            return self.val[i];
        }
        let v = match nd.n {
            N::Bin(op, a, b) => {
                let x = self.ev(a, m);
                let y = self.ev(b, m);
                cbin(op, nd.w, x, y)
            }
            N::Eq(a, b) => (self.ev(a, m) == self.ev(b, m)) as u128,
            N::Ult(a, b) => (self.ev(a, m) < self.ev(b, m)) as u128,
            N::Ule(a, b) => (self.ev(a, m) <= self.ev(b, m)) as u128,
            N::Slt(a, b) => {
                let w = self.w(a);
                (sext(self.ev(a, m), w) < sext(self.ev(b, m), w)) as u128
            }
            N::Sle(a, b) => {
                let w = self.w(a);
                (sext(self.ev(a, m), w) <= sext(self.ev(b, m), w)) as u128
            }
            N::Ite(c, a, b) => {
                if self.ev(c, m) == 1 {
                    self.ev(a, m)
                } else {
                    self.ev(b, m)
                }
            }
            N::Concat(h, l) => {
                let x = self.ev(h, m);
                let y = self.ev(l, m);
                (x << self.w(l)) | y
            }
            N::Extract(a, lo) => mask(self.ev(a, m) >> lo, nd.w),
            N::ZExt(a) => self.ev(a, m),
            N::SExt(a) => {
                let wa = self.w(a);
                mask(sext(self.ev(a, m), wa) as u128, nd.w)
            }
            N::Table(t, a) => {
                let x = self.ev(a, m) as usize;
                self.tables[t as usize][x]
            }
            N::C(_) | N::Sym(_) => unreachable!(),
        };
        self.gen[i] = self.cur;
        self.val[i] = v;
        v
    }
    /// truth table of a single-symbol boolean
    pub fn truth(&mut self, e: E) -> [u64; 4] {
        if let Some(t) = self.tt.get(&e) {
            return *t;
        }
        let s = self.sup(e).trailing_zeros() as usize;
        let mut m = vec![0u8; s + 1];
        let mut t = [0u64; 4];
        for v in 0..256usize {
            m[s] = v as u8;
            if self.eval(e, &m) == 1 {
                t[v / 64] |= 1 << (v % 64);
            }
        }
        self.tt.insert(e, t);
        t
    }
}
