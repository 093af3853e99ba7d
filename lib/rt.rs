// Runtime shared by every harness: symbolic intrinsics (engine) or their native replay versions.

#[cfg(not(native))]
pub mod rt {
    extern "C" {
        fn sym_u8() -> u8;
        fn sym_assume(c: bool);
        fn sym_check(c: bool, id: u32);
        fn sym_cover(id: u32);
        fn sym_observe(v: u64);
        fn sym_fork(c: bool) -> bool;
        fn sym_conc(v: u64) -> u64;
    }
    pub fn u8s() -> u8 { unsafe { sym_u8() } }
    pub fn assume(c: bool) { unsafe { sym_assume(c) } }
    pub fn check(c: bool, id: u32) { unsafe { sym_check(c, id) } }
    pub fn cover(id: u32) { unsafe { sym_cover(id) } }
    pub fn observe(v: u64) { unsafe { sym_observe(v) } }
    pub fn fork(c: bool) -> bool { unsafe { sym_fork(c) } }
    pub fn conc(v: u64) -> u64 { unsafe { sym_conc(v) } }
}
#[cfg(native)]
pub mod rt {
    pub struct St { pub input: Vec<u8>, pub pos: usize, pub obs: Vec<u64>, pub failed: Vec<u32>, pub covers: Vec<u32> }
    pub static mut ST: St = St { input: Vec::new(), pos: 0, obs: Vec::new(), failed: Vec::new(), covers: Vec::new() };
    pub struct Assume;
    pub fn u8s() -> u8 { unsafe { let s = &mut ST; let v = s.input.get(s.pos).copied().unwrap_or(0); s.pos += 1; v } }
    pub fn assume(c: bool) { if !c { std::panic::panic_any(Assume) } }
    pub fn check(c: bool, id: u32) { if !c { unsafe { ST.failed.push(id) } } }
    pub fn cover(id: u32) { unsafe { ST.covers.push(id) } }
    pub fn observe(v: u64) { unsafe { ST.obs.push(v) } }
    pub fn fork(c: bool) -> bool { c }
    pub fn conc(v: u64) -> u64 { v }
}

/// Reference helpers: nothing here is taken from the code under test.
pub mod rf {
    use super::rt::*;
    pub fn u16s() -> u16 { (u8s() as u16) << 8 | u8s() as u16 }
    pub fn u32s() -> u32 { (u16s() as u32) << 16 | u16s() as u32 }
    pub fn u64s() -> u64 { (u32s() as u64) << 32 | u32s() as u64 }
    pub fn u128s() -> u128 { (u64s() as u128) << 64 | u64s() as u128 }
    pub fn bools() -> bool { let b = u8s(); assume(b < 2); b == 1 }
    /// forking choice in 0..n (concrete on every path)
    pub fn pick(n: u64) -> u64 {
        if n <= 1 { return 0; }
        let b = u8s() as u64;
        assume(b < n);
        conc(b)
    }
    /// the expression has no defined value (arithmetic overflow, division by zero, out-of-range shift): outside every claim
    pub fn unspec() -> ! { assume(false); loop {} }
    pub fn ck<T>(x: Option<T>) -> T { match x { Some(v) => v, None => unspec() } }

    /// reference reader
    pub struct Rd<'a> { pub b: &'a [u8], pub p: usize, pub end: usize }
    impl<'a> Rd<'a> {
        pub fn new(b: &'a [u8]) -> Self { Rd { b, p: 0, end: b.len() } }
        pub fn left(&self) -> usize { self.end - self.p }
        pub fn u8(&mut self) -> Option<u8> {
            if self.p < self.end { let v = self.b[self.p]; self.p += 1; Some(v) } else { None }
        }
        pub fn be(&mut self, n: usize) -> Option<u128> {
            let mut v = 0u128;
            for _ in 0..n { v = v << 8 | self.u8()? as u128; }
            Some(v)
        }
        pub fn le(&mut self, n: usize) -> Option<u128> {
            let mut v = 0u128;
            for i in 0..n { v |= (self.u8()? as u128) << (8 * i); }
            Some(v)
        }
        /// can `n` more bytes be read?
        pub fn need(&self, n: u128) -> Option<usize> {
            if n > self.left() as u128 { None } else { Some(n as usize) }
        }
    }
    pub fn pbe(o: &mut Vec<u8>, v: u128, n: usize) { for i in (0..n).rev() { o.push((v >> (8 * i)) as u8); } }
    pub fn ple(o: &mut Vec<u8>, v: u128, n: usize) { for i in 0..n { o.push((v >> (8 * i)) as u8); } }

    /// flat value stream
    pub struct Er<'a> { pub e: &'a [u128], pub p: usize }
    impl<'a> Er<'a> {
        pub fn new(e: &'a [u128]) -> Self { Er { e, p: 0 } }
        pub fn next(&mut self) -> u128 { let v = self.e[self.p]; self.p += 1; v }
    }
    pub fn same(a: &[u128], b: &[u128]) -> bool {
        if a.len() != b.len() { return false; }
        let mut d = 0u128;
        for i in 0..a.len() { d |= a[i] ^ b[i]; }
        d == 0
    }
    pub fn sameb(a: &[u8], b: &[u8]) -> bool {
        if a.len() != b.len() { return false; }
        let mut d = 0u8;
        for i in 0..a.len() { d |= a[i] ^ b[i]; }
        d == 0
    }
    /// UTF-8 validity written out from RFC 3629
    pub fn utf8_ok(b: &[u8]) -> bool {
        let mut i = 0;
        while i < b.len() {
            let c = b[i];
            let t = |k: usize, lo: u8, hi: u8| i + k < b.len() && b[i + k] >= lo && b[i + k] <= hi;
            if c < 0x80 { i += 1 }
            else if c >= 0xc2 && c <= 0xdf && t(1, 0x80, 0xbf) { i += 2 }
            else if c == 0xe0 && t(1, 0xa0, 0xbf) && t(2, 0x80, 0xbf) { i += 3 }
            else if ((c >= 0xe1 && c <= 0xec) || c == 0xee || c == 0xef) && t(1, 0x80, 0xbf) && t(2, 0x80, 0xbf) { i += 3 }
            else if c == 0xed && t(1, 0x80, 0x9f) && t(2, 0x80, 0xbf) { i += 3 }
            else if c == 0xf0 && t(1, 0x90, 0xbf) && t(2, 0x80, 0xbf) && t(3, 0x80, 0xbf) { i += 4 }
            else if c >= 0xf1 && c <= 0xf3 && t(1, 0x80, 0xbf) && t(2, 0x80, 0xbf) && t(3, 0x80, 0xbf) { i += 4 }
            else if c == 0xf4 && t(1, 0x80, 0x8f) && t(2, 0x80, 0xbf) && t(3, 0x80, 0xbf) { i += 4 }
            else { return false }
        }
        true
    }
    /// UTF-16 code units -> scalar values (None: unpaired surrogate)
    pub fn utf16_dec(u: &[u16]) -> Option<Vec<u32>> {
        let mut o = vec![];
        let mut i = 0;
        while i < u.len() {
            let c = u[i] as u32;
            if c < 0xd800 || c > 0xdfff { o.push(c); i += 1 }
            else if c < 0xdc00 && i + 1 < u.len() && u[i + 1] >= 0xdc00 && u[i + 1] <= 0xdfff {
                o.push(0x10000 + ((c - 0xd800) << 10) + (u[i + 1] as u32 - 0xdc00));
                i += 2
            } else { return None }
        }
        Some(o)
    }
    pub fn utf16_enc(cs: &[u32]) -> Vec<u16> {
        let mut o = vec![];
        for &c in cs {
            if c < 0x10000 { o.push(c as u16) } else { let d = c - 0x10000; o.push(0xd800 + (d >> 10) as u16); o.push(0xdc00 + (d & 0x3ff) as u16) }
        }
        o
    }
    /// UTF-8 bytes (valid) -> scalar values
    pub fn utf8_scalars(b: &[u8]) -> Vec<u32> {
        let mut o = vec![];
        let mut i = 0;
        while i < b.len() {
            let c = b[i] as u32;
            let g = |k: usize| (b[i + k] & 0x3f) as u32;
            if c < 0x80 { o.push(c); i += 1 }
            else if c < 0xe0 { o.push((c & 0x1f) << 6 | g(1)); i += 2 }
            else if c < 0xf0 { o.push((c & 0xf) << 12 | g(1) << 6 | g(2)); i += 3 }
            else { o.push((c & 7) << 18 | g(1) << 12 | g(2) << 6 | g(3)); i += 4 }
        }
        o
    }
    pub fn utf8_of(cs: &[u32]) -> Vec<u8> {
        let mut o = vec![];
        for &c in cs {
            if c < 0x80 { o.push(c as u8) }
            else if c < 0x800 { o.push(0xc0 | (c >> 6) as u8); o.push(0x80 | (c & 0x3f) as u8) }
            else if c < 0x10000 { o.push(0xe0 | (c >> 12) as u8); o.push(0x80 | (c >> 6 & 0x3f) as u8); o.push(0x80 | (c & 0x3f) as u8) }
            else { o.push(0xf0 | (c >> 18) as u8); o.push(0x80 | (c >> 12 & 0x3f) as u8); o.push(0x80 | (c >> 6 & 0x3f) as u8); o.push(0x80 | (c & 0x3f) as u8) }
        }
        o
    }
    /// a symbolic String of at most `k` bytes built from symbolic valid UTF-8
    pub fn strs(k: u64, nul: bool) -> String {
        let n = pick(k + 1);
        let mut b = vec![];
        for _ in 0..n { b.push(u8s()); }
        if !fork(utf8_ok(&b)) { unspec() }
        if !nul { for x in &b { assume(*x != 0) } }
        unsafe { String::from_utf8_unchecked(b) }
    }
    /// unsigned LEB128 of a `bits`-wide value; None: truncated, or the value does not fit
    pub fn rd_leb(c: &mut Rd, bits: u32) -> Option<u128> {
        let mut v = 0u128;
        let mut sh = 0u32;
        loop {
            let b = c.u8()? as u128;
            if sh >= bits { return None; }
            let left = bits - sh;
            if left < 7 && (b & 0x7f) >> left != 0 { return None; }
            v |= (b & 0x7f) << sh;
            if b & 0x80 == 0 { return Some(v); }
            sh += 7;
        }
    }
    /// LEB128 reference: value bits `w`, None = truncated, overlong or too large (rejected)
    pub fn leb_enc(o: &mut Vec<u8>, mut v: u128) {
        loop {
            let b = (v & 0x7f) as u8;
            v >>= 7;
            if v != 0 { o.push(b | 0x80) } else { o.push(b); break }
        }
    }
}

/// Test transforms used by the corpora (never the code under test).
pub mod xf {
    use std::io::{BufRead, Read, Result, Write};
    macro_rules! tr {
        ($r:ident, $w:ident, $dec:expr, $enc:expr) => {
            pub struct $r<R> { r: R, k: u8, one: [u8; 1], have: bool }
            impl<R: Read> $r<R> { pub fn new(r: R, k: u8) -> Self { $r { r, k, one: [0], have: false } } }
            impl<R: Read> Read for $r<R> {
                fn read(&mut self, b: &mut [u8]) -> Result<usize> {
                    if self.have && !b.is_empty() { b[0] = self.one[0]; self.have = false; return Ok(1); }
                    let n = self.r.read(b)?;
                    let f: fn(u8, u8) -> u8 = $dec;
                    for x in &mut b[..n] { *x = f(*x, self.k) }
                    Ok(n)
                }
            }
            impl<R: Read> BufRead for $r<R> {
                fn fill_buf(&mut self) -> Result<&[u8]> {
                    if !self.have {
                        let mut t = [0u8];
                        if self.r.read(&mut t)? == 0 { return Ok(&[]); }
                        let f: fn(u8, u8) -> u8 = $dec;
                        self.one[0] = f(t[0], self.k);
                        self.have = true;
                    }
                    Ok(&self.one)
                }
                fn consume(&mut self, n: usize) { if n > 0 { self.have = false } }
            }
            pub struct $w<W> { w: W, k: u8 }
            impl<W: Write> $w<W> { pub fn new(w: W, k: u8) -> Self { $w { w, k } } }
            impl<W: Write> Write for $w<W> {
                fn write(&mut self, b: &[u8]) -> Result<usize> {
                    let f: fn(u8, u8) -> u8 = $enc;
                    let t: Vec<u8> = b.iter().map(|x| f(*x, self.k)).collect();
                    self.w.write_all(&t)?;
                    Ok(b.len())
                }
                fn flush(&mut self) -> Result<()> { self.w.flush() }
            }
        };
    }
    tr!(XorR, XorW, |x, k| x ^ k, |x, k| x ^ k);
    tr!(AddR, AddW, |x, k| x.wrapping_sub(k), |x, k| x.wrapping_add(k));
    /// `tail`: buffers everything; on the first flush emits the bytes then 0xA5. Decoding drops the final byte of the stream.
    pub struct TailW<W> { w: W, buf: Vec<u8>, done: bool }
    impl<W: Write> TailW<W> { pub fn new(w: W, _k: u8) -> Self { TailW { w, buf: vec![], done: false } } }
    impl<W: Write> Write for TailW<W> {
        fn write(&mut self, b: &[u8]) -> Result<usize> { self.buf.extend_from_slice(b); Ok(b.len()) }
        fn flush(&mut self) -> Result<()> {
            if !self.done {
                self.done = true;
                self.buf.push(0xa5);
                let b = std::mem::take(&mut self.buf);
                self.w.write_all(&b)?;
            }
            self.w.flush()
        }
    }
    /// `fin`: as `tail`, but the stream is only finished when it is dropped (as compressors do)
    pub struct FinW<W: Write> { w: W, buf: Vec<u8> }
    impl<W: Write> FinW<W> { pub fn new(w: W, _k: u8) -> Self { FinW { w, buf: vec![] } } }
    impl<W: Write> Write for FinW<W> {
        fn write(&mut self, b: &[u8]) -> Result<usize> { self.buf.extend_from_slice(b); Ok(b.len()) }
        fn flush(&mut self) -> Result<()> { Ok(()) }
    }
    impl<W: Write> Drop for FinW<W> {
        fn drop(&mut self) {
            self.buf.push(0xa5);
            let _ = self.w.write_all(&self.buf);
        }
    }
    pub use self::TailR as FinR;
    pub struct TailR<R> { r: R, buf: Vec<u8>, p: usize, init: bool }
    impl<R: Read> TailR<R> {
        pub fn new(r: R, _k: u8) -> Self { TailR { r, buf: vec![], p: 0, init: false } }
        fn fill(&mut self) -> Result<()> {
            if !self.init {
                self.init = true;
                self.r.read_to_end(&mut self.buf)?;
                if self.buf.pop() != Some(0xa5) { return Err(std::io::ErrorKind::InvalidData.into()); }
            }
            Ok(())
        }
    }
    impl<R: Read> Read for TailR<R> {
        fn read(&mut self, b: &mut [u8]) -> Result<usize> {
            self.fill()?;
            let n = b.len().min(self.buf.len() - self.p);
            b[..n].copy_from_slice(&self.buf[self.p..self.p + n]);
            self.p += n;
            Ok(n)
        }
    }
    impl<R: Read> BufRead for TailR<R> {
        fn fill_buf(&mut self) -> Result<&[u8]> { self.fill()?; Ok(&self.buf[self.p..]) }
        fn consume(&mut self, n: usize) { self.p += n }
    }
}

/// native replay runner: one line `harness hexinput` per run on stdin
#[cfg(native)]
pub mod nat {
    use std::alloc::{GlobalAlloc, Layout, System};
    pub struct A;
    unsafe impl GlobalAlloc for A {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { lim(l.size()); System.alloc(l) }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { lim(l.size()); System.alloc_zeroed(l) }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { lim(n); System.realloc(p, l, n) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    }
    fn lim(n: usize) { if n > 64 << 20 { eprintln!("HUGE {}", n); std::process::exit(77) } }
    #[global_allocator]
    static GA: A = A;
    pub fn run() {
        use super::rt::*;
        std::panic::set_hook(Box::new(|_| {}));
        let mut line = String::new();
        loop {
            line.clear();
            if std::io::stdin().read_line(&mut line).unwrap() == 0 { break }
            let mut it = line.trim().split(' ');
            let name = it.next().unwrap();
            let hx = it.next().unwrap_or("-");
            let mut input = vec![];
            if hx != "-" { for i in 0..hx.len() / 2 { input.push(u8::from_str_radix(&hx[2 * i..2 * i + 2], 16).unwrap()) } }
            let f = super::HS.iter().find(|x| x.0 == name).expect("no such harness").1;
            unsafe { ST = St { input, pos: 0, obs: vec![], failed: vec![], covers: vec![] } }
            let r = std::thread::Builder::new().stack_size(256 << 20).spawn(move || std::panic::catch_unwind(f)).unwrap().join().unwrap();
            let (o, m) = match r {
                Ok(()) => ("ok", String::new()),
                Err(e) if e.is::<Assume>() => ("assume", String::new()),
                Err(e) => ("panic", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default()),
            };
            let s = unsafe { &ST };
            let j = |v: &[u64]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
            println!("R {} {} {} {}", o, s.failed.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), j(&s.obs), m.replace('\n', " "));
        }
    }
}
#[cfg(native)]
fn main() { nat::run() }
