/// constant integer arithmetic, written out
pub mod rt_const {
    use super::rt::*;
    /// a type: number of bits, signed
    #[derive(Clone, Copy, PartialEq)]
    pub struct Ty { pub bits: u32, pub s: bool }
    /// value as two's complement bits (sign-extended to 128 when signed)
    pub type V = u128;
    impl Ty {
        pub fn max(self) -> u128 { if self.s { (1u128 << (self.bits - 1)) - 1 } else if self.bits == 128 { u128::MAX } else { (1u128 << self.bits) - 1 } }
        pub fn min(self) -> i128 { if self.s { if self.bits == 128 { i128::MIN } else { -(1i128 << (self.bits - 1)) } } else { 0 } }
        fn fits_i(self, x: i128) -> Option<V> {
            if self.s { if self.bits == 128 || (x >= self.min() && x <= self.max() as i128) { Some(x as u128) } else { None } }
            else if x < 0 { None } else { self.fits_u(x as u128) }
        }
        fn fits_u(self, x: u128) -> Option<V> { if x <= self.max() { Some(x) } else { None } }
        /// literal: digits in base 10 or 16
        pub fn lit(self, d: &[u8], base: u128) -> Option<V> {
            if d.is_empty() { return None }
            let mut v = 0u128;
            for c in d {
                let x = match c { b'0'..=b'9' => c - b'0', b'a'..=b'f' => c - b'a' + 10, _ => c - b'A' + 10 } as u128;
                v = match v.checked_mul(base).and_then(|v| v.checked_add(x)) { Some(v) => v, None => return None };
            }
            self.fits_u(v)
        }
        pub fn wrap(self, v: V) -> V {
            let k = 128 - self.bits;
            if self.s { (((v << k) as i128) >> k) as u128 } else { (v << k) >> k }
        }
        pub fn lt(self, a: V, b: V) -> bool { if self.s { (a as i128) < (b as i128) } else { a < b } }
        pub fn bin(self, op: &str, a: V, b: V) -> Option<V> {
            if self.s {
                let (x, y) = (a as i128, b as i128);
                match op {
                    "+" => self.fits_i(x.checked_add(y)?),
                    "-" => self.fits_i(x.checked_sub(y)?),
                    "*" if self.bits == 8 => self.fits_i((x as i32).wrapping_mul(y as i32) as i128),
                    "*" => self.fits_i(x.checked_mul(y)?),
                    "/" if self.bits == 8 => if y == 0 { None } else { self.fits_i((x as i32).wrapping_div(y as i32) as i128) },
                    "/" => if y == 0 { None } else { self.fits_i(x.checked_div(y)?) },
                    // the remainder of the least value by -1 is not representable in two steps and is rejected
                    "%" if self.bits == 8 => if y == 0 || (x == -128 && y == -1) { None } else { Some((x as i32).wrapping_rem(y as i32) as i128 as u128) },
                    "%" => if y == 0 || (x == self.min() && y == -1) { None } else { Some((x % y) as u128) },
                    "<<" => if y < 0 || y >= self.bits as i128 { None } else { Some(self.wrap(a << y as u32)) },
                    ">>" | ">>>" => if y < 0 || y >= self.bits as i128 { None } else { Some((x >> y as u32) as u128) },
                    "&" => Some(a & b), "|" => Some(a | b), "^" => Some(a ^ b),
                    _ => unreachable!(),
                }
            } else {
                match op {
                    "+" => self.fits_u(a.checked_add(b)?),
                    "-" => a.checked_sub(b),
                    "*" if self.bits == 8 => self.fits_u((a as u32).wrapping_mul(b as u32) as u128),
                    "/" if self.bits == 8 => if b == 0 { None } else { Some((a as u32 / b as u32) as u128) },
                    "%" if self.bits == 8 => if b == 0 { None } else { Some((a as u32 % b as u32) as u128) },
                    "*" => self.fits_u(a.checked_mul(b)?),
                    "/" => if b == 0 { None } else { Some(a / b) },
                    "%" => if b == 0 { None } else { Some(a % b) },
                    "<<" => if b >= self.bits as u128 { None } else { Some(self.wrap(a << b as u32)) },
                    ">>" | ">>>" => if b >= self.bits as u128 { None } else { Some(a >> b as u32) },
                    "&" => Some(a & b), "|" => Some(a | b), "^" => Some(a ^ b),
                    _ => unreachable!(),
                }
            }
        }
        pub fn neg(self, a: V) -> Option<V> { if self.s { self.fits_i((a as i128).checked_neg()?) } else { None } }
        pub fn not(self, a: V) -> V { self.wrap(!a) }
    }
    /// `n` symbolic decimal (or hexadecimal) digits, appended to the text and returned
    pub fn dec(b: &mut Vec<u8>, pre: &[u8], n: usize) -> Vec<u8> {
        let mut d = pre.to_vec();
        for _ in 0..n { let c = u8s(); assume(c >= b'0' && c <= b'9'); d.push(c) }
        b.extend_from_slice(&d);
        d
    }
    pub fn hex(b: &mut Vec<u8>, pre: &[u8], n: usize) -> Vec<u8> {
        let mut d = pre.to_vec();
        for _ in 0..n { let c = u8s(); assume((c >= b'0' && c <= b'9') || (c >= b'a' && c <= b'f') || (c >= b'A' && c <= b'F')); d.push(c) }
        b.extend_from_slice(b"0x");
        b.extend_from_slice(&d);
        d
    }
    /// is the program accepted?
    pub fn accepted(b: &[u8]) -> Option<bool> {
        let s = unsafe { std::str::from_utf8_unchecked(b) };
        let p = match protospec_build::parse(s) { Ok(p) => p, Err(_) => return None };
        let r = protospec_build::PreludeImportResolver(protospec_build::NullImportResolver);
        Some(protospec_build::asg::Program::from_ast(&p, &r).is_ok())
    }
    pub fn expect(b: &[u8], ok: bool) {
        let a = accepted(b);
        check(a.is_some(), 1);
        observe(match a { Some(true) => 1, Some(false) => 2, None => 3 });
        if let Some(a) = a {
            cover(if ok { 1 } else { 2 });
            check(!ok || a, 2);
            check(ok || !a, 3);
        }
    }
}
