"""The same generated codec on a plain slice and on a transport which delivers or takes at most 1-3 bytes per call, is interrupted once, or
fails, at every call. No stand-in for the generated code: both sides are the real one, so the reference is the undisturbed run
(which the other checks compare with the specification)."""
from tmpl import *
from fam import *

PRE = '''
pub mod tp {
    use std::io::{BufRead, Read, Write, Result, ErrorKind};
    pub struct Src<'a> { pub b: &'a [u8], pub p: usize, pub max: usize, pub intr: u64, pub err: u64, pub calls: u64, pub hit: bool }
    impl<'a> Src<'a> {
        fn call(&mut self) -> Result<()> {
            self.calls += 1;
            if self.calls == self.intr { return Err(ErrorKind::Interrupted.into()); }
            if self.calls == self.err { self.hit = true; }
            if self.hit { return Err(ErrorKind::ConnectionReset.into()); }
            Ok(())
        }
    }
    impl<'a> Read for Src<'a> {
        fn read(&mut self, o: &mut [u8]) -> Result<usize> {
            if o.is_empty() { return Ok(0); }
            self.call()?;
            let n = o.len().min(self.max).min(self.b.len() - self.p);
            for i in 0..n { o[i] = self.b[self.p + i]; }
            self.p += n;
            Ok(n)
        }
    }
    impl<'a> BufRead for Src<'a> {
        fn fill_buf(&mut self) -> Result<&[u8]> {
            self.call()?;
            let n = self.max.min(self.b.len() - self.p);
            Ok(&self.b[self.p..self.p + n])
        }
        fn consume(&mut self, n: usize) { self.p += n }
    }
    pub struct Snk { pub o: Vec<u8>, pub max: usize, pub intr: u64, pub err: u64, pub calls: u64, pub hit: bool }
    impl Write for Snk {
        fn write(&mut self, b: &[u8]) -> Result<usize> {
            if b.is_empty() { return Ok(0); }
            self.calls += 1;
            if self.calls == self.intr { return Err(ErrorKind::Interrupted.into()); }
            if self.calls == self.err { self.hit = true; }
            if self.hit { return Err(ErrorKind::BrokenPipe.into()); }
            let n = b.len().min(self.max);
            self.o.extend_from_slice(&b[..n]);
            Ok(n)
        }
        fn flush(&mut self) -> Result<()> { Ok(()) }
    }
}
'''
IDS18 = dict(IDS)
IDS18.update({
    11: 'a transport which delivers in pieces, or is interrupted, gives the same result as one which delivers at once',
    12: 'a transport which takes in pieces, or is interrupted, is given the same bytes',
    13: 'an error of the transport is an error of the codec',
    14: 'what was written before an error of the transport is the beginning of the encoding',
    25: 'witness: the transport failed', 26: 'witness: the transport was interrupted',
})


def make(tier):
    p = Plan('P18', tier, IDS18)
    p.prelude = PRE
    pre, ds = family()
    xs = xf_family()
    sps = [p.spec(Spec('fam%d' % i, pre + [d for d, _ in (ds + xs)[i::7]])) for i in range(7)]
    K = 7 if tier == 'quick' else 12
    for i, (d, n) in enumerate(ds + xs):
        sp = sps[i % 7]
        T = d.name
        s, ra, fa = args_decl(sp, d)
        n = n if T == 'Wid' else min(n, 6) if T == 'Len2' else min(n, 12)
        k = 4 if T == 'Wid' else K
        mx = '[64, 65, 66]' if T == 'Wid' else '[1, 3, 64]'
        small = 'if n > 0 { assume(b[0] < 4 || b[0] > 250); }'
        if T == 'Blen':
            small = 'if n > 1 { assume(b[0] == 0 && (b[1] < 5 || b[1] > 250)); }'
        if T == 'Len2':
            small += 'if n > 1 { assume(b[1] < 4); }'
        p.h('rd_' + T, s + '''
let n = %d + pick(%d) as usize;
let mut b = [0u8; %d];
for i in 0..n { b[i] = u8s(); }
let buf = &b[..n];
%s
let mut cur: &[u8] = buf;
let r = m::%s::decode_sync(&mut cur%s);
let used = n - cur.len();
let max = %s[pick(3) as usize];
let at = 1 + pick(%d);
let fail = pick(2) == 1;
let mut t = crate::tp::Src { b: buf, p: 0, max, intr: if fail { 0 } else { at }, err: if fail { at } else { 0 }, calls: 0, hit: false };
let q = m::%s::decode_sync(&mut t%s);
if t.hit { cover(25); check(q.is_err(), 13); }
else {
    if t.calls >= at { cover(26); }
    match (&r, &q) {
        (Ok(a), Ok(b)) => {
            cover(20);
            let mut x = vec![]; let mut y = vec![];
            fl_%s(a, &mut x); fl_%s(b, &mut y);
            check(same(&x, &y) && t.p == used, 11);
            for v in &y { observe(*v as u64); }
        }
        (Err(_), Err(_)) => cover(21),
        _ => check(false, 11),
    }
}
''' % (max(0, n - 3), min(n, 3) + 1, n, small, T, ra, mx, k, T, ra, T, T), (20, 25, 26) if greedy(d) else (20, 21, 25, 26), spec=sp.name)
        p.h('wr_' + T, s + '''
let v = mk_%s(2);
let mut full: Vec<u8> = vec![];
let r = v.encode_sync(&mut full%s);
let max = %s[pick(3) as usize];
let at = 1 + pick(%d);
let fail = pick(2) == 1;
let mut t = crate::tp::Snk { o: vec![], max, intr: if fail { 0 } else { at }, err: if fail { at } else { 0 }, calls: 0, hit: false };
let q = v.encode_sync(&mut t%s);
if t.hit {
    cover(25);
    check(q.is_err(), 13);
    if r.is_ok() { check(t.o.len() <= full.len() && sameb(&t.o, &full[..t.o.len()]), 14); }
} else {
    if t.calls >= at { cover(26); }
    check(r.is_ok() == q.is_ok(), 12);
    if r.is_ok() { cover(22); check(sameb(&t.o, &full), 12); for v in &full { observe(*v as u64); } }
}
''' % (T, ra, mx, k, ra), (22, 25, 26), spec=sp.name)
    p.bounds = ['every input up to 3-12 bytes (or value with at most 2 elements), pieces of at most 1, 3 or 64 bytes, one interruption or a lasting failure at each of the first %d calls' % K]
    return p
