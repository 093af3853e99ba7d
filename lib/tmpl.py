"""Harness templates over generated codecs."""
from drv import Plan, H
from spec import *

IDS = {
    1: 'decode accepts exactly the byte strings the specification describes',
    2: 'decoded values are the ones the specification describes',
    3: 'decode consumes exactly the bytes of the value',
    4: 'encode succeeds exactly on encodable values',
    5: 'encoded bytes are the ones the specification describes',
    6: 'decoding what was encoded succeeds',
    7: 'decoding what was encoded gives the value back',
    8: 'decoding what was encoded consumes exactly those bytes',
    9: 'encoding a decoded value gives the canonical encoding',
    10: 'a decoded value can be encoded again',
    25: 'the message is one of the format',
    20: 'witness: an accepted input', 21: 'witness: a rejected input',
    24: 'witness: an encoded value read back',
    22: 'witness: an encodable value', 23: 'witness: a value refused by the encoder',
}


def args_decl(spec, d):
    """symbolic arguments: (setup code, real args, reference args)"""
    setup, real, ref = '', '', ''
    for i, (n, t, dv) in enumerate(d.args):
        setup += 'let g%d = %s;\n' % (i, (Sc(t.s) if isinstance(t, Al) else t).mk('1').replace('(k)', '(1)'))
        if isinstance(t, Ref) and t.isrep():
            setup += 'let h%d = { let mut t_ = vec![]; %s t_[0] as %s };\n' % (i, t.fl('g%d' % i).replace('ev)', '&mut t_)'), base(t.d.ty.rep))
            rv = 'h%d' % i
        else:
            rv = 'g%d.clone()' % i
        if dv is not None:
            setup += 'let o%d = bools(); let o%d = fork(o%d);\n' % (i, i, i)
            real += ', if o%d { Some(g%d.clone()) } else { None }' % (i, i)
            ref += ', if o%d { Some(%s) } else { None }' % (i, rv)
        else:
            real += ', g%d.clone()' % i
            ref += ', ' + rv
    return setup, real, ref


def greedy(t):
    """does a value of this type swallow whatever follows it?"""
    if isinstance(t, D):
        return greedy(t.ty)
    if isinstance(t, Rec):
        return False
    if isinstance(t, Ref):
        return greedy(t.d)
    if isinstance(t, Arr):
        return t.len is None or greedy(t.el)
    if isinstance(t, (Cont, Tag)):
        return t.length is None and any(greedy(f.ty) for f in (t.fields if isinstance(t, Cont) else t.variants) if not f.pad)
    return False


def dec(plan, spec, d, n, lo=0, covers=(20, 21), name=None, setup='', reenc=True, pre='', **k):
    """decode of every byte string of lo..=n bytes against the reference"""
    T = d.name
    s, ra, fa = args_decl(spec, d)
    body = s + '''
let n = %d + pick(%d) as usize;
let mut b = [0u8; %d];
for i in 0..n { b[i] = u8s(); }
let buf = &b[..n];
%s
let mut c = Rd::new(buf);
let mut want = vec![];
let r = rd_%s(&mut c, &mut want%s);
let mut cur: &[u8] = buf;
match m::%s::decode_sync(&mut cur%s) {
    Ok(v) => {
        cover(20);
        check(r.is_some(), 1);
        let used = n - cur.len();
        observe(used as u64);
        if r.is_some() {
            let mut ev = vec![];
            fl_%s(&v, &mut ev);
            check(same(&ev, &want), 2);
            for x in &ev { observe(*x as u64); }
            check(used == c.p, 3);
            %s
        }
    }
    Err(_) => { cover(21); check(r.is_none(), 1); }
}
''' % (lo, n - lo + 1, max(n, 1), pre, T, fa, T, ra, T, '''
            let mut wb = vec![]; let mut nm = vec![];
            let w = wr_%s(&mut Er::new(&want), &mut wb, &mut nm%s);
            let mut out: Vec<u8> = vec![];
            match v.encode_sync(&mut out%s) {
                Ok(()) => check(w.is_some() && sameb(&out, &wb), 9),
                Err(_) => check(w.is_none(), 10),
            }''' % (T, fa, ra) if reenc else '')
    body = rawify(body)
    plan.h(name or 'dec_%s_%s' % (spec.name, T), body, covers, spec=spec.name, **k)


def safe(plan, spec, d, n, lo=0, covers=(20,), **k):
    """decode of every byte string, also those about which the specification says nothing: an answer, and what is decoded can be encoded"""
    s, ra, fa = args_decl(spec, d)
    plan.h('safe_%s_%s' % (spec.name, d.name), rawify(s + '''
let n = %d + pick(%d) as usize;
let mut b = [0u8; %d];
for i in 0..n { b[i] = u8s(); }
let mut cur: &[u8] = &b[..n];
match m::%s::decode_sync(&mut cur%s) {
    Ok(v) => { cover(20); let mut out: Vec<u8> = vec![]; observe(cur.len() as u64); observe(v.encode_sync(&mut out%s).is_ok() as u64); observe(out.len() as u64); }
    Err(_) => { cover(21); observe(99); }
}
''' % (lo, n - lo + 1, max(n, 1), d.name, ra, ra)), covers, spec=spec.name, **k)


def enc(plan, spec, d, kk=2, covers=(22,), trailer=2, name=None, decode=True, trip=True, pre='', **k):
    """encode of every value (collections up to kk) against the reference, then decode with trailing bytes"""
    T = d.name
    if greedy(d):
        trailer = 0
    s, ra, fa = args_decl(spec, d)
    body = s + '''
let v = mk_%s(%d);
let mut ev = vec![];
fl_%s(&v, &mut ev);
%s
let mut wb = vec![]; let mut nm = vec![];
let w = wr_%s(&mut Er::new(&ev), &mut wb, &mut nm%s);
let mut out: Vec<u8> = vec![];
match v.encode_sync(&mut out%s) {
    Ok(()) => {
        cover(22);
        check(w.is_some(), 4);
        observe(out.len() as u64);
        for x in &out { observe(*x as u64); }
        if w.is_some() {
            check(sameb(&out, &wb), 5);
            %s
        }
    }
    Err(_) => { cover(23); check(w.is_none(), 4); }
}
''' % (T, kk, T, pre, T, fa, ra, '''
            let len = out.len();
            %s
            // only encodings which the specification itself reads back unambiguously
            let mut c = Rd::new(&out);
            let mut rn = vec![];
            let rr = rd_%s(&mut c, &mut rn%s);
            if rr.is_some() && c.p == len && fork(same(&rn, &nm)) {
                cover(24);
                let mut cur: &[u8] = &out[..];
                match m::%s::decode_sync(&mut cur%s) {
                    Ok(v2) => {
                        let mut e2 = vec![];
                        fl_%s(&v2, &mut e2);
                        check(same(&e2, &nm), 7);
                        check(out.len() - cur.len() == len, 8);
                    }
                    Err(_) => check(false, 6),
                }
            }''' % (''.join('out.push(u8s());' for _ in range(trailer)), T, fa, T, ra, T) if decode else '')
    body = rawify(body)
    plan.h(name or 'enc_%s_%s' % (spec.name, T), body, tuple(covers) + ((24,) if decode and trip else ()), spec=spec.name, **k)


def big(plan, spec, d, prefix, n, sym=(), name=None, alter=None, covers=(20,), spread=1, **k):
    """decoding of inputs about n bytes long: `prefix`, then a fixed pattern with symbolic bytes at the positions `sym`,
    cut short by one byte, exact, or followed by one; the value decoded is encoded again, also after `alter` changed it"""
    T = d.name
    s, ra, fa = args_decl(spec, d)
    body = s + '''
let n = %d + pick(%d) as usize;
let mut b: Vec<u8> = Vec::with_capacity(n);
let prefix: &[u8] = &[%s];
for i in 0..n { b.push(if i < prefix.len() { prefix[i] } else { 0x61 + (i %% 23) as u8 }); }
for i in [%s] { if i < n { b[i] = u8s(); } }
let buf: &[u8] = &b[..];
let mut c = Rd::new(buf);
let mut want = vec![];
let r = rd_%s(&mut c, &mut want%s);
let mut cur: &[u8] = buf;
match m::%s::decode_sync(&mut cur%s) {
    Ok(v) => {
        cover(20);
        check(r.is_some(), 1);
        let used = n - cur.len();
        observe(used as u64);
        if r.is_some() {
            let mut ev = vec![];
            fl_%s(&v, &mut ev);
            check(same(&ev, &want), 2);
            check(used == c.p, 3);
            %s
            let mut wb = vec![]; let mut nm = vec![];
            let w = wr_%s(&mut Er::new(&ev), &mut wb, &mut nm%s);
            let mut out: Vec<u8> = vec![];
            match v.encode_sync(&mut out%s) {
                Ok(()) => { cover(22); check(w.is_some() && sameb(&out, &wb), 9) }
                Err(_) => { cover(23); check(w.is_none(), 10) }
            }
        }
    }
    Err(_) => { cover(21); check(r.is_none(), 1); }
}
''' % (n - spread, 2 * spread + 1, ', '.join('%du8' % x for x in prefix), ', '.join('%dusize' % x for x in sym) or '0usize; 0', T, fa, T, ra, T,
       'let mut v = v; %s; ev.clear(); fl_%s(&v, &mut ev);' % (alter, T) if alter else '', T, fa, ra)
    plan.h(name or 'big_%s_%s_%d' % (spec.name, T, n), body, covers, spec=spec.name, **k)


def near(plan, spec, d, base, width=2, name=None, **k):
    """decoding of everything near a valid message: `width` adjacent bytes of it arbitrary, anywhere (with one more byte behind it), or cut short anywhere
    (with the last byte arbitrary); the value decoded is encoded again"""
    T = d.name
    s, ra, fa = args_decl(spec, d)
    L = len(base)
    body = s + '''
let base: [u8; %d] = [%s];
let mut b: Vec<u8> = Vec::with_capacity(%d);
for x in base { b.push(x); }
b.push(0x5a);
let w = pick(%d) as usize;
let (n, valid) = if w < %d {
    for i in w..w + %d { b[i] = u8s(); }
    (%d, false)
} else {
    let n = w - %d;
    if n < %d && n > 0 { b[n - 1] = u8s(); }
    (n, n == %d)
};
let buf: &[u8] = &b[..n];
let mut c = Rd::new(buf);
let mut want = vec![];
let r = rd_%s(&mut c, &mut want%s);
if valid { check(r.is_some() && c.p == %d, 25); }
let mut cur: &[u8] = buf;
match m::%s::decode_sync(&mut cur%s) {
    Ok(v) => {
        cover(20);
        check(r.is_some(), 1);
        let used = n - cur.len();
        observe(used as u64);
        if r.is_some() {
            let mut ev = vec![];
            fl_%s(&v, &mut ev);
            check(same(&ev, &want), 2);
            check(used == c.p, 3);
            let mut wb = vec![]; let mut nm = vec![];
            let w = wr_%s(&mut Er::new(&ev), &mut wb, &mut nm%s);
            let mut out: Vec<u8> = vec![];
            match v.encode_sync(&mut out%s) {
                Ok(()) => check(w.is_some() && sameb(&out, &wb), 9),
                Err(_) => check(w.is_none(), 10),
            }
        }
    }
    Err(_) => { cover(21); check(r.is_none(), 1); }
}
''' % (L, ', '.join('%d' % x for x in base), L + 1, L - width + 1 + L + 2, L - width + 1, width, L if greedy(d) else L + 1, L - width + 1, L, L, T, fa, L, T, ra, T, T, fa, ra)
    plan.h(name or 'near_%s_%s' % (spec.name, T), rawify(body), (20, 21), spec=spec.name, **k)
