"""`decode_async` and `encode_async` of the same generated module beside `decode_sync` and `encode_sync`: same values, same bytes, same
position, same refusals, on transports which are not ready at a symbolic call, deliver in pieces, or fail. The futures are polled with tokio's io
traits and no executor; both sides are the real generated code."""
import asy
from tmpl import *
from fam import *

IDS17 = dict(IDS)
IDS17.update({
    11: 'decode_async accepts what decode_sync accepts, gives the same value and stops at the same position',
    12: 'encode_async succeeds where encode_sync does and writes the same bytes',
    13: 'an error of the transport is an error of the codec',
    14: 'what was written before an error of the transport is the beginning of the encoding',
    25: 'witness: the transport failed', 26: 'witness: the task had to wait',
})


def make(tier):
    p = Plan('P17', tier, IDS17)
    p.prelude = asy.PRE
    p.build_deps = asy.build
    p.async_ = True
    pre, ds = family()
    xs = xf_family()
    N = 16
    sps = [p.spec(Spec('asy%d' % i, pre + [d for d, _ in (ds + xs)[i::N]])) for i in range(N)]
    K = 5 if tier == 'quick' else 12
    for i, (d, n) in enumerate(ds + xs):
        sp = sps[i % N]
        T = d.name
        s, ra, fa = args_decl(sp, d)
        n = n if T == 'Wid' else min(n, 5) if T == 'Len2' else min(n, 8)
        k = 3 if T == 'Wid' else K
        small = 'if n > 0 { assume(b[0] < 4 || b[0] > 250); }'
        if T == 'Blen':
            small = 'if n > 1 { assume(b[0] == 0 && (b[1] < 5 || b[1] > 250)); }'
        if T == 'Len2':
            small += 'if n > 1 { assume(b[1] < 4); }'
        mx = '[64, 65, 66]' if T == 'Wid' else '[1, 3, 64]'
        p.h('rd_' + T, s + '''
let n = %d + pick(%d) as usize;
let mut b = [0u8; %d];
for i in 0..n { b[i] = u8s(); }
let buf = &b[..n];
%s
let mut cur: &[u8] = buf;
let r = m::%s::decode_sync(&mut cur%s);
let used = n - cur.len();
let max = %s[pick(3) as usize];
let at = 1 + pick(%d);
let fail = pick(2) == 1;
let mut t = crate::ap::Src { b: buf, p: 0, max, pend: if fail { 0 } else { at }, err: if fail { at } else { 0 }, calls: 0, hit: false };
let q = crate::ap::run(m::%s::decode_async(&mut t%s));
if t.hit { cover(25); check(q.is_err(), 13); }
else {
    if t.calls >= at { cover(26); }
    match (&r, &q) {
        (Ok(a), Ok(b)) => {
            cover(20);
            let mut x = vec![]; let mut y = vec![];
            fl_%s(a, &mut x); fl_%s(b, &mut y);
            check(same(&x, &y) && t.p == used, 11);
            for v in &y { observe(*v as u64); }
        }
        (Err(_), Err(_)) => cover(21),
        _ => check(false, 11),
    }
}
''' % (max(0, n - 3), min(n, 3) + 1, n, small, T, ra, mx, k, T, ra, T, T), (20, 25, 26) if greedy(d) else (20, 21, 25, 26), spec=sp.name)
        p.h('wr_' + T, s + '''
let v = mk_%s(2);
let mut full: Vec<u8> = vec![];
let r = v.encode_sync(&mut full%s);
let max = %s[pick(3) as usize];
let at = 1 + pick(%d);
let fail = pick(2) == 1;
let mut t = crate::ap::Snk { o: vec![], max, pend: if fail { 0 } else { at }, err: if fail { at } else { 0 }, calls: 0, hit: false };
let q = crate::ap::run(v.encode_async(&mut t%s));
if t.hit {
    cover(25);
    check(q.is_err(), 13);
    if r.is_ok() { check(t.o.len() <= full.len() && sameb(&t.o, &full[..t.o.len()]), 14); }
} else {
    if t.calls >= at { cover(26); }
    check(r.is_ok() == q.is_ok(), 12);
    if r.is_ok() { cover(22); check(sameb(&t.o, &full), 12); for v in &full { observe(*v as u64); } }
}
''' % (T, ra, mx, k, ra), (22, 25, 26), spec=sp.name)
    p.bounds = ['every input up to 3-8 bytes (or value with at most 2 elements), pieces of at most 1, 3 or 64 bytes, one wait or a lasting failure at each of the first %d calls' % K]
    return p
