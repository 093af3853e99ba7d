"""Names: programs in which a name is declared as constant, argument, field and container in every combination, and used once in every role; what the
analysed program refers to against scopes of the model; names which are declared twice; types which contain themselves."""
from fe import *

IDS = {1: 'the programs are of the grammar', 2: 'a program which declares a name twice is rejected', 3: 'a name which is not declared where it is used is rejected', 4: 'the program refers to one thing for one use',
       5: 'a name stands for its innermost declaration', 6: 'a program whose names are declared is accepted', 7: 'what is declared twice is named by the error', 8: 'what is not declared is named by the error',
       9: 'the error stands where the name is used', 10: 'a type which stands for itself is rejected', 11: 'exactly the types which contain themselves are known to', 12: 'only a type which stands for itself is cyclic'}


def make(tier):
    p = Plan('P30', tier, IDS)
    p.fe = rs('fe_name.rs') + 'use rt::*; use rf::*; use rt_name::*;\n'
    q = tier == 'quick'

    def words(*w):
        return '[%s][pick(%d) as usize]' % (', '.join('"%s"' % x if x is not None else '""' for x in w), len(w))

    def opt(*w):
        return '[%s][pick(%d) as usize]' % (', '.join('Some("%s")' % x if x is not None else 'None' for x in w), len(w))
    kinds = [(0, 'calc'), (1, 'cond'), (2, 'len'), (3, 'xfarg'), (4, 'xfcond'), (5, 'targ'), (6, 'clen'), (7, 'calc2'), (8, 'inner'), (9, 'xfarg2')]
    perms = '[["a", "b", "d"], ["b", "a", "d"], ["d", "a", "b"], ["a", "d", "e"], ["d", "e", "b"]]'
    for k, kn in kinds:
        if k != 6:
            p.feh('flat_' + kn, 'let n = %s[pick(5) as usize]; let arg = %s; let con = %s;\nlet u = Use { at: pick(4) as usize, kind: %d, name: %s };\nprogram(arg, con, &[f(n[0]), f(n[1]), pad(), f(n[2])], false, u, %s);' % (
                perms, opt(None, 'a', 'b') if q else opt(None, 'a', 'b', 'd'), opt(None, 'a') if q else opt(None, 'a', 'b'), k, words('a', 'b'), 'true' if k % 2 else 'false'), (1, 2))
        p.feh('nest_' + kn, 'let cn = %s; let base = [(None, None), (Some("b"), Some("b")), (Some("e"), Some("d"))][pick(3) as usize];\nlet u = Use { at: pick(9) as usize, kind: %d, name: %s };\n'
              'program(base.0, base.1, &[f("a"), c(cn, vec![f("b"), pad(), c("h", vec![f("d")]), f("e")]), f("g"), pad()], false, u, %s);' % (
                  words('p', 'e', 'g') if q else words('p', 'a', 'b', 'd', 'e', 'g', 'h'), k, words('a', 'b', 'd', 'e', 'g', 'h') if q else words('a', 'b', 'd', 'e', 'g', 'h', 'p', 'y'), 'false' if k % 2 else 'true'), (1, 2))
    for k, kn in ((0, 'calc'), (2, 'len'), (1, 'cond')):
        p.feh('tag_' + kn, 'let arg = %s; let con = %s;\nlet u = Use { at: pick(6) as usize, kind: %d, name: %s };\nprogram(arg, con, &[f("a"), c("b", vec![f("d"), f("b"), pad()]), f("e")], true, u, true);' % (
            opt(None, 'a', 'd'), opt(None, 'e'), k, words('a', 'b', 'd', 'e')), (1, 2) if k != 1 else (2,), wall=40)
    p.feh('dup_nest', 'let u = Use { at: 6, kind: 2, name: "k" };\nprogram(Some("k"), None, &[f(%s), c(%s, vec![f(%s), c("h", vec![f(%s)])]), f(%s), f("z")], false, u, true);' % (
        words('a', 'p'), words('p', 'a', 'b'), words('a', 'b', 'h', 'p'), words('a', 'b', 'd'), words('d', 'b', 'p', 'y')), (1, 2))
    p.feh('dup_two', 'let u = Use { at: 4, kind: 1, name: "k" };\nprogram(Some("k"), None, &[c("p", vec![f(%s)]), c(%s, vec![f(%s)]), f("z")], false, u, true);' % (words('a', 'b'), words('p', 'q', 'a'), words('a', 'b', 'p')), (1, 2))
    p.feh('dup_tag', 'let u = Use { at: 3, kind: 2, name: "k" };\nprogram(Some("k"), None, &[c(%s, vec![f(%s)]), c(%s, vec![f(%s), f("w")])], true, u, true);' % (words('a', 'b'), words('a', 'b', 'w'), words('a', 'b'), words('a', 'b', 'w')), (1, 2))
    for k in range(8):
        p.feh('before_%d' % k, 'before(%d, %s, %s, %s);' % (k, words('a', 'b'), words('a', 'b', 'd'), words('a', 'b', 'd', 'z', 'y')), (1, 2))
    ns = words('utf8', 'v16')
    p.feh('top2', 'top(&[(pick(8) as usize, %s), (pick(8) as usize, %s)]);' % (ns, ns), (1, 2))
    p.feh('top3', 'top(&[(%s, "utf8"), (pick(8) as usize, %s), (pick(8) as usize, "utf8")]);' % ('[0usize, 4][pick(2) as usize]' if q else 'pick(8) as usize', ns), (1, 2))
    m = words('a', 'b', 'c', 'd')
    for k in range(5):
        p.feh('members_%d' % k, 'members(%d, &[%s]);' % (k, ', '.join([m] * (3 if q else 4))), (1, 2))
    fn = words('x', 'ta', 'tb')
    w = 'pick(4) as usize'
    for s in range(5):
        for r in range(5):
            p.feh('cyc_%d%d' % (s, r), 'let (n1, n2) = (%s, %s); assume(n1 != n2); let a = [%s, %s, %s]; cycles(&[(%d, n1, a[0], n2, a[1]), (%d, n2, a[2], "z", %s), (0, "ta", 3, "q", 3)]);' % (
                fn, fn if not q else words('z2', 'tc'), w, w if s < 3 else '3', w, s, r, '3' if q or r >= 3 else w),
                (1, 2) if s >= 3 or r >= 3 else (1,))
    p.bounds = ['programs of a type of up to nine items in two levels, an argument, a constant, another type, with one use of a name in any of ten roles at any item; names out of 4-8; up to 3 top-level declarations of 8 kinds; 3 types of 5 shapes containing each other']
    return p
