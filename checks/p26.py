"""Imports: which programs of several files are accepted against a model of files, names and aliases (missing files and items, broken files, files which
import themselves, a name for two things); code for all of what is imported; the codecs of types which are declared across files."""
from fe import *
from tmpl import *

IDS = dict(IDS)
IDS.update({1: 'a program of several files is accepted or encodes as specified: files, items and names are found', 2: 'a program with a missing, broken, cyclic or ambiguous import is rejected; values as specified',
            3: 'code is generated once for every type of every imported file', 4: 'an imported type can be used under its other name', 5: 'the import declarations are programs',
            6: 'exactly the imported and declared types are named by a program', 21: 'witness: a rejected input or program'})


class IRef(Ref):
    """a reference to an imported declaration under the name it has here"""
    def __init__(self, name, d, *args):
        Ref.__init__(self, d, *args)
        self.here = name

    def ps(self):
        return self.here + ('(%s)' % ', '.join(a.ps() for a in self.args) if self.args else '')


class ISpec(Spec):
    """decls: of the main file; files: [Spec] with their own `pre` import lines"""
    def __init__(self, name, decls, files, pre, consts=(), refconsts=()):
        Spec.__init__(self, name, decls, pre, consts)
        self.files, self.refconsts = files, list(refconsts)

    def ps(self):
        return Spec.ps(self)

    def rust(self):
        main, mc = self.decls, self.consts
        self.decls = [d for f in self.files for d in f.decls] + main
        self.consts = mc + [c for f in self.files for c in f.consts if c[0] not in {m[0] for m in mc}] + self.refconsts
        try:
            return Spec.rust(self)
        finally:
            self.decls, self.consts = main, mc


def make(tier):
    p = Plan('P26', tier, IDS)
    p.fe = rs('fe_imp.rs') + 'use rt::*; use rf::*; use rt_imp::*;\n'
    q = tier == 'quick'

    def g(name, body, covers=(1, 2), gen=False, **k):
        p.feh(('c_' if gen else 'm_') + name, body + '\ncmp_imports(&fs, %s);' % ('true' if gen else 'false'), covers, **k)
    U = '&["u8", "ta", "tb", "te", "n1"]'
    A = 'fi("a", vec![], vec![de(0, "ta", "u8"), de(2, "te", ""), de(1, "ka", ""), de(0, "t2", "ta")])'
    for gen in (False, True):
        n = '&["ta", "te", "ka", "zz"]' if gen else '&["ta", "te", "ka", "t2", "zz"]'
        # one file: item, name, file, use
        g('one', '''let fs = vec![fi("", vec![im(word(%s), alias(&["n1", "ta"]), word(&["a", "b"]))], vec![de(0, "m", word(%s)), de(4, "l", word(&["2", "ka", "n1"]))]), %s];''' % (n, U, A), gen=gen)
        # two imports out of one or two files; names in conflict
        g('two', '''let b = fi("b", vec![], vec![de(word(&["0", "2"]).as_bytes()[0] - b'0', word(&["tb", "ta"]), "u8"), de(1, word(&["kb", "ka"]), "")]);
let fs = vec![fi("", vec![im(word(&["ta", "ka"]), alias(&["n1"]), "a"), im(word(&["ta", "tb", "ka", "kb"]), alias(&["n1"]), word(&["a", "b"]))], vec![de(0, "m", word(&["ta", "n1"]))]), %s, b];''' % A, gen=gen)
        # what a file declares itself against what it imports
        g('local', '''let fs = vec![fi("", vec![im(word(&["ta", "te", "ka"]), alias(&["n1"]), "a")], vec![de(pick(3) as u8, word(&["ta", "te", "ka", "n1", "t2", "m"]), "u8")]), %s];''' % A, gen=gen)
        # a chain
        g('chain', '''let fs = vec![fi("", vec![im(word(&["tb", "ta", "n2"]), alias(&["n1"]), "b")], vec![de(0, "m", word(&["tb", "ta", "n1", "n2"]))]),
  fi("b", vec![im("ta", alias(&["n2"]), word(&["a", "c"]))], vec![de(0, "tb", word(&["ta", "n2"]))]), %s];''' % A, gen=gen)
        # the same file by two ways
        g('diamond', '''let fs = vec![fi("", vec![im("tb", None, "b"), im(word(&["tc", "ta"]), alias(&["n1"]), word(&["c", "b"]))], vec![de(0, "m", word(&["tb", "tc", "ta", "n1"]))]),
  fi("b", vec![im("ta", alias(&["tx"]), "a")], vec![de(0, "tb", word(&["ta", "tx"]))]), fi("c", vec![im(word(&["ta", "t2"]), None, "a")], vec![de(0, "tc", word(&["ta", "t2"]))]), %s];''' % A, gen=gen)
    # files which import themselves, at any place of a chain
    g('cycle', '''let fs = vec![fi("", vec![im("ta", None, "a")], vec![de(0, "m", "ta")]), fi("a", vec![im("tb", None, word(&["a", "b", "c", "d"]))], vec![de(0, "ta", "tb")]),
  fi("b", vec![im(word(&["ta", "tc"]), None, word(&["a", "b", "c"]))], vec![de(0, "tb", word(&["ta", "tc"]))]), fi("c", vec![im("ta", None, word(&["a", "b", "c", "d"]))], vec![de(0, "tc", "ta"), de(0, "tb", "ta")]),
  fi("d", vec![], vec![de(0, "tb", "u8"), de(1, "ta", "")])];''')
    # a broken file
    g('bad', '''let mut a = %s; let k = pick(8) as usize;
a.extra = ["", "type", "type q = ;", "type q = nope;", "const c: u8 = nope;", "type ta = u8;", "import_ffi nope as type;", "type q = container { x: u8, x: u8 };"][k];
a.bad = k != 0;
let fs = vec![fi("", vec![im("tb", None, "b"), im(word(&["ta", "tb"]), alias(&["n1"]), word(&["a", "b"]))], vec![de(0, "m", word(&["ta", "tb", "n1"]))]), fi("b", vec![im("te", None, "a")], vec![de(0, "tb", "te")]), a];''' % A)
    # the bytes of the names
    p.feh('m_bytes', '''let mut w = [0u8; 4]; for i in 0..4 { w[i] = u8s(); assume(w[i] >= b'a' && w[i] <= b'd'); }
let s = unsafe { std::str::from_utf8_unchecked(&w) };
let main = format!("import {} from \\"{}\\"; type m = container {{ x: {} }};", &s[..2], &s[2..3], if pick(2) == 0 { &s[..2] } else { "ab" });
let main2 = main.contains("x: ab");
let (r, _) = analyse(&main, vec![("a".to_string(), "type ab = u8;".to_string()), ("c".to_string(), "type cc = u16; type ab = u8;".to_string())]);
observe(r);
let it = &w[..2];
let found = (w[2] == b'a' && it == b"ab") || (w[2] == b'c' && (it == b"ab" || it == b"cc"));
let want = found && (!main2 || it == b"ab");
cover(if want { 1 } else { 2 });
check((r == 3) == want, if want { 1 } else { 2 });''', (1, 2))
    # the codecs
    u8, u16 = Sc('u8'), Sc('u16')

    def put(sp, ms, **o):
        p.spec(sp)
        for f in sp.files:
            p.texts[f.name] = f
        for d, m, *c in ms:
            dec(p, sp, d, m, lo=max(0, m - 5), covers=c[0] if c else (20, 21))
            enc(p, sp, d, covers=c[1] if len(c) > 1 else (22,))
    inner = D('Inner', Cont([Fd('a', u8), Fd('b', u16)]))
    en = D('En', Enum('u8', [('A', 1), ('B', None), ('C', 9)]))
    bits = D('Bf', Bits('u8', [('F0', 1), ('F1', None), ('F2', None)]))
    al = D('Al', Sc('u24') if False else u16)
    tag = D('Tg', Tag([Fd('x', u8, cond=Bin('==', F('k'), I(1))), Fd('y', Ref(inner), cond=Bin('==', F('k'), I(2)))]), args=[('k', u8, None)])
    opt = D('Op', Cont([Fd('v', Arr(u8, F('n')))]), args=[('n', u8, I(2))])
    leaf = Spec('leaf1', [inner, en, bits, al, tag, opt], consts=[('KL', 'u8', I(2))])
    put(ISpec('i_all', [
        (m1 := D('M1', Cont([Fd('i', Ref(inner)), Fd('e', Ref(en)), Fd('f', Ref(bits)), Fd('a', Ref(al)), Fd('z', u8)]))),
        (m2 := D('M2', Cont([Fd('n', u8), Fd('t', Ref(tag, F('n'))), Fd('z', u8)]))),
        (m3 := D('M3', Cont([Fd('n', u8), Fd('t', Ref(opt, F('n'))), Fd('d', Ref(opt)), Fd('z', u8)]))),
        (m4 := D('M4', Arr(Ref(inner), I(2)))),
        (m5 := D('M5', Cont([Fd('e', Ref(en)), Fd('x', u8, cond=Bin('==', F('e'), EnumAcc(en, 'B'))), Fd('v', Arr(u8, F('KL')))]))),
        (m6 := D('M6', Cont([Fd('f', Ref(bits)), Fd('x', u8, cond=Mem('f', 'F1'))]))),
    ], [leaf], 'import Inner, En, Bf, Al, Tg, Op, KL from "leaf1";\n'), [(m1, 9), (m2, 6), (m3, 6), (m4, 6), (m5, 5), (m6, 3), (inner, 4), (en, 2), (bits, 2), (al, 3, (20, 21)), (tag, 4), (opt, 4)])
    # the same through a file in between and under other names; types nobody names
    inner2 = D('Inner2', Cont([Fd('a', u16), Fd('b', u8)]))
    en2 = D('En2', Enum('u16', [('A', 1), ('B', 5)]))
    unused = D('Unused', Cont([Fd('q', Ref(inner2))]))
    leaf2 = Spec('leaf2', [inner2, en2, unused], consts=[('K2', 'u8', I(2))])
    outer = D('Outer', Cont([Fd('x', IRef('inn', inner2)), Fd('y', IRef('En2', en2)), Fd('z', Arr(u8, F('K2')))]))
    wrap = D('Wrap', Ref(outer))
    priv = D('Priv', Cont([Fd('v', Arr(IRef('inn', inner2), F('n')))]), args=[('n', u8, None)])
    mid = Spec('mid2', [outer, wrap, priv], 'import Inner2 as inn, En2, K2 from "leaf2";\n', consts=[('K3', 'u8', I(1))])
    put(ISpec('i_chain', [
        (t1 := D('T1', Cont([Fd('o', IRef('oo', outer)), Fd('w', u8)]))),
        (t2 := D('T2', Arr(IRef('ee', en2), F('kk')))),
        (t3 := D('T3', Cont([Fd('n', u8), Fd('p', IRef('Priv', priv, F('n'))), Fd('e', IRef('ee', en2)), Fd('x', u8, cond=Bin('==', F('e'), EnumAcc(D('ee', en2.ty), 'B')))]))),
        (t4 := D('T4', IRef('oo', outer))),
    ], [leaf2, mid], 'import Outer as oo, Priv, K3 as kk from "mid2";\nimport En2 as ee from "leaf2";\n', refconsts=[('kk', 'u8', I(1))]),
        [(t1, 8), (t2, 3), (t3, 9), (t4, 7), (outer, 7), (wrap, 7), (priv, 6), (unused, 4), (en2, 3)])
    p.bounds = ['programs of up to 4 files with up to 2 imports each and names out of listed sets (items, other names, files), every name of 2 letters of a-d out of every file named by one of them; codecs: every byte string of the stated lengths (up to 10 bytes), every value with lists of at most 2 elements',
                'functions and transforms are not importable or need a resolver of the user and are outside the claim']
    return p
