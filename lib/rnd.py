"""Random specifications over the constructs of the reference, deterministic by seed."""
import random
from spec import *
from tmpl import greedy

UW = ['u8', 'u16', 'u16le', 'u32', 'u32le', 'u64', 'i8', 'i16', 'i16le', 'i32', 'i32le', 'i64le', 'u64le', 'u128', 'i128le']


class G:
    def __init__(self, seed, xf=True, text=True):
        self.r = random.Random('pspec-%s' % seed)
        self.n = 0
        self.decls = []
        self.xf, self.text = xf, text
        self.pool = []      # declared container-like types, with size
        self.en, self.bf = [], []
        self.consts = []

    def name(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def p(self, x):
        return self.r.random() < x

    # ---- declarations
    def enum(self):
        r = self.r
        rep = r.choice(UW[:11])
        items, v = [('a', r.choice([0, 1, 2]))], None
        for k in range(r.randint(1, 4)):
            nm = 'bcdefg'[k]
            if self.p(.5):
                items.append((nm, None))
            else:
                x = 10 * (k + 1) + r.randint(0, 3)
                items.append((nm, (hex(x), x) if self.p(.5) else x))
        if self.p(.3):
            items.append(('other', 'default'))
        d = D(self.name('En'), Enum(rep, items))
        self.decls.append(d)
        self.en.append(d)

    def bits(self):
        r = self.r
        rep = r.choice(['u8', 'u8', 'u16', 'u16le', 'u32le'])
        items = [('a', r.choice([1, 2]))] + [('bcde'[k], None) for k in range(r.randint(1, 3))]
        if self.p(.5):
            items.append(('h', ('0x80', 128)))
        if self.p(.3):
            items.append(('lo', ('0x40', 64)))
        d = D(self.name('Bf'), Bits(rep, items))
        self.decls.append(d)
        self.bf.append(d)

    # ---- expressions; env: list of (name, kind)
    def pick(self, env, *kinds):
        c = [n for n, k in env if k in kinds]
        return self.r.choice(c[-5:]) if c else None

    def num(self, env, d=1):
        """an expression of type u8"""
        f = self.pick(env, 'u8')
        if f is None or self.p(.15):
            return I(self.r.randint(0, 3))
        x = self.r.random()
        if x < .4 or d == 0:
            return F(f)
        if x < .6:
            return Bin('&', F(f), I(self.r.choice([1, 3, 2])))
        if x < .7:
            o = self.r.choice(['+', '^', '|', '>>'])
            return Bin(o, Bin('&', F(f), I(3)) if o == '+' else self.num(env, d - 1) if self.p(.5) else F(f), I(self.r.randint(1, 3)))   # never out of range
        if x < .8:
            g = self.pick(env, 'u8')
            return Bin(self.r.choice(['|', '^', '&']), F(f), F(g))
        if x < .9:
            return Tern(self.cond(env, 0), F(f), I(1, 'u8'))
        g = self.pick(env, 'ou8')
        if g:
            return Elvis(F(g), I(self.r.randint(0, 3)))
        return F(f)

    def cond(self, env, d=1):
        x = self.r.random()
        if d and x < .2:
            return Bin(self.r.choice(['&&', '||']), self.cond(env, 0), self.cond(env, 0))
        if d and x < .28:
            return Un('!', self.cond(env, 0))
        k = self.pick(env, 'bool')
        if k and x < .45:
            return F(k)
        es = [(n, k) for n, k in env if isinstance(k, D)]
        if es and x < .7:
            n, k = self.r.choice(es)
            if isinstance(k.ty, Bits):
                return Mem(n, self.r.choice(k.ty.vals)[0])
            return Bin(self.r.choice(['==', '!=']), F(n), EnumAcc(k, self.r.choice([v for v in k.ty.vals if v[1] != 'default'])[0]))
        n = self.pick(env, 'u8', 'u16')
        if n is None:
            return B(True) if self.p(.3) else Bin('==', I(1, 'u8'), I(1))
        return Bin(self.r.choice(['==', '==', '!=', '<', '>', '<=', '>=']), F(n) if self.p(.8) else Bin('&', F(n), I(3)), I(self.r.randint(0, 4)))

    def length(self, env):
        if self.pick(env, 'u8') is None or self.p(.25):
            f = self.pick(env, 'u16')
            if f and self.p(.5):
                return F(f)
            return I(self.r.randint(0, 2))
        return self.num(env)

    def xforms(self, env):
        if not self.xf or not self.p(.12):
            return ()
        out = []
        for _ in range(self.r.randint(1, 2)):
            c = self.cond(env) if self.p(.25) and env else None
            out.append((self.r.choice(['xorx', 'addx']), self.num(env), c))
        return out

    # ---- types: (Ty, expression kind or None)
    def leaf(self, env):
        x = self.r.random()
        if x < .42:
            return Sc('u8'), 'u8'
        if x < .50:
            return Sc('u16'), 'u16'
        if x < .64:
            s = self.r.choice(UW)
            return Sc(s), s if s in ('u8', 'u16') else None
        if x < .72:
            return Bo(), 'bool'
        if x < .82 and self.en:
            d = self.r.choice(self.en)
            return Ref(d), d
        if x < .90 and self.bf:
            d = self.r.choice(self.bf)
            return Ref(d), d
        if x < .94:
            return Var(self.r.choice([8, 16, 32])), None
        if x < .97 and self.text:
            return Utf8(I(self.r.randint(0, 1))), None
        return Fl('f32'), None

    def ref(self, env):
        d = self.r.choice(self.pool)
        args = []
        for n, t, dv in d.args:
            if dv is not None and self.p(.5):
                break
            if isinstance(t, Bo):
                args.append(self.cond(env))
            else:
                args.append(self.num(env))
        return Ref(d, *args)

    def type(self, env, depth, last):
        """a type for a field; may be greedy only if it is last"""
        x = self.r.random()
        if x < .5 or depth == 0:
            return self.leaf(env)
        if x < .75:
            y = self.r.random()
            if y < .55:
                ok = [d for d in self.pool if not greedy(d)]
                if ok and self.p(.3):
                    save, self.pool = self.pool, ok
                    el = self.ref(env)
                    self.pool = save
                else:
                    el = self.leaf(env)[0]
                if self.p(.12):
                    el = Arr(el, self.length(env))
                z = self.r.random()
                L = None if last and z < .3 else b'\xff' if z < .4 else self.length(env)
                if not isinstance(L, E) and isinstance(el, Arr):
                    el = el.el
                if not isinstance(L, E) and isinstance(el, Utf8):
                    el = Sc('u8')
                return Arr(el, L), None
            return self.leaf(env)
        ok = [d for d in self.pool if last or not greedy(d)]
        if ok:
            save, self.pool = self.pool, ok
            t = self.ref(env)
            self.pool = save
            return t, None
        return self.leaf(env)

    def cont(self, env, depth, last=True, n=None, length=None):
        fs = []
        env = list(env)
        n = n or self.r.randint(1, 4)
        i = 0
        while i < n:
            i += 1
            end = last and i == n
            nm = self.name('x')
            x = self.r.random()
            if x < .1 and depth > 0:
                # length-limited inline container
                k = self.pick(env, 'u8')
                if k is None:
                    k = self.name('n')
                    fs.append(Fd(k, Sc('u8')))
                    env.append((k, 'u8'))
                c = self.cont(env, depth - 1, True, self.r.randint(1, 2))
                if not greedy(c):
                    c.fields.append(Fd(self.name('t'), Arr(Sc('u8'), None)))
                c.length = F(k)
                fs.append(Fd(nm, c))
                continue
            if x < .18 and depth > 0:
                c = self.cont(env, depth - 1, end, self.r.randint(1, 2))
                cd = self.cond(env) if self.p(.5) else None
                fs.append(Fd(nm, c, cond=cd, xf=self.xforms(env) if cd is None and not greedy(c) else ()))
                continue
            if x < .22:
                fs.append(Pad(self.num(env) if self.p(.4) else I(self.r.randint(0, 2))))
                continue
            if x < .27 and not end:
                # an array which follows its calculated length
                a = self.name('v')
                t = self.leaf(env)[0]
                if isinstance(t, Utf8):
                    t = Sc('u16')
                fs.append(Fd(nm, Sc('u8'), calc=Cast(Len(a), 'u8')))
                fs.append(Fd(a, Arr(t, F(nm))))
                env.append((nm, 'u8'))
                continue
            t, k = self.type(env, depth, end)
            f = Fd(nm, t)
            if self.p(.2) and env:
                f.cond = self.cond(env)
            if k == 'u8' and self.p(.1) and f.cond is None:
                f.calc = self.num(env)
            if not greedy(t) and not isinstance(t, (Utf8,)):
                f.xf = self.xforms(env)
                if any(isinstance(q, Rec) for q in [t]):
                    f.xf = ()
            fs.append(f)
            if f.cond is None:
                if k:
                    env.append((nm, k))
            elif k == 'u8':
                env.append((nm, 'ou8'))
        return Cont(fs, length)

    def args(self):
        a = []
        for _ in range(self.r.choice([0, 0, 1, 1, 2])):
            if self.p(.7):
                a.append((self.name('a'), Sc('u8'), None))
            else:
                a.append((self.name('a'), Bo(), None))
        if a and self.p(.3):
            n, t, _ = a[-1]
            a[-1] = (n, t, B(True) if isinstance(t, Bo) else I(self.r.randint(0, 3)))
        return a

    def decl(self):
        a = self.args()
        env = [(n, 'bool' if isinstance(t, Bo) else 'u8') for n, t, _ in a]
        x = self.r.random()
        if x < .22 and any(k == 'u8' for _, k in env):
            vs = []
            nv = self.r.randint(2, 4)
            for i in range(nv):
                c = None if i == nv - 1 else self.cond(env)
                if self.p(.5):
                    t = self.cont(env, 1, True)
                    if not any(not f.pad for f, in [(f,) for f in t.fields]):
                        t = Sc('u8')
                else:
                    t = self.type(env, 1, True)[0]
                vs.append(Fd('V%d' % i, t, cond=c))
            d = D(self.name('Tg'), Tag(vs), args=a)
        elif x < .3:
            d = D(self.name('Al'), self.type(env, 1, True)[0], args=a)
            if self.p(.3) and env:
                d.cond = self.cond(env)
        else:
            d = D(self.name('Co'), self.cont(env, 2), args=a)
        self.decls.append(d)
        self.pool.append(d)
        return d

    def spec(self, name, k):
        for _ in range(self.r.randint(1, 2)):
            self.enum()
        self.bits()
        for _ in range(k):
            self.decl()
        return Spec(name, self.decls)


def est(t, d=0):
    """a size an accepted value can have"""
    if isinstance(t, D):
        return est(t.ty, d)
    if isinstance(t, (Sc, Var)):
        return W[t.b] if isinstance(t, Sc) else 1
    if isinstance(t, Fl):
        return W[t.u]
    if isinstance(t, Bo):
        return 1
    if isinstance(t, (Enum, Bits)):
        return W[base(t.rep)]
    if isinstance(t, Ref):
        return est(t.d, d + 1)
    if isinstance(t, Arr):
        return est(t.el, d) * (t.len.v if isinstance(t.len, I) else 1) + (1 if isinstance(t.len, bytes) else 0)
    if isinstance(t, Utf8):
        return 1
    if isinstance(t, Cont):
        return sum(2 if f.pad else est(f.ty, d) for f in t.fields)
    if isinstance(t, Tag):
        return max(est(f.ty, d) for f in t.variants)
    return 1
