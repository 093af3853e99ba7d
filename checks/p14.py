"""Operators by operand type, every pair of operators with the parentheses precedence makes redundant, implicit widening, casts, and random
expression trees (fixed seed), each as calculated value, condition, length and argument. Results outside the type (overflow, division by zero,
shift amounts beyond the width) are outside the claim."""
import random
from tmpl import *
from ex import *

TYS = ['u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128']
AR = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '>>>']
CM = ['==', '!=', '<', '>', '<=', '>=']
EN = D('En', Enum('u8', [('p', 1), ('q', None), ('r', 7)]))
BF = D('Bf', Bits('u8', [('x', 1), ('y', None), ('z', ('0x10', 16))]))


def env_fields(names):
    r = []
    for n in sorted(names):
        k = n.rstrip('0123456789')
        if k == 'en':
            r.append(Fd(n, Ref(EN)))
        elif k == 'bf':
            r.append(Fd(n, Ref(BF)))
        elif k == 't':
            r.append(Fd(n, Bo()))
        elif n[0] == 'o':   # optional: present when t0 is
            r.append(Fd(n, Sc(FT[n[1:]]), cond=F('t0')))
        elif n[0] == 'w':
            r.append(Fd(n, Arr(Sc('u64'), I(2))))
        elif n[0] == 'v':
            r.append(Fd(n, Arr(Sc('u8'), I(2))))
        else:
            r.append(Fd(n, Sc(FT[n])))
    return r


FT = {}   # field name -> type
for i, t in enumerate(TYS):
    for j, s in enumerate('abc'):
        FT[s + t[0] + t[1:]] = t
for t in TYS:
    if t not in ('u8', 'i8'):
        FT['l' + t] = t + 'le'


class Gen:
    def __init__(self, seed, cheap=True):
        self.r = random.Random(seed)

    def leaf(self, T):
        r = self.r
        if T == 'bool':
            return r.choice([lambda: F(r.choice(['t0', 't1'])), lambda: Mem('bf', r.choice('xyz')), lambda: Bin(r.choice(['==', '!=']), F('en'), EnumAcc(EN, r.choice('pqr')))])()
        k = r.random()
        if k < .25:
            return I(r.choice([0, 1, 2, 3, 5, 7, 100]))
        if k < .6 or W[T] == 1:
            return F(r.choice('abc') + T)
        nt = r.choice([t for t in TYS if widens(t, T)])
        if nt == T and k < .8:
            return F('l' + T)
        return F(r.choice('abc') + nt)

    def g(self, T, d):
        r = self.r
        if d == 0 or r.random() < .12:
            return self.leaf(T)
        if T == 'bool':
            k = r.random()
            if k < .4:
                S = r.choice(['u8', 'u8', 'i8', 'u16', 'i16', 'u32', 'i64'])
                return Bin(r.choice(CM), self.nl(S, d - 1), self.g(S, d - 1))
            if k < .8:
                return Bin(r.choice(['&&', '||']), self.g('bool', d - 1), self.g('bool', d - 1))
            return Un('!', self.g('bool', d - 1))
        k = r.random()
        if k < .55:
            op = r.choice(AR)
            if op in ('*', '/', '%') and W[T] > 2:
                return Bin(op, self.g(T, d - 1), I(r.choice([1, 2, 3, 7, 10])))
            if op in ('<<', '>>', '>>>'):
                return Bin(op, self.g(T, d - 1), r.choice([I(r.randrange(8)), Bin('&', self.leafv(T), I(7))]))
            return Bin(op, self.g(T, d - 1), self.g(T, d - 1))
        if k < .65:
            return Un('~', self.g(T, d - 1)) if T[0] == 'u' or r.random() < .5 else Un('-', self.g(T, d - 1))
        if k < .8:
            S = r.choice(TYS)
            return Cast(self.nl(S, d - 1), T)
        if k < .95:
            return Tern(self.g('bool', d - 1), self.g(T, d - 1), self.g(T, d - 1))
        return Elvis(F('o' + r.choice('abc') + T), self.leaf(T))

    def leafv(self, T):
        return F(self.r.choice('abc') + T)

    def nl(self, S, d):
        """an expression whose type is its own, not inferred"""
        for _ in range(50):
            e = self.g(S, d)
            try:
                c, t = ev(e, _env(leaves(e)))
                if t == S:
                    return e
            except (Uninf, Bad, KeyError):
                pass
        return self.leafv(S)


def _env(ns):
    env = {}
    for n in ns:
        f = [x for x in env_fields([n])][0]
        t = f.ty.etype()
        env[n] = ('f', ('opt', t) if f.cond is not None else t)
    return env


def typed(e, want):
    try:
        return ev(e, _env(leaves(e)), want)[1] == want
    except (Uninf, Bad):
        return False


def constant(e):
    """has an operation on constants only (which rustc evaluates and may refuse), or a division by zero"""
    if isinstance(e, (Bin, Un, Cast, Tern)) and not leaves(e):
        return True
    if isinstance(e, Bin) and e.op in ('/', '%') and isinstance(e.b, I) and e.b.v == 0:
        return True
    return any(constant(x) for x in e.__dict__.values() if isinstance(x, Expr)) or (isinstance(e, Call) and any(constant(x) for x in e.args))


def heavy(e):
    """multiplies or divides: too much for the solver together with a read of that length"""
    if isinstance(e, Bin) and e.op in ('*', '/', '%'):
        return True
    return any(heavy(x) for x in e.__dict__.values() if isinstance(x, Expr)) or (isinstance(e, Call) and any(heavy(x) for x in e.args))


def need(e):
    ns = leaves(e)
    if any(n[0] == 'o' for n in ns):
        ns.add('t0')
    f = env_fields(ns)
    f.sort(key=lambda x: (x.name[0] == 'o', x.name))
    return f


SIZE = lambda fs: sum(f.ty.minsz() if isinstance(f.ty, Sc) else 2 if isinstance(f.ty, Arr) else 1 for f in fs)


def make(tier):
    p = Plan('P14', tier, IDS)
    groups = {}

    def calc(g, e, T):
        groups.setdefault(g, []).append(('c', e, T))

    def cond(g, e):
        groups.setdefault(g, []).append(('b', e, 'bool'))
    # operators by type
    for T in TYS:
        a, b = F('a' + T), F('b' + T)
        for op in AR:
            if op in ('*', '/', '%') and W[T] > (2 if tier == 'quick' else 4):
                calc('op_' + T, Bin(op, a, I(7)), T)
                if op == '*':
                    calc('op_' + T, Bin(op, I(3), a), T)
                else:
                    calc('op_' + T, Bin(op, I(100), Bin('|', Bin('&', b, I(3)), I(4))), T)
                continue
            calc('op_' + T, Bin(op, a, b), T)
        for op in CM:
            cond('op_' + T, Bin(op, a, b))
            cond('op_' + T, Bin(op, a, I(100)))
            cond('op_' + T, Bin(op, I(3), b))
        calc('op_' + T, Un('~', a), T)
        if T[0] == 'i':
            calc('op_' + T, Un('-', a), T)
            cond('op_' + T, Bin('<', a, Un('-', I(1))))
        # widening, casts
        for S in TYS:
            calc('cast_' + T, Cast(F('a' + S), T), T)
            calc('cast_' + T, Bin('^', Cast(Bin('+', F('a' + S), I(1)), T), I(1)), T)
            if widens(S, T) and S != T:
                calc('wid_' + T, F('a' + S), T)
                calc('wid_' + T, Bin('+', F('a' + S), F('b' + S)), T)
                calc('wid_' + T, Bin('-', a, F('b' + S)), T)
                calc('wid_' + T, Un('~', F('b' + S)), T)
                calc('wid_' + T, Bin('<<', F('b' + S), I(4)), T)
                calc('wid_' + T, Tern(F('t0'), F('b' + S), a), T)
                cond('wid_' + T, Bin('<', a, F('b' + S)))
                cond('wid_' + T, Bin('==', a, F('b' + S)))
        if W[T] > 1:
            calc('wid_' + T, Bin('-', F('l' + T), a), T)
            cond('wid_' + T, Bin('>', F('l' + T), a))
            cond('wid_' + T, Bin('==', a, F('l' + T)))
        calc('op_' + T, Tern(Bin('<', a, b), a, b), T)
        calc('op_' + T, Elvis(F('oa' + T), b), T)
        calc('op_' + T, Elvis(F('oa' + T), I(9)), T)
    # pairs of operators
    ops = AR[:-1] + CM + ['&&', '||']
    S = 'i8'
    lf = {'bool': ['t0', 't1', 't2'], 'int': ['a' + S, 'b' + S, 'c' + S]}

    def ot(op):   # operand kind, result kind
        return ('bool', 'bool') if op in ('&&', '||') else ('int', 'bool') if op in CM else ('int', 'int')
    for o1 in ops:
        for o2 in ops:
            for left in (True, False):
                # left: (x o1 y) o2 z; right: x o1 (y o2 z)
                inner, outer = (o1, o2) if left else (o2, o1)
                ik, ir = ot(inner)
                ok, orr = ot(outer)
                if ok != ir and not (outer in ('==', '!=') and ir == 'bool'):
                    continue
                if ir == 'bool' and outer in ('==', '!='):
                    ok = 'bool'
                n = 3
                x = [F(lf[ik][i]) for i in (0, 1)]
                y = F(lf[ok][2])
                e = Bin(outer, Bin(inner, *x), y) if left else Bin(outer, y, Bin(inner, *x))
                T = S if orr == 'int' else 'bool'
                # keep the multiplicative parts cheap
                (calc('pair_%d' % (ops.index(o1) // 3), e, S) if T == S else cond('pair_%d' % (ops.index(o1) // 3), e))
    a, b = F('ai16'), F('bi16')
    for op in AR[:-1]:
        calc('un', Bin(op, Un('~', a), b), 'i16')
        calc('un', Un('~', Bin(op, a, b)), 'i16')
        calc('un', Bin(op, a, Un('-', b)), 'i16')
        calc('un', Cast(Bin(op, a, b), 'i8'), 'i8')
        calc('un', Bin(op, a, Cast(b, 'i8')), 'i16')
        calc('un', Tern(F('t0'), Bin(op, a, b), I(3)), 'i16')
        calc('un', Bin(op, Tern(F('t0'), a, b), I(3)), 'i16')
        calc('un', Bin(op, Elvis(F('oai16'), a), b), 'i16')
        calc('un', Bin(op, b, Elvis(F('oai16'), a)), 'i16')
        calc('un', Elvis(F('oai16'), Bin(op, a, I(2))), 'i16')
    for op in CM:
        cond('un', Un('!', Bin(op, a, b)))
        cond('un', Bin('==', Un('!', F('t0')), Bin(op, a, b)))
        cond('un', Tern(Bin(op, a, b), F('t0'), F('t1')))
    calc('un', Un('-', Un('~', a)), 'i16')
    calc('un', Un('~', Un('-', Cast(a, 'i8'))), 'i8')
    calc('un', Cast(Un('-', a), 'u16'), 'u16')
    calc('un', Un('-', Cast(F('au16'), 'i16')), 'i16')
    calc('un', Cast(Cast(F('ai32'), 'u8'), 'i64'), 'i64')
    calc('un', Tern(F('t0'), Tern(F('t1'), I(1), I(2)), I(3)), 'u8')
    calc('un', Tern(F('t0'), I(1), Tern(F('t1'), I(2), I(3))), 'u8')
    calc('un', Tern(Tern(F('t0'), F('t1'), F('t2')), I(1), I(2)), 'u8')
    calc('un', Bin('+', Idx('v', Bin('&', F('au8'), I(1))), I(1)), 'u8')
    calc('un', Idx('v', I(1)), 'u16')
    calc('un', Call('sum', F('v')), 'u64')
    calc('un', Bin('+', Call('sum', F('w')), Cast(F('au8'), 'u64')), 'u64')
    calc('un', Cast(Bin('&', Call('sum', F('w')), I(0xffffffff)), 'u32'), 'u32')
    calc('un', Call('pad', Call('bits', F('au64')), F('au64')), 'u64') if 0 else None
    cond('un', Bin('<', Call('sum', F('w')), F('au64')))
    calc('un', Call('bits', Bin('|', F('au64'), I(1))), 'u8')
    calc('un', Bin('+', Len('v'), Cast(F('au8'), 'u64')), 'u64')
    cond('un', Bin('&&', Mem('bf', 'x'), Un('!', Mem('bf', 'z'))))
    cond('un', Bin('==', F('en'), EnumAcc(EN, 'q')))
    cond('un', Bin('!=', EnumAcc(EN, 'r'), F('en')))
    cond('un', Bin('>', Cast(F('en'), 'u8'), I(3)))
    calc('un', Cast(F('en'), 'u8'), 'u8')
    calc('un', Cast(F('bf'), 'u8'), 'u8')
    calc('un', F('en'), 'u16')
    calc('un', Bin('+', F('en'), F('au8')), 'u32')
    # random trees
    nr = 300 if tier == 'quick' else 1500
    g = Gen(7)
    done = 0
    while done < nr:
        T = g.r.choice(['bool', 'bool', 'u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'u128'])
        e = g.g(T, g.r.choice([2, 3, 3, 4]))
        if not typed(e, T) or len(leaves(e)) > 7 or constant(e):
            continue
        if T == 'bool':
            cond('rnd%d' % (done // 25), e)
        else:
            calc('rnd%d' % (done // 25), e, T)
        done += 1
    for gname, es in groups.items():
        ds = []
        for i, (k, e, T) in enumerate(es):
            if not typed(e, T):
                raise Exception('ill typed: %s %s' % (mp(e)[0], T))
            fs = need(e)
            x = X(e, T)
            if k == 'c':
                ds.append((D('C%d' % i, Cont(fs + [Fd('r', Sc(T), calc=x)])), 'e', None))
                if T in ('u8', 'u16', 'u32', 'u64') and (i % 4 == 0) and not heavy(e) and typed(e, 'u64'):
                    ds.append((D('L%d' % i, Cont(fs + [Fd('r', Arr(Sc('u8'), X(e, 'u64')))])), 'd', SIZE(fs) + 2))
            else:
                ds.append((D('B%d' % i, Cont(fs + [Fd('r', Bo(), calc=x)])) if i % 3 == 0 else D('B%d' % i, Cont(fs + [Fd('r', Sc('u8'), cond=x)])), 'e', None))
                if i % 3 != 0:
                    ds.append((ds[-1][0], 'd', SIZE(fs) + 1))
        pre = [EN] if any('En' in d.ps() for d, _, _ in ds) else []
        pre += [BF] if any('Bf' in d.ps() for d, _, _ in ds) else []
        seen = []
        for d, _, _ in ds:
            if d not in seen:
                seen.append(d)
        sp = p.spec(Spec(gname, pre + seen))
        for d, k, n in ds:
            if k == 'e':
                enc(p, sp, d, covers=(), decode=False)
            else:
                dec(p, sp, d, n, lo=max(0, n - 2), covers=(), reenc=False)
    p.bounds = ['every value of the operands; %d expressions over fields of all integer types' % sum(len(x) for x in groups.values())]
    p.assumptions = ['expressions whose mathematical result is outside their type are excluded']
    return p
