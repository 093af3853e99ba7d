"""Expressions of the specification language: typed elaboration, reference evaluation in Rust, minimal-parentheses printing."""
from spec import *
from spec import E as Expr

PR = dict(PREC)
PR.update({'>>>': 8})


class Uninf(Exception):
    pass


class Bad(Exception):
    pass


def widens(a, b):
    return a in W and b in W and a[0] == b[0] and W[a] <= W[b]


def co(code, t, want):
    """what is wanted where the expression stands: the value is widened to it"""
    if want in (None, 'none') or want == t:
        return code, t
    r = t
    if isinstance(t, tuple) and t[0] == 'rep':
        if want == t:
            return code, t
        r = base(t[1].rep)
    if widens(r, want):
        return '((%s) as %s)' % (code, want), want
    raise Bad((t, want))


def ev(e, env, want=None):
    """-> (rust code, type) of e where a value of type `want` is expected (None: any, 'none': any integer)"""
    if isinstance(e, I):
        t = base(e.ty) if e.ty else want
        if t not in W:
            raise Uninf(e)
        return co('(%d%s)' % (e.v, t), t, want)
    if isinstance(e, B):
        return co(e.ps(), 'bool', want)
    if isinstance(e, F):
        v, t = env[e.n]
        if isinstance(t, str):
            t = base(t)
        return co(v, t, want)
    if isinstance(e, Mem):
        return co(e.rs(env)[0], 'bool', want)
    if isinstance(e, EnumAcc):
        return co(e.rs(env)[0], ('rep', e.d.ty), want)
    if isinstance(e, Idx):
        v, t = env[e.a]
        return co('(match (%s).get((%s) as usize) { Some(x) => *x, None => unspec() })' % (v, ev(e.i, env, 'u64')[0]), base(t[1]), want)
    if isinstance(e, Len):
        return co(e.rs(env)[0], 'u64', want)
    if isinstance(e, Call):
        w = {'bits': 'u8'}.get(e.fn, 'u64')
        c = Call(e.fn, *[Raw(*ev(a, env, 'u64')) if not (isinstance(a, F) and e.fn == 'sum') else a for a in e.args])
        return co(c.rs(env)[0], w, want)
    if isinstance(e, Elvis):
        v, t = env[e.a.n]
        t = base(t[1]) if isinstance(t[1], str) else t[1]
        b, tb = ev(e.b, env, t)
        return co('(match %s { Some(v_) => v_, None => %s })' % (v, b), t, want)
    if isinstance(e, Cast):
        a, t = ev(e.a, env, None)
        return co('((%s) as %s)' % (a, base(e.ty)), base(e.ty), want)
    if isinstance(e, Tern):
        c = ev(e.c, env, 'bool')[0]
        a, ta = ev(e.a, env, want)
        b, tb = ev(e.b, env, ta if want in (None,) else want)
        return '(if %s { %s } else { %s })' % (c, a, b), ta
    if isinstance(e, Un):
        a, t = ev(e.a, env, want)
        if e.op == '-':
            if t not in W or t[0] != 'i':
                raise Bad(e)
            return 'ck((%s).checked_neg())' % a, t
        if (e.op == '!') != (t == 'bool'):
            raise Bad(e)
        return '(!(%s))' % a, t
    assert isinstance(e, Bin), e
    op = e.op
    rel = op in ('<', '>', '<=', '>=')
    eqs = op in ('==', '!=')
    logic = op in ('&&', '||')
    iw = 'none' if rel else None if eqs else 'bool' if logic else want
    try:
        a, ta = ev(e.a, env, iw)
        b, tb = ev(e.b, env, ta)
    except Uninf:
        b, tb = ev(e.b, env, iw)
        a, ta = ev(e.a, env, tb)
    if rel or eqs or logic:
        return co('((%s) %s (%s))' % (a, op, b), 'bool', want)
    if ta not in W:
        raise Bad(e)
    if op in ('&', '|', '^'):
        return '((%s) %s (%s))' % (a, op, b), ta
    m = {'+': 'checked_add', '-': 'checked_sub', '*': 'checked_mul', '/': 'checked_div', '%': 'checked_rem'}
    if op in m:
        return 'ck((%s).%s(%s))' % (a, m[op], b), ta
    s = 'checked_shl' if op == '<<' else 'checked_shr'
    return '{ let v_ = %s; let s_ = %s; if !(((s_) as i128 as u128) < 128u128) { unspec() } ck((v_).%s(s_ as u32)) }' % (a, b, s), ta


class Raw(Expr):
    def __init__(self, c, t):
        self.c, self.t = c, t

    def rs(self, env, want=None):
        return self.c, self.t


def mp(e):
    """text with only the parentheses the precedence of the operators requires -> (text, level)"""
    def at(x, lv):
        s, l = mp(x)
        return s if l >= lv else '(%s)' % s
    if isinstance(e, Tern):
        return '%s ? %s : %s' % (at(e.c, 1), at(e.a, 0), at(e.b, 1)), 0
    if isinstance(e, Bin):
        l = PR[e.op]
        return '%s %s %s' % (at(e.a, l), e.op, at(e.b, l + 1)), l
    if isinstance(e, Elvis):
        return '%s ?: %s' % (at(e.a, 11), at(e.b, 12)), 11
    if isinstance(e, Cast):
        return '%s :> %s' % (at(e.a, 11), e.ty), 11
    if isinstance(e, Un):
        return '%s%s' % (e.op, at(e.a, 12)), 12
    if isinstance(e, Idx):
        return '%s[%s]' % (e.a, mp(e.i)[0]), 13
    if isinstance(e, Call):
        return '%s(%s)' % (e.fn, ', '.join(mp(a)[0] for a in e.args)), 14
    return e.ps(), 14


class X(Expr):
    """an expression printed with minimal parentheses and evaluated as the language says"""
    def __init__(self, e, ty=None):
        self.e, self.ty = e, ty

    def ps(self):
        return mp(self.e)[0]

    def rs(self, env, want=None):
        w = self.ty or want
        c, t = ev(self.e, env, base(w) if isinstance(w, str) else w)
        return c, t


def leaves(e, out=None):
    """names of fields used"""
    out = set() if out is None else out
    if isinstance(e, F):
        out.add(e.n)
    if isinstance(e, Len):
        out.add(e.f)
    if isinstance(e, Mem):
        out.add(e.f)
    if isinstance(e, Idx):
        out.add(e.a)
    for x in e.__dict__.values():
        if isinstance(x, Expr):
            leaves(x, out)
        if isinstance(x, (list, tuple)):
            for y in x:
                if isinstance(y, Expr):
                    leaves(y, out)
    return out
