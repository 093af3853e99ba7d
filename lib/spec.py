"""A small spec AST: renders to protospec text and, independently of the code under test, to a Rust
reference codec (fl_/mk_/rd_/wr_ functions) working on a flat value stream."""
import re

W = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'u128': 16, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'i128': 16}


SCALARS = ['u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128', 'u16le', 'u32le', 'u64le', 'u128le', 'i16le', 'i32le', 'i64le', 'i128le']


def base(s):
    return s[:-2] if s.endswith('le') else s


def uns(s):
    return 'u' + s[1:]


# ---------------------------------------------------------------- expressions
KW = ('as break const continue else enum extern false fn for if impl in let loop match mod move mut pub ref return static struct trait true type unsafe use where while '
      'async await dyn abstract become box do final gen macro override priv try typeof unsized virtual yield').split()


def rid(n):
    """the Rust identifier for a name of a specification"""
    return n + '_' if n in ('self', 'Self', 'super', 'crate') else 'r#' + n if n in KW else n


def rawify(s):
    return re.sub(r'\bm::(\w+)(::(\w+))?', lambda m: 'm::' + rid(m[1]) + ('::' + rid(m[3]) if m[3] else ''), s)


class E:
    def ps(self):
        raise NotImplementedError

    def rs(self, env, want=None):
        """-> (rust code, type)"""
        raise NotImplementedError


class I(E):
    def __init__(self, v, ty=None, text=None):
        self.v, self.ty, self.text = v, ty, text

    def ps(self):
        return (self.text or str(self.v)) + (self.ty or '')

    def rs(self, env, want=None):
        t = self.ty or want or 'u64'
        t = base(t)
        return ('(%d%s)' % (self.v, t), t)


class F(E):
    """reference to a field, an argument, or a constant"""
    def __init__(self, n):
        self.n = n

    def ps(self):
        return self.n

    def rs(self, env, want=None):
        return env[self.n]


class B(E):
    def __init__(self, v):
        self.v = v

    def ps(self):
        return 'true' if self.v else 'false'

    def rs(self, env, want=None):
        return (self.ps(), 'bool')


PREC = {'||': 1, '&&': 2, '|': 3, '^': 4, '&': 5, '==': 6, '!=': 6, '<': 7, '>': 7, '<=': 7, '>=': 7,
        '<<': 8, '>>': 8, '+': 9, '-': 9, '*': 10, '/': 10, '%': 10, ':>': 11, '?:': 11, 'un': 12, 'post': 13}


class Bin(E):
    def __init__(self, op, a, b, raw=False):
        self.op, self.a, self.b, self.raw = op, a, b, raw

    def ps(self):
        if self.raw:  # no parentheses: rely on the documented precedence
            return '%s %s %s' % (self.a.ps(), self.op, self.b.ps())
        return '(%s %s %s)' % (self.a.ps(), self.op, self.b.ps())

    def rs(self, env, want=None):
        op = self.op
        cmp = op in ('==', '!=', '<', '>', '<=', '>=')
        w = None if cmp else want
        if op in ('&&', '||'):
            w = 'bool'
        try:
            a, ta = self.a.rs(env, w) if not (isinstance(self.a, I) and self.a.ty is None and w is None) else (None, None)
        except KeyError:
            raise
        if a is None:
            b, tb = self.b.rs(env, w)
            a, ta = self.a.rs(env, tb)
        else:
            b, tb = self.b.rs(env, ta)
        ua, ub = base(ta) if isinstance(ta, str) else ta, base(tb) if isinstance(tb, str) else tb
        if ua in W and ub in W and ua != ub:  # right operand implicitly widened to the left type
            b = '((%s) as %s)' % (b, ua)
        if cmp:
            return ('((%s) %s (%s))' % (a, op, b), 'bool')
        if op in ('&&', '||'):
            return ('((%s) %s (%s))' % (a, op, b), 'bool')
        if op in ('&', '|', '^'):
            return ('((%s) %s (%s))' % (a, op, b), ta)
        m = {'+': 'checked_add', '-': 'checked_sub', '*': 'checked_mul', '/': 'checked_div', '%': 'checked_rem'}
        if op in m:
            return ('ck((%s).%s(%s))' % (a, m[op], b), ta)
        if op in ('<<', '>>'):
            s = 'checked_shl' if op == '<<' else 'checked_shr'
            chk = '((%s) as i128 as u128) < 128' % b
            return ('{ let s_ = %s; let v_ = %s; if !(((s_) as i128 as u128) < 128u128) { unspec() } ck((v_).%s(s_ as u32)) }' % (b, a, s), ta)
        raise Exception(op)


class Elvis(E):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def ps(self):
        return '(%s ?: %s)' % (self.a.ps(), self.b.ps())

    def rs(self, env, want=None):
        a, ta = self.a.rs(env, want)
        assert ta[0] == 'opt', ta
        b, tb = self.b.rs(env, ta[1])
        return ('(match %s { Some(v_) => v_, None => %s })' % (a, b), ta[1])


class Un(E):
    def __init__(self, op, a, raw=False):
        self.op, self.a, self.raw = op, a, raw

    def ps(self):
        if self.raw:
            return '%s%s' % (self.op, self.a.ps())
        return '(%s%s)' % (self.op, self.a.ps())

    def rs(self, env, want=None):
        a, t = self.a.rs(env, want)
        if self.op == '-':
            return ('ck((%s).checked_neg())' % a, t)
        return ('(!(%s))' % a, t)


class Cast(E):
    def __init__(self, a, ty, raw=False):
        self.a, self.ty, self.raw = a, ty, raw

    def ps(self):
        if self.raw:
            return '%s :> %s' % (self.a.ps(), self.ty)
        return '(%s :> %s)' % (self.a.ps(), self.ty)

    def rs(self, env, want=None):
        a, t = self.a.rs(env, None)
        return ('((%s) as %s)' % (a, base(self.ty)), base(self.ty))


class Tern(E):
    def __init__(self, c, a, b, raw=False):
        self.c, self.a, self.b, self.raw = c, a, b, raw

    def ps(self):
        s = '%s ? %s : %s' % (self.c.ps(), self.a.ps(), self.b.ps())
        return s if self.raw else '(%s)' % s

    def rs(self, env, want=None):
        a, ta = self.a.rs(env, want)
        b, tb = self.b.rs(env, ta if want is None else want)
        return ('(if %s { %s } else { %s })' % (self.c.rs(env)[0], a, b), ta)


class Len(E):
    def __init__(self, f, size=None):
        self.f, self.size = f, size

    def ps(self):
        return 'len(%s)' % self.f

    def rs(self, env, want=None):
        v, t = env[self.f]
        if self.size is not None:
            return ('%du64' % self.size, 'u64')
        if isinstance(t, tuple) and t[0] == 'str16':
            return ('(utf16_enc(&utf8_scalars(&%s)).len() as u64)' % v, 'u64')
        if isinstance(t, tuple) and t[0] == 'rep':
            return ('%du64' % W[base(t[1].rep)], 'u64')
        if isinstance(t, str):
            return ('%du64' % (W[base(t)] if base(t) in W else {'f32': 4, 'f64': 8, 'bool': 1}[t]), 'u64')
        return ('((%s).len() as u64)' % v, 'u64')


class Call(E):
    """sum(arr), bits(x), pad(p, b), blen(f)"""
    def __init__(self, fn, *args):
        self.fn, self.args = fn, args

    def ps(self):
        return '%s(%s)' % (self.fn, ', '.join(a.ps() for a in self.args))

    def rs(self, env, want=None):
        if self.fn == 'sum':
            v, t = self.args[0].rs(env)
            return ('{ let mut s_ = 0u64; for x_ in (%s).iter() { s_ = ck(s_.checked_add(*x_ as u64)); } s_ }' % v, 'u64')
        if self.fn == 'bits':
            v, t = self.args[0].rs(env, 'u64')
            return ('{ let v_ = (%s) as u64; let mut n_ = 0u8; let mut i_ = 0; while i_ < 64 { n_ += (v_ >> i_ & 1) as u8; i_ += 1; } n_ }' % v, 'u8')
        if self.fn == 'pad':
            p = self.args[0].rs(env, 'u64')[0]
            b = self.args[1].rs(env, 'u64')[0]
            return ('{ let p_ = (%s) as u64; let b_ = (%s) as u64; if p_ == 0 { unspec() } if b_ %% p_ == 0 { 0u64 } else { p_ - b_ %% p_ } }' % (p, b), 'u64')
        if self.fn == 'blen':
            return ('(blen_%s as u64)' % self.args[0].n, 'u64')
        raise Exception(self.fn)


def has_blen(e):
    if isinstance(e, Call):
        return e.fn == 'blen' or any(has_blen(a) for a in e.args)
    return any(has_blen(x) for x in e.__dict__.values() if isinstance(x, E))


def blen_targets(e):
    r = []
    if isinstance(e, Call) and e.fn == 'blen':
        r.append(e.args[0].n)
    for x in e.__dict__.values():
        if isinstance(x, E):
            r += blen_targets(x)
        if isinstance(x, tuple):
            for y in x:
                if isinstance(y, E):
                    r += blen_targets(y)
    return r


class Mem(E):
    """bitfield member test"""
    def __init__(self, f, flag):
        self.f, self.flag = f, flag

    def ps(self):
        return '%s.%s' % (self.f, self.flag)

    def rs(self, env, want=None):
        v, t = env[self.f]
        d = t[1]
        return ('(((%s) & (%s)) != 0)' % (v, d.lit(self.flag)), 'bool')


class EnumAcc(E):
    def __init__(self, d, var):
        self.d, self.var = d, var

    def ps(self):
        return '%s::%s' % (self.d.name, self.var)

    def rs(self, env, want=None):
        return (self.d.ty.lit(self.var), ('rep', self.d.ty))


class Idx(E):
    def __init__(self, a, i):
        self.a, self.i = a, i

    def ps(self):
        return '%s[%s]' % (self.a, self.i.ps())

    def rs(self, env, want=None):
        v, t = env[self.a]
        return ('(match (%s).get((%s) as usize) { Some(x) => *x, None => unspec() })' % (v, self.i.rs(env, 'u64')[0]), t[1])


# ---------------------------------------------------------------- types
class Ty:
    inline = False

    def rty(self):
        raise NotImplementedError

    def etype(self):
        """expression type of the reference variable"""
        return None


class Sc(Ty):
    def __init__(self, s):
        self.s = s
        self.b = base(s)

    def ps(self):
        return self.s

    def rty(self):
        return self.b

    def etype(self):
        return self.b

    def mk(self, k):
        w = W[self.b]
        return '(u%ds() as %s)' % (8 * w, self.b)

    def fl(self, x):
        return 'ev.push((%s) as %s as u128);' % (x, uns(self.b))

    def take(self):
        return '(e.next() as %s)' % self.b

    def push(self, v):
        return 'nm.push((%s) as %s as u128);' % (v, uns(self.b))

    def wr(self, v, env):
        f = 'ple' if self.s.endswith('le') else 'pbe'
        return '{ let v_ = %s; %s(o, (v_) as %s as u128, %d); v_ }' % (v, f, uns(self.b), W[self.b])

    def rd(self, env):
        f = 'le' if self.s.endswith('le') else 'be'
        return '(c.%s(%d)? as %s)' % (f, W[self.b], self.b)

    def minsz(self):
        return W[self.b]


class Al(Sc):
    """reference to a declared alias of an integer type (or of such an alias): expressions see the integer"""
    def __init__(self, d):
        self.d = d
        Sc.__init__(self, d.ty.s)

    def ps(self):
        return self.d.name

    def mk(self, k):
        return 'm::%s(%s)' % (self.d.name, self.d.ty.mk(k))

    def fl(self, x):
        return self.d.ty.fl('(%s).0' % x)


class Fl(Ty):
    def __init__(self, s):
        self.s = s
        self.u = 'u32' if s == 'f32' else 'u64'

    def ps(self):
        return self.s

    def rty(self):
        return self.s

    def mk(self, k):
        return '%s::from_bits(%ss())' % (self.s, self.u)

    def fl(self, x):
        return 'ev.push((%s).to_bits() as u128);' % x

    def take(self):
        return '(e.next() as %s)' % self.u

    def push(self, v):
        return 'nm.push((%s) as u128);' % v

    def wr(self, v, env):
        return '{ let v_ = %s; pbe(o, v_ as u128, %d); v_ }' % (v, W[self.u])

    def rd(self, env):
        return '(c.be(%d)? as %s)' % (W[self.u], self.u)

    def etype(self):
        return None


class Bo(Ty):
    def ps(self):
        return 'bool'

    def rty(self):
        return 'bool'

    def etype(self):
        return 'bool'

    def mk(self, k):
        return 'bools()'

    def fl(self, x):
        return 'ev.push((%s) as u128);' % x

    def take(self):
        return '(e.next() != 0)'

    def push(self, v):
        return 'nm.push((%s) as u128);' % v

    def wr(self, v, env):
        return '{ let v_ = %s; o.push(if v_ { 1 } else { 0 }); v_ }' % v

    def rd(self, env):
        return '(c.u8()? != 0)'


class Enum(Ty):
    """top level only; items: (name, value|None|'default'), value may be (text,int)"""
    def __init__(self, rep, items):
        self.rep, self.items = rep, items
        self.vals = []
        last, n = None, 0
        for name, v in items:
            if v == 'default':
                self.vals.append((name, 'default'))
                continue
            if v is None:
                v = last + n
                n += 1
            else:
                if isinstance(v, tuple):
                    v = v[1]
                last, n = v, 1
            self.vals.append((name, v))

    def ps(self):
        def it(n, v):
            if v is None:
                return n
            if isinstance(v, tuple):
                return '%s = %s' % (n, v[0])
            return '%s = %s' % (n, v)
        return 'enum %s { %s }' % (self.rep, ', '.join(it(*x) for x in self.items))

    def lit(self, var):
        v = dict(self.vals)[var]
        return '(%d%s)' % (v, base(self.rep))

    def etype(self):
        return ('rep', self)


class Bits(Ty):
    def __init__(self, rep, items):
        self.rep, self.items = rep, items
        self.vals = []
        last, n = None, 0
        for name, v in items:
            if v is None:
                v = last << n
                n += 1
            else:
                if isinstance(v, tuple):
                    v = v[1]
                last, n = v, 1
            self.vals.append((name, v))
        self.all = 0
        for _, v in self.vals:
            self.all |= v

    def ps(self):
        def it(n, v):
            if v is None:
                return n
            if isinstance(v, tuple):
                return '%s = %s' % (n, v[0])
            return '%s = %s' % (n, v)
        return 'bitfield %s { %s }' % (self.rep, ', '.join(it(*x) for x in self.items))

    def lit(self, var):
        v = dict(self.vals)[var]
        return '(%d%s)' % (v, base(self.rep))

    def etype(self):
        return ('rep', self)


class Ref(Ty):
    """reference to a declared type (container, alias, enum, bitfield)"""
    def __init__(self, d, *args):
        self.d, self.args = d, args

    def isrep(self):
        return isinstance(self.d.ty, (Enum, Bits))

    def ps(self):
        return self.d.name + ('(%s)' % ', '.join(a.ps() for a in self.args) if self.args else '')

    def rty(self):
        return 'm::' + self.d.name

    def etype(self):
        return ('rep', self.d.ty) if self.isrep() else None

    def mk(self, k):
        return 'mk_%s(k)' % self.d.name

    def fl(self, x):
        if self.isrep():
            return 'fl_%s(&%s, ev);' % (self.d.name, x)
        return '{ let at_ = ev.len(); ev.push(0); fl_%s(&%s, ev); ev[at_] = (ev.len() - at_ - 1) as u128; }' % (self.d.name, x)

    def take(self):
        if self.isrep():
            return '(e.next() as %s)' % base(self.d.ty.rep)
        return '{ let n_ = e.next() as usize; let v_ = e.e[e.p..e.p + n_].to_vec(); e.p += n_; v_ }'

    def push(self, v):
        if self.isrep():
            return 'nm.push((%s) as %s as u128);' % (v, uns(base(self.d.ty.rep)))
        return '{ nm.push(%s.len() as u128); nm.extend_from_slice(&%s); }' % (v, v)

    def argv(self, env):
        out = ''
        for (n, ty, dv), a in zip(self.d.args, self.args):
            c, t = a.rs(env, ty.etype())
            if isinstance(ty, Sc):
                c = '(%s) as %s' % (c, ty.b)
            out += ', ' + ('Some(%s)' % c if dv is not None else c)
        for (n, ty, dv) in self.d.args[len(self.args):]:
            out += ', None'
        return out

    def wr(self, v, env):
        if self.isrep():
            return '{ let v_ = %s; %s v_ }' % (v if self.d.calc is None else '{ %s; %s }' % (v, self.d.calc.rs({}, self.etype())[0]), self.wrrep())
        return '{ let mut sub_ = vec![]; let v_ = %s; wr_%s(&mut Er::new(&v_), o, &mut sub_%s)?; sub_ }' % (v, self.d.name, self.argv(env))

    def wrrep(self):
        r = self.d.ty.rep
        w = '%s(o, v_ as %s as u128, %d);' % ('ple' if r.endswith('le') else 'pbe', uns(base(r)), W[base(r)])
        return Spec.wr_xf(None, self.d.xf, {}, w) if self.d.xf else w

    def rd(self, env):
        if self.isrep():
            return 'rdrep_%s(c)?' % self.d.name
        return '{ let mut sub_ = vec![]; rd_%s(c, &mut sub_%s)?; sub_ }' % (self.d.name, self.argv(env))


class Rec(Ref):
    """reference of a type to itself, in an array"""
    def mk(self, k):
        return 'mk_%s((k).saturating_sub(1))' % self.d.name


class Arr(Ty):
    """length: E (counted), None (to the end), bytes (terminated)"""
    def __init__(self, el, length):
        self.el, self.len = el, length

    def ps(self):
        if self.len is None:
            l = '..'
        elif isinstance(self.len, bytes):
            l = '.."%s"' % esc(self.len)
        else:
            l = self.len.ps()
        return '%s[%s]' % (self.el.ps(), l)

    def rty(self):
        return 'Vec<%s>' % self.el.rty()

    def etype(self):
        return ('arr', self.el.etype())

    def mk(self, k):
        cap = 'k'
        if isinstance(self.len, I):
            # around the exact length
            n = self.len.v
            return '{ let n_ = [%d, %d, %d][pick(3) as usize]; let mut r_ = Vec::new(); for _ in 0..n_ { r_.push(%s); } r_ }' % (n, max(n - 1, 0), n + 1, self.el.mk(k))
        return '{ let n_ = pick(%s + 1); let mut r_ = Vec::new(); for _ in 0..n_ { r_.push(%s); } r_ }' % (cap, self.el.mk(k))

    def fl(self, x):
        return 'ev.push((%s).len() as u128); for x_ in (%s).iter() { %s }' % (x, x, self.el.fl('(*x_)'))

    def take(self):
        return '{ let n_ = e.next(); let mut r_ = Vec::new(); for _ in 0..n_ { r_.push(%s); } r_ }' % self.el.take()

    def push(self, v):
        return '{ nm.push(%s.len() as u128); for x_ in (%s).iter() { %s } }' % (v, v, self.el.push('(*x_)' if self.el.etype() is not None and not isinstance(self.el, Arr) else '(*x_)'))

    def wr(self, v, env):
        pre = 'let src_ = %s;' % v
        post = ''
        if isinstance(self.len, E):
            pre += ' if (%s) as u128 != src_.len() as u128 { return None; }' % self.len.rs(env, 'u64')[0]
        elif isinstance(self.len, bytes):
            post = 'for b_ in %s { o.push(b_); }' % rbytes(self.len)
        el = self.el.wr('x_', env)
        if not isinstance(self.len, E):   # elements without content leave no trace
            el = '{ let p0_ = o.len(); let y_ = %s; if o.len() == p0_ { unspec() } y_ }' % el
        return '{ %s let mut dst_ = Vec::new(); for x_ in src_ { dst_.push(%s); } %s dst_ }' % (pre, el, post)

    def rd(self, env):
        body = 'r_.push(%s);' % self.el.rd(env)
        if isinstance(self.len, E):
            return ('{ let n_ = (%s) as i128 as u128; let mut r_ = Vec::new(); let mut i_ = 0u128; while i_ < n_ { %s i_ += 1; } r_ }'
                    % (self.len.rs(env, 'u64')[0], body))
        if isinstance(self.len, bytes):
            n = len(self.len)
            return ('{ let mut r_ = Vec::new(); let t_ = %s; loop { if c.left() == 0 { break; } if c.left() >= %d && { let mut d_ = 0u8; let mut i_ = 0; while i_ < %d { d_ |= c.b[c.p + i_] ^ t_[i_]; i_ += 1; } d_ == 0 } { c.p += %d; break; } let p0_ = c.p; %s if c.p == p0_ { return None; } } r_ }'
                    % (rbytes(self.len), n, n, n, body))
        return '{ let mut r_ = Vec::new(); while c.left() > 0 { let p0_ = c.p; %s if c.p == p0_ { return None; } } r_ }' % body


class Var(Ty):
    """v8..v128 (signed values, LEB128 of the two's complement)"""
    def __init__(self, bits):
        self.bits = bits
        self.b = 'i%d' % bits

    def ps(self):
        return 'v%d' % self.bits

    def rty(self):
        return self.b

    def etype(self):
        return self.b

    def mk(self, k):
        return '(u%ds() as %s)' % (self.bits, self.b)

    fl = Sc.fl
    take = Sc.take
    push = Sc.push

    def wr(self, v, env):
        return '{ let v_ = %s; leb_enc(o, v_ as u%d as u128); v_ }' % (v, self.bits)

    def rd(self, env):
        return '(rd_leb(c, %d)? as u%d as i%d)' % (self.bits, self.bits, self.bits)


class Utf8(Ty):
    def __init__(self, length=None):
        self.len = length

    def ps(self):
        return 'utf8' + ('(%s)' % self.len.ps() if self.len is not None else '')

    def rty(self):
        return 'String'

    def etype(self):
        return ('str',)

    def mk(self, k):
        return 'strs(ks, true)'

    def fl(self, x):
        return 'ev.push((%s).len() as u128); for x_ in (%s).as_bytes() { ev.push(*x_ as u128); }' % (x, x)

    def take(self):
        return '{ let n_ = e.next(); let mut r_: Vec<u8> = Vec::new(); for _ in 0..n_ { r_.push(e.next() as u8); } r_ }'

    def push(self, v):
        return '{ nm.push(%s.len() as u128); for x_ in (%s).iter() { nm.push(*x_ as u128); } }' % (v, v)

    def wr(self, v, env):
        if self.len is not None:
            return '{ let v_ = %s; if (%s) as u128 != v_.len() as u128 { return None; } for b_ in v_.iter() { o.push(*b_); } v_ }' % (v, self.len.rs(env, 'u64')[0])
        return '{ let v_ = %s; for b_ in v_.iter() { if *b_ == 0 { return None; } o.push(*b_); } o.push(0u8); v_ }' % v

    def rd(self, env):
        if self.len is not None:
            return '{ let n_ = c.need((%s) as u128)?; let v_ = c.b[c.p..c.p + n_].to_vec(); c.p += n_; if !utf8_ok(&v_) { return None; } v_ }' % self.len.rs(env, 'u64')[0]
        return '{ let mut v_ = Vec::new(); loop { if c.left() == 0 { unspec() } let b_ = c.u8()?; if b_ == 0 { break; } v_.push(b_); } if !utf8_ok(&v_) { return None; } v_ }'


class Utf16(Ty):
    def __init__(self, length):
        self.len = length

    def ps(self):
        return 'utf16(%s)' % self.len.ps()

    def rty(self):
        return 'String'

    def etype(self):
        return ('str16',)

    mk = lambda self, k: 'strs(ks, true)'
    fl = Utf8.fl
    take = Utf8.take
    push = Utf8.push

    def wr(self, v, env):
        return '{ let v_ = %s; let u_ = utf16_enc(&utf8_scalars(&v_)); if (%s) as u128 != u_.len() as u128 { return None; } for x_ in u_.iter() { pbe(o, *x_ as u128, 2); } v_ }' % (v, self.len.rs(env, 'u64')[0])

    def rd(self, env):
        return '{ let n_ = c.need(((%s) as u128) << 1)?; let mut u_: Vec<u16> = Vec::new(); for _ in 0..n_ / 2 { u_.push(c.be(2)? as u16); } match utf16_dec(&u_) { Some(s_) => utf8_of(&s_), None => return None } }' % self.len.rs(env, 'u64')[0]


def esc(b):
    """string literal contents: backslash + two hex digits is the byte, other bytes stand for themselves"""
    o = ''
    for x in b:
        if 32 <= x < 127 and x not in (34, 92):
            o += chr(x)
        else:
            o += '\\%02x' % x
    return o


def rbytes(b):
    return '[%s]' % ', '.join('%du8' % x for x in b)


class Fd:
    def __init__(self, name, ty, cond=None, calc=None, xf=()):
        self.name, self.ty, self.cond, self.calc, self.xf = name, ty, cond, calc, xf
        self.pad = False

    def ps(self):
        s = '%s: %s' % (self.name, self.ty.ps())
        if self.calc is not None:
            s += ' = ' + self.calc.ps()
        if self.cond is not None:
            s += ' { %s }' % self.cond.ps()
        s += xfps(self.xf)
        return s


def xfps(xf):
    s = ''
    for x in xf:
        s += ' -> ' + x[0]
        if x[1] is not None:
            s += '(%s)' % x[1].ps()
        if len(x) > 2 and x[2] is not None:
            s += ' { %s }' % x[2].ps()
    return s


class Pad:
    def __init__(self, e):
        self.e = e
        self.pad = True
        self.name = None
        self.calc = self.cond = None
        self.xf = ()

    def ps(self):
        return '.pad: %s' % self.e.ps()


class Cont(Ty):
    inline = True

    def __init__(self, fields, length=None):
        self.fields, self.length = fields, length

    def ps(self):
        return 'container%s { %s }' % (' [%s]' % self.length.ps() if self.length is not None else '', ', '.join(f.ps() for f in self.fields))


class Tag(Ty):
    """+tagged_enum; variants: Fd with condition (or none: catch-all)"""
    def __init__(self, variants, length=None):
        self.variants = variants
        self.length = length

    def ps(self):
        return 'container%s +tagged_enum { %s }' % (' [%s]' % self.length.ps() if self.length is not None else '', ', '.join(f.ps() for f in self.variants))


class D:
    """declaration; args: [(name, Ty, default E or None)]"""
    def __init__(self, name, ty, args=(), cond=None, xf=(), calc=None):
        self.name, self.ty, self.args, self.cond, self.xf, self.calc = name, ty, list(args), cond, xf, calc

    def ps(self):
        a = ''
        if self.args:
            a = '(%s)' % ', '.join('%s: %s%s' % (n, t.ps(), ' ? ' + d.ps() if d is not None else '') for n, t, d in self.args)
        s = 'type %s%s = %s' % (self.name, a, self.ty.ps())
        if self.calc is not None:
            s += ' = %s' % self.calc.ps()
        if self.cond is not None:
            s += ' { %s }' % self.cond.ps()
        return s + xfps(self.xf) + ';'


class Spec:
    def __init__(self, name, decls, pre='', consts=()):
        self.name, self.decls, self.pre = name, decls, pre
        self.consts = list(consts)   # (name, ty, E)

    def ps(self):
        ffi = set()
        for d in self.decls:
            t = d.ps()
            import re
            for w in ('v8', 'v16', 'v32', 'v64', 'v128', 'utf8', 'utf16'):
                if re.search(r'\b%s\b' % w, t):
                    ffi.add('import_ffi %s as type;' % w)
            for w in ('xorx', 'addx', 'tail', 'fin', 'gzip', 'base64'):
                if re.search(r'-> %s\b' % w, t):
                    ffi.add('import_ffi %s as transform;' % w)
            for w in ('sum', 'bits', 'pad'):
                if re.search(r'(?<!\.)\b%s\(' % w, t):
                    ffi.add('import_ffi %s as function;' % w)
        return '\n'.join(sorted(ffi)) + '\n' + self.pre + '\n' + '\n'.join('const %s: %s = %s;' % (n, t, e.ps()) for n, t, e in self.consts) + '\n' + '\n'.join(d.ps() for d in self.decls) + '\n'

    # ------------------------------------------------------------ Rust reference
    def rust(self):
        out = []
        for d in self.decls:
            out.append(self.decl(d))
        return rawify('\n'.join(out))

    def argsig(self, d, real=False):
        s = ''
        for n, t, dv in d.args:
            rt = t.rty() if not (isinstance(t, Ref) and t.isrep() and not real) else base(t.d.ty.rep)
            s += ', %s: %s' % ('a_' + n, 'Option<%s>' % rt if dv is not None else rt)
        return s

    def argpre(self, d):
        s = ''
        env = {}
        for n, t, e in self.consts:
            env[n] = ('(%s)' % e.rs(env, t)[0], base(t))
        cs = dict(env)
        for n, t, dv in d.args:
            rt = base(t.d.ty.rep) if isinstance(t, Ref) and t.isrep() else t.rty()
            if dv is not None:
                s += 'let a_%s: %s = match a_%s { Some(v) => v, None => %s };\n' % (n, rt, n, dv.rs(cs, t.etype())[0])
            env[n] = ('a_' + n, t.etype())
        return s, env

    def decl(self, d):
        n = d.name
        t = d.ty
        xr = lambda b: b
        if isinstance(t, (Enum, Bits)) and d.xf:
            self.uid = getattr(self, 'uid', 0) + 1
            xu = self.uid
            xr = lambda b: '{ %s let xr_ = %s; %s xr_ }' % (self.rd_xf(d.xf, {}, xu), b, self.rd_xfend(xu))
        if isinstance(t, Enum):
            rep = base(t.rep)
            mk = []
            fl = []
            rd = []
            hasdef = any(v == 'default' for _, v in t.vals)
            for i, (vn, v) in enumerate(t.vals):
                if v == 'default':
                    explicit = ' && '.join('x_ != (%d%s)' % (x, rep) for _, x in t.vals if x != 'default') or 'true'
                    mk.append('%d => { let x_ = u%ds() as %s; assume(%s); m::%s::%s(x_) }' % (i, 8 * W[rep], rep, explicit, n, vn))
                    fl.append('m::%s::%s(x_) => *x_,' % (n, vn))
                else:
                    mk.append('%d => m::%s::%s,' % (i, n, vn))
                    fl.append('m::%s::%s => (%d%s),' % (n, vn, v, rep))
            ok = 'true' if hasdef else ' | '.join('(v_ == (%d%s))' % (v, rep) for _, v in t.vals)
            f = 'le' if t.rep.endswith('le') else 'be'
            return ('fn mk_%s(k: u64) -> m::%s { match pick(%d) { %s _ => unspec() } }\n' % (n, n, len(t.vals), ' '.join(mk))
                    + 'fn repof_%s(v: &m::%s) -> %s { match v { %s } }\n' % (n, n, rep, ' '.join(fl))
                    + 'fn fl_%s(v: &m::%s, ev: &mut Vec<u128>) { ev.push(repof_%s(v) as %s as u128); }\n' % (n, n, n, uns(rep))
                    + 'fn rdrep_%s(c: &mut Rd) -> Option<%s> { let v_ = %s as %s; if %s { Some(v_) } else { None } }\n' % (n, rep, xr('c.%s(%d)?' % (f, W[rep])), rep, ok)
                    + 'fn rd_%s(c: &mut Rd, nm: &mut Vec<u128>) -> Option<()> { let v_ = rdrep_%s(c)?; nm.push(v_ as %s as u128); Some(()) }\n' % (n, n, uns(rep))
                    + 'fn wr_%s(e: &mut Er, o: &mut Vec<u8>, nm: &mut Vec<u128>) -> Option<()> { let v_ = %s; nm.push(v_ as %s as u128); Some(()) }\n' % (n, Ref(d).wr('e.next() as %s' % rep, {}), uns(rep)))
        if isinstance(t, Bits):
            rep = base(t.rep)
            f = 'le' if t.rep.endswith('le') else 'be'
            return ('fn mk_%s(k: u64) -> m::%s { let x_ = u%ds() as %s; assume(x_ & !(%d%s) == 0); m::%s(x_) }\n' % (n, n, 8 * W[rep], rep, t.all, rep, n)
                    + 'fn fl_%s(v: &m::%s, ev: &mut Vec<u128>) { ev.push(v.0 as %s as u128); }\n' % (n, n, uns(rep))
                    + 'fn rdrep_%s(c: &mut Rd) -> Option<%s> { let v_ = %s as %s; if v_ & !(%d%s) == 0 { Some(v_) } else { None } }\n' % (n, rep, xr('c.%s(%d)?' % (f, W[rep])), rep, t.all, rep)
                    + 'fn rd_%s(c: &mut Rd, nm: &mut Vec<u128>) -> Option<()> { let v_ = rdrep_%s(c)?; nm.push(v_ as %s as u128); Some(()) }\n' % (n, n, uns(rep))
                    + 'fn wr_%s(e: &mut Er, o: &mut Vec<u8>, nm: &mut Vec<u128>) -> Option<()> { let v_ = %s; nm.push(v_ as %s as u128); Some(()) }\n' % (n, Ref(d).wr('e.next() as %s' % rep, {}), uns(rep)))
        pre, env0 = self.argpre(d)
        sig = self.argsig(d)
        if isinstance(t, Cont):
            mk = 'm::%s { %s }' % (n, ', '.join('%s: %s' % (rid(f.name), self.mkfield(f, oc)) for f, oc in flat(t)))
            fl = ''.join(self.flfield(f, oc, 'v.%s' % rid(f.name)) for f, oc in flat(t))
            rd = self.rd_cont(t, dict(env0), top=True, xf=d.xf)
            wr = self.wr_cont_top(t, dict(env0), xf=d.xf)
        elif isinstance(t, Tag):
            mk, fl, rd, wr = self.tag(d, dict(env0))
        else:
            # tuple struct
            opt = d.cond is not None
            mkv = t.mk('k')
            mk = 'm::%s(%s)' % (n, 'if pick(2) == 1 { Some(%s) } else { None }' % mkv if opt else mkv)
            f = Fd('v', t, d.cond, d.calc, d.xf)
            fl = self.flfield(f, False, 'v.0')
            c = Cont([f])
            rd = self.rd_cont(c, dict(env0), top=True)
            wr = self.wr_cont_top(c, dict(env0))
        return ('fn mk_%s(k: u64) -> m::%s { let ks = k + 1; %s }\n' % (n, n, mk)
                + 'fn fl_%s(v: &m::%s, ev: &mut Vec<u128>) { %s }\n' % (n, n, fl)
                + 'fn rd_%s(c: &mut Rd, nm: &mut Vec<u128>%s) -> Option<()> { %s %s Some(()) }\n' % (n, sig, pre, rd)
                + 'fn wr_%s(e: &mut Er, o: &mut Vec<u8>, nm: &mut Vec<u128>%s) -> Option<()> { %s %s Some(()) }\n' % (n, sig, pre, wr))

    def mkfield(self, f, oc):
        v = f.ty.mk('k')
        if oc or f.cond is not None:
            return 'if pick(2) == 1 { Some(%s) } else { None }' % v
        return v

    def flfield(self, f, oc, x):
        if oc or f.cond is not None:
            return 'match &%s { Some(o_) => { ev.push(1); %s } None => { ev.push(0); } }\n' % (x, f.ty.fl('(*o_)'))
        return f.ty.fl(x) + '\n'

    # reading: values are pushed in flatten order
    def rd_cont(self, t, env, top=False, xf=(), oc=False):
        s = ''
        self.uid = getattr(self, 'uid', 0) + 1
        u = self.uid
        if xf:
            s += self.rd_xf(xf, env, u)
        if t.length is not None:
            s += 'let (lim_, short%d_) = match c.need((%s) as i128 as u128) { Some(v) => (v, false), None => (c.left(), true) }; let end%d_ = c.end; c.end = c.p + lim_;\n' % (u, t.length.rs(env, 'u64')[0], u)
        for f in t.fields:
            if f.pad:
                s += '{ let n_ = c.need((%s) as i128 as u128)?; c.p += n_; }\n' % f.e.rs(env, 'u64')[0]
                continue
            if isinstance(f.ty, Cont):
                if f.cond is not None:
                    names = [g for g, _ in flat(f.ty)]
                    s += 'if %s {\n' % f.cond.rs(env)[0]
                    s += '{ let save_ = c.end;' + self.rd_cont(f.ty, dict(env), xf=f.xf, oc=True) + 'c.end = save_; }\n'
                    s += '} else { %s }\n' % ''.join('nm.push(0);' for g in names)
                else:
                    # scope: inner fields stay visible
                    s += self.rd_cont(f.ty, env, xf=f.xf, oc=oc)
                continue
            v = 'f_' + f.name
            body = f.ty.rd(env)
            if f.xf:
                self.uid = getattr(self, 'uid', 0) + 1
                xu = self.uid
                body = '{ %s let xr_ = %s; %s xr_ }' % (self.rd_xf(f.xf, env, xu), body, self.rd_xfend(xu))
            if f.cond is not None:
                s += 'let %s = if %s { Some(%s) } else { None };\n' % (v, f.cond.rs(env)[0], body)
                s += 'match &%s { Some(o_) => { nm.push(1); let o_ = o_.clone(); %s } None => nm.push(0) }\n' % (v, f.ty.push('o_'))
                env[f.name] = (v + ('.clone()' if not copyable(f.ty) else ''), ('opt', f.ty.etype()))
            else:
                s += 'let %s = %s;\n' % (v, body)
                if oc:
                    s += 'nm.push(1);'
                s += f.ty.push(v) + '\n'
                env[f.name] = (v, f.ty.etype())
        if t.length is not None:
            s += 'if short%d_ || c.p != c.end { unspec() } c.end = end%d_;\n' % (u, u)
        if xf:
            s += self.rd_xfend(u)
        return s

    def rd_xf(self, xf, env, u):
        """shadow `c` by a reader over the inversely transformed rest of the stream; transforms apply left to right on writing"""
        s = 'let mut xb%d_: Vec<u8> = c.b[c.p..c.end].to_vec(); let mut xall%d_ = false; let mut xbad%d_ = false;\n' % (u, u, u)
        for x in reversed(xf):
            k = '(%s) as u8' % x[1].rs(env, 'u8')[0] if x[1] is not None else '0u8'
            o = {'xorx': 'let k_ = %s; for x_ in xb%d_.iter_mut() { *x_ ^= k_ }' % (k, u),
                 'addx': 'let k_ = %s; for x_ in xb%d_.iter_mut() { *x_ = x_.wrapping_sub(k_) }' % (k, u),
                 **dict.fromkeys(('tail', 'fin'), 'if fork(xb%d_.last() == Some(&0xa5)) { xb%d_.pop(); } else { xbad%d_ = true; } xall%d_ = true;' % (u, u, u, u))}[x[0]]
            c = x[2].rs(env)[0] if len(x) > 2 and x[2] is not None else None
            s += ('if fork(%s) { %s }\n' % (c, o)) if c else '{ %s }\n' % o
        s += 'if xbad%d_ { return None; } let mut xc%d_ = Rd::new(&xb%d_); let xo%d_ = &mut *c; let c = &mut xc%d_;\n' % (u, u, u, u, u)
        return s

    def rd_xfend(self, u):
        return 'let xu%d_ = c.p; let c = xo%d_; if xall%d_ { c.p = c.end } else { c.p += xu%d_ }\n' % (u, u, u, u)

    def wr_xf(self, xf, env, inner):
        s = '{ let mut xt_: Vec<u8> = vec![]; { let o = &mut xt_; %s }\n' % inner
        for x in xf:
            k = '(%s) as u8' % x[1].rs(env, 'u8')[0] if x[1] is not None else '0u8'
            o = {'xorx': 'let k_ = %s; for x_ in xt_.iter_mut() { *x_ ^= k_ }' % k,
                 'addx': 'let k_ = %s; for x_ in xt_.iter_mut() { *x_ = x_.wrapping_add(k_) }' % k,
                 **dict.fromkeys(('tail', 'fin'), 'xt_.push(0xa5);')}[x[0]]
            c = x[2].rs(env)[0] if len(x) > 2 and x[2] is not None else None
            s += ('if fork(%s) { %s }\n' % (c, o)) if c else '{ %s }\n' % o
        return s + 'o.extend_from_slice(&xt_); }\n'

    # writing
    def wr_cont_top(self, t, env, xf=()):
        s = ''
        # pass 1: take everything
        for f, oc in flat(t):
            v = 'f_' + f.name
            if oc or f.cond is not None:
                s += 'let %s = if e.next() != 0 { Some(%s) } else { None };\n' % (v, f.ty.take())
                env[f.name] = (v + ('.clone()' if not copyable(f.ty) else ''), ('opt', f.ty.etype()))
            else:
                s += 'let %s = %s;\n' % (v, f.ty.take())
                env[f.name] = (v, f.ty.etype())
        s += self.calcs(t, env)
        s += self.wr_xf(xf, env, self.wr_items(t, env, False)) if xf else self.wr_items(t, env, False)
        return s

    def calcs(self, t, env):
        s = ''
        for f in uncond(t):
            if f.calc is not None and not has_blen(f.calc):
                c, ct = f.calc.rs(env, f.ty.etype())
                s += 'let f_%s = (%s)%s;\n' % (f.name, c, ' as %s' % f.ty.b if isinstance(f.ty, Sc) else '')
                env[f.name] = ('f_' + f.name, f.ty.etype())
        # blen: later fields first
        bl = [(f, c) for f, c in uncond(t, True) if f.calc is not None and has_blen(f.calc)]
        for f, inner in reversed(bl):
            for tg in blen_targets(f.calc):
                g = find(inner, tg)
                self.nolen = g.ty
                s += 'let blen_%s = { let mut tmp_: Vec<u8> = vec![]; let mut tn_: Vec<u128> = vec![]; { let o = &mut tmp_; let nm = &mut tn_; %s } tmp_.len() };\n' % (tg, self.wr_field(g, dict(env), False))
            c, ct = f.calc.rs(env, f.ty.etype())
            s += 'let f_%s = (%s)%s;\n' % (f.name, c, ' as %s' % f.ty.b if isinstance(f.ty, Sc) else '')
            env[f.name] = ('f_' + f.name, f.ty.etype())
        return s

    def wr_items(self, t, env, oc):
        s = ''
        self.uid = getattr(self, 'uid', 0) + 1
        u = self.uid
        # the length is not there yet while a blen() of the container is computed
        length = t.length is not None and t is not getattr(self, 'nolen', None)
        self.nolen = None
        if length:
            s += 'let o%d_ = o.len();\n' % u
        for f in t.fields:
            s += self.wr_field(f, env, oc)
        if length:
            s += 'if (o.len() - o%d_) as u128 != (%s) as i128 as u128 { unspec() }\n' % (u, t.length.rs(env, 'u64')[0])
        return s

    def wr_field(self, f, env, oc):
        if not f.pad and f.xf:
            import copy
            g = copy.copy(f)
            g.xf = ()
            if f.cond is not None:   # arguments and conditions of transforms are only evaluated when the field is there
                h = copy.copy(g)
                h.cond = None
                if isinstance(f.ty, Cont):
                    raise Exception('conditional transformed containers are not modelled')
                v = 'f_' + f.name
                return 'if %s { %s nm.push(1); %s } else { nm.push(0); }\n' % (
                    f.cond.rs(env)[0], 'let v_ = %s%s;' % (v, '.clone()?' if f.calc is None else '.clone()'),
                    self.wr_xf(f.xf, env, 'let n_ = %s; %s' % (f.ty.wr('v_', env), f.ty.push('n_'))))
            return self.wr_xf(f.xf, env, self.wr_field(g, env, oc))
        if f.pad:
            return '{ let n_ = (%s) as u64; if n_ > 64 { unspec() } for _ in 0..n_ { o.push(0u8); } }\n' % f.e.rs(env, 'u64')[0]
        if isinstance(f.ty, Cont):
            if f.cond is not None:
                env2 = dict(env)
                s = 'if %s {\n' % f.cond.rs(env)[0]
                for g, goc in flat(f.ty):
                    if g.cond is None and g.calc is None and not goc:
                        s += 'let f_%s = f_%s.clone()?;\n' % (g.name, g.name)
                        env2[g.name] = ('f_' + g.name, g.ty.etype())
                s += self.calcs(f.ty, env2)
                s += self.wr_items(f.ty, env2, True)
                s += '} else { %s }\n' % ''.join('nm.push(0);' for g in flat(f.ty))
                return s
            if f.ty.length is not None:
                return '{ %s }\n' % self.wr_items(f.ty, env, oc)
            return self.wr_items(f.ty, env, oc)
        v = 'f_' + f.name
        s = ''
        if f.cond is not None:
            s += 'if %s { %s let n_ = %s; nm.push(1); %s } else { nm.push(0); }\n' % (
                f.cond.rs(env)[0],
                'let v_ = %s%s;' % (v, '.clone()?' if f.calc is None else '.clone()'),
                f.ty.wr('v_', env), f.ty.push('n_'))
            return s
        s += '{ let n_ = %s; %s %s }\n' % (f.ty.wr(v + '.clone()', env), 'nm.push(1);' if oc else '', f.ty.push('n_'))
        return s

    def tag(self, d, env):
        t = d.ty
        n = d.name
        mk, fl, rd, wr = [], [], '', ''
        done, wdone = '', ''
        if t.length is not None:
            le = t.length.rs(env, 'u64')[0]
            rd += 'let lim_ = c.need((%s) as i128 as u128); let (lim_, short_) = match lim_ { Some(v) => (v, false), None => (c.left(), true) }; let end0_ = c.end; c.end = c.p + lim_;\n' % le
            done = 'if short_ || c.p != c.end { unspec() } c.end = end0_;'
            wr += 'let o0_ = o.len();\n'
            wdone = 'if (o.len() - o0_) as u128 != (%s) as i128 as u128 { unspec() }' % le
        for i, f in enumerate(t.variants):
            if isinstance(f.ty, Cont):
                mk.append('%d => m::%s::%s { %s },' % (i, n, f.name, ', '.join('%s: %s' % (rid(g.name), self.mkfield(g, oc)) for g, oc in flat(f.ty))))
                names = ', '.join(rid(g.name) for g, _ in flat(f.ty))
                fl.append('m::%s::%s { %s } => { ev.push(%d); %s }' % (n, f.name, names, i, ''.join(self.flfield(g, oc, '(*%s)' % rid(g.name)) for g, oc in flat(f.ty))))
                r = 'nm.push(%d); %s %s return Some(());' % (i, self.rd_cont(f.ty, dict(env), xf=f.xf), done)
                w = 'if tag_ != %d { return None; } nm.push(%d); %s %s return Some(());' % (i, i, self.wr_cont_top(f.ty, dict(env), xf=f.xf), wdone)
            else:
                mk.append('%d => m::%s::%s(%s),' % (i, n, f.name, f.ty.mk('k')))
                fl.append('m::%s::%s(x_) => { ev.push(%d); %s }' % (n, f.name, i, f.ty.fl('(*x_)')))
                body = f.ty.rd(env)
                if f.xf:
                    self.uid = getattr(self, 'uid', 0) + 1
                    xu = self.uid
                    body = '{ %s let xr_ = %s; %s xr_ }' % (self.rd_xf(f.xf, env, xu), body, self.rd_xfend(xu))
                r = 'nm.push(%d); let v_ = %s; %s %s return Some(());' % (i, body, f.ty.push('v_'), done)
                ca = ''
                if f.calc is not None:
                    ca = 'let v_ = (%s)%s;' % (f.calc.rs(env, f.ty.etype())[0], ' as %s' % f.ty.b if isinstance(f.ty, Sc) else '')
                wv = 'let n_ = %s; %s' % (f.ty.wr('v_', env), f.ty.push('n_'))
                if f.xf:
                    wv = self.wr_xf(f.xf, env, wv)
                w = 'if tag_ != %d { return None; } nm.push(%d); let v_ = %s; %s %s %s return Some(());' % (i, i, f.ty.take(), ca, wv, wdone)
            if f.cond is not None:
                c = f.cond.rs(env)[0]
                rd += 'if %s { %s }\n' % (c, r)
                wr += 'if %s { %s }\n' % (c, w)
            else:
                rd += '{ %s }\n' % r
                wr += '{ %s }\n' % w
        catchall = t.variants[-1].cond is None
        if not catchall:
            rd += 'return None;'
            wr += 'return None;'
        return ('match pick(%d) { %s _ => unspec() }' % (len(t.variants), ' '.join(mk)),
                'match v { %s }' % ' '.join(fl), rd, 'let tag_ = e.next() as u64;\n' + wr)


def copyable(t):
    return isinstance(t, (Sc, Bo, Fl, Var)) or (isinstance(t, Ref) and t.isrep())


def flat(t, oc=False):
    r = []
    for f in t.fields:
        if f.pad:
            continue
        if isinstance(f.ty, Cont):
            r += flat(f.ty, oc or f.cond is not None)
        else:
            r.append((f, oc))
    return r


def uncond(t, of=False):
    """fields which are not in a conditional container (and the container each is in)"""
    r = []
    for f in t.fields:
        if f.pad:
            continue
        if isinstance(f.ty, Cont):
            if f.cond is None:
                r += uncond(f.ty, of)
        else:
            r.append((f, t) if of else f)
    return r


def find(t, name):
    for f in t.fields:
        if f.name == name:
            return f
        if isinstance(getattr(f, 'ty', None), Cont):
            g = find(f.ty, name)
            if g:
                return g
    return None
