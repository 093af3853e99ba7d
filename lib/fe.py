"""Front-end harness helpers: program texts with symbolic bytes."""
import os
from drv import *

L = os.path.dirname(os.path.abspath(__file__))


def rs(name):
    return open(os.path.join(L, name)).read()


def text(parts):
    """rust statements building `b: Vec<u8>`; str = literal text; int n = n symbolic ASCII bytes; ('set', 'chars', n) = bytes out of a set;
    ('rng', lo, hi, n)"""
    s = 'let mut b: Vec<u8> = vec![];\n'
    for x in parts:
        if isinstance(x, str):
            s += 'b.extend_from_slice(b"%s");\n' % ''.join('\\x%02x' % c if c < 32 or c > 126 or c in (34, 92) else chr(c) for c in x.encode())
        elif isinstance(x, int):
            s += 'for _ in 0..%d { let c = u8s(); assume(c < 128); b.push(c); }\n' % x
        elif x[0] == 'set':
            s += 'for _ in 0..%d { let c = u8s(); assume(%s); b.push(c); }\n' % (x[2], ' || '.join('c == %d' % ord(c) for c in x[1]))
        elif x[0] == 'rng':
            s += 'for _ in 0..%d { let c = u8s(); assume(c >= %d && c <= %d); b.push(c); }\n' % (x[3], x[1], x[2])
        elif x[0] == 'raw':
            s += x[1] + '\n'
    return s
