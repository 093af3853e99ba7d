"""Typing: expressions built over an environment of every kind of type, in every position that expects a type, against a reference type
checker written from the rules (widening keeps the sign, conditions are bool, lengths are u64, operands agree, literals take the type expected)."""
from fe import *

IDS = {1: 'a program of the language does not parse', 2: 'a well-typed expression is rejected', 3: 'an ill-typed expression is accepted'}
NP = 29
REL = ['<', '>', '<=', '>=', '==', '!=']
AR = ['+', '-', '*', '/', '%', '<<', '>>', '>>>', '&', '|', '^']
NM = {'<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge', '==': 'eq', '!=': 'ne', '+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': 'rem', '<<': 'shl', '>>': 'shr', '>>>': 'shrs',
      '&': 'and', '|': 'or', '^': 'xor', '&&': 'land', '||': 'lor', '?:': 'elvis'}


def make(tier):
    p = Plan('P23', tier, IDS)
    p.fe = rs('fe_type.rs') + 'use rt::*; use rf::*; use rt_type::*;\n'
    q = tier == 'quick'
    N, ALL = 12, 39

    def t(name, pos, e, covers=(1, 2), **k):
        pos = 'pick(%d) as usize' % NP if pos is None else '[%s][pick(%d) as usize]' % (', '.join(map(str, pos)), len(pos)) if len(pos) > 1 else str(pos[0])
        p.feh('t_' + name, 'let pos = %s;\nlet e = %s;\nexpect_type(&e, pos);' % (pos, e), covers, **k)
    for i in range(NP):
        t('atom_%d' % i, [i], 'atom(%d)' % ALL)
    n = N if q else ALL
    for o in REL:
        t('rel_' + NM[o], [0], 'Ex::Bin("%s", b(atom(%d)), b(atom(%d)))' % (o, n, n))
    t('rel_pos', [1, 2, 4], 'Ex::Bin("<", b(atom(%d)), b(atom(%d)))' % (6, 6))
    for o in ['&&', '||']:
        t('log_' + NM[o], [0], 'Ex::Bin("%s", b(atom(%d)), b(atom(%d)))' % (o, n, n))
    for o in AR:
        t('ar_' + NM[o], [1, 7] if q else [1, 3, 4, 7], 'Ex::Bin("%s", b(atom(%d)), b(atom(%d)))' % (o, N, N))
        t('ar2_' + NM[o], [0], 'Ex::Bin("==", b(Ex::Bin("%s", b(atom(%d)), b(atom(%d)))), b(Ex::A([0, 1, 2, 4, 12][pick(5) as usize])))' % (o, 6 if q else N, 6 if q else N))
    t('wide', [0, 1, 4], 'Ex::Bin("+", b(Ex::A(12 + pick(7) as usize)), b(Ex::A(12 + pick(7) as usize)))', (2,) if 0 else (1, 2))
    t('wide_rel', [0], 'Ex::Bin("<", b(Ex::A(12 + pick(25) as usize)), b(Ex::A(12 + pick(25) as usize)))')
    for o in ['!', '-', '~']:
        t('un_' + {'!': 'not', '-': 'neg', '~': 'bnot'}[o], [0, 1, 2, 3, 12], 'Ex::Un("%s", b(atom(%d)))' % (o, ALL))
        t('un2_' + {'!': 'not', '-': 'neg', '~': 'bnot'}[o], [0], 'Ex::Bin(["==", "<", "&&"][pick(3) as usize], b(Ex::Un("%s", b(atom(%d)))), b(atom(%d)))' % (o, N, 6))
    t('tern', [1, 2], 'Ex::Tern(b(Ex::A([2, 3, 11, 21][pick(4) as usize])), b(atom(%d)), b(atom(%d)))' % (N, N))
    t('tern2', [0], 'Ex::Bin("==", b(Ex::Tern(b(Ex::A(2)), b(atom(%d)), b(atom(%d)))), b(atom(6)))' % (6 if q else N, 6 if q else N))
    t('cast', [0], 'Ex::Bin("==", b(Ex::Cast(b(atom(%d)), pick(8) as usize)), b(Ex::A([0, 1, 2, 3, 5][pick(5) as usize])))' % ALL)
    t('cast_rich', list(range(21, 29)), 'Ex::Cast(b(atom(%d)), pick(8) as usize)' % ALL)
    t('tern_rich', list(range(21, 29)), 'Ex::Tern(b(Ex::A(2)), b(Ex::A([8, 9, 27, 28, 30, 34, 37, 38][pick(8) as usize])), b(Ex::A([0, 3, 8, 9, 27, 28, 30, 34, 37, 38][pick(10) as usize])))')
    t('cast_to', [1, 2, 3, 4], 'Ex::Cast(b(atom(%d)), pick(8) as usize)' % N)
    t('idx', [0, 1, 7], 'Ex::Idx(b(Ex::A([2, 3, 8, 27, 11][pick(5) as usize])), b(atom(%d)))' % ALL)
    t('idx2', [0], 'Ex::Bin("==", b(Ex::Idx(b(Ex::A([8, 27][pick(2) as usize])), b(Ex::A([0, 3][pick(2) as usize])))), b(atom(%d)))' % ALL)
    t('mem', [0, 1, 2], 'Ex::Mem(b(Ex::A([2, 3, 6, 7, 8, 11, 31, 34][pick(8) as usize])), ["f", "g", "h"][pick(3) as usize])')
    t('pad', [1, 4, 5], 'Ex::Call("pad", (0..1 + pick(3)).map(|_| atom(%d)).collect())' % 6)
    t('bits', [1, 2, 3, 4, 7], 'Ex::Call("bits", (0..pick(3)).map(|_| atom(%d)).collect())' % N)
    t('elvis', [0, 1], 'Ex::Bin("==", b(Ex::Bin("?:", b(Ex::A(29)), b(atom(%d)))), b(atom(6)))' % ALL)
    t('elvis2', [1, 3, 7], 'Ex::Bin("?:", b(Ex::A(29)), b(atom(%d)))' % ALL)
    # numbers of any digits near the limits of every type, where every type is expected
    PT = [1, 3, 8, 9, 10, 11, 12, 13, 14, 15, 7, 4]
    SZ = [0, 5] if q else range(10)
    for s in range(10):
        t('lit_%d' % s, PT, 'lit(%d, false, None)' % s)
        if not q or s % 3 == 0:
            t('lithex_%d' % s, PT, 'lit(%d, true, None)' % s)
        t('litsfx_%d' % s, PT, 'lit(%d, false, Some(%d))' % (s, s))
    for s in SZ:
        t('lit_cmp_%d' % s, [0], 'Ex::Bin(["==", "<"][pick(2) as usize], b(Ex::A([3, 4, 5, 13, 17][pick(5) as usize])), b(lit(%d, false, None)))' % s)
        t('lit_cmp2_%d' % s, [0], 'Ex::Bin("<", b(lit(%d, false, None)), b(Ex::A([3, 4, 5, 13, 17][pick(5) as usize])))' % s)
        t('lit_add_%d' % s, PT, 'Ex::Bin("+", b(Ex::A(if pick(2) == 0 { 3 } else { 5 })), b(lit(%d, false, None)))' % s)
        t('lit_neg_%d' % s, PT, 'Ex::Un("-", b(lit(%d, false, None)))' % s)
        t('lit_tern_%d' % s, [1, 8, 12, 14], 'Ex::Tern(b(Ex::A(2)), b(Ex::A(0)), b(lit(%d, false, None)))' % s)
        t('lit_idx_%d' % s, [1, 8], 'Ex::Idx(b(Ex::A(8)), b(lit(%d, false, None)))' % s, (1,))
        t('lit_elvis_%d' % s, [8, 9], 'Ex::Bin("?:", b(Ex::A(29)), b(lit(%d, false, None)))' % s)
    m = 4 if q else 8
    t('deep', [0], 'Ex::Bin(["&&", "||"][pick(2) as usize], b(Ex::Bin(["<", "=="][pick(2) as usize], b(atom(%d)), b(atom(%d)))), b(Ex::Bin(["!=", "+"][pick(2) as usize], b(atom(%d)), b(atom(%d)))))' % (m, m, m, m))
    p.bounds = ['expressions of up to 2 operators over %d operands (literals, fields of every kind, constants, arguments, enum members, calls), %d positions; combinations whose typing is not documented (arithmetic on non-numbers, text, floats as operands) are only required not to panic' % (ALL, NP)]
    return p
