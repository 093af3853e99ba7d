"""Arguments: types, functions and transforms of up to three parameters (required and optional, of every order) used with up to four arguments."""
from fe import *

IDS = {1: 'the programs are of the grammar', 2: 'required parameters after optional ones are rejected', 3: 'too few and too many arguments are rejected', 4: 'an argument which does not fit its parameter is rejected',
       5: 'the arguments of a use are the ones given', 6: 'the arguments are in the order in which they are given', 7: 'a use with as many fitting arguments as there are parameters is accepted',
       8: 'the error is the one which applies', 9: 'the error says how many arguments there can be and how many there are', 10: 'the error points at the use', 11: 'the name of the error is the one used', 12: 'the error is of the expected kind'}


def make(tier):
    p = Plan('P31', tier, IDS)
    p.fe = rs('fe_err.rs') + 'use rt::*; use rf::*; use rt_err::*;\n'
    q = tier == 'quick'
    par = 'Par { ty: %s, opt: pick(2) == 1 }'
    tys = '[Ty::U8, Ty::U32, Ty::Bool, Ty::Any][pick(4) as usize]'
    for k in range(9):
        # number and order of parameters and arguments
        p.feh('count_%d' % k, 'let n = pick(4) as usize; let mut ps = vec![]; for _ in 0..n { ps.push(%s); }\nlet g = pick(5) as usize; let gs = vec![0; g];\n%sargs(%d, &ps, &gs, %s);' % (
            par % 'Ty::U8', 'let m = ps.iter().filter(|p| !p.opt).count(); assume(ps[..m].iter().all(|p| !p.opt));\n' if k >= 4 else '', k, 'pick(2) == 1' if k not in (4, 5, 8) else 'true'), (1, 2))
        # kinds of arguments
        p.feh('kind_%d' % k, 'let ps = [Par { ty: %s, opt: false }, Par { ty: %s, opt: true }];\nlet gs: Vec<usize> = (0..1 + pick(2)).map(|_| pick(5) as usize).collect();\nargs(%d, &ps, &gs, true);' % (tys, tys if not q else '[Ty::U8, Ty::Bool][pick(2) as usize]', k), (1, 2))
    p.bounds = ['up to three parameters, each required or optional, of 4 kinds; up to four arguments of 5 kinds, literals of any three digits; 9 places']
    return p
