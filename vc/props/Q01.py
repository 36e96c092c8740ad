"""Q01: the degree 2, 4 and 12 extensions."""
import contract
import curve
import fe
import fw
import mont
import term as T
import tower
from u256 import bswap
from N02 import U, M

SRC = 'sm9/sm9_field.cpp'
NUM = ['number/uint256_common.cpp', 'number/mont256_common.cpp', 'number/uint256_x64.cpp', 'number/mont256_x64.cpp']


def callees_for(fn, TC):
    """fp12 functions are verified against fp4/fp2/fp contracts, and so on"""
    lay = fn.split('sm9_')[1].split('_')[0]
    order = ['fp2', 'fp4', 'fp12']
    low = order[:order.index(lay)]
    C = dict(curve.contracts('sm9'))
    for k, v in TC.items():
        if k.split('sm9_')[1].split('_')[0] in low or k.endswith('_conjugate'):
            C[k] = v
    if lay == 'fp12':
        for k in ('mul', 'cpy', 'set_zero', 'set_one', 'equal_zero', 'sqr'):
            n = tower.PRE + 'fp12_' + k
            if fn != n and not (fn.endswith('_mul') and k == 'sqr'):
                C[n] = TC[n]
    C.pop(fn, None)
    return C


def tasks():
    out = []
    TC = tower.contracts()
    spec = [(SRC, 'simd')]
    if not fe.same_ir((SRC, 'simd'), (SRC, 'port')):
        spec2 = [(SRC, 'port')]
    else:
        spec2 = None
    ufs = dict(mont.UFS, **tower.UFS)
    for sp in [spec] + ([spec2] if spec2 else []):
        prog = fe.program(sp)
        cfg = sp[0][1]
        lib = fe.lazy_shared('sm9' + cfg, cfg, NUM + [SRC], statics=True)
        for name, con in TC.items():
            if name not in prog.by_short:
                continue
            for asg in con.cases():
                nm = '%s [%s]%s' % (name, contract.case_name(con, asg), '' if spec2 is None else ' ' + cfg)

                def run(r, con=con, asg=asg, prog=prog, lib=lib, nm=nm, name=name):
                    lay = {'fp2': 'f2', 'fp4': 'f4', 'fp12': 'f12'}[name.split('sm9_')[1].split('_')[0]]
                    byt = name.endswith('_bytes')
                    be = None if byt or 'equal' in name else tower.inv_backend(lay) if name.endswith('_inv') else tower.poly_backend()
                    contract.verify(r, prog, con, asg, callees=callees_for(name, TC), lib=lib, ufs=ufs, name=nm, tries=12,
                                    goal_backend=be, backends=('smt',))
                out.append(fw.Task(nm, run))
        pow_tasks(out, prog, lib, TC, ufs, '' if spec2 is None else ' ' + cfg)
    return out


def pow_contract(k):
    """exponent with exactly k leading zero bytes (k = 32: zero)"""
    n = 32 - k
    ev = T.const(0, 256) if n == 0 else T.zext(T.var('EX', 8 * n, 1 << (8 * n - 8)), 256)

    def body(c, s, a, e):
        x = c.rd(a, 384)
        tower.below(c, x, 'base')
        v = bswap(c.rd(e, 32))
        if v.op == 'c' and v.aux == 0:
            c.pre(T.ne(x, T.const(0, 3072)), 'base or exponent is not zero')
            c.wr(s, tower.ONE[12])
        else:
            c.wr(s, T.ite(T.eq(x, T.const(0, 3072)), T.const(0, 3072), tower.elem('pow', 'f12', x, v)))
    con = contract.Contract(tower.PRE + 'fp12_pow', body, [('p', 384, 'S'), ('p', 384, 'A', tower.evar('A', 12)), ('p', 32, 'E', bswap(ev))], noalias=[2])
    con.exponent = ev
    return con


def pow_tasks(out, prog, lib, TC, ufs, tag):
    for k in range(33):
        con = pow_contract(k)
        for asg in con.cases():
            if asg[1] != 1 and k not in (0, 31, 32):
                continue
            nm = '%s %d leading zero bytes [%s]%s' % (con.name, k, contract.case_name(con, asg), tag)

            def run(r, con=con, asg=asg, nm=nm, k=k):
                base = tower.evar('A', 12) if asg[1] == 1 else tower.evar('A', 12)
                callees = callees_for(con.name, TC)
                callees.update(tower.pow_handlers(base))
                contract.verify(r, prog, con, asg, callees=callees, lib=lib, ufs=ufs, name=nm, tries=2, backends=('smt',),
                                goal_backend=tower.same_power(base, con.exponent))
            out.append(fw.Task(nm, run))


def main():
    return fw.main('Q01', tasks(), trusted=fw.TRUSTED, assumptions=fw.ASSUMPTIONS)
