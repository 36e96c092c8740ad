"""N04: multi-limb integer routines are exact, in both implementations."""
import contract
import fe
import fw
import term as T
import u256
from contract import Contract

SRC = {'common': ('number/mpz_common.cpp', 'port'), 'x64': ('number/mpz_x64.cpp', 'simd')}


def contracts(impl, n):
    w = u256.B[impl]
    B = n * w // 8
    ns = u256.NS[impl]
    K = ('k', T.const(n, 64))
    P = lambda s: ('p', B, s)

    def add(c, s, a, b, cf, k):
        t = T.add(T.add(T.zext(c.rd(a, B), 8 * B + 1), T.zext(c.rd(b, B), 8 * B + 1)), T.zext(T.ext(cf, 0, 1), 8 * B + 1))
        c.wr(s, T.ext(t, 0, 8 * B))
        return T.zext(T.ext(t, 8 * B, 1), 32)

    def sub(c, s, a, b, cf, k):
        t = T.sub(T.sub(T.zext(c.rd(a, B), 8 * B + 1), T.zext(c.rd(b, B), 8 * B + 1)), T.zext(T.ext(cf, 0, 1), 8 * B + 1))
        c.wr(s, T.ext(t, 0, 8 * B))
        return T.sext(T.ext(t, 8 * B, 1), 32)

    def mul(c, s, a, b, k):
        c.wr(s, T.mul(T.zext(c.rd(a, B), 16 * B), T.zext(c.rd(b, B), 16 * B)))

    def bytes_(c, s, a, k):
        c.wr(s, u256.bswap(c.rd(a, B)))
    out = {
        'add_carry': Contract(ns + 'mpz_add_carry', add, [P('S'), P('A'), P('B'), ('k', None), K]),
        'sub_borrow': Contract(ns + 'mpz_sub_borrow', sub, [P('S'), P('A'), P('B'), ('k', None), K]),
        'cmp': Contract(ns + 'mpz_cmp', lambda c, a, b, k: u256.sign3(c.rd(a, B), c.rd(b, B)), [P('A'), P('B'), K]),
        'cpy': Contract(ns + 'mpz_cpy', lambda c, s, a, k: c.wr(s, c.rd(a, B)), [P('S'), P('A'), K]),
        'from_bytes': Contract(ns + 'mpz_from_bytes', bytes_, [P('S'), P('BY'), K], noalias=[0, 1]),
        'to_bytes': Contract(ns + 'mpz_to_bytes', bytes_, [P('BY'), P('A'), K], noalias=[0, 1]),
    }
    if n <= 512 // w:
        out['mul'] = Contract(ns + 'mpz_mul', mul, [('p', 2 * B, 'S'), P('A'), P('B'), K])
    return out


def tasks():
    out = []
    for impl in ('common', 'x64'):
        prog = fe.program([SRC[impl]])
        lib = fe.lazy_shared('mpz' + impl, SRC[impl][1], [SRC[impl][0]])
        for n in range(1, 11 if fw.TIER == "quick" else 13):
            for k, con in contracts(impl, n).items():
                for carry in ((0, 1) if k in ('add_carry', 'sub_borrow') else (None,)):
                    if carry is not None:
                        con = contracts(impl, n)[k]
                        con.params[3] = ('k', T.const(-carry if k == 'sub_borrow' else carry, 32))
                    for asg in con.cases():
                        nm = '%s, %d limbs%s [%s]' % (con.name, n, '' if carry is None else ', carry in %d' % carry, contract.case_name(con, asg))
                        out.append(fw.Task(nm, lambda r, con=con, asg=asg, prog=prog, lib=lib, nm=nm: contract.verify(r, prog, con, asg, lib=lib, name=nm)))
    return out


def main():
    return fw.main('N04', tasks(), trusted=fw.TRUSTED, assumptions=fw.ASSUMPTIONS + [
        'limb counts are concrete (every count up to the bound named in the tasks, products up to 512 bits); all limb values and alias patterns'])
