"""N01: 256-bit integer arithmetic is exact in both implementations."""
import fe
import fw
import contract
import u256

SRC = {'common': ('number/uint256_common.cpp', 'port'), 'x64': ('number/uint256_x64.cpp', 'simd')}


def tasks():
    out = []
    for impl in ('common', 'x64'):
        prog = fe.program([SRC[impl]])
        C = u256.contracts(impl)
        lib = fe.lazy_shared('u256' + impl, SRC[impl][1], [SRC[impl][0]])
        for name, con in C.items():
            if name.split('::')[-1] in u256.N05:
                continue
            for asg in con.cases():
                out.append(fw.Task('%s [%s]' % (name, contract.case_name(con, asg)),
                                   lambda r, con=con, asg=asg, prog=prog, C=C, lib=lib: contract.verify(r, prog, con, asg, callees=C, lib=lib)))
    return out


def main():
    return fw.main('N01', tasks(), trusted=fw.TRUSTED, assumptions=fw.ASSUMPTIONS)
