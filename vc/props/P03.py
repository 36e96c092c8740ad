"""P03: SM2 scalar multiplication is correct for every scalar."""
import P02
import curve
import eclaw
import fw
import scalar


def tasks():
    out = []
    for prog, lib, tag in P02.progs(P02.SRC, 'sm2ec'):
        eclaw.law_tasks(out, eclaw.CURVES['sm2'], prog, curve.contracts('sm2'), lib, tag)
        scalar.mul_tasks(out, eclaw.CURVES['sm2'], prog, lib, tag)
    return out


def main():
    return fw.main('P03', tasks(), trusted=fw.TRUSTED, assumptions=fw.ASSUMPTIONS)
