"""Q02: SM9 point arithmetic in both groups is the group law, scalar multiplication is correct for every scalar."""
import P02
import codec2
import curve
import eclaw
import fw
import scalar
import tower

SRC = 'sm9/sm9_field.cpp'


def tasks():
    out = []
    for prog, lib, tag in P02.progs(SRC, 'sm9ec'):
        c1 = curve.contracts('sm9')
        eclaw.law_tasks(out, eclaw.CURVES['sm9'], prog, c1, lib, tag)
        c2 = dict(c1)
        c2.update({k: v for k, v in tower.contracts().items() if '_fp2_' in k})
        eclaw.law_tasks(out, eclaw.CURVES['sm9b'], prog, c2, lib, tag)
        codec2.tasks(out, prog, lib, tag)
        for k in ('sm9', 'sm9b'):
            scalar.mul_tasks(out, eclaw.CURVES[k], prog, lib, tag)
    return out


def main():
    return fw.main('Q02', tasks(), trusted=fw.TRUSTED, assumptions=fw.ASSUMPTIONS + [
        'points of the twist are in the subgroup of order n where scalars are reduced modulo n'])
