"""P02: SM2 point arithmetic is the group law."""
import curve
import eclaw
import fe
import fw

SRC = 'sm2/sm2p256v1.cpp'
NUM = ['number/uint256_common.cpp', 'number/mont256_common.cpp', 'number/uint256_x64.cpp', 'number/mont256_x64.cpp']


def progs(src, lib):
    """(program, library) for each build configuration that compiles to different code"""
    out = []
    for cfg in ('simd', 'port'):
        if cfg == 'port' and fe.same_ir((src, 'simd'), (src, 'port')):
            continue
        out.append((fe.program([(src, cfg)]), fe.lazy_shared(lib + cfg, cfg, NUM + [src], statics=True), ' ' + cfg))
    return out


def tasks():
    out = []
    for prog, lib, tag in progs(SRC, 'sm2ec'):
        eclaw.law_tasks(out, eclaw.CURVES['sm2'], prog, curve.contracts('sm2'), lib, tag)
    return out


def main():
    return fw.main('P02', tasks(), trusted=fw.TRUSTED, assumptions=fw.ASSUMPTIONS)
