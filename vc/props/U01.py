"""U01: endian and XOR helpers, all contents, every alignment and alias pattern; lengths concrete up to a bound."""
import random
import fe
import fw
import hist
import induct
import term as T
from hist import bv

FIXED = list(range(0, 140)) + [191, 192, 240, 255, 256, 257, 383, 384, 448, 496, 511, 512, 513, 560, 767, 768, 1008, 1023, 1024, 1025, 1279]


def env(cfg):
    prog = fe.program([(fe.VERIF + '/native/mem.cpp', cfg), ('memory_utils/memxor.cpp', cfg)])
    return prog, fe.lazy_shared('mem' + cfg, cfg, ['memory_utils/memxor.cpp'], driver='mem.cpp')


def xor_case(r, e, nm, fn, n, alias, off=0):
    prog, lib = e
    run = hist.Run(r, prog, {}, {}, lib=lib, name='%s %d bytes [%s]' % (nm, n, alias))
    a, b = bv('a', n + off), bv('b', n + off)
    A = run.buf('in1', n + off, a)
    B = A if alias in ('in1=in2', 'all equal') else run.buf('in2', n + off, b)
    O = A if alias in ('out=in1', 'all equal') else B if alias == 'out=in2' else run.buf('out', n + off, bv('o', n + off))
    x = a
    y = a if B is A else b
    want = [T.xor(p, q) for p, q in zip(x, y)][off:]
    o0 = (a if O is A else b if O is B else bv('o', n + off))[:off]
    args = [(O, off), (A, off), (B, off)] + ([n] if fn == 'vc_memxor_n' else [])
    run.call(fn, args, mem=[(O, 0, o0 + want)], keep=[x for x in (A, B) if x is not O])
    run.done()


ALIAS = ('distinct', 'out=in1', 'out=in2', 'in1=in2', 'all equal')


def tasks():
    out = []
    for cfg in ('port', 'simd'):
        e = env(cfg)

        def ends(r, e=e, cfg=cfg):
            prog, lib = e
            for w in (8, 16, 32, 64):
                n = w // 8
                for o in ('le', 'be'):
                    for off in range(8):
                        run = hist.Run(r, prog, {}, {}, lib=lib, name='load/store%d_%s (%s) at offset %d' % (w, o, cfg, off))
                        bs = bv('a', off + n)
                        A = run.buf('in', off + n, bs)
                        x = bs[off:]
                        v = T.cat(*(x if o == 'be' else x[::-1]))
                        run.call('vc_load%d_%s' % (w, o), [(A, off)], ret=T.zext(v, 64), keep=[A])
                        val = T.var('v', 64)
                        run.gens = {}
                        D = run.buf('out', off + n, bs)
                        ws = [T.ext(val, 8 * i, 8) for i in range(n)]
                        run.call('vc_store%d_%s' % (w, o), [(D, off), val], mem=[(D, 0, bs[:off] + (ws if o == 'le' else ws[::-1]))])
                        run.done()
        out.append(fw.Task('endian helpers (%s)' % cfg, ends))
        for alias in ALIAS:
            def fixed(r, e=e, cfg=cfg, alias=alias):
                for n in FIXED:
                    xor_case(r, e, 'memxor<N> (%s)' % cfg, 'vc_memxor_%d' % n, n, alias, off=n % 3)
            out.append(fw.Task('memxor<N> (%s) %s' % (cfg, alias), fixed))
            hi = (1300 if cfg == 'simd' else 300) if fw.TIER == 'quick' else 2700
            pat = {'distinct': {}, 'out=in1': {1: 0}, 'out=in2': {2: 0}, 'in1=in2': {2: 1}, 'all equal': {1: 0, 2: 0}}[alias]
            out.append(induct.task('memxor_n (%s) %s any length' % (cfg, alias), e[0], {}, 'vc_memxor_n', induct.shape(['s', 's', 's', 'n'], 1, pat), range(hi),
                                   unit='byte', tops=tuple(1 << i for i in range(11)), lib=e[1]))
            for lo in range(0, hi, 100):
                def var(r, e=e, cfg=cfg, alias=alias, lo=lo):
                    for n in range(lo, lo + 100):
                        xor_case(r, e, 'memxor_n (%s)' % cfg, 'vc_memxor_n', n, alias, off=n % 3)
                out.append(fw.Task('memxor_n (%s) %s %d..%d bytes' % (cfg, alias, lo, lo + 99), var))
    return out


def main():
    return fw.main('U01', tasks(), trusted=fw.TRUSTED, assumptions=fw.ASSUMPTIONS + [
        'memxor_n: every length up to the bound named in the task against the specification, every length beyond by induction (evidence: inductions)',
        'memxor<N>: the instances listed in the check'])
