"""H02: the SM3 digest depends only on the concatenated message, in every chunking and after any earlier use."""
import fe
import fw
import hashspec as HS
import hist
import term as T
from hist import bv

VARIANTS = [('yang15', ()), ('common', ('-USUPPORT_SM3_YANG15',))]
SRC = ['sm3/sm3_common.cpp', 'sm3/sm3_yang15.cpp', 'ghash/ghash_common.cpp', 'ghash/ghash_lut256.cpp', 'ghash/ghash_pclmul.cpp']


def env(impl, extra):
    prog = fe.program([(fe.VERIF + '/native/hash.cpp', 'port', extra)] + [(s, 'port') for s in SRC[:2]])
    lib = fe.lazy_shared('hash' + impl, 'port', SRC, driver='hash.cpp', extra=extra)
    return prog, lib, HS.sm3_handlers('sm3::internal::%s::' % impl)


def blens(a):
    return range(0, 131 if fw.TIER == 'quick' else 200)


def finish(run, o, msg, c, nm):
    m = bv(nm, c)
    d = run.buf('digest', 32)
    if c == 0 and len(msg) % 2:
        run.call('vc_sm3_final0', [o, d], mem=[(d, 0, HS.sm3_digest(msg))])
        return
    p = run.buf(nm, c, m) if c else None
    run.call('vc_sm3_final', [o, d, p, c], mem=[(d, 0, HS.sm3_digest(msg + m))], keep=[p] if p else [])


def chain(a, prog, lib, hs, name, seed):
    """after `a` pending bytes: every second piece, then the finishing call; then reset and a new message"""
    def run(r):
        base = hist.Run(r, prog, hs, HS.UFS, lib=lib, name=name)
        o = base.obj('obj', 'vc_sm3_size')
        base.call('vc_sm3_new', [o])
        msg = []
        if seed:
            # earlier use: unfinished or finished message, then reset
            old = bv('old', seed)
            p = base.buf('old', seed, old)
            base.call('vc_sm3_update', [o, p, seed], keep=[p])
            if seed % 2:
                d = base.buf('d0', 32)
                base.call('vc_sm3_final0', [o, d], mem=[(d, 0, HS.sm3_digest(old))])
            base.call('vc_sm3_reset', [o])
        ma = bv('a', a)
        if a:
            p = base.buf('a', a, ma)
            base.call('vc_sm3_update', [o, p, a], keep=[p])
        msg = ma
        for b in blens(a):
            if r.violations:
                return
            run = base.fork()
            mb = bv('b', b)
            p = run.buf('b', b, mb) if b else None
            run.call('vc_sm3_update', [o, p, b], keep=[p] if p else [])
            t = (a + b) % 64
            for c in {0, 1, 64 - t, 65 - t} if b % 7 in (0, 1) or fw.TIER != 'quick' else {0}:
                finish(run.fork(), o, msg + mb, c, 'c')
        # a piece of any length need + 64*Q + r with Q >= 1
        need = (64 - a) % 64
        Q = T.var('Q', 58, 1, 1 << 40)
        for rr in range(64):
            if r.violations:
                return
            run = base.fork()
            run.gens = {'Q': lambda R: R.randrange(1, 4)}
            inl = T.add(T.const(need + rr, 64), T.scale(T.zext(Q, 64), 64))
            p = run.ubuf('piece', inl)
            run.call('vc_sm3_update', [o, p, inl])
            V = HS.IV_WORD
            if a:
                V = HS.S.uf_compress(V, HS.word(msg + [p.obj.default(i) for i in range(need)]))
            q = T.zext(Q, 64)
            V = HS.fold(V, T.const(need, 64), q)
            at = T.add(T.const(need, 64), T.scale(q, 64))
            d = run.buf('digest', 32)
            run.call('vc_sm3_final0', [o, d], mem=[(d, 0, HS.sm3_digest([p.obj.default(T.add(at, T.const(i, 64))) for i in range(rr)], V,
                                                                       T.add(T.const(8 * (a + need), 64), T.scale(q, 512))))])
        base.done()
    return run


def tasks():
    out = []
    for impl, extra in VARIANTS:
        prog, lib, hs = env(impl, extra)
        for a in range(64):
            nm = 'SM3 (%s) with %d pending bytes' % (impl, a)
            out.append(fw.Task(nm, chain(a, prog, lib, hs, nm, 0)))
        for seed in (1, 2, 55, 56, 63, 64, 65, 130):
            nm = 'SM3 (%s) after earlier use of %d bytes and reset' % (impl, seed)
            out.append(fw.Task(nm, chain(5, prog, lib, hs, nm, seed)))
    return out


def main():
    return fw.main('H02', tasks(), trusted=fw.TRUSTED, assumptions=fw.ASSUMPTIONS + [
        'contracts of sm3_init/reset/update_blocks/final_block are those proved under H01 (any number of blocks taken as the fold of the one-block contract)'],
        level='proof')
