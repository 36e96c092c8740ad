"""G02: the GHASH digest depends only on the key and the concatenated data, in every chunking and after any earlier use."""
import fe
import fw
import gcmspec as G
import hashspec as HS
import hist
import term as T
from hist import bv
from props.H02 import SRC

B = 16


def env(cfg):
    impl = 'pclmul' if cfg == 'simd' else 'lut256'
    prog = fe.program([(fe.VERIF + '/native/hash.cpp', cfg)] + [(s, cfg) for s in SRC])
    lib = fe.lazy_shared('ghashcls' + cfg, cfg, SRC, driver='hash.cpp')
    hs = {}
    for i in ('lut256', 'pclmul', 'common'):
        hs.update(HS.ghash_handlers(i))
    return prog, lib, hs


def finish(run, o, key, msg, c):
    m = bv('c', c)
    d = run.buf('digest', B)
    p = run.buf('c', c, m) if c else None
    if (len(msg) + c) % B:
        run.call('vc_ghash_final', [o, d, p, c], throws=True)
    else:
        run.call('vc_ghash_final', [o, d, p, c], mem=[(d, 0, HS.ghash_digest(key, msg + m))], keep=[p] if p else [])


def prelude(run, o, kind, seed):
    """earlier use of the object; afterwards the active key is returned"""
    key = bv('k', B)
    kb = run.buf('key', B, key)
    if kind == 'ctor':
        run.call('vc_ghash_newk', [o, kb], keep=[kb])
        return key
    run.call('vc_ghash_new', [o])
    if kind == 'fresh':
        run.call('vc_ghash_setkey', [o, kb], keep=[kb])
        return key
    k0 = bv('j', B)
    k0b = run.buf('key0', B, k0)
    first = kb if kind.startswith('reset') else k0b
    run.call('vc_ghash_setkey', [o, first], keep=[first])
    old = bv('old', seed)
    p = run.buf('old', seed, old)
    run.call('vc_ghash_update', [o, p, seed], keep=[p])
    if 'final' in kind and seed % B == 0:
        d = run.buf('d0', B)
        run.call('vc_ghash_final', [o, d, None, 0], mem=[(d, 0, HS.ghash_digest(key if first is kb else k0, old))])
    if kind.startswith('reset'):
        run.call('vc_ghash_reset', [o])
    else:
        run.call('vc_ghash_setkey', [o, kb], keep=[kb])
    return key


def chain(a, e, name, kind, seed):
    prog, lib, hs = e

    def run(r):
        base = hist.Run(r, prog, hs, HS.UFS, lib=lib, name=name)
        o = base.obj('obj', 'vc_ghash_size')
        key = prelude(base, o, kind, seed)
        ma = bv('a', a)
        if a:
            p = base.buf('a', a, ma)
            base.call('vc_ghash_update', [o, p, a], keep=[p])
        for b in range(0, 70 if fw.TIER == 'quick' else 200):
            if r.violations:
                return
            run = base.fork()
            mb = bv('b', b)
            p = run.buf('b', b, mb) if b else None
            run.call('vc_ghash_update', [o, p, b], keep=[p] if p else [])
            t = (a + b) % B
            for c in sorted({0, 1, B - t, 2 * B - t, (4 * B - t + 3)}):
                finish(run.fork(), o, key, ma + mb, c)
        need = (B - a) % B
        Q = T.var('Q', 60, 1, 1 << 40)
        q = T.zext(Q, 64)
        for rr in range(B):
            if r.violations:
                return
            run = base.fork()
            run.gens = {'Q': lambda R: R.randrange(1, 6)}
            inl = T.add(T.const(need + rr, 64), T.scale(q, B))
            p = run.ubuf('piece', inl)
            run.call('vc_ghash_update', [o, p, inl])
            H = T.cat(*key)
            Z = T.const(0, 128)
            if a:
                Z = G.uf_gfmul(T.cat(*(ma + [p.obj.default(i) for i in range(need)])), H)
            Z = HS.gfold(Z, H, T.const(need, 64), q)
            at = T.add(T.const(need, 64), T.scale(q, B))
            rest = [p.obj.default(T.add(at, T.const(i, 64))) for i in range(rr)]
            d = run.buf('digest', B)
            if rr:
                c = bv('c', B - rr)
                pc = run.buf('c', B - rr, c)
                Z = G.uf_gfmul(T.xor(Z, T.cat(*(rest + c))), H)
                run.call('vc_ghash_final', [o, d, pc, B - rr], mem=[(d, 0, [T.ext(Z, 120 - 8 * i, 8) for i in range(B)])], keep=[pc])
            else:
                run.call('vc_ghash_final', [o, d, None, 0], mem=[(d, 0, [T.ext(Z, 120 - 8 * i, 8) for i in range(B)])])
        base.done()
    return run


def tasks():
    out = []
    for cfg in ('port', 'simd'):
        e = env(cfg)
        for a in range(B):
            for kind in ('ctor', 'fresh'):
                nm = 'GHASH (%s, %s) with %d pending bytes' % (cfg, kind, a)
                out.append(fw.Task(nm, chain(a, e, nm, kind, 0)))
        for kind in ('reset', 'rekey', 'reset after final', 'rekey after final'):
            for seed in ((1, 5, 15, 16, 17, 32, 33) if 'final' not in kind else (16, 48)):
                nm = 'GHASH (%s) %s after %d bytes' % (cfg, kind, seed)
                out.append(fw.Task(nm, chain(3, e, nm, kind, seed)))
    return out


def main():
    return fw.main('G02', tasks(), trusted=fw.TRUSTED, assumptions=fw.ASSUMPTIONS + [
        'contracts of ghash_init/reset/update_blocks/final_block are those proved under G01 (any number of blocks taken as the fold of the one-block contract)'])
