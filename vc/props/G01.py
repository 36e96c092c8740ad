"""G01: every GHASH implementation computes (state xor block) * H in GF(2^128); many blocks are one block repeated."""
import bitcanon
import contract
import exec as E
import fe
import fw
import gcmspec as G
import induct
import term as T
from contract import Contract
T.LAZY = True
SRC = ['ghash/ghash_common.cpp', 'ghash/ghash_lut256.cpp', 'ghash/ghash_pclmul.cpp']


def rep(impl, raw):
    """the block value represented by the 16 state bytes of an implementation (raw: little-endian memory term)"""
    if impl == 'pclmul':
        # byte i of the block, bits reversed inside the 16-byte string: bit-reflected little-endian
        return T.cat(*[T.ext(raw, i, 1) for i in range(128)])
    # two host 64-bit words, big-endian values
    return T.cat(T.ext(raw, 0, 64), T.ext(raw, 64, 64))


def unrep(impl, z):
    if impl == 'pclmul':
        return T.cat(*[T.ext(z, i, 1) for i in range(128)])
    return T.cat(T.ext(z, 0, 64), T.ext(z, 64, 64))


def rdblk(c, p, off=0):
    return G.blk([c.rd(p, 1, off + i) for i in range(16)])


def c_run(impl):
    def body(c, key, st, inp, n):
        z = rep(impl, c.rd(st, 16))
        x = T.xor(z, rdblk(c, inp))
        c.wr(st, unrep(impl, G.gfmul(x, rdblk(c, key))))
    return Contract('vc_ghash_%s_run' % impl, body, [('p', 16, 'KEY'), ('p', 16, 'STATE'), ('p', 16, 'IN'), ('k', T.const(1, 64))], alias=False)


def c_run0(impl):
    def body(c, key, st, inp, n):
        c.wr(st, c.rd(st, 16))
    return Contract('vc_ghash_%s_run' % impl, body, [('p', 16, 'KEY'), ('p', 16, 'STATE'), ('p', 1, 'IN'), ('k', T.const(0, 64))], alias=False)


def c_digest(impl, inl):
    def body(c, key, st, out, inp, n):
        if inl:
            c.wr(out, c.rd(out, 16))
            return T.const(-1, 32)
        c.wr(out, G.mem(rep(impl, c.rd(st, 16))))
        return T.const(0, 32)
    return Contract('vc_ghash_%s_digest' % impl, body, [('p', 16, 'KEY'), ('p', 16, 'STATE'), ('p', 16, 'OUT'), ('p', max(1, inl), 'IN'), ('k', T.const(inl, 64))], alias=False)


def c_one(impl, reset):
    def body(c, key, *a):
        out, inp = a[-2:]
        c.wr(out, G.mem(G.gfmul(rdblk(c, inp), rdblk(c, key))))
        return T.const(0, 32)
    ps = [('p', 16, 'KEY')] + ([('p', 16, 'STATE')] if reset else []) + [('p', 16, 'OUT'), ('p', 16, 'IN')]
    return Contract('vc_ghash_%s_%s' % (impl, 'reset' if reset else 'one'), body, ps, alias=False)


def iterate(prog, impl, n):
    """state after n blocks as a term of KEY, STATE, IN0..IN(n-1)"""
    ex = E.Exec(prog, {}, decide=None)
    st = E.State()
    su = fw.Setup(ex, st)
    k = su.obj('KEY', 16, [(0, T.var('KEY', 128))])
    s = su.obj('STATE', 16, [(0, T.var('STATE', 128))])
    i = su.obj('IN', 16 * n, [(16 * j, T.var('IN%d' % j, 128)) for j in range(n)])
    st2, _ = ex.call(prog.fn('vc_ghash_%s_run' % impl), [su.ptr(k), su.ptr(s), su.ptr(i), T.const(n, 64)], st)
    return fw.mem_get(ex, st2, s, 0, 16), ex


def t_iter(prog, impl, n):
    def run(r):
        t1, ex = iterate(prog, impl, 1)
        tn, ex = iterate(prog, impl, n)
        r.merge_exec(ex)
        want = T.var('STATE', 128)
        for j in range(n):
            want = T.subst([t1], {T.var('STATE', 128): want, T.var('IN0', 128): T.var('IN%d' % j, 128)})[0]
        for ob in ex.obs:
            if ob.cond is not T.TRUE:
                r.fail('failed')
                r.notes.append(ob.desc)
            else:
                r.ok('simplifier')
        if tn is want:
            r.ok('simplifier')
            return
        import random
        R = random.Random(fw.SEED)
        for _ in range(8):
            env = {'__default__': lambda t: R.getrandbits(t.w)}
            env = {k: R.getrandbits(v.w) for k, v in T.free_vars([tn, want]).items()}
            a, b = T.evaluate([tn, want], env, G.UFS)
            if a != b:
                r.fail('refuted')
                r.violations.append({'obligation': 'ghash %s: %d blocks are %d single blocks' % (impl, n, n), 'confirmed': False,
                                     'what': 'the code for %d blocks gives %#x, block by block %#x' % (n, a, b), 'input': {str(k): hex(v) for k, v in env.items()}})
                return
        bitcanon.OPAQUE_CLMUL = True
        bitcanon._memo.clear()
        ok = bitcanon.equal(tn, want)
        bitcanon.OPAQUE_CLMUL = False
        bitcanon._memo.clear()
        if ok:
            r.ok('GF(2) normal form')
        else:
            r.fail('failed')
            r.notes.append('iteration of %d blocks' % n)
    return run


def tasks():
    out = []
    for cfg in ('port', 'simd'):
        prog = fe.program([(fe.VERIF + '/native/ghash.cpp', cfg)] + [(s, cfg) for s in SRC])
        lib = fe.lazy_shared('ghash' + cfg, cfg, SRC, driver='ghash.cpp')
        impls = ['common', 'lut256'] + (['pclmul'] if cfg == 'simd' else [])
        for impl in impls:
            cons = [('block', c_run(impl)), ('no block', c_run0(impl)), ('from init', c_one(impl, False)), ('after reset', c_one(impl, True))]
            cons += [('digest, %d trailing bytes' % i, c_digest(impl, i)) for i in (range(16) if fw.TIER != 'quick' else (0, 1, 7, 15))]
            for what, con in cons:
                nm = 'ghash %s %s: %s' % (impl, cfg, what)

                def run(r, con=con, prog=prog, lib=lib, nm=nm):
                    contract.verify(r, prog, con, {i: i for i, p in enumerate(con.params) if p[0] == 'p'}, lib=lib, name=nm, ufs=G.UFS, goal_backend=bitcanon.backend, tries=6, decide=None)
                out.append(fw.Task(nm, run))
            out.append(induct.task('ghash %s %s: any number of blocks' % (impl, cfg), prog, {}, 'vc_ghash_%s_run' % impl, induct.shape([16, 16, 's', 'n'], 16), {0, 1}, lib=lib))
            for n in ((2, 3) if fw.TIER == 'quick' else (2, 3, 4, 5, 6, 7, 8, 16)):
                out.append(fw.Task('ghash %s %s: %d blocks as single blocks' % (impl, cfg, n), t_iter(prog, impl, n)))
    return out


def main():
    return fw.main('G01', tasks(), trusted=fw.TRUSTED, assumptions=fw.ASSUMPTIONS)
