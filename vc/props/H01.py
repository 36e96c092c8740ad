"""H01: the SM3 block functions compute GM/T 0004, in both implementations."""
import bitcanon
import contract
import exec as E
import fe
import fw
import induct
import term; term.LAZY=True
import sm3spec as S
import term as T
from contract import Contract
from u256 import bswap

IMPL = {'common': ('sm3/sm3_common.cpp', 'sm3::internal::common::'), 'yang15': ('sm3/sm3_yang15.cpp', 'sm3::internal::yang15::')}
CTX = 72          # sizeof(Sm3CTX)


def words(t):
    return [T.ext(t, 32 * i, 32) for i in range(t.w // 32)]


def be_words(t):
    return [bswap(x) for x in words(t)]


def mem(ws):
    return T.cat(*reversed(ws))


def c_init(ns, name):
    def body(c, ctx):
        c.wr(ctx, T.const(sum(v << (32 * i) for i, v in enumerate(S.IV)), 256))
        c.wr(ctx, T.const(0, 64), 64 - 32)
    return Contract(ns + name, body, [('p', CTX - 32, 'CTX')])


def bits_ok(c, ctx, add):
    d = c.rd(ctx, 8, 32)
    c.pre(T.ule(d, T.const((1 << 64) - 1 - add, 64)), 'the message stays below 2^64 bits')
    return T.add(d, T.const(add, 64))


def c_update(ns, n):
    def body(c, ctx, p, _n):
        d = bits_ok(c, ctx, 512 * n)
        V = words(c.rd(ctx, 32))
        for i in range(n):
            V = S.compress(V, be_words(c.rd(p, 64, 64 * i)))
        if n:
            c.wr(ctx, mem(V))
        c.wr(ctx, d, 32)
        return T.const(0, 32)
    return Contract(ns + 'sm3_update_blocks', body, [('p', 40, 'CTX'), ('p', max(1, 64 * n), 'IN'), ('k', T.const(n, 64))], alias=False)


def c_final(ns, n):
    def body(c, ctx, out, p, _n):
        d = bits_ok(c, ctx, 8 * n)
        V = words(c.rd(ctx, 32))
        bs = [c.rd(p, 1, i) for i in range(n)] + [T.const(0x80, 8)] + [T.const(0, 8)] * ((55 - n) % 64)
        bs += [T.ext(d, 56 - 8 * i, 8) for i in range(8)]
        for i in range(0, len(bs), 64):
            V = S.compress(V, [T.cat(*bs[i + 4 * j:i + 4 * j + 4]) for j in range(16)])
        c.wr(ctx, mem(V))
        c.wr(ctx, d, 32)
        c.wr(out, mem([bswap(x) for x in V]))
        return T.const(0, 32)
    return Contract(ns + 'sm3_final_block', body, [('p', 40, 'CTX'), ('p', 32, 'OUT'), ('p', max(1, n), 'IN'), ('k', T.const(n, 64))], alias=False)


def below(rd, a, n):
    """the message stays below 2^64 bits"""
    return [T.ule(rd(a[0].obj, 32, 8), T.sub(T.const((1 << 64) - 1, 64), T.mul(n, T.const(512, 64))))]


def low(init):
    init[0][39] = 0


def tasks():
    out = []
    cases = []
    for impl, (path, ns) in IMPL.items():
        for n in ([0, 1, 2] if fw.TIER == 'quick' else range(5)):
            cases.append((impl, 'sm3_update_blocks, %d blocks' % n, c_update(ns, n)))
        # quick: the lengths around every padding boundary; thorough: all 64
        for n in ([0, 1, 2, 3, 4, 7, 8, 16, 31, 32, 33, 47, 48, 51, 52, 53, 54, 55, 56, 57, 59, 60, 61, 62, 63] if fw.TIER == 'quick' else range(64)):
            cases.append((impl, 'sm3_final_block, %d bytes' % n, c_final(ns, n)))
        for nm in ('sm3_init', 'sm3_reset'):
            cases.append((impl, nm, c_init(ns, nm)))
    for impl, (path, ns) in IMPL.items():
        same = fe.same_ir((path, 'port'), (path, 'simd'))
        for cfg in ('port',) if same else ('port', 'simd'):
            out.append(induct.task('%s %s sm3_update_blocks, any number of blocks' % (impl, cfg), fe.program([(path, cfg)]), {}, ns + 'sm3_update_blocks',
                                   induct.shape([40, 's', 'n'], 64), {0, 1, 2}, req=below,
                                   lib=fe.lazy_shared('sm3' + impl, cfg, [path]), fix=low))
    for impl, nm, con in cases:
        path, ns = IMPL[impl]
        same = fe.same_ir((path, 'port'), (path, 'simd'))
        for cfg in ('port',) if same else ('port', 'simd'):
            prog = fe.program([(path, cfg)])
            lib = fe.lazy_shared('sm3' + impl, cfg, [path])

            def run(r, con=con, prog=prog, lib=lib, nm=nm, impl=impl, same=same):
                contract.verify(r, prog, con, {i: i for i, p in enumerate(con.params) if p[0] == 'p'}, lib=lib, name='%s %s%s' % (impl, nm, ' (one IR for both build configurations)' if same else ''),
                                goal_backend=bitcanon.backend, tries=12, decide=E.smt_decide)
            out.append(fw.Task('%s %s %s' % (impl, cfg, nm), run))
    return out


def main():
    return fw.main('H01', tasks(), trusted=fw.TRUSTED, assumptions=fw.ASSUMPTIONS)
