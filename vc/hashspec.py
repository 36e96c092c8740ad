"""Callee contracts (SM3 and GHASH block functions over uninterpreted block steps) and specifications of digests."""
import exec as E
import fe
import gcmspec as G
import sm3spec as S
import term as T
from hist import word, unword, in_byte, TooLong

UFS = dict(S.UFS)
UFS.update(G.UFS)
UFS['in'] = lambda t, a: in_byte(a[0])


def _fold(t, a):
    """fold of the block step over in(off..off+B*n)"""
    V, off, n = a
    if n > 64:
        raise TooLong()
    for i in range(n):
        V = S._ev(None, (V, int.from_bytes(bytes(in_byte(off + 64 * i + j) for j in range(64)), 'little')))
    return V


def _gfold(t, a):
    Z, H, off, n = a
    if n > 64:
        raise TooLong()
    for i in range(n):
        Z = UFS['gfmul'](None, (Z ^ int.from_bytes(bytes(in_byte(off + 16 * i + j) for j in range(16)), 'big'), H))
    return Z


UFS['fold'] = _fold
UFS['gfold'] = _gfold


def fold(V, off, n):
    return T.uf('fold', 256, [V, off, n])


def gfold(Z, H, off, n):
    return T.uf('gfold', 128, [Z, H, off, n])


def piece(ex, st, p, size):
    """the block function reads `size` bytes at p of an input of symbolic length"""
    if not getattr(p.obj, 'unbounded', False):
        raise E.Unsupported('symbolic number of blocks from a bounded object')
    ex.ob('bounds', st, T.ule(T.add(p.off, size), p.obj.size), 'blocks read inside the input', 'blocks')
    ex.ob('bounds', st, T.ule(size, p.obj.size), 'block bytes do not exceed the input', 'blocks')


def pad(p, k):
    return E.padd(p, k)


# ------------------------------------------------------------------ SM3
IV_WORD = T.const(sum(v << (32 * i) for i, v in enumerate(S.IV)), 256)


def sm3_digest(bs, V=None, bits=None):
    """digest bytes of a list of byte terms (after the blocks absorbed in V)"""
    m = list(bs) + [T.const(0x80, 8)] + [T.const(0, 8)] * ((55 - len(bs)) % 64)
    b = T.const(len(bs) * 8, 64)
    if bits is not None:
        b = T.add(b, bits)
    m += [T.ext(b, 56 - 8 * i, 8) for i in range(8)]
    V = V if V is not None else IV_WORD
    for i in range(0, len(m), 64):
        V = S.uf_compress(V, word(m[i:i + 64]))
    out = unword(V)
    return [out[4 * (i // 4) + 3 - i % 4] for i in range(32)]


def sm3_handlers(ns):
    def init(ex, fr, st, a, ins):
        ex.store_bytes(st, a[0], IV_WORD, 32, 'sm3_init')
        ex.store_bytes(st, pad(a[0], 32), T.const(0, 64), 8, 'sm3_init')
        return None

    def bits(ex, st, ctx, n):
        d = ex.load_bytes(st, pad(ctx, 32), 8, 'sm3')
        n = n if isinstance(n, T.T) else T.const(n, 64)
        ex.ob('pre', st, T.ule(d, T.sub(T.const(-1, 64), n)), 'the message stays below 2^64 bits', 'sm3')
        return T.add(d, n)

    def update(ex, fr, st, a, ins):
        if a[2].op != 'c':
            d = bits(ex, st, a[0], T.scale(a[2], 512))
            piece(ex, st, a[1], T.scale(a[2], 64))
            ex.store_bytes(st, a[0], fold(ex.load_bytes(st, a[0], 32, 'sm3'), a[1].off, a[2]), 32, 'sm3')
            ex.store_bytes(st, pad(a[0], 32), d, 8, 'sm3')
            return T.const(0, 32)
        n = conc(a[2])
        if n > 1 << 20:
            raise E.OutOfBounds('sm3_update_blocks of %d blocks' % n)
        d = bits(ex, st, a[0], 512 * n)
        V = ex.load_bytes(st, a[0], 32, 'sm3')
        for i in range(n):
            V = S.uf_compress(V, ex.load_bytes(st, pad(a[1], 64 * i), 64, 'sm3'))
        ex.store_bytes(st, a[0], V, 32, 'sm3')
        ex.store_bytes(st, pad(a[0], 32), d, 8, 'sm3')
        return T.const(0, 32)

    def final(ex, fr, st, a, ins):
        n = conc(a[3])
        if n >= 64:
            raise E.OutOfBounds('sm3_final_block with %d bytes' % n)
        d = bits(ex, st, a[0], 8 * n)
        V = ex.load_bytes(st, a[0], 32, 'sm3')
        bs = [ex.load_bytes(st, pad(a[2], i), 1, 'sm3') for i in range(n)] + [T.const(0x80, 8)] + [T.const(0, 8)] * ((55 - n) % 64)
        bs += [T.ext(d, 56 - 8 * i, 8) for i in range(8)]
        for i in range(0, len(bs), 64):
            V = S.uf_compress(V, word(bs[i:i + 64]))
        ex.store_bytes(st, a[0], V, 32, 'sm3')
        ex.store_bytes(st, pad(a[0], 32), d, 8, 'sm3')
        o = unword(V)
        ex.store_bytes(st, a[1], word([o[4 * (i // 4) + 3 - i % 4] for i in range(32)]), 32, 'sm3')
        return T.const(0, 32)
    return {ns + 'sm3_init': init, ns + 'sm3_reset': init, ns + 'sm3_update_blocks': update, ns + 'sm3_final_block': final}


def conc(t):
    if t.op != 'c':
        raise E.Unsupported('symbolic count')
    return t.aux


# ------------------------------------------------------------------ GHASH
def ghash_digest(h, bs):
    """h: 16 byte terms; bs: byte terms, a multiple of 16"""
    H = T.cat(*h)
    Z = T.const(0, 128)
    for i in range(0, len(bs), 16):
        Z = G.uf_gfmul(T.xor(Z, T.cat(*bs[i:i + 16])), H)
    return [T.ext(Z, 120 - 8 * i, 8) for i in range(16)]


STATE_OFF = {'common': 16, 'lut256': 4096, 'pclmul': 16}


def ghash_handlers(impl):
    """abstract representation: key bytes at 0, accumulated block (memory order) at the offset of the state member;
    G01 proves the block functions for the concrete representation"""
    ns = 'ghash::internal::%s::' % impl
    so = STATE_OFF[impl]

    def ld(ex, st, p):
        return T.cat(*unword(ex.load_bytes(st, p, 16, 'ghash')))

    def init(ex, fr, st, a, ins):
        k = ex.load_bytes(st, a[1], 16, 'ghash')
        ex.store_bytes(st, a[0], k, 16, 'ghash')
        ex.store_bytes(st, pad(a[0], so), T.const(0, 128), 16, 'ghash')
        return None

    def reset(ex, fr, st, a, ins):
        ex.store_bytes(st, pad(a[0], so), T.const(0, 128), 16, 'ghash')
        return None

    def update(ex, fr, st, a, ins):
        if a[2].op != 'c':
            piece(ex, st, a[1], T.scale(a[2], 16))
            Z = gfold(ld(ex, st, pad(a[0], so)), ld(ex, st, a[0]), a[1].off, a[2])
            ex.store_bytes(st, pad(a[0], so), word([T.ext(Z, 120 - 8 * i, 8) for i in range(16)]), 16, 'ghash')
            return None
        n = conc(a[2])
        if n > 1 << 20:
            raise E.OutOfBounds('ghash_update_blocks of %d blocks' % n)
        H = ld(ex, st, a[0])
        Z = ld(ex, st, pad(a[0], so))
        for i in range(n):
            Z = G.uf_gfmul(T.xor(Z, ld(ex, st, pad(a[1], 16 * i))), H)
        ex.store_bytes(st, pad(a[0], so), word([T.ext(Z, 120 - 8 * i, 8) for i in range(16)]), 16, 'ghash')
        return None

    def final(ex, fr, st, a, ins):
        n = conc(a[3])
        if n:
            return T.const(-1, 32)
        ex.store_bytes(st, a[1], ex.load_bytes(st, pad(a[0], so), 16, 'ghash'), 16, 'ghash')
        return T.const(0, 32)
    return {ns + 'ghash_init': init, ns + 'ghash_reset': reset, ns + 'ghash_update_blocks': update, ns + 'ghash_final_block': final}
