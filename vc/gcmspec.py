"""GHASH of NIST SP 800-38D as terms; blocks are 128-bit big-endian values (bit 0 of the standard is the top bit)."""
import term as T
import gf

def clmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        b >>= 1
    return r


UFS = {'clmul': lambda t, a: clmul(a[0], a[1]), 'gfmul': lambda t, a: gf.gf128_mul(a[0], a[1])}


def blk(bytes_):
    return T.cat(*bytes_)


def mem(z):
    """memory image (little-endian term) of a 128-bit block value"""
    return T.cat(*[T.ext(z, 8 * i, 8) for i in range(16)])


def gfmul(x, y):
    z = T.const(0, 128)
    v = y
    r = T.const(0xe1 << 120, 128)
    for i in range(127, -1, -1):
        z = T.xor(z, T.ite(T.ext(x, i, 1), v, T.const(0, 128)))
        v = T.xor(T.lshr(v, T.const(1, 128)), T.ite(T.ext(v, 0, 1), r, T.const(0, 128)))
    return z


def uf_gfmul(x, y):
    return T.uf('gfmul', 128, [x, y])
