"""GF(2^8) and AES tables computed from their definitions."""


def gmul(a, b, m=0x11b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        b >>= 1
        a <<= 1
        if a & 0x100:
            a ^= m
    return r


def _inv(a):
    if a == 0:
        return 0
    r = 1
    for _ in range(254):
        r = gmul(r, a)
    return r


def _sbox():
    s = []
    for x in range(256):
        b = _inv(x)
        r = 0
        for i in range(8):
            bit = (b >> i) ^ (b >> ((i + 4) % 8)) ^ (b >> ((i + 5) % 8)) ^ (b >> ((i + 6) % 8)) ^ (b >> ((i + 7) % 8)) ^ (0x63 >> i)
            r |= (bit & 1) << i
        s.append(r)
    return tuple(s)


SBOX = _sbox()
INVS = tuple(SBOX.index(i) for i in range(256))
MULT = {k: tuple(gmul(k, x) for x in range(256)) for k in (1, 2, 3, 9, 11, 13, 14)}


def compose(f, g):
    return tuple(f[g[x]] for x in range(256))


def gf128_mul(x, y):
    """GCM multiplication; x, y are 128-bit ints of the big-endian block (bit 0 of GCM = MSB)."""
    z = 0
    v = y
    for i in range(127, -1, -1):
        if (x >> i) & 1:
            z ^= v
        v = (v >> 1) ^ (0xe1 << 120) if v & 1 else v >> 1
    return z
