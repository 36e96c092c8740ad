"""SM4 (GB/T 32907-2016) and AES (FIPS 197) as terms, from their definitions."""
import gf
import term as T


# ------------------------------------------------------------------ SM4
def _sm4_sbox():
    """S(x) = A I(A x + C) + C over GF(2^8)/0x1f5, A cyclic with first row 0xa7"""
    rows = []
    r = 0xa7
    for i in range(8):
        rows.append(r)
        r = ((r << 1) | (r >> 7)) & 0xff

    def aff(x):
        y = 0
        for i in range(8):
            y |= (bin(rows[i] & x).count('1') & 1) << i
        return y ^ 0xd3

    def inv(a):
        if a == 0:
            return 0
        r = 1
        for _ in range(254):
            r = gf.gmul(r, a, 0x1f5)
        return r
    return tuple(aff(inv(aff(x))) for x in range(256))


SM4_S = _sm4_sbox()
FK = (0xa3b1bac6, 0x56aa3350, 0x677d9197, 0xb27022dc)
CK = tuple(sum((((4 * i + j) * 7) & 0xff) << (24 - 8 * j) for j in range(4)) for i in range(32))


def rol(x, n):
    return T.cat(T.ext(x, 0, 32 - n), T.ext(x, 32 - n, n))


def xs(*a):
    r = a[0]
    for x in a[1:]:
        r = T.xor(r, x)
    return r


def _tau(x):
    return T.cat(*[T.tbl(SM4_S, 8, T.ext(x, 24 - 8 * i, 8)) for i in range(4)])


def sm4_keys(key):
    """key: list of 16 byte terms -> 32 round key words"""
    k = [T.xor(T.cat(*key[4 * i:4 * i + 4]), T.const(FK[i], 32)) for i in range(4)]
    for i in range(32):
        t = _tau(xs(k[i + 1], k[i + 2], k[i + 3], T.const(CK[i], 32)))
        k.append(xs(k[i], t, rol(t, 13), rol(t, 23)))
    return k[4:]


def sm4_block(rk, blk, enc=True):
    x = [T.cat(*blk[4 * i:4 * i + 4]) for i in range(4)]
    for i in range(32):
        t = _tau(xs(x[i + 1], x[i + 2], x[i + 3], rk[i if enc else 31 - i]))
        x.append(xs(x[i], t, rol(t, 2), rol(t, 10), rol(t, 18), rol(t, 24)))
    out = []
    for w in (x[35], x[34], x[33], x[32]):
        out += [T.ext(w, 24 - 8 * i, 8) for i in range(4)]
    return out


# ------------------------------------------------------------------ AES
RCON = [1]
for _ in range(13):
    RCON.append(gf.gmul(RCON[-1], 2))


def _s(x):
    return T.tbl(gf.SBOX, 8, x)


def _is(x):
    return T.tbl(gf.INVS, 8, x)


def _m(k, x):
    return T.tbl(gf.MULT[k], 8, x) if k != 1 else x


def aes_keys(key):
    """key: byte terms -> list of round keys (16 byte terms each)"""
    nk = len(key) // 4
    nr = nk + 6
    w = [key[4 * i:4 * i + 4] for i in range(nk)]
    for i in range(nk, 4 * (nr + 1)):
        t = w[i - 1]
        if i % nk == 0:
            t = [_s(x) for x in t[1:] + t[:1]]
            t[0] = T.xor(t[0], T.const(RCON[i // nk - 1], 8))
        elif nk > 6 and i % nk == 4:
            t = [_s(x) for x in t]
        w.append([T.xor(a, b) for a, b in zip(w[i - nk], t)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(nr + 1)]


def _mix(s, c):
    out = []
    for j in range(4):
        col = s[4 * j:4 * j + 4]
        for i in range(4):
            out.append(xs(*[_m(c[(k - i) % 4], col[k]) for k in range(4)]))
    return out


def aes_enc(rks, blk):
    s = [T.xor(a, b) for a, b in zip(blk, rks[0])]
    for r, rk in enumerate(rks[1:], 1):
        s = [_s(x) for x in s]
        s = [s[4 * ((j + i) % 4) + i] for j in range(4) for i in range(4)]
        if r < len(rks) - 1:
            s = _mix(s, (2, 3, 1, 1))
        s = [T.xor(a, b) for a, b in zip(s, rk)]
    return s


def aes_dec(rks, blk):
    s = [T.xor(a, b) for a, b in zip(blk, rks[-1])]
    for r in range(len(rks) - 2, -1, -1):
        s = [s[4 * ((j - i) % 4) + i] for j in range(4) for i in range(4)]
        s = [_is(x) for x in s]
        s = [T.xor(a, b) for a, b in zip(s, rks[r])]
        if r:
            s = _mix(s, (14, 11, 13, 9))
    return s


def _bt(b):
    return [T.const(x, 8) for x in b]


def _selftest():
    k = bytes.fromhex('0123456789abcdeffedcba9876543210')
    ct = bytes(x.aux for x in sm4_block(sm4_keys(_bt(k)), _bt(k)))
    assert ct.hex() == '681edf34d206965e86b3e94f536e4246', ct.hex()
    assert bytes(x.aux for x in sm4_block(sm4_keys(_bt(k)), _bt(ct), False)) == k
    p = bytes.fromhex('00112233445566778899aabbccddeeff')
    for n, want in ((16, '69c4e0d86a7b0430d8cdb78070b4c55a'), (24, 'dda97ca4864cdfe06eaf70a0ec0d7191'), (32, '8ea2b7ca516745bfeafc49904b496089')):
        rk = aes_keys(_bt(bytes(range(n))))
        c = aes_enc(rk, _bt(p))
        assert bytes(x.aux for x in c).hex() == want
        assert bytes(x.aux for x in aes_dec(rk, c)) == p


_selftest()
