"""SM3 (GM/T 0004-2012) as terms and as Python."""
import term as T

IV = (0x7380166F, 0x4914B2B9, 0x172442D7, 0xDA8A0600, 0xA96F30BC, 0x163138AA, 0xE38DEE4D, 0xB0FB0E4E)


def rol(x, n):
    n %= 32
    return T.cat(T.ext(x, 0, 32 - n), T.ext(x, 32 - n, n)) if n else x


def P0(x):
    return T.xor(T.xor(x, rol(x, 9)), rol(x, 17))


def P1(x):
    return T.xor(T.xor(x, rol(x, 15)), rol(x, 23))


def add(*a):
    r = a[0]
    for x in a[1:]:
        r = T.add(r, x)
    return r


def x3(a, b, c):
    return T.xor(T.xor(a, b), c)


def compress(V, block):
    """V: 8 words; block: 16 big-endian words -> 8 words"""
    W = list(block)
    for j in range(16, 68):
        W.append(x3(P1(x3(W[j - 16], W[j - 9], rol(W[j - 3], 15))), rol(W[j - 13], 7), W[j - 6]))
    A, B, C, D, E, F, G, H = V
    for j in range(64):
        tj = 0x79cc4519 if j < 16 else 0x7a879d8a
        k = j % 32
        tj = T.const((tj << k | tj >> (32 - k)) & 0xffffffff, 32)
        SS1 = rol(add(rol(A, 12), E, tj), 7)
        SS2 = T.xor(SS1, rol(A, 12))
        if j < 16:
            FF, GG = x3(A, B, C), x3(E, F, G)
        else:
            FF = T.or_(T.or_(T.and_(A, B), T.and_(A, C)), T.and_(B, C))
            GG = T.or_(T.and_(E, F), T.and_(T.not_(E), G))
        TT1 = add(FF, D, SS2, T.xor(W[j], W[j + 4]))
        TT2 = add(GG, H, SS1, W[j])
        A, B, C, D, E, F, G, H = TT1, A, rol(B, 9), C, P0(TT2), E, rol(F, 19), G
    return [T.xor(x, y) for x, y in zip(V, (A, B, C, D, E, F, G, H))]


def py_compress(V, data):
    M = 0xffffffff

    def r(x, n):
        n %= 32
        return ((x << n) | (x >> (32 - n))) & M
    W = [int.from_bytes(data[4 * i:4 * i + 4], 'big') for i in range(16)]
    for j in range(16, 68):
        x = W[j - 16] ^ W[j - 9] ^ r(W[j - 3], 15)
        W.append(x ^ r(x, 15) ^ r(x, 23) ^ r(W[j - 13], 7) ^ W[j - 6])
    A, B, C, D, E, F, G, H = V
    for j in range(64):
        tj = r(0x79cc4519 if j < 16 else 0x7a879d8a, j)
        s1 = r((r(A, 12) + E + tj) & M, 7)
        s2 = s1 ^ r(A, 12)
        if j < 16:
            ff, gg = A ^ B ^ C, E ^ F ^ G
        else:
            ff, gg = (A & B) | (A & C) | (B & C), (E & F) | (~E & G)
        t1 = (ff + D + s2 + (W[j] ^ W[j + 4])) & M
        t2 = ((gg & M) + H + s1 + W[j]) & M
        A, B, C, D, E, F, G, H = t1, A, r(B, 9), C, t2 ^ r(t2, 9) ^ r(t2, 17), E, r(F, 19), G
    return [x ^ y for x, y in zip(V, (A, B, C, D, E, F, G, H))]


def py_sm3(msg):
    n = len(msg) * 8
    m = msg + b'\x80' + b'\0' * ((55 - len(msg)) % 64) + n.to_bytes(8, 'big')
    V = list(IV)
    for i in range(0, len(m), 64):
        V = py_compress(V, m[i:i + 64])
    return b''.join(x.to_bytes(4, 'big') for x in V)


# ---- as an uninterpreted function with meaning: state (256 bits, words little-endian in memory) x block bytes (512)
def uf_compress(state, block):
    """state: 256-bit term as it lies in memory (little-endian words); block: 512-bit memory term"""
    return T.uf('sm3c', 256, [state, block])


def _ev(t, a):
    s, b = a
    V = [(s >> (32 * i)) & 0xffffffff for i in range(8)]
    out = py_compress(V, b.to_bytes(64, 'little'))
    return sum(x << (32 * i) for i, x in enumerate(out))


UFS = {'sm3c': _ev}
assert py_sm3(b'abc').hex().startswith('66c7f0f462eeedd9')
