"""Reference R-ate pairing on the SM9 curve, from its definition, in F_p[w]/(w^12 + 2) (affine, no shared code with the library).

Memory order of the library's F_p12 element: word 4 i + 2 j + k is the coefficient of w^i v^j u^k with v = w^3, u = w^6."""
import mont
from eclaw import CURVES

P, N = mont.SM9_P, mont.SM9_N
G1, G2 = CURVES['sm9'], CURVES['sm9b']
T_ = 0x600000000058F98A
LOOP = 6 * T_ + 2
assert P == 36 * T_ ** 4 + 36 * T_ ** 3 + 24 * T_ ** 2 + 6 * T_ + 1 and N == 36 * T_ ** 4 + 36 * T_ ** 3 + 18 * T_ ** 2 + 6 * T_ + 1
POS = [i + 3 * j + 6 * k for i in range(3) for j in range(2) for k in range(2)]     # memory word -> power of w
ZERO, ONE = (0,) * 12, (1,) + (0,) * 11


def mul(a, b):
    r = [0] * 23
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    return tuple((r[i] - 2 * (r[i + 12] if i < 11 else 0)) % P for i in range(12))


def power(a, e):
    r = ONE
    for c in bin(e)[2:] if e else '':
        r = mul(r, r)
        if c == '1':
            r = mul(r, a)
    return r


def sub(a, b):
    return tuple((x - y) % P for x, y in zip(a, b))


W = [power((0, 1) + (0,) * 10, (P ** k - 1)) for k in range(4)]        # w^(p^k - 1), an element of F_p or of a subfield


def frob(a, k=1):
    r = a
    for _ in range(k):
        # sum a_i w^i  ->  sum a_i w^(i p)
        o = ZERO
        t = ONE
        for i in range(12):
            o = tuple((x + r[i] * y) % P for x, y in zip(o, shift(t, i)))
            t = mul(t, W[1])
        r = o
    return r


def shift(a, i):
    """a * w^i"""
    a = list(a)
    for _ in range(i):
        a = [-2 * a[11] % P] + a[:11]
    return tuple(a)


def inv(a):
    # a^(p^12 - 2) by Frobenius: norm to F_p
    n = ONE
    for k in range(1, 12):
        n = mul(n, frob(a, k))
    t = mul(n, a)
    assert not any(t[1:])
    i = pow(t[0], -1, P)
    return tuple(x * i % P for x in n)


def f2(x):
    """element a + b u of F_p2 as an element of F_p12"""
    return (x[0], 0, 0, 0, 0, 0, x[1], 0, 0, 0, 0, 0)


def untwist(Q):
    """(x, y) on the twist -> (x / w^2, y / w^3); 1/w^k = -w^(12-k)/2"""
    h = pow(2, -1, P)
    d = lambda a, k: tuple(-h * c % P for c in shift(a, 12 - k))
    return d(f2(Q[0]), 2), d(f2(Q[1]), 3)


def line(A, B, S):
    """value at S of the line through A and B (points over F_p12), and A + B"""
    if A[0] == B[0] and A[1] != B[1]:
        return sub(S[0], A[0]), None
    if A[0] == B[0]:
        l = mul(tuple(3 * c % P for c in mul(A[0], A[0])), inv(tuple(2 * c % P for c in A[1])))
    else:
        l = mul(sub(B[1], A[1]), inv(sub(B[0], A[0])))
    v = sub(sub(S[1], A[1]), mul(l, sub(S[0], A[0])))
    x = sub(sub(mul(l, l), A[0]), B[0])
    return v, (x, sub(mul(l, sub(A[0], x)), A[1]))


_memo = {}


def miller(Pt, Q):
    S = tuple((c,) + (0,) * 11 for c in Pt)
    Qu = untwist(Q)
    T = Qu
    f = ONE
    for c in bin(LOOP)[3:]:
        v, T2 = line(T, T, S)
        f, T = mul(mul(f, f), v), T2
        if c == '1':
            v, T = line(T, Qu, S)
            f = mul(f, v)
    Q1 = tuple(frob(c, 1) for c in Qu)
    Q2 = frob(Qu[0], 2), sub(ZERO, frob(Qu[1], 2))
    v, T = line(T, Q1, S)
    f = mul(f, v)
    v, T = line(T, Q2, S)
    return mul(f, v)


def pairing(Pt, Q):
    """e(P, Q): P over F_p, Q on the twist over F_p2 (None: the identity)"""
    if Pt is None or Q is None:
        return ONE
    k = (Pt, Q)
    if k not in _memo:
        _memo[k] = power(miller(Pt, Q), (P ** 12 - 1) // N)
    return _memo[k]


def pack(a):
    return sum((a[POS[i]] * mont.R % P) << (256 * i) for i in range(12))


def unpack(v):
    ri = pow(mont.R, -1, P)
    o = [0] * 12
    for i in range(12):
        o[POS[i]] = (v >> (256 * i) & (1 << 256) - 1) * ri % P
    return tuple(o)


def tobytes(a):
    return b''.join(a[POS[11 - i]].to_bytes(32, 'big') for i in range(12))


def frombytes(b):
    o = [0] * 12
    for i in range(12):
        o[POS[11 - i]] = int.from_bytes(b[32 * i:32 * i + 32], 'big')
    return tuple(o)
