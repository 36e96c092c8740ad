"""Native reference for the SM2 protocols: looks for an input on which the real code departs from the standard.

Digests of chosen messages are overridden in both the reference and the driver, which makes the retry and rejection
cases of the standard (r = 0, r + k = n, s = 0, an all-zero key stream) reachable."""
import ctypes
import random

import codec
import fw
import proto

from eclaw import CURVES

C = CURVES['sm2']
N, P = C.order, C.p
b32 = lambda v: (v % (1 << 256)).to_bytes(32, 'big')


class Ref:
    def __init__(self):
        self.dig = {}

    def h(self, m):
        return self.dig.get(m) or proto.sm3(m)

    def z(self, ident, Q):
        return self.h((8 * len(ident)).to_bytes(2, 'big') + ident + b32(C.a % P) + b32(C.b) + b32(C.gen[0]) + b32(C.gen[1]) + b32(Q[0]) + b32(Q[1]))

    def nonce(self, v):
        v = int.from_bytes(v, 'big')
        return (v if v < N - 1 else v - (N - 1)) + 1

    def sign_at(self, e, d, k):
        x1 = C.mulp(k, C.gen)[0]
        r = (e + x1) % N
        s = pow(1 + d, -1, N) * (k - r * d) % N
        return r, s, r == 0 or (r + k) % N == 0 or s == 0

    def sign(self, d, m, ident, stream):
        """(signature, draws) or None"""
        if len(ident) > 8191:
            return None
        e = int.from_bytes(self.h(self.z(ident, C.mulp(d, C.gen)) + m), 'big')
        for i in range(0, len(stream), 32):
            r, s, again = self.sign_at(e, d, self.nonce(stream[i:i + 32]))
            if not again:
                return b32(r) + b32(s), i + 32
        return None

    def verify(self, Q, sig, m, ident):
        if len(ident) > 8191:
            return False
        r, s = int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big')
        t = (r + s) % N
        if not (0 < r < N and 0 < s < N and t):
            return False
        e = int.from_bytes(self.h(self.z(ident, Q) + m), 'big')
        R = C.addp(C.mulp(s, C.gen), C.mulp(t, Q))
        return R is not None and (e + R[0]) % N == r

    def kdf(self, x, y, n):
        o = b''
        ct = 1
        while len(o) < n:
            o += self.h(x + y + ct.to_bytes(4, 'big'))
            ct += 1
        return o[:n]

    def encrypt(self, Q, m, stream, pc):
        for i in range(0, len(stream), 32):
            k = self.nonce(stream[i:i + 32])
            c1 = C.mulp(k, C.gen)
            p2 = C.mulp(k, Q)
            x, y = b32(p2[0]), b32(p2[1])
            t = self.kdf(x, y, len(m))
            if m and not any(t):
                continue
            par = c1[1] & 1
            c = (b'\4' + b32(c1[0]) + b32(c1[1])) if pc == 0 else bytes([2 | par]) + b32(c1[0]) if pc == 1 else bytes([6 | par]) + b32(c1[0]) + b32(c1[1])
            return c + self.h(x + m + y) + bytes(a ^ b for a, b in zip(m, t)), i + 32
        return None

    def decrypt(self, d, c):
        if not c:
            return None
        l = 33 if c[0] in (2, 3) else 65 if c[0] in (4, 6, 7) else None
        if l is None or len(c) < l + 32:
            return None
        p = codec.reference(C, c[:l])
        if p is None:
            return None
        p2 = C.mulp(d, p[:2])
        x, y = b32(p2[0]), b32(p2[1])
        body = c[l + 32:]
        t = self.kdf(x, y, len(body))
        if body and not any(t):
            return None
        m = bytes(a ^ b for a, b in zip(body, t))
        return m if self.h(x + m + y) == c[l:l + 32] else None


class Nat:
    """the real code, one call sequence per child process"""

    def __init__(self, lib):
        self.lib = lib() if callable(lib) else lib

    def run(self, steps, dig=(), timeout=20):
        """steps: (fn, args); args: bytes (input, guarded), ('out', n), ('obj', sizefn, name), int.
        Returns for the last step (threw, return value, outputs) or a description of an abnormal end"""
        lib = self.lib

        def go():
            lib.vc_forget()
            for m, d in dig:
                lib.vc_digest(m, ctypes.c_size_t(len(m)), d)
            objs = {}
            res = []
            for fn, args in steps:
                f = getattr(lib, fn)
                f.restype = ctypes.c_uint64
                ca, outs, tmp = [], [], []
                for a in args:
                    if isinstance(a, bytes):
                        g = fw.Guarded(a)
                        tmp.append(g)
                        ca.append(ctypes.c_void_p(g.addr))
                    elif isinstance(a, tuple) and a[0] == 'out':
                        g = fw.Guarded(bytes([0xa5]) * a[1])
                        outs.append((g, a[1]))
                        ca.append(ctypes.c_void_p(g.addr))
                    elif isinstance(a, tuple):
                        if a[2] not in objs:
                            sf = getattr(lib, a[1])
                            sf.restype = ctypes.c_uint64
                            objs[a[2]] = fw.Guarded(bytes(sf()))
                        ca.append(ctypes.c_void_p(objs[a[2]].addr))
                    else:
                        ca.append(ctypes.c_uint64(a))
                rc = f(*ca)
                res.append([bool(lib.vc_threw()), rc & 0xffffffff, [g.read().hex() for g, _ in outs]])
                for g in tmp + [g for g, _ in outs]:
                    if not g.before_intact():
                        return 'a write before the start of a buffer in %s' % fn
                    g.free()
            return res
        r = fw.in_child(go, timeout)
        return r[1] if r[0] == 'ok' else '%s' % (r,)


PK = ('obj', 'vc_pk_size', 'pk')
SK = ('obj', 'vc_sk_size', 'sk')


def setpub(Q):
    return ('vc_pk_set', [PK, b32(Q[0]), b32(Q[1])])


def setpriv(d):
    return ('vc_sk_set', [SK, b32(d)])


def script(bs):
    return ('vc_script', [bs or bytes(1), len(bs)])


def h(b):
    return b.hex() if len(b) <= 400 else b[:40].hex() + '... (%d bytes)' % len(b)


def keys(lib):
    na, R = Nat(lib), random.Random(fw.SEED)
    pts = [C.mulp(R.randrange(1, N), C.gen) for _ in range(6)] + [C.gen]
    # points with a small abscissa, so that x + p fits
    x = 0
    while len(pts) < 14:
        v = (x ** 3 + C.a * x + C.b) % P
        y = codec.sqrt_mod(v, P)
        if y is not None:
            pts.append((x, y))
            pts.append((x, P - y))
        x += 1
    cases = []
    for p in pts:
        cases += [(p, True), ((p[0], P - p[1]), True), ((p[0], (p[1] + 1) % P), False), (((p[0] + 1) % P, p[1]), None), ((p[0] + P, p[1]), False), ((p[0], p[1] + P), False)]
    cases += [((0, 0), None), ((P, 0), False), ((2 ** 256 - 1, 2 ** 256 - 1), False)]
    for (x, y), ok in cases:
        if x >> 256 or y >> 256:
            continue
        if ok is None:
            ok = x < P and y < P and C.on((x, y))
        for how in ('vc_pk_set', 'vc_pk_ctor'):
            st = [(how, [PK, b32(x), b32(y)]), ('vc_pk_get', [PK, ('out', 32), ('out', 32)])]
            res = na.run(st)
            d = '%s with x = %064x, y = %064x' % (how, x, y)
            if isinstance(res, str):
                return d + ' ends with ' + res
            if res[0][0] != (not ok):
                return d + (' throws' if ok else ' is accepted')
            if ok and res[1][2] != [b32(x).hex(), b32(y).hex()]:
                return d + ': get_pub yields %s' % res[1][2]
    ds = [0, 1, 2, 3, N - 3, N - 2, N - 1, N, N + 1, 2 ** 256 - 1, 1 << 255, 1 << 128] + [R.randrange(1, N - 1) for _ in range(4)]
    for d in ds:
        ok = 1 <= d <= N - 2
        Q = C.mulp(d, C.gen) if ok else None
        for how in ('vc_sk_set', 'vc_sk_ctor'):
            res = na.run([(how, [SK, b32(d)]), ('vc_sk_get', [SK, ('out', 32)]), ('vc_sk_pub', [SK, ('out', 32), ('out', 32)])])
            t = '%s with d = %064x' % (how, d)
            if isinstance(res, str):
                return t + ' ends with ' + res
            if res[0][0] == ok:
                return t + (' throws' if ok else ' is accepted')
            if ok and (res[1][2] != [b32(d).hex()] or res[2][2] != [b32(Q[0]).hex(), b32(Q[1]).hex()]):
                return t + ' yields private key %s and public key %s' % (res[1][2], res[2][2])
    for v in ds + [2 * N - 1, 2 * N - 2, 2 * N - 3, N + 2]:
        if v >> 256:
            continue
        for how in ('vc_sk_gen', 'vc_sk_ctorg'):
            res = na.run([script(b32(v) * 3), (how, [SK]), ('vc_sk_get', [SK, ('out', 32)]), ('vc_sk_pub', [SK, ('out', 32), ('out', 32)])])
            t = '%s with the random bytes %064x' % (how, v)
            if isinstance(res, str):
                return t + ' ends with ' + res
            if res[1][0]:
                return t + ' throws'
            d = int(res[2][2][0], 16)
            if not 1 <= d <= N - 2:
                return t + ' yields the private key %064x' % d
            Q = C.mulp(d, C.gen)
            if res[3][2] != [b32(Q[0]).hex(), b32(Q[1]).hex()]:
                return t + ' yields a public key that does not match the private key'
            res = na.run([setpriv(d)])
            if isinstance(res, str) or res[0][0]:
                return t + ' yields the private key %064x, which is not accepted by set_priv' % d
    return None


DEF = b'1234567812345678'


def idents(R):
    return [DEF, b'', R.randbytes(5), R.randbytes(31), R.randbytes(32), R.randbytes(300), R.randbytes(8191)]


def sign(lib):
    na, R = Nat(lib), random.Random(fw.SEED + 1)

    def one(d, m, ident, stream, dig=(), how='vc_sk_sign'):
        ref = Ref()
        ref.dig = dict(dig)
        w = ref.sign(d, m, ident, stream)
        a = [SK, ('out', 64), m, len(m)] + ([] if how == 'vc_sk_sign0' else [ident, len(ident)])
        res = na.run([setpriv(d), script(stream), (how, a), ('vc_used', [])], dig)
        t = '%s with private key %064x, message %s, identity %s, random bytes %s%s' % (how, d, h(m), h(ident), h(stream), ', digests chosen' if dig else '')
        if isinstance(res, str):
            return t + ' ends with ' + res
        if res[2][0] != (w is None):
            return t + (' throws' if w is not None else ' does not throw')
        if w and (res[2][2][0] != w[0].hex() or res[3][1] != w[1]):
            return t + ' yields %s (%d random bytes used), the standard %s (%d)' % (res[2][2][0], res[3][1], w[0].hex(), w[1])
        return None
    edge = [0, 1, N - 3, N - 2, N - 1, N, 2 ** 256 - 1]
    for i in range(60):
        d = R.choice([1, N - 2, R.randrange(1, N - 1), R.randrange(1, N - 1)])
        ident = R.choice(idents(R))
        m = R.randbytes(R.choice([0, 1, 31, 32, 33, 63, 64, 65, 200, 1000]))
        v = [R.choice(edge) if R.random() < .3 else R.randrange(2 ** 256) for _ in range(4)]
        stream = b''.join(map(b32, v))
        Q = C.mulp(d, C.gen)
        dig = []
        k0 = Ref().nonce(stream[:32])
        x1 = C.mulp(k0, C.gen)[0]
        case = i % 6
        z = Ref().z(ident, Q)
        if case == 1:
            dig = [(z + m, b32(-x1 % N))]
        elif case == 2:
            dig = [(z + m, b32((-k0 - x1) % N))]
        elif case == 3:
            dig = [(z + m, b32((k0 * pow(d, -1, N) - x1) % N))]
        elif case == 4:
            dig = [(z + m, R.choice([b32(N), b32(N - 1), b32(2 ** 256 - 1), b32(N + 5), bytes(32)]))]
        w = one(d, m, ident, stream, dig)
        if w:
            return w
        if ident == DEF:
            w = one(d, m, ident, stream, dig, 'vc_sk_sign0')
            if w:
                return w
    return one(5, b'abc', R.randbytes(8192), R.randbytes(64)) or one(5, b'abc', R.randbytes(40000), R.randbytes(64))


def verify(lib):
    na, R = Nat(lib), random.Random(fw.SEED + 2)
    for i in range(24):
        d = R.choice([1, N - 2, R.randrange(1, N - 1), R.randrange(1, N - 1)])
        Q = C.mulp(d, C.gen)
        ident = R.choice(idents(R))
        m = R.randbytes(R.choice([0, 1, 31, 64, 200]))
        ref = Ref()
        dig = []
        if i % 4 == 1:
            dig = [(ref.z(ident, Q) + m, R.choice([b32(N), b32(N + 3), b32(2 ** 256 - 1), bytes(32)]))]
        ref.dig = dict(dig)
        sig, _ = ref.sign(d, m, ident, R.randbytes(320))
        r, s = int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big')
        cand = [(r, s), (r, N - s), (s, r), (r + 1, s), (r, s + 1), (0, s), (r, 0), (0, 0), (N, s), (r, N), (r, (N - r) % N), (r + N, s), (r, s + N), (r ^ 1, s), (r, s ^ (1 << 255))]
        # r + N in range only for small r: a digest that makes r small
        ms = [m]
        if m:
            ms.append(m[:-1] + bytes([m[-1] ^ 1]))
        for mm in ms:
            for a, b in cand:
                if a >> 256 or b >> 256:
                    continue
                sg = b32(a) + b32(b)
                w = check_verify(na, ref, Q, d, sg, mm, ident, dig)
                if w:
                    return w
        # digests for which a signature with a special r or s verifies when a check is missing
        z = ref.z(ident, Q)
        for a, b in ((0, s), (r, 0), (r, N - r), (1, s), (N, s), (r, N), (2, s), (N - 1, s), (1, N - 1), (N - 1, 1)):
            t = (a + b) % N
            pt = C.addp(C.mulp(b % N, C.gen), C.mulp(t, Q))
            x = pt[0] if pt else 0
            for rr in (a, a + N):
                if rr >> 256:
                    continue
                ref2 = Ref()
                dg = [(z + m, b32((a - x) % N))]
                ref2.dig = dict(dg)
                for bb in (b, b + N):
                    if bb >> 256:
                        continue
                    w = check_verify(na, ref2, Q, d, b32(rr) + b32(bb), m, ident, dg)
                    if w:
                        return w
        # the point at infinity in the verification equation: s + t d = 0
        sp = -r * d * pow(1 + d, -1, N) % N
        ref2 = Ref()
        dg = [(z + m, b32(r))]
        ref2.dig = dict(dg)
        w = check_verify(na, ref2, Q, d, b32(r) + b32(sp), m, ident, dg)
        if w:
            return w
    ident = R.randbytes(8192)
    return check_verify(na, Ref(), C.gen, 1, R.randbytes(64), b'abc', ident, []) or check_verify(na, Ref(), C.gen, 1, R.randbytes(64), b'abc', R.randbytes(70000), [])


def check_verify(na, ref, Q, d, sg, m, ident, dig):
    ok = ref.verify(Q, sg, m, ident)
    calls = [([setpub(Q)], 'vc_pk_verify', [PK, sg, m, len(m), ident, len(ident)]), ([setpriv(d)], 'vc_sk_verify', [SK, sg, m, len(m), ident, len(ident)])]
    if ident == DEF:
        calls.append(([setpub(Q)], 'vc_pk_verify0', [PK, sg, m, len(m)]))
    for pre, fn, a in calls:
        res = na.run(pre + [(fn, a)], dig)
        t = '%s with public key (%064x, %064x), signature %s, message %s, identity %s%s' % (fn, Q[0], Q[1], sg.hex(), h(m), h(ident), ', digest chosen' if dig else '')
        if isinstance(res, str):
            return t + ' ends with ' + res
        if res[-1][0]:
            return t + ' throws'
        if bool(res[-1][1]) != ok:
            return t + ' answers %d' % res[-1][1]
    return None


def encrypt(lib):
    na, R = Nat(lib), random.Random(fw.SEED + 3)
    edge = [0, 1, N - 2, N - 1, N, 2 ** 256 - 1]
    lens = [0, 1, 2, 15, 16, 31, 32, 33, 63, 64, 65, 100, 256, 1000]
    for i in range(120):
        d = R.choice([1, 2, N - 2, R.randrange(1, N - 1)])
        Q = C.mulp(d, C.gen)
        n = lens[i % len(lens)] if i < 60 else R.randrange(200)
        m = R.randbytes(n) if i % 5 else bytes(n)
        stream = b''.join(b32(R.choice(edge) if R.random() < .3 else R.randrange(2 ** 256)) for _ in range(3))
        pc = i % 3
        dig = []
        if i % 4 == 1 and 0 < n <= 128:
            k = Ref().nonce(stream[:32])
            p2 = C.mulp(k, Q)
            zz = b32(p2[0]) + b32(p2[1])
            nb = (n + 31) // 32
            dig = []
            for j in range(nb):
                tail = n - 32 * j
                v = bytes(min(32, tail)) + bytes([7]) * max(0, 32 - tail)
                dig.append((zz + (j + 1).to_bytes(4, 'big'), v))
            if i % 8 == 5 and n > 1:
                # almost: a single nonzero bit
                j = R.randrange(nb)
                v = bytearray(dig[j][1])
                v[R.randrange(min(32, n - 32 * j))] ^= 1 << R.randrange(8)
                dig[j] = (dig[j][0], bytes(v))
        ref = Ref()
        ref.dig = dict(dig)
        w = ref.encrypt(Q, m, stream, pc)
        hows = [('vc_pk_enc', setpub(Q), PK), ('vc_sk_enc', setpriv(d), SK)] + ([('vc_pk_enc0', setpub(Q), PK)] if pc == 0 else [])
        for how, pre, k in hows:
            size = len(w[0]) if w else 97 + n
            a = [k, ('out', size), ('out', 8), m or b'', n] + ([] if how == 'vc_pk_enc0' else [pc])
            res = na.run([pre, script(stream), (how, a), ('vc_used', [])], dig)
            t = '%s with public key (%064x, %064x), message %s, random bytes %s, format %d%s' % (how, Q[0], Q[1], h(m), h(stream), pc, ', key stream chosen' if dig else '')
            if isinstance(res, str):
                return t + ' ends with ' + res
            if res[2][0] != (w is None):
                return t + (' throws' if w else ' does not throw')
            if w and (res[2][2] != [w[0].hex(), len(w[0]).to_bytes(8, 'little').hex()] or res[3][1] != w[1]):
                return t + ' yields %s (%d random bytes used), the standard %s (%d)' % (res[2][2], res[3][1], w[0].hex(), w[1])
    return None


def decrypt(lib):
    na, R = Nat(lib), random.Random(fw.SEED + 4)

    def one(d, c, dig=()):
        ref = Ref()
        ref.dig = dict(dig)
        w = ref.decrypt(d, c)
        l = 33 if c[:1] in (b'\2', b'\3') else 65
        size = max(0, len(c) - l - 32)
        wellformed = c[:1] in (b'\2', b'\3', b'\4', b'\6', b'\7') and len(c) >= l + 32
        res = na.run([setpriv(d), ('vc_ptlen', [c, len(c)]), ('vc_sk_dec', [SK, ('out', size), ('out', 8), c, len(c)])], dig)
        t = 'decryption with private key %064x of the %d bytes %s%s' % (d, len(c), h(c), ', digests chosen' if dig else '')
        if isinstance(res, str):
            return t + ' ends with ' + res
        if res[1][0] == wellformed or wellformed and res[1][1] != size:
            return 'plaintext_len: ' + t + ': %s' % ('throws' if res[1][0] else res[1][1])
        if res[2][0] != (w is None):
            return t + (' throws' if w is not None else ' does not throw')
        if w is not None and res[2][2] != [w.hex(), len(w).to_bytes(8, 'little').hex()]:
            return t + ' yields %s' % res[2][2]
        return None
    ref = Ref()
    for i in range(30):
        d = R.choice([1, N - 2, R.randrange(1, N - 1)])
        Q = C.mulp(d, C.gen)
        n = [0, 1, 31, 32, 33, 64, 65, 100][i % 8]
        m = R.randbytes(n)
        stream = R.randbytes(64)
        c, _ = ref.encrypt(Q, m, stream, i % 3)
        l = 33 if i % 3 == 1 else 65
        cand = [c, c[:-1], c + b'\0', c[:l + 32], c[:l + 31], c[:l], c[:l - 1], c[:1], b'']
        for _ in range(6):
            b = bytearray(c)
            b[R.randrange(len(b))] ^= 1 << R.randrange(8)
            cand.append(bytes(b))
        for fb in (0, 1, 2, 3, 4, 5, 6, 7, 8, 255):
            cand.append(bytes([fb]) + c[1:])
        for c2 in cand:
            w = one(d, c2)
            if w:
                return w
        # an all-zero key stream with a matching hash must be refused
        k = ref.nonce(stream[:32])
        p2 = C.mulp(k, Q)
        x, y = b32(p2[0]), b32(p2[1])
        if n:
            dig = [(x + y + (j + 1).to_bytes(4, 'big'), bytes(32)) for j in range((n + 31) // 32)]
            c3 = c[:l] + ref.h(x + m + y) + m
            w = one(d, c3, dig)
            if w:
                return w
            # almost all zero: accepted
            j = R.randrange(len(dig))
            v = bytearray(32)
            v[R.randrange(min(32, n - 32 * j))] = 1
            dig[j] = (dig[j][0], bytes(v))
            rr = Ref()
            rr.dig = dict(dig)
            t = rr.kdf(x, y, n)
            w = one(d, c[:l] + ref.h(x + m + y) + bytes(a ^ b for a, b in zip(m, t)), dig)
            if w:
                return w
            # each half of the hash matters
            for j in (0, 1, 15, 16, 30, 31):
                b = bytearray(c)
                b[l + j] ^= 1
                w = one(d, bytes(b))
                if w:
                    return w
    return None


def search(lib, what):
    return {'keys': keys, 'sign': sign, 'verify': verify, 'encrypt': encrypt, 'decrypt': decrypt}[what](lib)
