"""Native reference for the SM9 signature scheme: looks for an input on which the real code departs from the standard.

Digests of chosen messages are overridden in both the reference and the driver, which makes the rare cases of the standard
reachable (h1 + ks = 0, l = 0, extreme values of the hash functions)."""
import random

import codec
import fw
import pairref as PR
import proto
from eclaw import CURVES
from sm2ref import Nat, b32, h, script

C, C2 = CURVES['sm9'], CURVES['sm9b']
N, P = C.order, C.p
MK, MP, SP = ('obj', 'vc_mk_size', 'mk'), ('obj', 'vc_mp_size', 'mp'), ('obj', 'vc_sp_size', 'sp')
f2b = lambda x: b32(x[1]) + b32(x[0])
_pow = {}


class Ref:
    def __init__(self):
        self.dig = {}

    def h(self, m):
        return self.dig.get(m) or proto.sm3(m)

    def pre(self, tag, z, ct):
        return bytes([tag]) + z + ct.to_bytes(4, 'big')

    def hn(self, tag, z):
        ha = self.h(self.pre(tag, z, 1)) + self.h(self.pre(tag, z, 2))[:8]
        return int.from_bytes(ha, 'big') % (N - 1) + 1

    def choose(self, tag, z, v, wrap=0):
        """digests for which hn(tag, z) = v"""
        ha = (v - 1 + wrap * (N - 1)).to_bytes(40, 'big')
        return [(self.pre(tag, z, 1), ha[:32]), (self.pre(tag, z, 2), ha[32:] + bytes(24))]

    def nonce(self, v):
        v = int.from_bytes(v, 'big')
        return (v if v < N - 1 else v - (N - 1)) + 1

    def g(self, Q):
        return PR.pairing(C.gen, Q)

    def gpow(self, Q, k):
        key = (Q, k)
        if key not in _pow:
            _pow[key] = PR.power(self.g(Q), k)
        return _pow[key]

    def derive(self, ks, ident, hid):
        t1 = (self.hn(1, ident + bytes([hid])) + ks) % N
        return C.mulp(ks * pow(t1, -1, N) % N, C.gen) if t1 else None

    def sign(self, D, Q, m, stream, pc):
        for i in range(0, len(stream), 32):
            r = self.nonce(stream[i:i + 32])
            w = PR.tobytes(self.gpow(Q, r))
            hh = self.hn(2, m + w)
            l = (r - hh) % N
            if l == 0:
                continue
            S = C.mulp(l, D)
            par = S[1] & 1
            e = (b'\4' + b32(S[0]) + b32(S[1])) if pc == 0 else bytes([2 | par]) + b32(S[0]) if pc == 1 else bytes([6 | par]) + b32(S[0]) + b32(S[1])
            return b32(hh) + e, i + 32
        return None

    def verify(self, Q, sig, m, ident, hid):
        if len(sig) < 33:
            return False
        hh = int.from_bytes(sig[:32], 'big')
        p = codec.reference(C, sig[32:])
        if p is None or p[2] != len(sig) - 32 or not 0 < hh < N:
            return False
        B = C2.addp(C2.mulp(self.hn(1, ident + bytes([hid])), C2.gen), Q)
        w = PR.mul(PR.pairing(p[:2], B), self.gpow(Q, hh))
        return self.hn(2, m + PR.tobytes(w)) == hh


def mset(ks):
    return ('vc_mk_set', [MK, b32(ks)])


def pset(Q):
    return ('vc_mp_set', [MP, f2b(Q[0]), f2b(Q[1])])


def sset(D, Q):
    return ('vc_sp_set', [SP, b32(D[0]), b32(D[1]), f2b(Q[0]), f2b(Q[1])])


MGET = ('vc_mk_get', [MK, ('out', 32)])
MPUB = ('vc_mk_pub', [MK, ('out', 64), ('out', 64)])
PGET = ('vc_mp_get', [MP, ('out', 64), ('out', 64)])
SGET = ('vc_sp_get', [SP, ('out', 32), ('out', 32), ('out', 64), ('out', 64)])


def keys(lib):
    na, R = Nat(lib), random.Random(fw.SEED)
    ds = [0, 1, 2, 3, N - 2, N - 1, N, N + 1, 2 ** 256 - 1, 1 << 255, 1 << 128] + [R.randrange(1, N) for _ in range(4)]

    def pubs(d):
        Q = C2.mulp(d, C2.gen)
        return [f2b(Q[0]).hex(), f2b(Q[1]).hex()]
    for d in ds:
        ok = 1 <= d < N
        for how in ('vc_mk_set', 'vc_mk_ctor'):
            res = na.run([(how, [MK, b32(d)]), MGET, MPUB])
            t = '%s with ks = %064x' % (how, d)
            if isinstance(res, str):
                return t + ' ends with ' + res
            if res[0][0] == ok:
                return t + (' throws' if ok else ' is accepted')
            if ok and (res[1][2] != [b32(d).hex()] or res[2][2] != pubs(d)):
                return t + ' yields private key %s and public key %s' % (res[1][2], res[2][2])
        for how in ('vc_mk_gen', 'vc_mk_ctorg'):
            res = na.run([script(b32(d) * 3), (how, [MK]), MGET, MPUB])
            t = '%s with the random bytes %064x' % (how, d)
            if isinstance(res, str):
                return t + ' ends with ' + res
            if res[1][0]:
                return t + ' throws'
            v = int(res[2][2][0], 16)
            if not 1 <= v < N or res[3][2] != pubs(v):
                return t + ' yields private key %064x and public key %s' % (v, res[3][2])
    for i in range(6):
        Q = C2.mulp(R.randrange(1, N), C2.gen)
        D = C.mulp(R.randrange(1, N), C.gen)
        inc = lambda x, j: tuple((v + (k == j)) % P for k, v in enumerate(x))
        for Q2 in [Q] + [(inc(Q[0], j), Q[1]) for j in (0, 1)] + [(Q[0], inc(Q[1], j)) for j in (0, 1)] + [(Q[0], (P - Q[1][0], P - Q[1][1])), ((0, 0), (0, 0)), (Q[1], Q[0])]:
            ok = C2.on(Q2)
            t = 'public key x = %s, y = %s' % (f2b(Q2[0]).hex(), f2b(Q2[1]).hex())
            for D2 in (D, (D[0], (D[1] + 1) % P), (D[0], P - D[1]), (D[1], D[0])):
                cases = [((sset(D2, Q2), SGET), ok and C.on(D2), [b32(D2[0]).hex(), b32(D2[1]).hex(), f2b(Q2[0]).hex(), f2b(Q2[1]).hex()])]
                if D2 is D:
                    cases.append(((pset(Q2), PGET), ok, [f2b(Q2[0]).hex(), f2b(Q2[1]).hex()]))
                for st, good, want in cases:
                    res = na.run(list(st))
                    n = '%s with private key (%064x, %064x), %s' % (st[0][0], D2[0], D2[1], t)
                    if isinstance(res, str):
                        return n + ' ends with ' + res
                    if res[0][0] == good:
                        return n + (' throws' if good else ' is accepted')
                    if good and res[1][2] != want:
                        return n + ' yields %s' % res[1][2]
    return None


def idents(R):
    return [b'Alice', b'', R.randbytes(31), R.randbytes(32), R.randbytes(300)]


def derive(lib):
    na, R = Nat(lib), random.Random(fw.SEED + 1)
    for i in range(40):
        ks = R.choice([1, N - 1, R.randrange(1, N), R.randrange(1, N)])
        ident = R.choice(idents(R))
        hid = R.choice([1, 1, 2, 3, 0, 255])
        how = 'vc_mk_key0' if hid == 1 and i % 2 else 'vc_mk_key'
        ref = Ref()
        z = ident + bytes([hid])
        c = i % 5
        dig = []
        if c == 1:
            dig = ref.choose(1, z, N - ks, R.choice([0, 1, 5]))
        elif c == 2:
            dig = ref.choose(1, z, R.choice([1, 2, N - 1]), R.choice([0, 1, (2 ** 320 - 1) // (N - 1) - 1]))
        ref.dig = dict(dig)
        D = ref.derive(ks, ident, hid)
        Q = C2.mulp(ks, C2.gen)
        res = na.run([mset(ks), (how, [MK, SP, ident or b'', len(ident)] + ([hid] if how == 'vc_mk_key' else [])), SGET], dig)
        t = '%s with ks = %064x, identity %s, hid %d%s' % (how, ks, h(ident), hid, ', digests chosen' if dig else '')
        if isinstance(res, str):
            return t + ' ends with ' + res
        if res[1][0] != (D is None):
            return t + (' throws' if D else ' does not throw')
        if D and res[2][2] != [b32(D[0]).hex(), b32(D[1]).hex(), f2b(Q[0]).hex(), f2b(Q[1]).hex()]:
            return t + ' yields %s' % res[2][2]
    return None


def setup(R):
    ks = R.choice([1, N - 1, R.randrange(1, N), R.randrange(1, N)])
    return ks, C2.mulp(ks, C2.gen)


def sign(lib):
    na, R = Nat(lib), random.Random(fw.SEED + 2)
    edge = [0, 1, N - 2, N - 1, N, 2 ** 256 - 1]
    for i in range(36):
        if i % 6 == 0:
            ks, Q = setup(R)
        ident = R.choice(idents(R))
        ref = Ref()
        D = ref.derive(ks, ident, 1)
        m = R.randbytes(R.choice([0, 1, 31, 64, 200, 1000]))
        v = [R.choice(edge) if R.random() < .3 else R.randrange(2 ** 256) for _ in range(3)]
        stream = b''.join(map(b32, v))
        pc = i % 3
        r = ref.nonce(stream[:32])
        z = m + PR.tobytes(ref.gpow(Q, r))
        dig = []
        if i % 4 == 1:
            dig = ref.choose(2, z, r, R.choice([0, 1, 77]))
        elif i % 4 == 2:
            dig = ref.choose(2, z, R.choice([1, 2, N - 1, r % (N - 1) + 1]), R.choice([0, 1, 77]))
        ref.dig = dict(dig)
        w = ref.sign(D, Q, m, stream, pc)
        for how in ('vc_sp_sign', 'vc_sp_sign0'):
            if how == 'vc_sp_sign0' and pc:
                continue
            pre = [sset(D, Q)] if i % 2 else [mset(ks), ('vc_mk_key0', [MK, SP, ident, len(ident)])]
            res = na.run(pre + [script(stream), (how, [SP, ('out', 65 if pc == 1 else 97), ('out', 8), m, len(m)] + ([pc] if how == 'vc_sp_sign' else [])), ('vc_used', [])], dig)
            t = '%s with ks = %064x, identity %s, message %s, random bytes %s, format %d%s' % (how, ks, h(ident), h(m), h(stream), pc, ', digests chosen' if dig else '')
            if isinstance(res, str):
                return t + ' ends with ' + res
            if res[-2][0] != (w is None):
                return t + (' throws' if w else ' does not throw')
            if w and (res[-2][2] != [w[0].hex(), len(w[0]).to_bytes(8, 'little').hex()] or res[-1][1] != w[1]):
                return t + ' yields %s (%d random bytes used), the standard %s (%d)' % (res[-2][2], res[-1][1], w[0].hex(), w[1])
    return None


def verify(lib):
    na, R = Nat(lib), random.Random(fw.SEED + 3)

    def one(ref, ks, Q, sig, m, ident, hid, dig=()):
        ok = ref.verify(Q, sig, m, ident, hid)
        calls = [([pset(Q)], 'vc_mp_verify', MP), ([mset(ks), ('vc_mk_copy', [MK, MP])], 'vc_mp_verify', MP)]
        if hid == 1:
            calls.append(([pset(Q)], 'vc_mp_verify0', MP))
        calls.append(([sset(C.gen, Q)], 'vc_sp_verify', SP))
        for pre, fn, k in calls[:1] if R.random() < .7 else calls:
            res = na.run(pre + [(fn, [k, sig, len(sig), m, len(m), ident, len(ident)] + ([] if fn.endswith('0') else [hid]))], dig)
            t = '%s with ks = %064x, the %d-byte signature %s, message %s, identity %s, hid %d%s' % (fn, ks, len(sig), h(sig), h(m), h(ident), hid, ', digests chosen' if dig else '')
            if isinstance(res, str):
                return t + ' ends with ' + res
            if res[-1][0]:
                return t + ' throws'
            if bool(res[-1][1]) != ok:
                return t + ' answers %d' % res[-1][1]
        return None
    for i in range(6):
        ks, Q = setup(R)
        ident = R.choice(idents(R))
        hid = R.choice([1, 1, 3])
        m = R.randbytes(R.choice([0, 1, 31, 64, 200]))
        ref = Ref()
        D = ref.derive(ks, ident, hid)
        stream = R.randbytes(64)
        full = [ref.sign(D, Q, m, stream, pc)[0] for pc in range(3)]
        cand = []
        for s in full:
            cand += [s, s[:-1], s + b'\0', s[:32], s[:33], s[:31], s + bytes(32)]
            for j in (0, 31, 32, 33, len(s) - 1, R.randrange(len(s))):
                b = bytearray(s)
                b[j] ^= 1 << R.randrange(8)
                cand.append(bytes(b))
            for fb in (0, 1, 2, 3, 4, 5, 6, 7, 8):
                cand.append(s[:32] + bytes([fb]) + s[33:])
            for v in (int.from_bytes(s[:32], 'big') + N, 0, N):
                if not v >> 256:
                    cand.append(b32(v) + s[32:])
        cand += [b'', bytes(97), full[0][:33]]
        for s in cand:
            w = one(ref, ks, Q, s, m, ident, hid)
            if w:
                return w
        for m2, id2, hid2 in ((m + b'x', ident, hid), (m[:-1], ident, hid), (m, ident + b'x', hid), (m, ident[:-1], hid), (m, ident, hid ^ 2)):
            w = one(ref, ks, Q, full[i % 3], m2, id2, hid2)
            if w:
                return w
        # any h accepted for which the digest says so; h out of range with a matching reduction
        T_ = C.mulp(R.randrange(1, N), C.gen)
        enc = b'\4' + b32(T_[0]) + b32(T_[1])
        B = C2.addp(C2.mulp(ref.hn(1, ident + bytes([hid])), C2.gen), Q)
        for hv in (1, N - 1, R.randrange(1, N)):
            wv = PR.tobytes(PR.mul(PR.pairing(T_, B), ref.gpow(Q, hv)))
            dig = ref.choose(2, m + wv, hv, R.choice([0, 3]))
            r2 = Ref()
            r2.dig = dict(dig)
            for s in (hv, hv + N, (N - hv) % N):
                if s >> 256:
                    continue
                w = one(r2, ks, Q, b32(s) + enc, m, ident, hid, dig)
                if w:
                    return w
        # [h1]P2 + Ppub is the point at infinity
        dig = ref.choose(1, ident + bytes([hid]), N - ks)
        for hv in (5, R.randrange(1, N)):
            for wv in (PR.ONE, ref.gpow(Q, hv), (0,) * 12):
                d2 = dig + ref.choose(2, m + PR.tobytes(wv), hv)
                r2 = Ref()
                r2.dig = dict(d2)
                w = one(r2, ks, Q, b32(hv) + enc, m, ident, hid, d2)
                if w:
                    return w
    return None


def search(lib, what):
    return {'keys': keys, 'derive': derive, 'sign': sign, 'verify': verify}[what](lib)
