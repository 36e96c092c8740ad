"""SM2 keys, signatures and encryption: specifications, histories and native reference (P04, P05, P06)."""
import ctypes
import random

import codec
import curve as CV
import eclaw
import exec as E
import fe
import fw
import hist
import mont
import proto
import sm2ref
import smt
import term as T
from proto import C64, H, PRun, bytes_be, cb, val
from u256 import bswap

C = eclaw.CURVES['sm2']
N, P = C.order, C.p
K256 = lambda v: T.const(v, 256)
SRC = 'sm2/sm2p256v1.cpp'
NUM = ['number/uint256_common.cpp', 'number/mont256_common.cpp', 'number/uint256_x64.cpp', 'number/mont256_x64.cpp']
XOR = 'memory_utils/memxor.cpp'
DRV = fe.VERIF + '/native/sm2.cpp'


def progs():
    out = []
    for cfg in ('simd', 'port'):
        if cfg == 'port' and fe.same_ir((SRC, 'simd'), (SRC, 'port')) and fe.same_ir((DRV, 'simd'), (DRV, 'port')) and fe.same_ir((XOR, 'simd'), (XOR, 'port')):
            continue
        out.append((fe.program([(DRV, cfg), (SRC, cfg), (XOR, cfg)]),
                    fe.lazy_shared('sm2p' + cfg, cfg, NUM + [SRC, XOR, 'sm3/sm3_common.cpp', 'sm3/sm3_yang15.cpp'], driver='sm2.cpp'), ' ' + cfg))
    return out


def toP(bs):
    return mont.to('sm2p', P, val(bs))


def toN(v):
    return mont.to('sm2n', N, v)


def add(x, y):
    return mont.uf('add', 'sm2n', N, x, y)


def sub(x, y):
    return mont.uf('sub', 'sm2n', N, x, y)


def mul(x, y):
    return mont.product('sm2n', N, x, y)


def inv(x):
    return mont.inverse('sm2n', N, x)


def bv(name, n):
    return hist.bv(name, n)


def inrange(v, lo, hi):
    return T.and_(T.ule(K256(lo), v), T.ule(v, K256(hi)))


def pub_ok(G, x, y):
    return codec.conj(T.ult(val(x), K256(P)), T.ult(val(y), K256(P)), G.on(toP(x), toP(y)))


def zeros(v):
    return T.eq(v, K256(0))


# ------------------------------------------------------------------ keys
def set_pub(prog, lib):
    def go(r):
        for how in ('vc_pk_set', 'vc_pk_ctor'):
            G = proto.Group(C)
            run = PRun(r, prog, G, name='public key import (%s)' % how, lib=lib)
            x, y = bv('x', 32), bv('y', 32)
            bx, by = run.buf('x', 32, x), run.buf('y', 32, y)
            k = run.obj('key', 'vc_pk_size')
            run.call(how, [k, bx, by], throws=T.not_(pub_ok(G, x, y)), keep=[bx, by])
            ox, oy = run.buf('ox', 32), run.buf('oy', 32)
            run.call('vc_pk_get', [k, ox, oy], mem=[(ox, 0, x), (oy, 0, y)])
            run.done()
    return go


def set_priv(prog, lib):
    def go(r):
        for how in ('vc_sk_set', 'vc_sk_ctor'):
            G = proto.Group(C)
            run = PRun(r, prog, G, name='private key import (%s)' % how, lib=lib)
            d = bv('d', 32)
            bd = run.buf('d', 32, d)
            k = run.obj('key', 'vc_sk_size')
            run.call(how, [k, bd], throws=T.not_(inrange(val(d), 1, N - 2)), keep=[bd])
            o, ox, oy = run.buf('od', 32), run.buf('ox', 32), run.buf('oy', 32)
            run.call('vc_sk_get', [k, o], mem=[(o, 0, d)])
            Q = G.smul(val(d), G.G)
            run.call('vc_sk_pub', [k, ox, oy], mem=[(ox, 0, G.xb(Q)), (oy, 0, G.yb(Q))])
            run.done()
    return go


def gen_priv(prog, lib):
    def go(r):
        for how in ('vc_sk_gen', 'vc_sk_ctorg'):
            G = proto.Group(C)
            run = PRun(r, prog, G, name='key generation (%s)' % how, lib=lib)
            v = bv('rnd', 32)
            k = run.obj('key', 'vc_sk_size')
            run.draw(how, [k], v, again=None)
            if run.dead:
                run.done()
                continue
            o, ox, oy = run.buf('od', 32), run.buf('ox', 32), run.buf('oy', 32)
            run.call('vc_sk_get', [k, o])
            got = run.mem(o, 0, 32)
            s = hist.Step()
            s.fn, s.args, s.ret, s.throws, s.label, s.mem = 'vc_sk_get', [k, o], None, None, 'vc_sk_get', []
            run.check(inrange(val(got), 1, N - 2), T.TRUE, s, ('range',), 'the generated private key lies in [1, n-2]')
            Q = G.smul(val(got), G.G)
            run.call('vc_sk_pub', [k, ox, oy], mem=[(ox, 0, G.xb(Q)), (oy, 0, G.yb(Q))])
            # importing the same private key gives the same object
            k2 = run.obj('key2', 'vc_sk_size')
            run.call('vc_sk_set', [k2, o], mem=[(k2, 0, run.mem(k, 0, k.size))])
            run.done()
    return go


# ------------------------------------------------------------------ signatures
A_B = None
IDMAX = 1 << 56
EDGE = [0, 1, 2, 15, 31, 32, 33, 47, 63, 64, 65]


def zdigest(idparts, entl, x, y):
    """identity digest"""
    a, b = (-3) % P, C.b
    return H(entl, *idparts, cb(a), cb(b), cb(C.gen[0]), cb(C.gen[1]), x, y)


class Ident:
    """the identity given to sign / verify"""

    def __init__(self, run, kind):
        self.kind = kind
        if kind == 'default':
            d = b'1234567812345678'
            self.args = []
            self.parts = [[T.const(c, 8) for c in d]]
            self.entl = [T.const(0, 8), T.const(128, 8)]
            self.long = T.FALSE
        elif kind == 'any':
            n = T.var('idlen', 64, 0, IDMAX)
            b = run.ubuf('id', n)
            self.args = [b, n]
            self.parts = [proto.blob('id', C64(0), n)]
            self.entl = [T.ext(n, 5, 8), T.cat(T.ext(n, 0, 5), T.const(0, 3))]
            self.long = T.ult(C64(8191), n)
        else:
            t = bv('id', kind)
            b = run.buf('id', kind, t)
            self.args = [b, kind]
            self.parts = [t]
            self.entl = cb(8 * kind, 2)
            self.long = T.FALSE


def msgof(run, kind):
    if kind == 'any':
        n = T.var('mlen', 64, 0, IDMAX)
        b = run.ubuf('msg', n)
        return [b, n], [proto.blob('msg', C64(0), n)]
    t = bv('m', kind)
    b = run.buf('msg', kind, t)
    return [b, kind], [t]


def nonce(v):
    """random bytes to [1, n-1]"""
    x = val(v)
    D = K256(N - 1)
    return T.add(T.ite(T.ult(x, D), x, T.sub(x, D)), K256(1))


def sign_spec(G, e, d, k):
    """(r, s, another nonce is needed) as residues"""
    Q = G.smul(k, G.G)
    kn, dn = toN(k), toN(d)
    one = T.const(mont.R % N, 256)
    r = add(e, toN(mont.frm('sm2p', P, G.ax(Q))))
    s = mul(inv(add(one, dn)), sub(kn, mul(r, dn)))
    again = codec.smt_or([zeros(r), zeros(add(r, kn)), zeros(s)])
    return r, s, again


def resid(e):
    return toN(val(e))


def sign_run(r, prog, lib, idk, mk, how, name):
    G = proto.Group(C)
    run = PRun(r, prog, G, name=name, lib=lib)
    d = bv('d', 32)
    bd = run.buf('d', 32, d)
    sk = run.obj('key', 'vc_sk_size')
    run.call('vc_sk_set', [sk, bd], throws=T.not_(inrange(val(d), 1, N - 2)))
    Q = G.smul(val(d), G.G)
    idn = Ident(run, idk)
    ma, mp = msgof(run, mk)
    z = zdigest(idn.parts, idn.entl, G.xb(Q), G.yb(Q))
    e = H(z, *mp)
    v = bv('rnd', 32)
    rr, ss, again = sign_spec(G, resid(e), val(d), nonce(v))
    sig = run.buf('sig', 64)
    run.draw(how, [sk, sig] + ma + idn.args, v, again=again, throws=idn.long if idn.long is not T.FALSE else None, keep=[bd, sk],
             mem=[(sig, 0, bytes_be(mont.frm('sm2n', N, rr)) + bytes_be(mont.frm('sm2n', N, ss)))])
    run.done()


def verify_ok(G, e, x, y, sig):
    """acceptance by the standard"""
    r, s = val(sig[:32]), val(sig[32:])
    rn, sn = toN(r), toN(s)
    t = add(rn, sn)
    pt = G.sum(G.smul(s, G.G), G.smul(mont.frm('sm2n', N, t), G.pt(toP(x), toP(y))))
    R = add(e, toN(mont.frm('sm2p', P, G.ax(pt))))
    return codec.conj(inrange(r, 1, N - 1), inrange(s, 1, N - 1), T.not_(zeros(t)), T.not_(G.inf(pt)), T.eq(R, rn))


def verify_run(r, prog, lib, idk, mk, how, name):
    G = proto.Group(C)
    run = PRun(r, prog, G, name=name, lib=lib)
    if how.startswith('vc_sk'):
        d = bv('d', 32)
        k = run.obj('key', 'vc_sk_size')
        run.call('vc_sk_set', [k, run.buf('d', 32, d)], throws=T.not_(inrange(val(d), 1, N - 2)))
        Q = G.smul(val(d), G.G)
        x, y = G.xb(Q), G.yb(Q)
    else:
        x, y = bv('x', 32), bv('y', 32)
        k = run.obj('key', 'vc_pk_size')
        run.call('vc_pk_set', [k, run.buf('x', 32, x), run.buf('y', 32, y)], throws=T.not_(pub_ok(G, x, y)))
    idn = Ident(run, idk)
    ma, mp = msgof(run, mk)
    e = H(zdigest(idn.parts, idn.entl, x, y), *mp)
    sig = bv('s', 64)
    bs = run.buf('sig', 64, sig)
    ok = T.and_(T.not_(idn.long), verify_ok(G, resid(e), x, y, sig))
    run.call(how, [k, bs] + ma + idn.args, ret=T.zext(ok, 32), keep=[bs, k])
    run.done()


def accepts_task(r):
    """a signature made by signing is accepted: with s (1 + d) = k - r d the point of the verification equation is k G"""
    import sympy
    e, x1, k, d = sympy.symbols('e x1 k d')
    rr = e + x1
    s = (k - rr * d) / (1 + d)
    t = rr + s
    checks = [sympy.simplify(s + t * d - k) == 0,                       # s G + t (d G) = k G
              sympy.simplify((t * (1 + d)) - (rr + k)) == 0]            # t = 0 exactly when r + k = 0
    for c in checks:
        if c:
            r.ok('computer algebra')
        else:
            r.fail('failed')
            r.notes.append('the signature equation does not follow')


# ------------------------------------------------------------------ encryption
def kdf(x, y, n):
    out = []
    ct = 1
    while len(out) < n:
        out += H(x + y, cb(ct, 4))
        ct += 1
    return out[:n]


def c1bytes(G, Q, pc):
    x, y = G.xb(Q), G.yb(Q)
    par = T.ext(y[31], 0, 1)
    if pc == 0:
        return [T.const(4, 8)] + x + y
    if pc == 1:
        return [T.cat(T.const(1, 7), par)] + x
    return [T.cat(T.const(3, 7), par)] + x + y


def allzero(bs):
    return T.eq(val(bs), T.const(0, 8 * len(bs))) if bs else T.FALSE


def xor(a, b):
    return [T.xor(p, q) for p, q in zip(a, b)]


def enc_run(r, prog, lib, pc, n, how, name):
    G = proto.Group(C)
    run = PRun(r, prog, G, name=name, lib=lib)
    if how.startswith('vc_sk'):
        d = bv('d', 32)
        k = run.obj('key', 'vc_sk_size')
        run.call('vc_sk_set', [k, run.buf('d', 32, d)], throws=T.not_(inrange(val(d), 1, N - 2)))
        Q = G.smul(val(d), G.G)
    else:
        x, y = bv('x', 32), bv('y', 32)
        k = run.obj('key', 'vc_pk_size')
        run.call('vc_pk_set', [k, run.buf('x', 32, x), run.buf('y', 32, y)], throws=T.not_(pub_ok(G, x, y)))
        Q = G.pt(toP(x), toP(y))
    m = bv('m', n)
    bm = run.buf('msg', n, m)
    v = bv('rnd', 32)
    kk = nonce(v)
    kP = G.smul(kk, Q)
    x2, y2 = G.xb(kP), G.yb(kP)
    ks = kdf(x2, y2, n)
    c = c1bytes(G, G.smul(kk, G.G), pc) + H(x2, m, y2) + xor(m, ks)
    size = len(c)
    o, ol = run.buf('out', size), run.buf('outlen', 8)
    args = [k, o, ol, bm, n]
    if how != 'vc_pk_enc0':
        args.append(T.const(pc, 32))
    run.draw(how, args, v, again=allzero(ks), keep=[bm, k], mem=[(o, 0, c), (ol, 0, [T.const(b, 8) for b in size.to_bytes(8, 'little')])])
    if not run.dead:
        run.call('vc_ctlen', [bm, n, T.const(pc, 32)], ret=C64(size))
        run.call('vc_sk_ctlen', [bm, n, T.const(pc, 32)], ret=C64(size))
        run.call('vc_ptlen', [o, size], ret=C64(n))
    run.done()


def dec_run(r, prog, lib, first, n, name):
    """decryption of any string of n bytes; first: the first byte, or None for any other value"""
    G = proto.Group(C)
    c = bv('c', n)
    pre = []
    if first is not None:
        c[0] = T.const(first, 8)
    elif n:
        pre = [T.ne(c[0], T.const(k, 8)) for k in (2, 3, 4, 6, 7)]
    run = PRun(r, prog, G, name=name, lib=lib, pre=pre)
    d = bv('d', 32)
    k = run.obj('key', 'vc_sk_size')
    run.call('vc_sk_set', [k, run.buf('d', 32, d)], throws=T.not_(inrange(val(d), 1, N - 2)))
    bc = run.buf('ct', n, c)
    l1 = 33 if first in (2, 3) else 65
    good = first is not None and n >= l1 + 32
    if not good:
        run.call('vc_ptlen', [bc, n], throws=True)
        run.dead = False
        o, ol = run.buf('out', n), run.buf('outlen', 8)
        run.call('vc_sk_dec', [k, o, ol, bc, n], throws=True)
        run.done()
        return
    n2 = n - l1 - 32
    run.call('vc_ptlen', [bc, n], ret=C64(n2))
    ok, X, Y, used = codec.decode_spec(G.dec, c[:l1])
    kP = G.smul(val(d), G.pt(X, Y))
    x2, y2 = G.xb(kP), G.yb(kP)
    ks = kdf(x2, y2, n2)
    m = xor(c[l1 + 32:], ks)
    acc = codec.conj(ok, T.not_(allzero(ks)), T.eq(val(H(x2, m, y2)), val(c[l1:l1 + 32])))
    o, ol = run.buf('out', n2), run.buf('outlen', 8)
    run.call('vc_sk_dec', [k, o, ol, bc, n], throws=T.not_(acc), keep=[bc, k], mem=[(o, 0, m), (ol, 0, [T.const(b, 8) for b in n2.to_bytes(8, 'little')])])
    run.done()


# ------------------------------------------------------------------ tasks
def tasks(pid):
    out = []
    for prog, lib, tag in progs():
        cache = {}

        def task(name, fn, what, limit=200, lib=lib, cache=cache):
            def srch():
                if what not in cache:
                    cache[what] = sm2ref.search(lib, what)
                return cache[what]
            out.append(fw.searched(name + tag, fn, srch, limit))
        if pid == 'P06':
            task('public key import', set_pub(prog, lib), 'keys')
            task('private key import', set_priv(prog, lib), 'keys')
            task('key generation', gen_priv(prog, lib), 'keys')
        if pid == 'P04':
            for how, idk, mk in (('vc_sk_sign', 'any', 'any'), ('vc_sk_sign0', 'default', 'any'), ('vc_sk_sign', 0, 0), ('vc_sk_sign', 5, 70)):
                nm = 'signing (%s, identity %s, message %s)' % (how, idk, mk)
                task(nm, lambda r, how=how, idk=idk, mk=mk, nm=nm: sign_run(r, prog, lib, idk, mk, how, nm), 'sign')
            for how, idk, mk in (('vc_pk_verify', 'any', 'any'), ('vc_pk_verify0', 'default', 'any'), ('vc_sk_verify', 'any', 'any'), ('vc_pk_verify', 0, 0), ('vc_pk_verify', 5, 70)):
                nm = 'verification (%s, identity %s, message %s)' % (how, idk, mk)
                task(nm, lambda r, how=how, idk=idk, mk=mk, nm=nm: verify_run(r, prog, lib, idk, mk, how, nm), 'verify')
        if pid == 'P05':
            top = 70 if fw.TIER == 'quick' else 200
            for how in ('vc_pk_enc', 'vc_sk_enc', 'vc_pk_enc0'):
                for pc in (0, 1, 2):
                    if how == 'vc_pk_enc0' and pc:
                        continue
                    ns = EDGE
                    if how == 'vc_pk_enc' and (fw.TIER != 'quick' or pc == 0 and tag == ' simd'):
                        ns = list(range(0, top))
                    for i in range(0, len(ns), 7):
                        ch = ns[i:i + 7]
                        nm = 'encryption (%s, format %d, lengths %s)' % (how, pc, ch)
                        task(nm, lambda r, how=how, pc=pc, ch=ch, nm=nm: [enc_run(r, prog, lib, pc, n, how, '%s length %d' % (nm, n)) for n in ch], 'encrypt')
            for first in (2, 3, 4, 6, 7, None):
                l1 = 33 if first in (2, 3) else 65
                ns = [0, 1, 2, 33, 64, 65, 66, 96, 97, 98, 130]
                if first is not None:
                    ns = [1, 2, 32, 33, 34, 64, 65, 66] + [l1 + k for k in (-1, 0, 1, 31)] + [l1 + 32 + k for k in EDGE]
                    if fw.TIER != 'quick' or first == 4 and tag == ' simd':
                        ns = range(1, l1 + 32 + top)
                    ns = sorted(set(ns))
                for i in range(0, len(ns), 12):
                    ch = ns[i:i + 12]
                    nm = 'decryption (first byte %s, lengths %d..%d)' % (first, ch[0], ch[-1])
                    task(nm, lambda r, first=first, ch=ch, nm=nm: [dec_run(r, prog, lib, first, n, '%s length %d' % (nm, n)) for n in ch], 'decrypt')
    if pid == 'P04':
        out.append(fw.Task('signatures made by signing are accepted', accepts_task))
    return out


ASSUME = [
    'point, field and codec layers: the contracts decided under P01, P02, P03, N03, N05',
    'the hash function is an arbitrary function of the bytes absorbed (its own contract: H02)',
    'a retry loop is cut at the random draw: termination (probability of a retry about 2^-256) is not claimed',
    'objects in memory are smaller than 2^56 bytes',
]


def main(pid):
    return fw.main(pid, tasks(pid), trusted=fw.TRUSTED, assumptions=fw.ASSUMPTIONS + ASSUME)
