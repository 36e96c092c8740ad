"""SM9 signature system: keys, key derivation, signing and verification (Q04)."""
import codec
import curve as CV
import eclaw
import exec as E
import fe
import fw
import hist
import mont
import pairref
import proto
import smt
import sm9ref
import term as T
import tower
import wide
from contract import Contract
from proto import C64, H, PRun, bytes_be, cb, val
from sm2spec import add, bv, inrange, inv, msgof, mul, nonce as _nonce, sub, toN, zeros
from u256 import bswap

C, C2 = eclaw.CURVES['sm9'], eclaw.CURVES['sm9b']
N, P = C.order, C.p
K256 = lambda v: T.const(v, 256)
SRC = 'sm9/sm9_field.cpp'
NUM = ['number/uint256_common.cpp', 'number/mont256_common.cpp', 'number/uint256_x64.cpp', 'number/mont256_x64.cpp']
DRV = fe.VERIF + '/native/sm9.cpp'
IDMAX = 1 << 56
INF2 = 1 << 1024
PW2 = 1032
GW = 3072
M256 = (1 << 256) - 1


def progs():
    out = []
    for cfg in ('simd', 'port'):
        if cfg == 'port' and fe.same_ir((SRC, 'simd'), (SRC, 'port')) and fe.same_ir((DRV, 'simd'), (DRV, 'port')):
            continue
        out.append((fe.program([(DRV, cfg), (SRC, cfg)]),
                    fe.lazy_shared('sm9p' + cfg, cfg, NUM + [SRC, 'memory_utils/memxor.cpp', 'sm3/sm3_common.cpp', 'sm3/sm3_yang15.cpp'], driver='sm9.cpp'), ' ' + cfg))
    return out


def toN9(v):
    return mont.to('sm9n', N, v)


class Sys(proto.Group):
    """G1, the twist, and the target group of the pairing"""

    def __init__(self):
        super().__init__(C)
        self.G2 = self.pt2([T.const((v * mont.R) % P, 256) for v in C2.gen[0] + C2.gen[1]])

    # ---- the twist
    def pt2(self, ws):
        if all(w.op == 'uf' and w.aux == 'ax2:%d' % i and w.args == ws[0].args for i, w in enumerate(ws)):
            return ws[0].args[0]
        return T.uf('ecpt2', PW2, ws)

    def words2(self, Q):
        if Q.op == 'uf' and Q.aux == 'ecpt2':
            return list(Q.args)
        return [T.uf('ax2:%d' % i, 256, [Q], 0, P - 1) for i in range(4)]

    def smul2(self, k, Q):
        return T.uf('smul2', PW2, [k, Q])

    def sum2(self, A, B):
        if A.id > B.id:
            A, B = B, A
        return T.uf('psum2', PW2, [A, B])

    def inf2(self, Q):
        if Q.op == 'uf' and Q.aux == 'ecpt2':
            return T.FALSE
        if Q.op == 'uf' and Q.aux == 'smul2' and Q.args[1] is self.G2:
            return T.or_(T.eq(Q.args[0], K256(0)), T.eq(Q.args[0], K256(N)))
        return T.uf('isinf2', 1, [Q])

    def on2(self, ws):
        Q = self.pt2(ws)
        if Q is self.G2:
            return T.TRUE
        if Q.op == 'uf' and Q.aux == 'ecpt2':
            return T.uf('oncurve2', 1, ws)
        return T.not_(self.inf2(Q))

    def parse2(self, ws):
        """Jacobian coordinates of a known point"""
        q = ws[0].args
        if all(w.op == 'uf' and w.aux == 'j2:%d' % i and w.args == q for i, w in enumerate(ws)):
            return q[0]
        one = [T.const(mont.R % P, 256), T.const(0, 256)]
        if ws[4] is one[0] and ws[5] is one[1]:
            return self.pt2(ws[:4])
        raise E.Unsupported('a point of unknown origin')

    # ---- the target group
    def gwords(self, E_):
        return [T.uf('gw:%d' % i, 256, [E_], 0, P - 1) for i in range(12)]

    def gparse(self, ws):
        a = ws[0].args
        if all(w.op == 'uf' and w.aux == 'gw:%d' % i and w.args == a for i, w in enumerate(ws)):
            return a[0]
        if ws[0] is T.const(mont.R % P, 256) and all(w is T.const(0, 256) for w in ws[1:]):
            return T.const(1, GW)
        raise E.Unsupported('an element of the target group of unknown origin')

    def pair(self, A, B):
        return T.uf('pair', GW, [A, B])

    def gmul(self, a, b):
        if a.op == 'c':
            return b
        if b.op == 'c':
            return a
        if a.id > b.id:
            a, b = b, a
        return T.uf('gmul', GW, [a, b])

    def gpow(self, a, k):
        return T.uf('gpow', GW, [a, k])

    def gbytes(self, E_):
        o = []
        for w in reversed(self.gwords(E_)):
            o += bytes_be(mont.frm('sm9p', P, w))
        return o

    def xb2(self, Q):
        w = self.words2(Q)
        f = lambda a: bytes_be(mont.frm('sm9p', P, a))
        return f(w[1]) + f(w[0]), f(w[3]) + f(w[2])

    def handlers(self):
        hs = {k: v.handler() for k, v in tower.contracts().items()}
        hs.update(super().handlers())
        p2, px = C2.pre, tower.PRE

        def reg(nm, f):
            hs[nm] = Contract(nm, f, []).handler()

        def rd(c, p, n):
            v = [c.rd(p, 32, 32 * i) for i in range(n)]
            for i, x in enumerate(v):
                c.pre(T.ult(x, K256(P)), 'coordinate %d below the modulus' % i)
            return v

        def wr(c, r, ws):
            for i, w in enumerate(ws):
                c.wr(r, w, 32 * i)

        def put2(c, r, Q):
            wr(c, r, [T.uf('j2:%d' % i, 256, [Q], 0, P - 1) for i in range(6)])

        def aff(c, p):
            ws = rd(c, p, 4)
            c.pre(self.on2(ws), 'the point is on the twist')
            return self.pt2(ws)
        reg(p2 + 'j_mul_g', lambda c, r, k: put2(c, r, self.smul2(bswap(c.rd(k, 32)), self.G2)))
        reg(p2 + 'j_mul_a', lambda c, r, k, p: put2(c, r, self.smul2(bswap(c.rd(k, 32)), aff(c, p))))
        reg(p2 + 'j_add', lambda c, r, p, q: put2(c, r, self.sum2(self.parse2(rd(c, p, 6)), self.parse2(rd(c, q, 6)))))
        reg(p2 + 'j_add_a', lambda c, r, p, q: put2(c, r, self.sum2(self.parse2(rd(c, p, 6)), aff(c, q))))
        reg(p2 + 'j_is_inf', lambda c, p: self.inf2(self.parse2(rd(c, p, 6))))

        def toa(c, r, p):
            Q = self.parse2(rd(c, p, 6))
            c.pre(T.not_(self.inf2(Q)), 'the point has affine coordinates')
            wr(c, r, self.words2(Q))
        reg(p2 + 'j_to_a', toa)
        reg(p2 + 'j_from_a', lambda c, r, p: wr(c, r, rd(c, p, 4) + [T.const(mont.R % P, 256), T.const(0, 256)]))
        reg(p2 + 'j_cpy', lambda c, r, p: wr(c, r, [c.rd(p, 32, 32 * i) for i in range(6)]))
        reg(p2 + 'a_cpy', lambda c, r, p: wr(c, r, [c.rd(p, 32, 32 * i) for i in range(4)]))
        reg(p2 + 'a_check', lambda c, p: self.on2(rd(c, p, 4)))
        pr = 'sm9::internal::sm9_pairing'

        def G1(c, p):
            X, Y = rd(c, p, 2)
            c.pre(self.on(X, Y), 'the point is on the curve')
            return self.pt(X, Y)
        reg(pr, lambda c, r, p, q: wr(c, r, self.gwords(self.pair(G1(c, p), aff(c, q)))))
        reg(pr + '_P1_Q', lambda c, r, q: wr(c, r, self.gwords(self.pair(self.G, aff(c, q)))))
        reg(pr + '_P_P2', lambda c, r, p: wr(c, r, self.gwords(self.pair(G1(c, p), self.G2))))
        g = lambda c, p: self.gparse([c.rd(p, 32, 32 * i) for i in range(12)])
        reg(px + 'fp12_mul', lambda c, r, a, b: wr(c, r, self.gwords(self.gmul(g(c, a), g(c, b)))))
        reg(px + 'fp12_sqr', lambda c, r, a: wr(c, r, self.gwords(self.gmul(g(c, a), g(c, a)))))
        reg(px + 'fp12_pow', lambda c, r, a, k: wr(c, r, self.gwords(self.gpow(g(c, a), bswap(c.rd(k, 32))))))
        reg(px + 'fp12_cpy', lambda c, r, a: wr(c, r, [c.rd(a, 32, 32 * i) for i in range(12)]))

        def sub1ex(c, a, d, l):
            if l.op != 'c':
                raise E.Unsupported('symbolic length')
            c.wr(a, wide.wide('sm9n1', wide.big([c.rd(d, 1, i) for i in range(l.aux)])))
        reg('sm9::internal::sm9_bn_mod_n_sub1_ex', sub1ex)
        return hs

    # ---- concrete interpretation
    def enc2(self, Q):
        return INF2 if Q is None else C2.enc(Q[0]) | C2.enc(Q[1]) << 512

    def dec2(self, v):
        M = (1 << 512) - 1
        return None if v == INF2 else (C2.dec(v & M), C2.dec(v >> 512))

    def ufs(self):
        d = super().ufs()
        d.update(tower.UFS)
        memo = {}

        def smul2(t, a):
            k = tuple(a)
            if k not in memo:
                Q = self.dec2(a[1])
                memo[k] = self.enc2(C2.mulp(a[0], Q) if C2.on(Q) else None)
            return memo[k]
        R = pairref
        d.update({
            'ecpt2': lambda t, a: sum(x << (256 * i) for i, x in enumerate(a)),
            'smul2': smul2,
            'psum2': lambda t, a: self.enc2(C2.addp(self.dec2(a[0]), self.dec2(a[1]))),
            'isinf2': lambda t, a: int(a[0] == INF2),
            'oncurve2': lambda t, a: int(C2.on(self.dec2(sum(x << (256 * i) for i, x in enumerate(a))))),
            'pair': lambda t, a: R.pack(R.pairing(self.decp(a[0]), self.dec2(a[1]))),
            'gmul': lambda t, a: R.pack(R.mul(R.unpack(a[0]), R.unpack(a[1]))),
            'gpow': lambda t, a: R.pack(R.power(R.unpack(a[0]), a[1])),
        })
        for i in range(12):
            d['gw:%d' % i] = lambda t, a, i=i: a[0] >> (256 * i) & M256
            if i < 4:
                d['ax2:%d' % i] = lambda t, a, i=i: 0 if a[0] == INF2 else a[0] >> (256 * i) & M256
        return d


# ------------------------------------------------------------------ the standard
def nonce(v):
    x = val(v)
    D = K256(N - 1)
    return T.add(T.ite(T.ult(x, D), x, T.sub(x, D)), K256(1))


def Hn(tag, *parts):
    t = [T.const(tag, 8)]
    ha = H(t, *parts, cb(1, 4)) + H(t, *parts, cb(2, 4))[:8]
    return T.add(wide.wide('sm9n1', wide.big(ha)), K256(1))


S9 = dict(add=lambda x, y: mont.uf('add', 'sm9n', N, x, y), sub=lambda x, y: mont.uf('sub', 'sm9n', N, x, y),
          mul=lambda x, y: mont.product('sm9n', N, x, y), inv=lambda x: mont.inverse('sm9n', N, x), frm=lambda x: mont.frm('sm9n', N, x))


def ident(run, kind):
    if kind == 'any':
        n = T.var('idlen', 64, 0, IDMAX)
        return [run.ubuf('id', n), n], [proto.blob('id', C64(0), n)]
    t = bv('id', kind)
    return [run.buf('id', kind, t), kind], [t]


def newrun(r, prog, lib, name):
    G = Sys()
    return G, PRun(r, prog, G, name=name, lib=lib)


def master(run, G, name='ks'):
    d = bv(name, 32)
    mk = run.obj('master', 'vc_mk_size')
    run.call('vc_mk_set', [mk, run.buf(name, 32, d)], throws=T.not_(inrange(val(d), 1, N - 1)))
    return mk, val(d), G.smul2(val(d), G.G2)


def pub(run, G, name='mpk'):
    """an imported public key: the object, the point"""
    x, y = bv(name + 'x', 64), bv(name + 'y', 64)
    mp = run.obj(name, 'vc_mp_size')
    ws = [mont.to('sm9p', P, val(b)) for b in (x[32:], x[:32], y[32:], y[:32])]
    run.call('vc_mp_set', [mp, run.buf(name + 'x', 64, x), run.buf(name + 'y', 64, y)], throws=T.not_(G.on2(ws)))
    return mp, ws


def red(bs):
    return bytes_be(mont.frm('sm9p', P, mont.to('sm9p', P, val(bs))))


# ------------------------------------------------------------------ keys
def keys(prog, lib):
    def go(r):
        for how in ('vc_mk_set', 'vc_mk_ctor'):
            G, run = newrun(r, prog, lib, 'master key import (%s)' % how)
            d = bv('ks', 32)
            mk = run.obj('master', 'vc_mk_size')
            run.call(how, [mk, run.buf('ks', 32, d)], throws=T.not_(inrange(val(d), 1, N - 1)))
            finish(run, G, mk, d)
        for how in ('vc_mk_gen', 'vc_mk_ctorg'):
            G, run = newrun(r, prog, lib, 'master key generation (%s)' % how)
            mk = run.obj('master', 'vc_mk_size')
            run.draw(how, [mk], bv('rnd', 32), again=None)
            if run.dead:
                run.done()
                continue
            o = run.buf('o', 32)
            run.call('vc_mk_get', [mk, o])
            got = run.mem(o, 0, 32)
            s = hist.Step()
            s.fn, s.args, s.ret, s.throws, s.label, s.mem = 'vc_mk_get', [mk, o], None, None, 'vc_mk_get', []
            run.check(inrange(val(got), 1, N - 1), T.TRUE, s, ('range',), 'the generated master key lies in [1, n-1]')
            finish(run, G, mk, got)
            if not run.dead:
                pass
        G, run = newrun(r, prog, lib, 'master public key import')
        mp, ws = pub(run, G)
        x, y = run.buf('ox', 64), run.buf('oy', 64)
        Q = G.pt2(ws)
        bx, by = G.xb2(Q)
        run.call('vc_mp_get', [mp, x, y], mem=[(x, 0, bx), (y, 0, by)])
        run.done()
        G, run = newrun(r, prog, lib, 'user key import')
        x, y, px, py = bv('x', 32), bv('y', 32), bv('px', 64), bv('py', 64)
        X, Y = mont.to('sm9p', P, val(x)), mont.to('sm9p', P, val(y))
        G.dec.know(X)
        ws = [mont.to('sm9p', P, val(b)) for b in (px[32:], px[:32], py[32:], py[:32])]
        sp = run.obj('user', 'vc_sp_size')
        run.call('vc_sp_set', [sp, run.buf('x', 32, x), run.buf('y', 32, y), run.buf('px', 64, px), run.buf('py', 64, py)],
                 throws=T.not_(T.and_(G.on(X, Y), G.on2(ws))))
        o = [run.buf('o%d' % i, n) for i, n in enumerate((32, 32, 64, 64))]
        run.call('vc_sp_get', [sp] + o, mem=[(o[0], 0, red(x)), (o[1], 0, red(y)), (o[2], 0, red(px[:32]) + red(px[32:])), (o[3], 0, red(py[:32]) + red(py[32:]))])
        run.done()
    return go


def finish(run, G, mk, d):
    o, x, y = run.buf('od', 32), run.buf('ox', 64), run.buf('oy', 64)
    run.call('vc_mk_get', [mk, o], mem=[(o, 0, d)])
    bx, by = G.xb2(G.smul2(val(d), G.G2))
    run.call('vc_mk_pub', [mk, x, y], mem=[(x, 0, bx), (y, 0, by)])
    run.done()


def user_point(G, ks, idp, hid):
    """(no key exists, the key)"""
    t1 = S9['add'](toN9(Hn(1, *idp, [hid])), toN9(ks))
    t2 = S9['mul'](toN9(ks), S9['inv'](t1))
    return zeros(t1), G.smul(S9['frm'](t2), G.G)


def derive(prog, lib, idk, how):
    def go(r):
        G, run = newrun(r, prog, lib, 'key derivation (%s, identity %s)' % (how, idk))
        mk, ks, Q = master(run, G)
        ia, ip = ident(run, idk)
        hid = T.var('hid', 8) if how == 'vc_mk_key' else T.const(1, 8)
        none, D = user_point(G, ks, ip, hid)
        sp = run.obj('user', 'vc_sp_size')
        run.call(how, [mk, sp] + ia + ([T.zext(hid, 8)] if how == 'vc_mk_key' else []), throws=none)
        o = [run.buf('o%d' % i, n) for i, n in enumerate((32, 32, 64, 64))]
        bx, by = G.xb2(Q)
        run.call('vc_sp_get', [sp] + o, mem=[(o[0], 0, G.xb(D)), (o[1], 0, G.yb(D)), (o[2], 0, bx), (o[3], 0, by)], keep=[mk])
        run.done()
    return go


def encpt(G, Q, pc):
    x, y = G.xb(Q), G.yb(Q)
    par = T.ext(y[31], 0, 1)
    if pc == 0:
        return [T.const(4, 8)] + x + y
    if pc == 1:
        return [T.cat(T.const(1, 7), par)] + x
    return [T.cat(T.const(3, 7), par)] + x + y


def user(run, G, kind):
    """a user key: derived from a master key, or imported; returns (object, point, public point)"""
    sp = run.obj('user', 'vc_sp_size')
    if kind == 'derived':
        mk, ks, Q = master(run, G)
        n = T.var('keyidlen', 64, 0, IDMAX)
        b = run.ubuf('keyid', n)
        none, D = user_point(G, ks, [proto.blob('keyid', C64(0), n)], T.const(1, 8))
        run.call('vc_mk_key0', [mk, sp, b, n], throws=none)
        return sp, D, Q
    x, y, px, py = bv('x', 32), bv('y', 32), bv('px', 64), bv('py', 64)
    X, Y = mont.to('sm9p', P, val(x)), mont.to('sm9p', P, val(y))
    ws = [mont.to('sm9p', P, val(b)) for b in (px[32:], px[:32], py[32:], py[:32])]
    run.call('vc_sp_set', [sp, run.buf('x', 32, x), run.buf('y', 32, y), run.buf('px', 64, px), run.buf('py', 64, py)], throws=T.not_(T.and_(G.on(X, Y), G.on2(ws))))
    return sp, G.pt(X, Y), G.pt2(ws)


def sign(prog, lib, ukind, mk_, pc, how):
    def go(r):
        G, run = newrun(r, prog, lib, 'signing (%s, %s key, message %s, format %d)' % (how, ukind, mk_, pc))
        sp, D, Q = user(run, G, ukind)
        ma, mp = msgof(run, mk_)
        v = bv('rnd', 32)
        k = nonce(v)
        w = G.gpow(G.pair(G.G, Q), k)
        h = Hn(2, *mp, G.gbytes(w))
        l = S9['sub'](toN9(k), toN9(h))
        S = G.smul(S9['frm'](l), D)
        sig = bytes_be(h) + encpt(G, S, pc)
        o, ol = run.buf('sig', len(sig)), run.buf('siglen', 8)
        a = [sp, o, ol] + ma + ([] if how == 'vc_sp_sign0' else [T.const(pc, 32)])
        run.draw(how, a, v, again=zeros(l), keep=[sp], mem=[(o, 0, sig), (ol, 0, [T.const(x, 8) for x in len(sig).to_bytes(8, 'little')])])
        run.done()
    return go


def verify(prog, lib, kind, how, n, idk='any', mk_='any'):
    """n: number of bytes of the signature, or None: any number above 98"""
    def one(r, n):
        G, run = newrun(r, prog, lib, 'verification (%s, %s key, %s bytes)' % (how, kind, n))
        if kind == 'imported':
            k, ws = pub(run, G)
            Q = G.pt2(ws)
        elif how.startswith('vc_sp'):
            k, _, Q = user(run, G, 'derived')
        else:
            mk, ks, Q = master(run, G)
            k = run.obj('mpk', 'vc_mp_size')
            run.call('vc_mk_copy', [mk, k])
        if n is None:
            sl = T.var('siglen', 64, 98, IDMAX)
            bs = run.ubuf('sig', sl)
            sig = None
        else:
            sl = n
            sig = bv('s', n)
            bs = run.buf('sig', n, sig)
        ia, ip = ident(run, idk)
        ma, mp = msgof(run, mk_)
        hid = T.var('hid', 8) if not how.endswith('0') else T.const(1, 8)
        if n in (65, 97):
            ok, X, Y, used = codec.decode_spec(G.dec, sig[32:])
            h = val(sig[:32])
            B = G.sum2(G.smul2(Hn(1, *ip, [hid]), G.G2), Q)
            t = G.gpow(G.pair(G.G, Q), h)
            w = G.gmul(G.pair(G.pt(X, Y), B), t)
            acc = lambda w: T.eq(Hn(2, *mp, G.gbytes(w)), h)
            ok = codec.conj(ok, T.eq(used, C64(n - 32)), inrange(h, 1, N - 1), T.ite(G.inf2(B), acc(t), acc(w)))
        else:
            ok = T.FALSE
        run.call(how, [k, bs, sl] + ma + ia + ([] if how.endswith('0') else [T.zext(hid, 8)]), ret=T.zext(ok, 32), keep=[k])
        run.done()

    def go(r):
        for x in n if isinstance(n, (list, range)) else [n]:
            one(r, x)
    return go


def accepts_task(r):
    """with bilinearity: S = (r - h) dsa, P = (h1 + ks) P2, dsa = ks/(h1 + ks) P1; all in terms of g = e(P1, Ppubs) = e(P1, P2)^ks"""
    import sympy
    ks, h1, rr, h = sympy.symbols('ks h1 rr h')
    u = (rr - h) * (ks / (h1 + ks)) * (h1 + ks)      # exponent of e(P1, P2) in e(S, P)
    t = ks * h                                      # and in t
    for c in (sympy.simplify(u + t - ks * rr) == 0,):
        if c:
            r.ok('computer algebra')
        else:
            r.fail('failed')


def tasks():
    out = []
    for prog, lib, tag in progs():
        cache = {}

        def task(name, fn, what, limit=200, lib=lib, cache=cache):
            def srch():
                if what not in cache:
                    cache[what] = sm9ref.search(lib, what)
                return cache[what]
            out.append(fw.searched(name + tag, fn, srch, limit))
        task('keys', keys(prog, lib), 'keys')
        for how, idk in (('vc_mk_key', 'any'), ('vc_mk_key0', 'any'), ('vc_mk_key', 0), ('vc_mk_key', 3)):
            task('key derivation (%s, identity %s)' % (how, idk), derive(prog, lib, idk, how), 'derive')
        for how, uk, mk_, pc in (('vc_sp_sign', 'derived', 'any', 0), ('vc_sp_sign', 'imported', 'any', 0), ('vc_sp_sign', 'imported', 'any', 1), ('vc_sp_sign', 'imported', 'any', 2), ('vc_sp_sign0', 'imported', 'any', 0), ('vc_sp_sign', 'imported', 0, 0)):
            task('signing (%s, %s key, message %s, format %d)' % (how, uk, mk_, pc), sign(prog, lib, uk, mk_, pc, how), 'sign')
        for how, kind in (('vc_mp_verify', 'imported'), ('vc_mp_verify0', 'imported'), ('vc_mp_verify', 'derived'), ('vc_sp_verify', 'derived')):
            for n in (65, 97):
                task('verification (%s, %s key, %d bytes)' % (how, kind, n), verify(prog, lib, kind, how, n), 'verify')
        for ch in (list(range(0, 34)), list(range(34, 65)), list(range(66, 97)), [98, 99, 100], [None]):
            task('verification (vc_mp_verify, imported key, %s bytes)' % ('any number above 98' if ch == [None] else '%d..%d' % (ch[0], ch[-1])), verify(prog, lib, 'imported', 'vc_mp_verify', ch), 'verify')
    out.append(fw.Task('signatures made by signing are accepted', accepts_task))
    return out
