"""Encodings of points of the SM9 twist: 0x04/0x06/0x07 || x || y with x, y over F_p2 (high coefficient first)."""
import ctypes
import random

import codec
import contract
import curve as CV
import eclaw
import fw
import mont
import term as T
import tower
from codec import conj, smt_or, under
from contract import Contract
from u256 import bswap

P = mont.SM9_P
C = eclaw.CURVES['sm9b']
A = ('p', 128, 'P', T.cat(*[T.var('w%d' % i, 256, 0, P - 1) for i in (3, 2, 1, 0)]))
ORDER = (1, 0, 3, 2)          # memory words in the order of the encoding
UFS = dict(mont.UFS, **tower.UFS)


def encode_contracts():
    out = {}

    def reg(op, params, body):
        out[C.pre + op] = Contract(C.pre + op, body, params, alias=False)

    def words(c, p):
        ws = [c.rd(p, 32, 32 * i) for i in range(4)]
        for w in ws:
            c.pre(T.ult(w, T.const(P, 256)), 'coordinate below the modulus')
        return [mont.frm('sm9p', P, ws[i]) for i in ORDER]

    def body(first, n):
        def f(c, o, p):
            v = words(c, p)
            off = 0
            if first is not None:
                par = T.ext(v[3], 0, 1)
                c.wr(o, T.const(4, 8) if first == 4 else T.cat(T.const(first >> 1, 7), par))
                off = 1
            for i in range(n):
                c.wr(o, bswap(v[i]), off + 32 * i)
        return f

    def frb(c, r, i):
        for k, m in enumerate(ORDER):
            c.wr(r, mont.to('sm9p', P, bswap(c.rd(i, 32, 32 * k))), 32 * m)
    for op, first, n in (('to_bytes04', None, 4), ('to_bytes_uncompressed', 4, 4), ('to_bytes_compressed', 2, 2), ('to_bytes_mix', 6, 4)):
        reg('a_' + op, [('p', 32 * n + (first is not None), 'O'), A], body(first, n))
    reg('a_from_bytes04', [('p', 128, 'R'), ('p', 128, 'I')], frb)
    return out


def callees():
    hs = dict(CV.contracts('sm9'))
    hs.update({k: v for k, v in tower.contracts().items() if '_fp2_' in k})
    return hs


def spec(by):
    """(accepted, words of the point)"""
    if len(by) < 129:
        return T.FALSE, None
    pc = by[0]
    vs = [T.cat(*by[1 + 32 * i:33 + 32 * i]) for i in range(4)]
    ws = [None] * 4
    for k, m in enumerate(ORDER):
        ws[m] = mont.to('sm9p', P, vs[k])
    pcs = lambda *v: smt_or([T.eq(pc, T.const(x, 8)) for x in v])
    ok = conj(*[T.ult(v, T.const(P, 256)) for v in vs], T.uf('oncurve2', 1, ws))
    ok = T.and_(T.or_(pcs(4), T.and_(pcs(6, 7), T.eq(T.ext(pc, 0, 1), T.ext(by[128], 0, 1)))), ok)
    return ok, ws


def tasks(out, prog, lib, tag):
    for name, con in encode_contracts().items():
        nm = name + tag

        def run(r, con=con, nm=nm):
            for asg in con.cases():
                contract.verify(r, prog, con, asg, callees=callees(), lib=lib, ufs=UFS, name=nm, tries=8, special=(P, P - 1), backends=('smt',))
        out.append(fw.searched(nm, run, lambda name=name: search_enc(prog, lib, name)))
    name = C.pre + 'a_from_bytes'
    for ch in (list(range(0, 65)), list(range(65, 129)), [129, 130], [None]):
        nm = '%s, %s%s' % (name, 'any length from 129' if ch == [None] else 'lengths %d to %d' % (ch[0], ch[-1]), tag)

        def run(r, ch=ch, nm=nm):
            for ln in ch:
                decode(r, prog, lib, name, ln, '%s (length %s)' % (name, ln))
        out.append(fw.searched(nm, run, lambda: search(prog, lib, name)))


def decode(r, prog, lib, name, ln, nm):
    hold = {}
    size = 129 if ln is None else ln

    def setup(su):
        o = hold['o'] = su.obj('R', 128, [(0, T.var('R', 1024))])
        n = hold['n'] = su.obj('N', 8, [(0, T.var('N', 64))])
        by = [T.var('b%d' % i, 8) for i in range(size)]
        i = su.obj('IN', size, [(k, b) for k, b in enumerate(by)])
        hold['spec'] = spec(by)
        su.arg(su.ptr(o))
        su.arg(su.ptr(n))
        su.arg(su.ptr(i))
        su.arg(T.const(ln, 64) if ln is not None else T.var('inl', 64, 129, (1 << 63) - 1))

    def post(su, ex, st, ret):
        ok, ws = hold['spec']
        gs = [fw.Goal('accepted exactly when well-formed', T.eq(ret, T.const(0, 32)), ok, ('ret',))]
        if ws:
            for lab, o, off, n, want in [('coordinate %d' % i, hold['o'], 32 * i, 32, w) for i, w in enumerate(ws)] + [('consumed length', hold['n'], 0, 8, T.const(129, 64))]:
                got = fw.mem_get(ex, st, o, off, n)
                z = T.const(0, 8 * n)
                gs.append(fw.Goal(lab, T.ite(ok, got, z), T.ite(ok, want, z), ('mem', o, off, n), lambda g, su, ex, ok=ok, got=got, want=want: under(ok, got, want)))
        return gs

    def check(c, p):
        ws = [c.rd(p, 32, 32 * i) for i in range(4)]
        for w in ws:
            c.pre(T.ult(w, T.const(P, 256)), 'coordinate below the modulus')
        return T.uf('oncurve2', 1, ws)
    hs = {k: v.handler() for k, v in callees().items()}
    hs[C.pre + 'a_check'] = Contract(C.pre + 'a_check', check, []).handler()
    s = fw.FnSpec(nm, name, setup, post, contracts=hs, lib=lib, ufs={}, backends=('smt',), tries=0, frame=lambda su: [(hold['o'], 0, 128), (hold['n'], 0, 8)])
    s.replay = lambda l, s, e: None
    fw.verify(r, prog, s)


# ------------------------------------------------------------------ the real code on chosen byte strings
B = lambda v: v.to_bytes(32, 'big')


def enc(Q):
    return b''.join(B(c) for c in (Q[0][1], Q[0][0], Q[1][1], Q[1][0]))


def reference(b):
    if len(b) < 129 or b[0] not in (4, 6, 7):
        return None
    v = [int.from_bytes(b[1 + 32 * i:33 + 32 * i], 'big') for i in range(4)]
    Q = (v[1], v[0]), (v[3], v[2])
    if max(v) >= P or not C.on(Q) or b[0] != 4 and (b[128] ^ b[0]) & 1:
        return None
    return Q


def search(prog, lib, name):
    fn = codec.native(C, prog, lib, name)
    if fn is None:
        return None
    R = random.Random(fw.SEED)
    fn.restype = ctypes.c_int
    cand = [b'']
    for i in range(6):
        Q = C.mulp(R.randrange(1, C.order), C.gen)
        if i % 2:
            Q = C.neg(Q)
        e = enc(Q)
        for pc in (0, 1, 2, 3, 4, 5, 6, 7, 8, 0x84, 0xff):
            cand += [bytes([pc]) + e, bytes([pc]) + e[:64], bytes([pc]) + e + b'\0']
        for k in (1, 33, 64, 65, 66, 97, 128):
            cand += [(bytes([pc]) + e)[:k] for pc in (4, 6, 7)]
        for j in range(4):
            x = int.from_bytes(e[32 * j:32 * j + 32], 'big')
            for v in ((x + 1) % P, P, 2 ** 256 - 1, (P - x) % P) + ((x + P,) if x + P < 1 << 256 else ()):
                cand += [bytes([pc]) + e[:32 * j] + B(v) + e[32 * j + 32:] for pc in (4, 6, 7)]
    for b in cand:
        want = reference(b)
        go, gn, gi = fw.Guarded(bytes(128)), fw.Guarded(bytes(8)), fw.Guarded(b)

        def call():
            v = fn(ctypes.c_void_p(go.addr), ctypes.c_void_p(gn.addr), ctypes.c_void_p(gi.addr), ctypes.c_size_t(len(b)))
            return [v, go.read().hex(), int.from_bytes(gn.read(), 'little')]
        res = fw.in_child(call, 20)
        for g in (go, gn, gi):
            g.free()
        d = '%s on the %d bytes %s' % (name, len(b), b.hex())
        if res[0] != 'ok':
            return d + ' ends with %s' % (res,)
        v, h, used = res[1]
        if (v == 0) != (want is not None):
            return d + ' answers %d' % v
        if want is not None and (bytes.fromhex(h) != C.ebytes(*want) or used != 129):
            return d + ' yields %s, %d bytes consumed' % (h, used)
    return None


def search_enc(prog, lib, name):
    fn = codec.native(C, prog, lib, name)
    if fn is None:
        return None
    R = random.Random(fw.SEED)
    fn.restype = None
    op = name.split('a_')[-1]
    for k in range(30):
        Q = tuple(tuple(R.choice([R.randrange(P), P - 1 - R.randrange(3), R.randrange(3)]) for _ in 'ab') for _ in 'xy')
        e = enc(Q)
        par = Q[1][0] & 1
        want = {'to_bytes04': e, 'to_bytes_uncompressed': b'\4' + e, 'to_bytes_compressed': bytes([2 + par]) + e[:64], 'to_bytes_mix': bytes([6 + par]) + e, 'from_bytes04': C.ebytes(*Q)}[op]
        go, gi = fw.Guarded(bytes(len(want))), fw.Guarded(e if op == 'from_bytes04' else C.ebytes(*Q))

        def call():
            fn(ctypes.c_void_p(go.addr), ctypes.c_void_p(gi.addr))
            return [go.read().hex(), go.before_intact()]
        res = fw.in_child(call, 20)
        go.free()
        gi.free()
        if res[0] != 'ok' or res[1] != [want.hex(), True]:
            return '%s on %s gives %s' % (name, Q, res[1:])
    return None
