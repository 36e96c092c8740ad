"""Point encodings: which byte strings are accepted, and the point they stand for."""
import ctypes
import random

import contract
import curve as CV
import eclaw
import exec as E
import fw
import mont
import ring
import smt
import term as T
from contract import Contract
from u256 import bswap

NEG1 = T.const(-1, 32)


def fieldname(C):
    return C.field + 'p'


class Dec:
    """terms for the decoding of one abscissa: 'ecsq' says that x^3+ax+b is a square, 'ecroot' is its square root"""

    def __init__(self, C):
        self.C = C
        self.xs = []
        self.roots = {}

    def know(self, X):
        if X not in self.xs:
            self.xs.append(X)

    def which(self, t):
        """the known abscissa X with t = X^3 + aX + b, or None"""
        C = self.C
        for X in self.xs:
            I = ring.Interp(C.field, C.lv)
            R = I.R
            x = R.var('x')
            I.set(X, x)
            try:
                if R.is_zero(R.sub(I.value(t), eclaw.curve_rhs(R, C, x))):
                    return X
            except (ring.Unsupported, ring.Split):
                pass
        return None

    def root(self, X):
        r = T.uf('ecroot', 256, (X,), 1, self.C.p - 1)
        self.roots[r] = X
        self.roots[mont.uf('neg', fieldname(self.C), self.C.p, r)] = X
        return r

    def sq(self, X):
        return T.uf('ecsq', 1, (X,))

    def on(self, X, Y):
        """the pair is on the curve"""
        if Y.op == 'ite':
            return T.ite(Y.args[0], self.on(X, Y.args[1]), self.on(X, Y.args[2]))
        if X.op == 'ite':
            return T.ite(X.args[0], self.on(X.args[1], Y), self.on(X.args[2], Y))
        if self.roots.get(Y) is X:
            return self.sq(X)
        return T.uf('oncurve', 1, (X, Y))

    def handlers(self):
        C = self.C
        n, P = fieldname(C), C.p
        pre = CV.PRE[C.field]

        def sqrt(c, s, a):
            t = c.rd(a, 32)
            c.pre(T.ult(t, T.const(P, 256)), 'operand below the modulus')
            X = self.which(t)
            if X is None:
                sq, rt = T.uf('issq:' + n, 1, (t,)), T.uf('sqrt:' + n, 256, (t,), 0, P - 1)
            else:
                sq, rt = self.sq(X), self.root(X)
            # what is left in s when there is no root is unspecified: the same symbol stands for it
            c.wr(s, rt)
            return T.ite(sq, T.const(0, 32), NEG1)

        def check(c, p):
            X, Y = c.rd(p, 32), c.rd(p, 32, 32)
            for v in (X, Y):
                c.pre(T.ult(v, T.const(P, 256)), 'coordinate below the modulus')
            return self.on(X, Y)
        return {k.name: k.handler() for k in (Contract(pre + 'fp_sqrt', sqrt, [('p', 32, 'S'), ('p', 32, 'A')]),
                                             Contract(C.pre + 'a_check', check, [('p', 64, 'P')]))}


def field_handlers(C):
    hs = {k: v.handler() for k, v in CV.contracts(C.field).items()}
    return hs


def prime_field(C):
    """y = 0 is no ordinate of the curve, so the two square roots differ in parity"""
    return C.odd()


def decode_spec(D, by):
    """(accepted, X, Y, consumed) for the bytes available; by[i]: terms of the bytes"""
    C = D.C
    n, P = fieldname(C), C.p
    pc = by[0]
    pcs = lambda *v: smt_or([T.eq(pc, T.const(x, 8)) for x in v])
    F, none = T.FALSE, T.const(0, 256)
    if len(by) < 33:
        return F, none, none, T.const(0, 64)
    xv = T.cat(*by[1:33])
    X = mont.to(n, P, xv)
    D.know(X)
    xin = T.ult(xv, T.const(P, 256))
    rt = D.root(X)
    par = T.ext(mont.frm(n, P, rt), 0, 1)
    Yc = T.ite(T.eq(par, T.ext(pc, 0, 1)), rt, mont.uf('neg', n, P, rt))
    comp = conj(pcs(2, 3), xin, D.sq(X))
    if len(by) < 65:
        return comp, X, Yc, T.const(33, 64)
    yv = T.cat(*by[33:65])
    Y = mont.to(n, P, yv)
    full = conj(xin, T.ult(yv, T.const(P, 256)), D.on(X, Y))
    full = T.and_(T.or_(pcs(4), T.and_(pcs(6, 7), T.eq(T.ext(pc, 0, 1), T.ext(by[64], 0, 1)))), full)
    return T.or_(comp, full), X, T.ite(pcs(2, 3), Yc, Y), T.ite(pcs(2, 3), T.const(33, 64), T.const(65, 64))


def conj(*xs):
    r = T.TRUE
    for x in xs:
        r = T.and_(r, x)
    return r


def smt_or(xs):
    r = T.FALSE
    for x in xs:
        r = T.or_(r, x)
    return r


def decode_tasks(out, C, prog, lib, tag=''):
    name = C.pre + 'a_from_bytes'
    chunks = [list(range(i, min(i + 8, 65))) for i in range(0, 65, 8)] + [[65], [66, 67, 97, 130], [None]]
    cache = {}

    def search_():
        if 'w' not in cache:
            cache['w'] = search(C, prog, lib, name)
        return cache['w']
    for ch in chunks:
        nm = '%s, %s%s' % (name, 'any length from 65' if ch == [None] else 'lengths %s' % ', '.join(map(str, ch)), tag)

        def run(r, ch=ch, nm=nm):
            for ln in ch:
                decode_task(r, C, prog, lib, name, ln, '%s (length %s)' % (name, ln))
        out.append(fw.searched(nm, run, search_))


def decode_task(r, C, prog, lib, name, ln, nm):
    D = Dec(C)
    hold = {}
    size = 65 if ln is None else ln

    def setup(su):
        o = hold['o'] = su.obj('R', 64, [(0, T.var('R', 512))])
        n = hold['n'] = su.obj('N', 8, [(0, T.var('N', 64))])
        by = [T.var('b%d' % i, 8) for i in range(size)]
        i = su.obj('IN', size, [(k, b) for k, b in enumerate(by)])
        hold['spec'] = decode_spec(D, by) if size else (T.FALSE, T.const(0, 256), T.const(0, 256), T.const(0, 64))
        su.arg(su.ptr(o))
        su.arg(su.ptr(n))
        su.arg(su.ptr(i))
        su.arg(T.const(ln, 64) if ln is not None else T.var('inl', 64, 65, (1 << 63) - 1))

    def post(su, ex, st, ret):
        ok, X, Y, used = hold['spec']
        gs = [fw.Goal('accepted exactly when well-formed', T.eq(ret, T.const(0, 32)), ok, ('ret',))]
        for lab, o, off, n, want in (('abscissa', hold['o'], 0, 32, X), ('ordinate', hold['o'], 32, 32, Y), ('consumed length', hold['n'], 0, 8, used)):
            got = fw.mem_get(ex, st, o, off, n)
            z = T.const(0, 8 * n)
            gs.append(fw.Goal(lab, T.ite(ok, got, z), T.ite(ok, want, z), ('mem', o, off, n), lambda g, su, ex, ok=ok, got=got, want=want: under(ok, got, want)))
        return gs
    hs = field_handlers(C)
    hs.update(D.handlers())
    if not prime_field(C):
        raise E.Unsupported('the curve has a point of order two')
    spec = fw.FnSpec(nm, name, setup, post, contracts=hs, lib=lib, ufs={}, backends=('smt',), tries=0,
                     frame=lambda su: [(hold['o'], 0, 64), (hold['n'], 0, 8)])
    spec.replay = lambda l, s, e: None
    fw.verify(r, prog, spec)


def under(ok, got, want):
    if got is want:
        return 'simplifier'
    s, _ = smt.check([ok], T.eq(got, want), 60000)
    return 'z3' if s == 'proved' else None


# ------------------------------------------------------------------ encoders and the conversions without a prefix
def encode_contracts(C):
    n, P = fieldname(C), C.p
    out = {}

    def reg(op, params, body, **kw):
        out[C.pre + op] = Contract(C.pre + op, body, params, **kw)
    A = ('p', 64, 'P', T.cat(T.var('Y', 256, 0, P - 1), T.var('X', 256, 0, P - 1)))

    def rdp(c, p):
        X, Y = c.rd(p, 32), c.rd(p, 32, 32)
        for v in (X, Y):
            c.pre(T.ult(v, T.const(P, 256)), 'coordinate below the modulus')
        return mont.frm(n, P, X), mont.frm(n, P, Y)

    def raw(c, o, p):
        x, y = rdp(c, p)
        c.wr(o, bswap(x))
        c.wr(o, bswap(y), 32)

    def unc(c, o, p):
        x, y = rdp(c, p)
        c.wr(o, T.const(4, 8))
        c.wr(o, bswap(x), 1)
        c.wr(o, bswap(y), 33)

    def comp(c, o, p):
        x, y = rdp(c, p)
        c.wr(o, T.cat(T.const(1, 7), T.ext(y, 0, 1)))
        c.wr(o, bswap(x), 1)

    def mix(c, o, p):
        x, y = rdp(c, p)
        c.wr(o, T.cat(T.const(3, 7), T.ext(y, 0, 1)))
        c.wr(o, bswap(x), 1)
        c.wr(o, bswap(y), 33)

    def frb(c, r, i):
        for k in (0, 32):
            c.wr(r, mont.to(n, P, bswap(c.rd(i, 32, k))), k)
    reg('a_to_bytes04', [('p', 64, 'O'), A], raw, alias=False)
    reg('a_to_bytes_uncompressed', [('p', 65, 'O'), A], unc, alias=False)
    reg('a_to_bytes_compressed', [('p', 33, 'O'), A], comp, alias=False)
    reg('a_to_bytes_mix', [('p', 65, 'O'), A], mix, alias=False)
    reg('a_from_bytes04', [('p', 64, 'R'), ('p', 64, 'I')], frb, alias=False)
    return out


def encode_tasks(out, C, prog, lib, tag=''):
    for name, con in encode_contracts(C).items():
        for asg in con.cases():
            nm = name + tag

            def run(r, con=con, asg=asg, nm=nm):
                contract.verify(r, prog, con, asg, callees=CV.contracts(C.field), lib=lib, ufs=mont.UFS, name=nm, tries=8, special=(C.p, C.p - 1), backends=('smt',))
            out.append(fw.searched(nm, run, lambda name=name: search_enc(C, prog, lib, name)))


def roundtrip_tasks(out, C, tag=''):
    """every encoding decodes to the same point: a lemma over the two contracts"""
    def run(r):
        n, P = fieldname(C), C.p
        for lab, pc in (('compressed', 2), ('uncompressed', 4), ('mixed', 6)):
            D = Dec(C)
            X, Y = T.var('X', 256, 0, P - 1), T.var('Y', 256, 0, P - 1)
            x, y = mont.frm(n, P, X), mont.frm(n, P, Y)
            first = T.const(4, 8) if pc == 4 else T.cat(T.const(pc >> 1, 7), T.ext(y, 0, 1))
            by = [first] + [T.ext(x, 8 * (31 - i), 8) for i in range(32)]
            if pc != 2:
                by += [T.ext(y, 8 * (31 - i), 8) for i in range(32)]
            ok, gx, gy, used = decode_spec(D, by)
            if gx is not X:
                raise E.Unsupported('conversion to and from bytes are not inverse')
            rt = D.root(X)
            ng = mont.uf('neg', n, P, rt)
            fr, fn_ = mont.frm(n, P, rt), mont.frm(n, P, ng)
            # the point is on the curve: X^3+aX+b is a square and Y is one of its two roots; the roots have different parity
            hyp = [D.on(X, Y), D.sq(X), T.or_(T.eq(Y, rt), T.eq(Y, ng)), T.ne(T.ext(fr, 0, 1), T.ext(fn_, 0, 1)),
                   T.or_(T.ne(Y, rt), T.eq(y, fr)),
                   T.or_(T.ne(Y, ng), T.eq(y, fn_))]
            for what, g in (('accepted', ok), ('same ordinate', T.eq(gy, Y)), ('length', T.eq(used, T.const(len(by), 64)))):
                if g is T.TRUE:
                    r.ok('simplifier')
                    continue
                s, _ = smt.check(hyp, g, 60000)
                if s == 'proved':
                    r.ok('z3')
                else:
                    r.fail('failed')
                    r.notes.append('%s: %s' % (lab, what))
    out.append(fw.Task('every %s encoding decodes to the same point%s' % (C.key, tag), run))


# ------------------------------------------------------------------ the real code on chosen byte strings
def sqrt_mod(a, p):
    import sympy.ntheory
    return sympy.ntheory.sqrt_mod(a, p)


def reference(C, b):
    """(x, y, consumed) or None"""
    p = C.p
    if not b:
        return None
    rhs = lambda x: (x * x * x + C.a * x + C.b) % p
    if b[0] in (2, 3) and len(b) >= 33:
        x = int.from_bytes(b[1:33], 'big')
        if x >= p:
            return None
        y = sqrt_mod(rhs(x), p)
        if y is None:
            return None
        if y & 1 != b[0] & 1:
            y = p - y
        return x, y, 33
    if b[0] in (4, 6, 7) and len(b) >= 65:
        x, y = int.from_bytes(b[1:33], 'big'), int.from_bytes(b[33:65], 'big')
        if x >= p or y >= p or y * y % p != rhs(x) or b[0] != 4 and (b[64] ^ b[0]) & 1:
            return None
        return x, y, 65
    return None


def samples(C, R):
    p = C.p
    B = lambda v: v.to_bytes(32, 'big')
    pts = [C.gen, C.neg(C.gen)] + [eclaw.rnd_point(C, R) for _ in range(6)]
    # points with a small abscissa, so that x + p still fits
    x = 0
    small = []
    while len(small) < 3:
        y = sqrt_mod((x ** 3 + C.a * x + C.b) % p, p)
        if y is not None:
            small.append((x, y))
            small.append((x, p - y))
        x += 1
    # and with a small ordinate
    yy = 1
    import sympy
    while len(small) < 6 and yy < 2:
        yy += 1
    out = [b'']
    for P in pts + small:
        xb, yb = B(P[0]), B(P[1])
        for pc in (0, 1, 2, 3, 4, 5, 6, 7, 8, 0x82, 0xff):
            out.append(bytes([pc]) + xb + yb)
            out.append(bytes([pc]) + xb)
    P = pts[2]
    for pc in (2, 3, 4, 6, 7):
        full = bytes([pc]) + B(P[0]) + B(P[1])
        for k in (1, 2, 16, 31, 32, 33, 34, 40, 48, 63, 64, 66, 80):
            out.append((full + bytes(32))[:k])
        out.append(bytes([pc]) + B(P[0]) + B((P[1] + 1) % p))
        out.append(bytes([pc]) + B((P[0] + 1) % p) + B(P[1]))
        for _ in range(6):
            x = R.randrange(p)
            out.append(bytes([pc]) + B(x) + B(R.randrange(p)))
        for x in (0, p - 1, p, p + 1, mont.R - 1):
            out.append(bytes([pc]) + B(x) + B(0))
            out.append(bytes([pc]) + B(0) + B(x))
    for s in small:
        if s[0] + p < mont.R:
            for pc in (2, 3, 4, 6, 7):
                out.append(bytes([pc]) + B(s[0] + p) + B(s[1]))
    return out


def native(C, prog, lib, name):
    l = lib() if callable(lib) else lib
    try:
        return getattr(l, prog.fn(name).name.lstrip('@').strip('"'))
    except Exception:
        return None


def search(C, prog, lib, name):
    fn = native(C, prog, lib, name)
    if fn is None:
        return None
    R = random.Random(fw.SEED)
    fn.restype = ctypes.c_int
    for b in samples(C, R):
        want = reference(C, b)
        go, gn, gi = fw.Guarded(bytes(64)), fw.Guarded(bytes(8)), fw.Guarded(b)

        def call():
            v = fn(ctypes.c_void_p(go.addr), ctypes.c_void_p(gn.addr), ctypes.c_void_p(gi.addr), ctypes.c_size_t(len(b)))
            return [v, go.read().hex(), int.from_bytes(gn.read(), 'little')]
        res = fw.in_child(call, 20)
        for g in (go, gn, gi):
            g.free()
        d = '%s on the %d bytes %s' % (name, len(b), b.hex())
        if res[0] != 'ok':
            return d + ' ends with %s' % (res,)
        v, h, used = res[1]
        if (v == 0) != (want is not None):
            return d + ' answers %d' % v
        if want is not None:
            o = bytes.fromhex(h)
            got = (C.dec(int.from_bytes(o[:32], 'little')), C.dec(int.from_bytes(o[32:], 'little')), used)
            if got != want:
                return d + ' yields (%#x, %#x), %d bytes consumed' % got
    return None


def search_enc(C, prog, lib, name):
    fn = native(C, prog, lib, name)
    if fn is None:
        return None
    R = random.Random(fw.SEED)
    fn.restype = None
    p = C.p
    B = lambda v: v.to_bytes(32, 'big')
    for k in range(30):
        x, y = [R.choice([R.randrange(p), p - 1 - R.randrange(3), R.randrange(3), R.randrange(256) << 248 & (mont.R - 1)]) % p for _ in 'xy']
        op = name.split('a_')[-1]
        want = {'to_bytes04': B(x) + B(y), 'to_bytes_uncompressed': b'\4' + B(x) + B(y), 'to_bytes_compressed': bytes([2 + (y & 1)]) + B(x),
                'to_bytes_mix': bytes([6 + (y & 1)]) + B(x) + B(y), 'from_bytes04': C.ebytes(x, y)}[op]
        src = B(x) + B(y) if op == 'from_bytes04' else C.ebytes(x, y)
        go, gi = fw.Guarded(bytes(len(want))), fw.Guarded(src)

        def call():
            fn(ctypes.c_void_p(go.addr), ctypes.c_void_p(gi.addr))
            return [go.read().hex(), go.before_intact()]
        res = fw.in_child(call, 20)
        go.free()
        gi.free()
        if res[0] != 'ok' or res[1] != [want.hex(), True]:
            return '%s on (%#x, %#x) gives %s' % (name, x, y, res[1:])
    return None
