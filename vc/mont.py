"""Contracts of the 256-bit Montgomery layer and the reduction proof."""
import term as T
import exec as E
import fw
import smt
import arith
import linrel
from contract import Contract
from u256 import NS, B, z, bswap, i32

SM2_P = 0xFFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF
SM2_N = 0xFFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123
SM9_P = 0xB640000002A3A6F1D603AB4FF58EC74521F2934B1A7AEEDBE56F9B27E351457D
SM9_N = 0xB640000002A3A6F1D603AB4FF58EC74449F2934B18EA8BEEE56EE19CD69ECF25
MODULI = {'sm2p': SM2_P, 'sm2n': SM2_N, 'sm9p': SM9_P, 'sm9n': SM9_N}
NAME = {v: k for k, v in MODULI.items()}
R = 1 << 256


def make_ufs():
    u = {}
    for n, P in MODULI.items():
        Ri = pow(R, -1, P)
        u['add:' + n] = lambda a, b, P=P: (a + b) % P
        u['sub:' + n] = lambda a, b, P=P: (a - b) % P
        u['neg:' + n] = lambda a, P=P: (-a) % P
        u['dbl:' + n] = lambda a, P=P: 2 * a % P
        u['tpl:' + n] = lambda a, P=P: 3 * a % P
        u['half:' + n] = lambda a, P=P: a * pow(2, -1, P) % P
        u['mul:' + n] = lambda a, b, P=P, Ri=Ri: a * b * Ri % P
        u['inv:' + n] = lambda a, P=P, Ri=Ri: pow(a * Ri, -1, P) * R % P if a % P else 0
        u['pow:' + n] = lambda a, e, P=P, Ri=Ri: pow(a * Ri, e, P) * R % P
        u['to:' + n] = lambda a, P=P: a * R % P
        u['from:' + n] = lambda a, P=P, Ri=Ri: a * Ri % P
    return {k: (lambda t, a, f=f: f(*a)) for k, f in u.items()}


UFS = make_ufs()


class Bad(Exception):
    pass


def modulus(c, ctx, impl):
    """which modulus a context describes; a context whose fields do not belong together is a failed precondition"""
    w = B[impl]
    vals = []
    for i in range(4):
        p = c.rd(ctx, 8, 8 * i)
        if not isinstance(p, E.Ptr):
            raise E.Unsupported('context pointer')
        v = c.rd(p, 32)
        if v.op != 'c':
            raise E.Unsupported('context is not constant')
        vals.append(v.aux)
    n_ = c.rd(ctx, w // 8, 32)
    P = vals[0]
    ok = P in NAME and vals[1] == P - 2 and vals[2] == R % P and vals[3] == R * R % P and n_.op == 'c' and (n_.aux * P + 1) % (1 << w) == 0
    if not ok:
        c.ex.ob('pre', c.st, T.FALSE, 'Montgomery context constants (p, p-2, R, R^2, -1/p) are those of one of the library moduli', c.fn)
        raise E.OutOfBounds('wrong Montgomery context constants in a call of %s' % c.fn)
    return P, NAME[P]


def uf(op, n, P, *a):
    if all(x.op == 'c' for x in a):
        return T.const(UFS[op + ':' + n](None, [x.aux for x in a]), 256)
    return T.uf(op + ':' + n, 256, a, 0, P - 1)


def contracts(impl):
    ns = NS[impl]
    w = B[impl]
    C = {}
    CT = ('ctx',)

    def reg(name, params, body, **kw):
        con = Contract(ns + name, body, params, **kw)
        con.impl = impl
        C[ns + name] = con

    def below(c, x, P, what):
        c.pre(T.ult(x, T.const(P, 256)), '%s is below the modulus' % what)

    def op2(op, exact):
        def f(c, ctx, s, a, b):
            P, n = modulus(c, ctx, impl)
            x, y = c.rd(a, 32), c.rd(b, 32)
            below(c, x, P, 'first operand')
            below(c, y, P, 'second operand')
            c.wr(s, exact(x, y, P) if c.su is not None else uf(op, n, P, x, y))
        return f

    def op1(op, exact):
        def f(c, ctx, s, a):
            P, n = modulus(c, ctx, impl)
            x = c.rd(a, 32)
            below(c, x, P, 'operand')
            c.wr(s, exact(x, P) if c.su is not None else uf(op, n, P, x))
        return f

    def red(t, P, k):
        D = T.const(P, t.w)
        for _ in range(k):
            t = T.ite(T.ult(t, D), t, T.sub(t, D))
        return T.ext(t, 0, 256)

    S, A, Bq = ('p', 32, 'S'), ('p', 32, 'A'), ('p', 32, 'B')
    reg('mont256_add', [CT, S, A, Bq], op2('add', lambda x, y, P: red(T.add(z(x, 257), z(y, 257)), P, 1)))
    reg('mont256_sub', [CT, S, A, Bq], op2('sub', lambda x, y, P: T.ite(T.ult(x, y), T.add(T.sub(x, y), T.const(P, 256)), T.sub(x, y))))
    reg('mont256_dbl', [CT, S, A], op1('dbl', lambda x, P: red(T.scale(z(x, 258), 2), P, 1)))
    reg('mont256_tpl', [CT, S, A], op1('tpl', lambda x, P: red(T.scale(z(x, 258), 3), P, 2)))
    reg('mont256_neg', [CT, S, A], op1('neg', lambda x, P: T.ite(T.eq(x, T.const(0, 256)), x, T.sub(T.const(P, 256), x))))
    reg('mont256_div2', [CT, S, A], op1('half', lambda x, P: T.ite(
        T.ext(x, 0, 1), T.ext(T.add(z(x, 257), T.const(P, 257)), 1, 256), z(T.ext(x, 1, 255), 256))))

    # multiplication: one operand below the modulus is enough for a canonical result
    def mul(c, ctx, s, a, b):
        P, n = modulus(c, ctx, impl)
        x, y = c.rd(a, 32), c.rd(b, 32)
        D = T.const(P, 256)
        if x.op == 'c':
            below(c, x, P, 'operand')
        elif y.op == 'c':
            below(c, y, P, 'operand')
        else:
            c.pre(T.or_(T.ult(x, D), T.ult(y, D)), 'an operand is below the modulus')
        c.wr(s, product(n, P, x, y))
        if c.su is not None:
            c.su.redc = (T.mul(z(x, 512), z(y, 512)), P, (R - 1) * (P - 1))
    reg('mont256_mul', [CT, S, A, Bq], mul)

    def sqr(c, ctx, s, a):
        P, n = modulus(c, ctx, impl)
        x = c.rd(a, 32)
        below(c, x, P, 'operand')
        c.wr(s, product(n, P, x, x))
        if c.su is not None:
            c.su.redc = (T.mul(z(x, 512), z(x, 512)), P, (P - 1) ** 2)
    reg('mont256_sqr', [CT, S, A], sqr)

    def pw(c, ctx, s, a, e):
        P, n = modulus(c, ctx, impl)
        x = c.rd(a, 32)
        below(c, x, P, 'base')
        c.wr(s, power(n, P, x, c.rd(e, 32)))
    reg('mont256_pow', [CT, S, A, ('p', 32, 'E')], pw, noalias=[3])

    def inv(c, ctx, s, a):
        P, n = modulus(c, ctx, impl)
        x = c.rd(a, 32)
        below(c, x, P, 'operand')
        c.wr(s, inverse(n, P, x))
    reg('mont256_inv', [CT, S, A], inv)

    reg('mont256_equal', [CT, A, Bq], lambda c, ctx, a, b: T.eq(c.rd(a, 32), c.rd(b, 32)))
    reg('mont256_equal_zero', [CT, A], lambda c, ctx, a: T.eq(c.rd(a, 32), T.const(0, 256)))

    def eq_one(c, ctx, a):
        P, n = modulus(c, ctx, impl)
        return T.eq(c.rd(a, 32), T.const(R % P, 256))
    reg('mont256_equal_one', [CT, A], eq_one)
    reg('mont256_cpy', [CT, S, A], lambda c, ctx, s, a: c.wr(s, c.rd(a, 32)))
    reg('mont256_set_zero', [CT, S], lambda c, ctx, s: c.wr(s, T.const(0, 256)))

    def set_one(c, ctx, s):
        P, n = modulus(c, ctx, impl)
        c.wr(s, T.const(R % P, 256))
    reg('mont256_set_one', [CT, S], set_one)

    def set_word(c, ctx, s, v):
        P, n = modulus(c, ctx, impl)
        x = z(v, 256)
        c.wr(s, T.const(x.aux * R % P, 256) if x.op == 'c' else uf('to', n, P, x))
    reg('mont256_set_uint%d' % w, [CT, S, ('v', w)], set_word)

    def from_bytes(c, ctx, s, by):
        P, n = modulus(c, ctx, impl)
        x = bswap(c.rd(by, 32))
        c.wr(s, T.const(x.aux * R % P, 256) if x.op == 'c' else uf('to', n, P, x))
    reg('mont256_from_bytes', [CT, S, ('p', 32, 'BY')], from_bytes, noalias=[1, 2])

    def to_bytes(c, ctx, by, a):
        P, n = modulus(c, ctx, impl)
        x = c.rd(a, 32)
        below(c, x, P, 'operand')
        c.wr(by, bswap(frm(n, P, x)))
        if c.su is not None:
            c.su.redc = (z(x, 512), P, R - 1)
            c.su.redc_bytes = True
    reg('mont256_to_bytes', [CT, ('p', 32, 'BY'), A], to_bytes, noalias=[1, 2])
    return C


def frm(n, P, x):
    if x.op == 'c':
        return T.const(x.aux * pow(R, -1, P) % P, 256)
    if x.op == 'uf' and x.aux == 'to:' + n and x.args[0].hi < P:
        return x.args[0]
    return uf('from', n, P, x)


def to(n, P, x):
    if x.op == 'c':
        return T.const(x.aux * R % P, 256)
    if x.op == 'uf' and x.aux == 'from:' + n:
        return x.args[0]
    return uf('to', n, P, x)


def inverse(n, P, x):
    if x.op == 'c':
        return T.const(pow(x.aux * pow(R, -1, P), P - 2, P) * R % P, 256)
    return uf('inv', n, P, x)


def power(n, P, x, e):
    """x^e; the modulus is prime, so x^(P-2) is the inverse (zero for zero)"""
    if e.op == 'c':
        if x.op == 'c':
            return T.const(pow(x.aux * pow(R, -1, P), e.aux, P) * R % P, 256)
        if e.aux == 0:
            return T.const(R % P, 256)
        if e.aux == P - 2:
            return inverse(n, P, x)
    return uf('pow', n, P, x, e)


def product(n, P, x, y):
    if x.op == 'c' and y.op == 'c':
        return T.const(x.aux * y.aux * pow(R, -1, P) % P, 256)
    if x.op == 'c' and x.aux == R * R % P:
        return uf('to', n, P, y)
    if y.op == 'c' and y.aux == R * R % P:
        return uf('to', n, P, x)
    if x.id > y.id:
        x, y = y, x
    return uf('mul', n, P, x, y)


# ------------------------------------------------------------------ reduction proof
def subterms(t, depth):
    seen = {}
    st = [(t, 0)]
    while st:
        x, d = st.pop()
        if x in seen and seen[x] <= d:
            continue
        seen[x] = d
        if d < depth:
            for a in x.args:
                st.append((a, d + 1))
    return seen


def redc_backend(Tt, P, Tmax):
    """F (256 bits) = T * 2^-256 mod P and F < P, where T = Tt <= Tmax < 2^256 * P

    1. cut F at an intermediate value X = 2^256 t + r held by the code just before the final subtraction,
    2. show 2^256 X = T + M P with 0 <= M < 2^256 as an identity of integer polynomials,
       hence X < 2P,
    3. show that the remaining code maps every X < 2P to X mod P (SMT)."""
    def prove(g, su, ex):
        F = g.got
        if getattr(su, 'redc_bytes', False):
            F = bswap(F)
        tried = 0
        done = []
        cands = sorted([x for x, d in subterms(F, 9).items() if x.w >= 256 and x.op != 'c'], key=lambda x: x.id)
        tops = [y for x in subterms(F, 9) if x.op == 'eq' for y in x.args if y.op != 'c']
        for r in cands:
            ws = pieces(r)
            if ws is None or ws in done:
                continue
            done.append(ws)
            Xv = T.var('X!redc', 257, 0, 2 * P - 1)
            for stop in [None] + tops:
                lt = leaf_terms(F, ws, Xv, stop)
                if lt is None:
                    continue
                leaves, sub = lt
                tried += 1
                if tried > 16:
                    break
                for deep in (False, True):
                    try:
                        A = linrel.Lin([w for w, _ in ws] + leaves + [Tt], deep)
                        ok = check_cut(A, F, ws, leaves, sub, Xv, A.val(Tt), P, Tmax)
                    except arith.Undecided:
                        continue
                    if ok:
                        return 'integer polynomials + z3 (Montgomery reduction)'
        return None
    return prove


def pieces(r):
    """r as [(term, offset)], without constant zero parts; None when the value has more than 256 bits"""
    if r.op != 'cat':
        return [(r, 0)] if r.w == 256 else None
    out = []
    off = 0
    for a in reversed(r.args):
        if a.op != 'c':
            out.append((a, off))
        elif a.aux:
            return None
        off += a.w
    if not out or out[-1][1] + out[-1][0].w != 256 or out[0][1] != 0:
        return None
    return out


LEAVES = 3


def leaf_terms(F, ws, X, stop=None):
    """terms below F that the pieces of the cut value do not determine, and the substitution of the pieces by X"""
    W = {w: T.ext(X, off, w.w) for w, off in ws}
    bases = {}
    for w, off in ws:
        if w.op == 'ext':
            bases.setdefault(w.args[0], []).append((w.aux, w.w, off))
    lo = min([w.id for w in W] + [b.id for b in bases])
    memo = {}

    def piece(x):
        if x in W:
            return True
        if x.op == 'ext' and x.args[0] in bases:
            for a, n, off in bases[x.args[0]]:
                if x.aux >= a and x.aux + x.w <= a + n:
                    W[x] = T.ext(X, off + x.aux - a, x.w)
                    return True
        return False

    def has(t):
        st = [t]
        while st:
            x = st[-1]
            if x in memo:
                st.pop()
                continue
            if piece(x):
                memo[x] = True
                st.pop()
                continue
            if x.id <= lo or not x.args:
                memo[x] = False
                st.pop()
                continue
            todo = [a for a in x.args if a not in memo]
            if todo:
                st.extend(todo)
                continue
            memo[x] = any(memo[a] for a in x.args)
            st.pop()
        return memo[t]
    out = []
    seen = set()
    st = [F]
    while st:
        t = st.pop()
        if t in seen or t.op == 'c' or piece(t):
            continue
        seen.add(t)
        if t is not stop and has(t):
            st.extend(t.args)
            continue
        if t.op in ('eq', 'ult'):
            st.extend(t.args)
            continue
        if t.op == 'v':
            return None
        out.append(t)
        if len(out) > LEAVES:
            return None
    return out, W


def check_cut(A, F, ws, leaves, sub0, Xv, Tp, P, Tmax):
    # X = pieces + 2^256 * (one of the leaves, if the code keeps the bits above)
    base = {}
    for w, off in ws:
        base = arith.padd(base, A.val(w), 1 << off)
    for top in [None] + leaves:
        if len(leaves) - (top is not None) > 0:
            continue
        X = base if top is None else arith.padd(base, A.val(top), R)
        D = A.reduce(arith.padd(arith.pscale(X, R), Tp, -1))
        if any((c / P).denominator != 1 for c in map(arith.F, D.values())):
            continue
        M = {m: int(arith.F(c) / P) for m, c in D.items()}
        lo, hi = A.bounds(M)
        if lo < 0 or hi >= R:
            continue
        xmax = (Tmax + hi * P) // R
        if xmax >= 2 * P or (top is None and xmax >= R):
            continue
        # the rest of the code on a generic X
        sub = dict(sub0)
        if top is not None:
            t = T.ext(Xv, 256, 1)
            sub[top] = t if top.w == 1 else T.zext(t, top.w)
        F2 = T.subst([F], sub)[0]
        if any(v is not Xv for v in T.free_vars([F2]).values()):
            continue
        D257 = T.const(P, 257)
        want = T.ext(T.ite(T.ult(Xv, D257), Xv, T.sub(Xv, D257)), 0, 256)
        s, _ = smt.check([T.ult(Xv, T.const(xmax + 1, 257))], T.eq(F2, want), 60000)
        if s == 'proved':
            return True
    return False
