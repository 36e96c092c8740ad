"""The R-ate pairing: what sm9_pairing computes is a product of lines through multiples of Q, evaluated at P.

Values of F_p12 that the code multiplies, inverts, raises to powers or maps by Frobenius are kept as formal products
    prod  l(A,B)^e        e modulo p^12 - 1
of the lines through the points A = [i]Q, B = [j]Q of the twist (the tangent when A = B), normalised at the identity.
A line is recognised in the value the real code computes from the coordinates (a polynomial identity over F_p, up to a
nonzero factor of F_p2); a Frobenius map by its coordinates; points by the multiple of Q they represent (the contracts
of the point layer).  The postcondition: every exponent is (p^12-1)/n times an integer m, and the divisor
sum m ((A) + (B) - (A+B) - (O)) equals that of the R-ate function
    f_{a,Q} * l_{[a]Q, pi(Q)} * l_{[a]Q + pi(Q), -pi^2(Q)},     div f_{a,Q} = a (Q) - ([a]Q) - (a-1) (O),  a = 6 t + 2.
A function normalised at the identity is determined by its divisor; vertical lines and the factors of F_p2 and powers
of w lie in subfields or have order dividing (p^12-1)/n, so the final exponentiation maps them to one."""
import contract
import exec as E
import fw
import mont
import pairref
import ring
import term as T
import tower
from contract import Contract
from u256 import bswap

P, N = mont.SM9_P, mont.SM9_N
M = P ** 12 - 1
E0 = M // N
LOOP = pairref.LOOP
PRE = tower.PRE


def facts():
    """numeric facts the argument uses"""
    F = [('n divides p^12 - 1', M % N == 0),
         ('F_p2 and F_p6 are annihilated by the final exponent', E0 % (P ** 2 - 1) == 0 and E0 % (P ** 6 - 1) == 0),
         ('w is annihilated by the final exponent', E0 % (12 * (P - 1)) == 0 and pow(P - 2, P - 1, P) == 1),
         ('n does not divide p - 1', (P - 1) % N != 0),
         ('the tower is a field', ring.is_field_tower())]
    # Frobenius acts on the group generated by P2 as multiplication by p
    g = pairref.G2.gen
    F.append(('pi(P2) = [p]P2', frob_point(g, 1) == pairref.G2.mulp(P % N, g)))
    F.append(('[n]P2 = O', pairref.G2.mulp(N, g) is None))
    return F


def wpow(e):
    """w^e for e divisible by p - 1 ... as an element of F_p"""
    v = pairref.power((0, 1) + (0,) * 10, e % M)
    assert not any(v[1:])
    return v[0]


GX = [wpow(2 - 2 * P ** i) for i in range(3)]
GY = [wpow(3 - 3 * P ** i) for i in range(3)]
# coefficient of memory word i under Frobenius^k
FROB = [[wpow(pairref.POS[i] * (P ** k - 1)) for i in range(12)] for k in range(12)]


def frob_point(Q, i):
    c = lambda a: (a[0], -a[1] % P) if i % 2 else a
    return tuple(tuple(x * g % P for x in c(a)) for a, g in zip(Q, (GX[i], GY[i])))


class Leaf(ring.Interp):
    """words without polynomial meaning are variables"""

    def _ev(self, ps):
        try:
            return super()._ev(ps)
        except ring.Unsupported:
            if len(ps) != 1 or ps[0].op != 'v':
                raise
            return self.R.var(ps[0].aux)


class Point:
    __slots__ = ('k', 'X', 'Y', 'Z', 'one')

    def __init__(self, k, X, Y, Z, one=False):
        self.k, self.X, self.Y, self.Z, self.one = k % N, X, Y, Z, one


class World:
    """formal values of one run"""

    def __init__(self, xp, yp, q):
        self.xp, self.yp, self.q = xp, yp, q       # terms: words of P, 4 words of Q
        self.prod = []                             # id -> {line: exponent}
        self.pts = []                              # id -> multiple of Q
        self.nlines = 0
        self.lines = {}

    # ---- formal products
    def value(self, prod):
        prod = {l: e % M for l, e in prod.items() if e % M}
        self.prod.append(prod)
        i = len(self.prod) - 1
        if not prod:
            return tower.ONE[12]
        return T.cat(*[T.var('g%d.%d' % (i, j), 256, 0, P - 1) for j in reversed(range(12))])

    def parse(self, t):
        ps = ring.parts(t)
        if all(x.op == 'c' for x in ps):
            if t is tower.ONE[12]:
                return {}
            raise E.Unsupported('a constant of F_p12 other than one')
        if ps[0].op == 'v' and ps[0].aux.startswith('g'):
            i = int(ps[0].aux[1:].split('.')[0])
            if all(x.op == 'v' and x.aux == 'g%d.%d' % (i, j) for j, x in enumerate(ps)):
                return self.prod[i]
        if t in self.lines:
            return self.lines[t]
        I = Leaf('sm9', 0)
        try:
            v = I.flat(I.value(t))
        except (ring.Unsupported, ring.Split) as e:
            raise E.Unsupported('operand of a multiplication in F_p12 is not recognised: %s' % e)
        gs = {n.split('.')[0] for n in I.R.names if n[0] == 'g'}
        if len(gs) == 1 and all(n[0] == 'g' for n in I.R.names):
            r = self.frob(I, v, int(gs.pop()[1:]))
        else:
            r = self.line(I, v)
        self.lines[t] = r
        return r

    def frob(self, I, v, i):
        co = []
        for j, x in enumerate(v):
            m = next(iter(I.R.var('g%d.%d' % (i, j))))
            if list(x) != [m]:
                raise E.Unsupported('not a Frobenius image of a product of lines')
            co.append(x[m])
        for k in range(12):
            if co == FROB[k]:
                return {l: e * P ** k % M for l, e in self.prod[i].items()}
        raise E.Unsupported('coordinates of a product of lines are scaled, but not as by a Frobenius map')

    # ---- points
    def reps(self, I):
        """points whose coordinates occur"""
        out = []
        q = [I.value(x) for x in self.q]
        R = I.R
        one = I.one(1)
        for i in range(3):
            c = lambda a: (a[0], R.neg(a[1])) if i % 2 else a
            X = tuple(R.scale(x, GX[i]) for x in c((q[0], q[1])))
            Y = tuple(R.scale(x, GY[i]) for x in c((q[2], q[3])))
            out.append(Point(P ** i, X, Y, one, True))
        ids = sorted({int(n[1:].split('.')[0]) for n in R.names if n[0] == 't'})
        for i in ids:
            w = [R.var('t%d.%d' % (i, j)) for j in range(6)]
            out.append(Point(self.pts[i], (w[0], w[1]), (w[2], w[3]), (w[4], w[5])))
        return out + [Point(-p.k, p.X, I.neg(p.Y), p.Z, p.one) for p in out]

    def fresh(self, k):
        if k % N == 0:
            raise E.Unsupported('an intermediate point is the identity')
        self.pts.append(k % N)
        i = len(self.pts) - 1
        w = [T.var('t%d.%d' % (i, j), 256, 0, P - 1) for j in range(6)]
        return [T.cat(w[2 * j + 1], w[2 * j]) for j in range(3)]

    def point(self, xs):
        """multiple of Q a triple (or affine pair) represents"""
        ps = [y for x in xs for y in ring.parts(x)]
        if len(ps) == 6 and ps[0].op == 'v' and ps[0].aux[0] == 't':
            i = int(ps[0].aux[1:].split('.')[0])
            if all(x.op == 'v' and x.aux == 't%d.%d' % (i, j) for j, x in enumerate(ps)):
                return self.pts[i]
        I = Leaf('sm9', 0)
        try:
            v = [I.value(x) for x in xs]
        except (ring.Unsupported, ring.Split) as e:
            raise E.Unsupported('point operand is not recognised: %s' % e)
        if len(v) == 2:
            v.append(I.one(1))
        mul = lambda a, b: I.mul(a, b, 1)
        for p in self.reps(I):
            Z2, z2 = mul(v[2], v[2]), mul(p.Z, p.Z)
            if mul(v[0], z2) != mul(p.X, Z2) or mul(v[1], mul(z2, p.Z)) != mul(p.Y, mul(Z2, v[2])):
                continue
            # the third coordinate is not zero: a constant, or a constant times that of the representative
            if scalar(I, v[2], I.one(1)) or scalar(I, v[2], p.Z):
                return p.k
        raise E.Unsupported('point operand is not a known multiple of Q: %s' % T.show(ps[0], 3)[:160])

    # ---- lines
    def line(self, I, v):
        R = I.R
        zero = lambda i: not v[i]
        if not all(zero(i) for i in (4, 5, 6, 7, 10, 11)):
            raise E.Unsupported('operand of a multiplication in F_p12 is neither a product of lines nor a line')
        f = ((v[0], v[1]), (v[2], v[3]), (v[8], v[9]))
        mul = lambda a, b: I.mul(a, b, 1)
        xp, yp = I.value(self.xp), I.value(self.yp)
        reps = self.reps(I)
        used = [p for p in reps if not p.one] or reps
        for A in used:
            c2 = I.add(mul(A.X, A.X), mul(A.X, A.X))
            X2 = mul(A.X, A.X)
            X23 = I.add(c2, X2)
            Z2 = mul(A.Z, A.Z)
            YZ = mul(A.Y, mul(Z2, A.Z))
            Y2 = mul(A.Y, A.Y)
            e = (I.sub(I.add(Y2, Y2), mul(X23, A.X)), I.smul(I.neg(I.add(YZ, YZ)), yp), I.smul(mul(X23, Z2), xp))
            if A.k != 0 and 2 * A.k % N and self.same(I, f, e, A, None):
                return self.found(A.k, A.k)
        for A in used:
            for B in reps:
                if A.k in (B.k, -B.k % N) or A.k == 0 or B.k == 0:
                    continue
                a2, b2 = mul(A.Z, A.Z), mul(B.Z, B.Z)
                a3, b3 = mul(a2, A.Z), mul(b2, B.Z)
                lam = mul(I.sub(mul(A.X, b2), mul(B.X, a2)), mul(A.Z, B.Z))
                th = I.sub(mul(A.Y, b3), mul(B.Y, a3))
                e = (I.sub(mul(lam, B.Y), mul(mul(th, B.X), B.Z)), I.smul(I.neg(mul(lam, b3)), yp), I.smul(mul(th, b3), xp))
                if self.same(I, f, e, A, B):
                    return self.found(A.k, B.k)
        raise E.Unsupported('a value multiplied into the Miller product is not a line through known multiples of Q at P')

    def found(self, a, b):
        self.nlines += 1
        return {(min(a, b), max(a, b)): 1}

    def same(self, I, f, e, A, B):
        """f = c Z_A^i Z_B^j e with a nonzero constant c"""
        mul = lambda a, b: I.mul(a, b, 1)
        pa, pb = [I.one(1)], [I.one(1)]
        for _ in range(4):
            pa.append(mul(pa[-1], A.Z))
            if B is not None:
                pb.append(mul(pb[-1], B.Z))
        ra = range(-4, 5) if not A.one else (0,)
        rb = range(-4, 5) if B is not None and not B.one else (0,)
        for i in ra:
            for j in rb:
                l = mul(pa[max(-i, 0)], pb[max(-j, 0)])
                r = mul(pa[max(i, 0)], pb[max(j, 0)])
                c = scalar(I, mul(l, f[1]), mul(r, e[1]))
                if c is None:
                    continue
                if all(mul(l, x) == I.smul(mul(r, y), I.R.const(c)) for x, y in ((f[0], e[0]), (f[2], e[2]))):
                    return True
        return False

    # ---- contracts used at call sites
    def handlers(self):
        H = {}
        F = [('p', 384, x) for x in 'SAB']

        def reg(name, params, body):
            H[PRE + name] = Contract(PRE + name, body, params)

        def get(c, p):
            return self.parse(c.rd(p, 384))

        def mul(c, s, a, b):
            x = dict(get(c, a))
            for l, e in get(c, b).items():
                x[l] = x.get(l, 0) + e
            c.wr(s, self.value(x))
        reg('fp12_mul', F, mul)
        reg('fp12_sqr', F[:2], lambda c, s, a: mul(c, s, a, a))
        reg('fp12_inv', F[:2], lambda c, s, a: c.wr(s, self.value({l: -e for l, e in get(c, a).items()})))

        def power(c, s, a, b):
            k = bswap(c.rd(b, 32))
            if k.op != 'c':
                raise E.Unsupported('exponent is not a constant')
            c.wr(s, self.value({l: e * k.aux for l, e in get(c, a).items()}))
        reg('fp12_pow', F[:2] + [('p', 32, 'E')], power)

        def jac(c, p):
            return self.point([c.rd(p, 64, 64 * i) for i in range(3)])

        def aff(c, p):
            return self.point([c.rd(p, 64, 64 * i) for i in range(2)])

        def put(c, r, k):
            for i, x in enumerate(self.fresh(k)):
                c.wr(r, x, 64 * i)
        J = [('p', 192, x) for x in 'RPQ']
        reg('ec2_j_dbl', J[:2], lambda c, r, p: put(c, r, 2 * jac(c, p)))
        reg('ec2_j_add', J, lambda c, r, p, q: put(c, r, jac(c, p) + jac(c, q)))
        reg('ec2_j_add_a', J[:2] + [('p', 128, 'Q')], lambda c, r, p, q: put(c, r, jac(c, p) + aff(c, q)))
        return H


def scalar(I, a, b):
    """constant c of F_p, not zero, with a = c b (b not zero); None"""
    fa, fb = I.flat(a), I.flat(b)
    for x, y in zip(fa, fb):
        if bool(x) != bool(y):
            return None
    for x, y in zip(fa, fb):
        if y:
            m = max(y)
            if m not in x:
                return None
            c = x[m] * pow(y[m], -1, P) % P
            return c if all(u == I.R.scale(w, c) for u, w in zip(fa, fb)) else None
    return None


def divisor_add(D, a, b, m):
    for k, s in ((a, 1), (b, 1), (a + b, -1)):
        k %= N
        if k == 0:
            continue
        # (-A) = -(A) up to a vertical line and multiples of (O)
        if k > N // 2:
            k, s = N - k, -s
        D[k] = D.get(k, 0) + s * m


def spec_divisor():
    D = {}

    def pt(k, m):
        k %= N
        s = 1
        if k > N // 2:
            k, s = N - k, -1
        D[k] = D.get(k, 0) + s * m
    a = LOOP
    pt(1, a)
    pt(a, -1)
    divisor_add(D, a, P, 1)
    divisor_add(D, a + P, -P * P, 1)
    return {k: m for k, m in D.items() if m}


def is_pairing(prod):
    """None when the formal product is the R-ate pairing, else what is wrong"""
    D = {}
    for (a, b), e in prod.items():
        if e % E0:
            return 'the line through [%#x]Q and [%#x]Q has an exponent that is no multiple of (p^12-1)/n' % (a, b)
        m = e // E0 % N
        if m > N // 2:
            m -= N
        divisor_add(D, a, b, m)
    D = {k: m for k, m in D.items() if m}
    if D != spec_divisor():
        W = spec_divisor()
        bad = [k for k in set(D) | set(W) if D.get(k, 0) != W.get(k, 0)]
        return 'the divisor differs from that of the R-ate function at %d points, e.g. [%#x]Q: %d instead of %d' % (
            len(bad), bad[0], D.get(bad[0], 0), W.get(bad[0], 0))
    return None
