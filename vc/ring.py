"""Polynomials over the field tower, and the interpretation of field-contract terms as polynomials.

A field-layer contract returns uninterpreted terms ('mul:sm9p', 'add:f2.0', ...) whose meaning is the operation of a
finite field.  Interpreting them turns the value a function computes into a polynomial in its inputs, and the
postcondition into a polynomial identity modulo the relations of the case (curve equations), checked exactly."""
import term as T
import mont

# ------------------------------------------------------------------ finite fields


class Fp:
    deg = 1

    def __init__(self, p):
        self.p = p
        self.zero, self.one = 0, 1
        self.order = p

    def add(self, a, b):
        return (a + b) % self.p

    def sub(self, a, b):
        return (a - b) % self.p

    def neg(self, a):
        return -a % self.p

    def mul(self, a, b):
        return a * b % self.p

    def inv(self, a):
        return pow(a, -1, self.p)

    def of(self, n):
        return n % self.p

    def coords(self, a):
        return [a]

    def make(self, cs):
        return cs[0] % self.p


class Ext:
    """base[x] / (x^n - beta)"""

    def __init__(self, base, n, beta):
        self.base, self.n, self.beta = base, n, beta
        self.deg = base.deg * n
        self.p = base.p
        self.zero = (base.zero,) * n
        self.one = (base.one,) + (base.zero,) * (n - 1)
        self.order = base.order ** n

    def of(self, k):
        return (self.base.of(k),) + (self.base.zero,) * (self.n - 1)

    def add(self, a, b):
        return tuple(map(self.base.add, a, b))

    def sub(self, a, b):
        return tuple(map(self.base.sub, a, b))

    def neg(self, a):
        return tuple(map(self.base.neg, a))

    def mul(self, a, b):
        B, n = self.base, self.n
        r = [B.zero] * n
        for i in range(n):
            for j in range(n):
                t = B.mul(a[i], b[j])
                if i + j >= n:
                    t = B.mul(t, self.beta)
                r[(i + j) % n] = B.add(r[(i + j) % n], t)
        return tuple(r)

    def inv(self, a):
        # a^(q-1) = 1; through the norm to the base field
        B = self.base
        if self.n == 2:
            nrm = B.sub(B.mul(a[0], a[0]), B.mul(self.beta, B.mul(a[1], a[1])))
            i = B.inv(nrm)
            return (B.mul(a[0], i), B.neg(B.mul(a[1], i)))
        A = B.sub(B.mul(a[0], a[0]), B.mul(self.beta, B.mul(a[1], a[2])))
        Bq = B.sub(B.mul(self.beta, B.mul(a[2], a[2])), B.mul(a[0], a[1]))
        C = B.sub(B.mul(a[1], a[1]), B.mul(a[0], a[2]))
        nrm = B.add(B.mul(a[0], A), B.mul(self.beta, B.add(B.mul(a[1], C), B.mul(a[2], Bq))))
        i = B.inv(nrm)
        return (B.mul(A, i), B.mul(Bq, i), B.mul(C, i))

    def coords(self, a):
        return [c for x in a for c in self.base.coords(x)]

    def make(self, cs):
        d = self.base.deg
        return tuple(self.base.make(cs[i * d:(i + 1) * d]) for i in range(self.n))


def fpow(F, a, e):
    if e < 0:
        return fpow(F, F.inv(a), -e)
    r = F.one
    while e:
        if e & 1:
            r = F.mul(r, a)
        a = F.mul(a, a)
        e >>= 1
    return r


F1 = {'sm2': Fp(mont.SM2_P), 'sm9': Fp(mont.SM9_P)}
FP = F1['sm9']
F2 = Ext(FP, 2, FP.of(-2))
F4 = Ext(F2, 2, (0, 1))
F12 = Ext(F4, 3, ((0, 0), (1, 0)))
TOWER = {'sm2': [('sm2p', F1['sm2'])], 'sm9': [('sm9p', FP), ('f2', F2), ('f4', F4), ('f12', F12)]}


def is_field_tower():
    """the defining polynomials are irreducible: -2 and u are no squares, v is no cube (and 3 divides p^4 - 1)"""
    p = FP.p
    a = pow(p - 2, (p - 1) // 2, p) == p - 1
    b = fpow(F2, (0, 1), (p ** 2 - 1) // 2) == F2.neg(F2.one)
    c = (p ** 4 - 1) % 3 == 0 and fpow(F4, ((0, 0), (1, 0)), (p ** 4 - 1) // 3) != F4.one
    return a and b and c


def no_root(F, a, b):
    """x^3 + a x + b has no root in F (so no point of the curve has y = 0)"""
    # x^q mod f, then gcd with x^q - x: f of degree 3 has no root iff gcd is 1
    def mulmod(u, v):
        r = [F.zero] * 5
        for i in range(3):
            for j in range(3):
                r[i + j] = F.add(r[i + j], F.mul(u[i], v[j]))
        for k in (4, 3):
            c = r[k]
            r[k - 2] = F.sub(r[k - 2], F.mul(c, a))
            r[k - 3] = F.sub(r[k - 3], F.mul(c, b))
        return r[:3]
    base = [F.zero, F.one, F.zero]
    r = [F.one, F.zero, F.zero]
    e = F.order
    while e:
        if e & 1:
            r = mulmod(r, base)
        base = mulmod(base, base)
        e >>= 1
    g = [r[0], F.sub(r[1], F.one), r[2]]
    f = [b, a, F.zero, F.one]

    def trim(u):
        u = list(u)
        while u and u[-1] == F.zero:
            u.pop()
        return u
    f, g = trim(f), trim(g)
    while g:
        while len(f) >= len(g):
            c = F.mul(f[-1], F.inv(g[-1]))
            s = len(f) - len(g)
            for i, x in enumerate(g):
                f[i + s] = F.sub(f[i + s], F.mul(c, x))
            f = trim(f)
        f, g = g, f
    return len(f) == 1


# ------------------------------------------------------------------ polynomials
SH = 20
HALF = 1 << (SH - 1)


class Unsupported(Exception):
    pass


class Split(Exception):
    def __init__(self, q):
        self.q = q


class Ring:
    """polynomials over K in named variables; units may have negative exponents; rules rewrite squares"""

    def __init__(self, K):
        self.K = K
        self.names = []
        self.units = set()
        self.rules = {}      # index -> poly for var^2
        self.facts = []      # polynomials known to be nonzero
        self.invs = {}       # index -> polynomial it is the inverse of
        self.facts_desc = []

    def var(self, name, unit=False):
        if name not in self.names:
            self.names.append(name)
        i = self.names.index(name)
        if unit:
            self.units.add(i)
        return {1 << (SH * i): self.K.one}

    def const(self, c):
        return {} if c == self.K.zero else {0: c}

    def num(self, n):
        return self.const(self.K.of(n))

    def exps(self, m):
        out = {}
        i = 0
        while m:
            e = m & ((1 << SH) - 1)
            if e >= HALF:
                e -= 1 << SH
            if e:
                out[i] = e
            m = (m - e) >> SH
            i += 1
        return out

    def mono(self, exps):
        return sum(e << (SH * i) for i, e in exps.items())

    def add(self, a, b):
        r = dict(a)
        add, z = self.K.add, self.K.zero
        for m, c in b.items():
            if m in r:
                s = add(r[m], c)
                if s == z:
                    del r[m]
                else:
                    r[m] = s
            else:
                r[m] = c
        return r

    def neg(self, a):
        return {m: self.K.neg(c) for m, c in a.items()}

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def scale(self, a, c):
        if c == self.K.zero:
            return {}
        return {m: self.K.mul(x, c) for m, x in a.items()}

    def mul(self, a, b):
        if not a or not b:
            return {}
        r = {}
        mul, add = self.K.mul, self.K.add
        for m, c in a.items():
            for n, d in b.items():
                k = m + n
                t = mul(c, d)
                if k in r:
                    r[k] = add(r[k], t)
                else:
                    r[k] = t
        z = self.K.zero
        return self.reduce({m: c for m, c in r.items() if c != z})

    def pow(self, a, n):
        r = self.num(1)
        for _ in range(n):
            r = self.mul(r, a)
        return r

    def reduce(self, a):
        if not self.rules:
            return a
        while True:
            out = {}
            todo = []
            for m, c in a.items():
                ex = self.exps(m)
                hit = None
                for i in self.rules:
                    if ex.get(i, 0) >= 2:
                        hit = i
                        break
                if hit is None:
                    out[m] = c
                else:
                    todo.append((m - (2 << (SH * hit)), c, hit))
            if not todo:
                return out
            for m, c, i in todo:
                for n, d in self.rules[i].items():
                    k = m + n
                    t = self.K.mul(c, d)
                    out[k] = self.K.add(out[k], t) if k in out else t
            a = {m: c for m, c in out.items() if c != self.K.zero}

    def unit_mono(self, a):
        """a is a nonzero constant times a monomial of units"""
        if len(a) != 1:
            return False
        m = next(iter(a))
        return all(i in self.units or i in self.invs for i in self.exps(m))

    def inv(self, a):
        """inverse of a nonzero polynomial"""
        if self.unit_mono(a):
            m, c = next(iter(a.items()))
            return {-m: self.K.inv(c)}
        for i, q in self.invs.items():
            if q == a:
                return {1 << (SH * i): self.K.one}
        name = 'inv%d' % len(self.invs)
        v = self.var(name)
        i = self.names.index(name)
        self.invs[i] = a
        return v

    def clear(self, a):
        """multiply away the inverses of polynomials"""
        for i in sorted(self.invs, reverse=True):
            q = self.invs[i]
            ds = {m: self.exps(m).get(i, 0) for m in a}
            if not any(ds.values()):
                continue
            D = max(max(ds.values()), 0)
            r = {}
            pw = {}
            for m, c in a.items():
                e = D - ds[m]
                if e not in pw:
                    pw[e] = self.pow(q, e)
                r = self.add(r, self.mul({m - (ds[m] << (SH * i)): c}, pw[e]))
            a = self.reduce(r)
        # units with a rewriting rule: lift negative powers, so that the reduced form is unique
        for i in self.rules:
            if i in self.units and a:
                low = min(self.exps(m).get(i, 0) for m in a)
                if low < 0:
                    a = self.reduce({m - (low << (SH * i)): c for m, c in a.items()})
        return a

    def is_zero(self, a):
        a = self.reduce(a)
        if not a:
            return True
        return not self.clear(a)

    def is_nonzero(self, a):
        a = self.clear(self.reduce(a))
        return self._nz(a, 4)

    def _nz(self, a, depth):
        if not a:
            return False
        if self.unit_mono(a):
            return True
        # drop the unit part common to all terms
        for f in self.facts:
            if self.multiple(a, f):
                return True
        if depth:
            for f in self.facts:
                q = self.divide(a, f)
                if q is not None and self._nz(q, depth - 1):
                    return True
        return False

    def normal(self, a):
        """a up to a unit monomial and a constant"""
        es = [self.exps(m) for m in a]
        low = {i: min(e.get(i, 0) for e in es) for i in self.units}
        s = self.mono({i: e for i, e in low.items() if e})
        a = {m - s: c for m, c in a.items()}
        c0 = self.K.inv(a[max(a)])
        return {m: self.K.mul(c, c0) for m, c in a.items()}

    def multiple(self, a, f):
        return len(a) == len(f) and self.normal(a) == self.normal(f)

    def divide(self, a, f):
        """exact quotient a / f or None (ordering: packed monomials)"""
        if not f:
            return None
        a = dict(self.normal(a))
        f = self.normal(f)
        lf = max(f)
        ef = self.exps(lf)
        q = {}
        n = 0
        while a:
            la = max(a)
            d = la - lf
            ea = self.exps(d)
            if any(e < 0 and i not in self.units for i, e in ea.items()) or n > 400:
                return None
            c = self.K.mul(a[la], self.K.inv(f[lf]))
            q[d] = c
            for m, x in f.items():
                k = m + d
                t = self.K.sub(a.get(k, self.K.zero), self.K.mul(c, x))
                if t == self.K.zero:
                    a.pop(k, None)
                else:
                    a[k] = t
            n += 1
        return q or None

    def subst(self, a, i, v):
        """variable i replaced by the polynomial v (negative powers through the inverse)"""
        r = {}
        pw = {}
        vi = None
        for m, c in a.items():
            e = self.exps(m).get(i, 0)
            if e not in pw:
                if e >= 0:
                    pw[e] = self.pow(v, e)
                else:
                    vi = vi or self.inv(v)
                    pw[e] = self.pow(vi, -e)
            r = self.add(r, self.mul({m - (e << (SH * i)): c}, pw[e]))
        return r

    def show(self, a):
        out = []
        for m, c in list(sorted(a.items()))[:8]:
            out.append('%s*%s' % (str(c)[:10], '*'.join('%s^%d' % (self.names[i], e) for i, e in self.exps(m).items()) or '1'))
        return ' + '.join(out) + (' ...(%d)' % len(a) if len(a) > 8 else '')


# ------------------------------------------------------------------ interpretation
_parts = {}


def parts(t):
    """the 256-bit coordinates of a term; selections are taken per coordinate"""
    r = _parts.get(t)
    if r is None:
        n = t.w // 256
        if t.op == 'ite' and n > 1:
            r = tuple(T.ite(t.args[0], x, y) for x, y in zip(parts(t.args[1]), parts(t.args[2])))
        else:
            r = []
            for i in range(n):
                x = T.ext(t, 256 * i, 256)
                if x.op == 'ext' and x.args[0].op == 'ite' and x.aux % 256 == 0:
                    x = parts(x.args[0])[x.aux // 256] if x.args[0].w % 256 == 0 else x
                r.append(x)
            r = tuple(r)
        _parts[t] = r
    return r


class Interp:
    """values of terms in a ring over level `atom` of the tower of a curve"""

    def __init__(self, curve, atom=0, ring=None):
        self.tower = TOWER[curve]
        self.curve = curve
        self.atom = atom
        self.R = ring or Ring(self.tower[atom][1])
        self.p = self.tower[0][1].p
        self.ri = pow(mont.R, -1, self.p)
        self.bind = {}
        self.memo = {}
        self.zvar = 0
        self.special = {}

    # values: Poly at levels <= atom, tuples above
    def sub_n(self, lv):
        return self.tower[lv][1].n

    def const_of(self, cs, lv):
        """value of Montgomery constants"""
        cs = [c * self.ri % self.p for c in cs]
        return self.embed(cs, lv)

    def embed(self, cs, lv):
        F = self.tower[lv][1]
        if lv > self.atom:
            d = self.tower[lv - 1][1].deg
            return tuple(self.embed(cs[i * d:(i + 1) * d], lv - 1) for i in range(F.n))
        K = self.R.K
        return self.R.const(K.make(list(cs) + [0] * (K.deg - len(cs))))

    def field_const(self, x, lv):
        """a constant of the field at level lv as a value"""
        return self.embed(self.tower[lv][1].coords(x), lv)

    def zero(self, lv):
        return self.embed([0] * self.tower[lv][1].deg, lv)

    def one(self, lv):
        return self.embed([1] + [0] * (self.tower[lv][1].deg - 1), lv)

    def add(self, a, b):
        return tuple(map(self.add, a, b)) if isinstance(a, tuple) else self.R.add(a, b)

    def sub(self, a, b):
        return tuple(map(self.sub, a, b)) if isinstance(a, tuple) else self.R.sub(a, b)

    def neg(self, a):
        return tuple(map(self.neg, a)) if isinstance(a, tuple) else self.R.neg(a)

    def mul(self, a, b, lv):
        if lv <= self.atom:
            return self.R.mul(a, b)
        F = self.tower[lv][1]
        n = F.n
        beta = self.embed(F.base.coords(F.beta), lv - 1)
        r = [None] * n
        for i in range(n):
            for j in range(n):
                t = self.mul(a[i], b[j], lv - 1)
                if i + j >= n:
                    t = self.mul(t, beta, lv - 1)
                k = (i + j) % n
                r[k] = t if r[k] is None else self.add(r[k], t)
        return tuple(r)

    def smul(self, a, s):
        """multiplication by a value of level <= atom"""
        return tuple(self.smul(x, s) for x in a) if isinstance(a, tuple) else self.R.mul(a, s)

    def flat(self, a):
        return [y for x in a for y in self.flat(x)] if isinstance(a, tuple) else [a]

    def norm(self, a, lv):
        """norm to the level below"""
        F = self.tower[lv][1]
        l = lv - 1
        beta = self.embed(F.base.coords(F.beta), l)
        if F.n == 2:
            return self.sub(self.mul(a[0], a[0], l), self.mul(beta, self.mul(a[1], a[1], l), l))
        A, B, C = self.adjoint3(a, lv)
        t = self.add(self.mul(a[1], C, l), self.mul(a[2], B, l))
        return self.add(self.mul(a[0], A, l), self.mul(beta, t, l))

    def adjoint3(self, a, lv):
        F = self.tower[lv][1]
        l = lv - 1
        beta = self.embed(F.base.coords(F.beta), l)
        A = self.sub(self.mul(a[0], a[0], l), self.mul(beta, self.mul(a[1], a[2], l), l))
        B = self.sub(self.mul(beta, self.mul(a[2], a[2], l), l), self.mul(a[0], a[1], l))
        C = self.sub(self.mul(a[1], a[1], l), self.mul(a[0], a[2], l))
        return A, B, C

    def full_norm(self, a, lv):
        while lv > self.atom:
            a = self.norm(a, lv)
            lv -= 1
        return a

    def inv(self, a, lv):
        if lv <= self.atom:
            if self.R.is_zero(a):
                return {}
            if not self.R.is_nonzero(a):
                raise Split(a)
            return self.R.inv(a)
        # through the norm
        i = self.inv(self.norm(a, lv), lv - 1)
        if self.tower[lv][1].n == 2:
            return (self.mul(a[0], i, lv - 1), self.neg(self.mul(a[1], i, lv - 1)))
        A, B, C = self.adjoint3(a, lv)
        return tuple(self.mul(x, i, lv - 1) for x in (A, B, C))

    # ---- terms
    def parts(self, t):
        return parts(t)

    def level_of(self, n):
        for k, (nm, F) in enumerate(self.tower):
            if F.deg == n:
                return k
        raise Unsupported('width %d' % n)

    def set(self, t, value):
        self.bind[tuple(x.id for x in self.parts(t))] = value

    def value(self, t):
        return self.ev(self.parts(t))

    def ev(self, ps):
        key = tuple(x.id for x in ps)
        if key in self.bind:
            return self.bind[key]
        if key in self.memo:
            return self.memo[key]
        r = self.memo[key] = self._ev(ps)
        return r

    def _ev(self, ps):
        lv = self.level_of(len(ps))
        for x in ps:
            if x.op == 'ite':
                c = x.args[0]
                d = self.decide(c)
                return self.ev(tuple((y.args[1] if d else y.args[2]) if y.op == 'ite' and y.args[0] is c else y for y in ps))
        if all(x.op == 'c' for x in ps):
            return self.const_of([x.aux for x in ps], lv)
        name = self.tower[lv][0]
        x0 = ps[0]
        if x0.op == 'uf' and all(x.op == 'uf' and x.args == x0.args for x in ps):
            if lv == 0:
                op, _, nm = x0.aux.partition(':')
                if nm == name:
                    return self.apply(op, x0.args, lv)
                # one coordinate of an element of a higher level
                up, dot, i = nm.rpartition('.')
                if dot and self.atom == 0:
                    for k, (n2, F2) in enumerate(self.tower):
                        if n2 == up:
                            key = ('el', op, up) + tuple(x.id for x in x0.args)
                            if key not in self.memo:
                                self.memo[key] = self.flat(self.apply(op, x0.args, k))
                            return self.memo[key][int(i)]
            else:
                op, _, nm = x0.aux.partition(':')
                if nm == name + '.0' and all(x.aux == '%s:%s.%d' % (op, name, i) for i, x in enumerate(ps)):
                    return self.apply(op, x0.args, lv)
        if lv == 0:
            raise Unsupported('no polynomial for %s' % T.show(x0, 3)[:160])
        d = self.tower[lv - 1][1].deg
        n = self.tower[lv][1].n
        sub = [self.ev(ps[i * d:(i + 1) * d]) for i in range(n)]
        if lv > self.atom:
            return tuple(sub)
        # below the atomic level: sum of components times the powers of the generator
        r = {}
        F = self.tower[lv][1]
        for i in range(n):
            e = [F.base.zero] * n
            e[i] = F.base.one
            r = self.R.add(r, self.R.mul(sub[i], self.embed(F.coords(tuple(e)), lv)))
        return r

    def apply(self, op, args, lv):
        n = self.tower[lv][1].deg
        h = self.special.get(op)
        if h is not None:
            return h(self, args, lv)
        if op in ('mulfp', 'mulf2', 'mulf4'):
            a, s = self.value(args[0]), self.value(args[1])
            sl = {'mulfp': 0, 'mulf2': 1, 'mulf4': 2}[op]
            return self.mul_at(a, s, lv, sl)
        if op in ('mulu', 'mulv'):
            a = self.value(args[0])
            F = self.tower[lv][1]
            g = self.embed(F.coords((F.base.zero, F.base.one)), lv)
            return self.mul(a, g, lv)
        vs = [self.value(a) for a in args if a.w == 256 * n]
        if len(vs) != len(args):
            raise Unsupported('operand of %s' % op)
        if op == 'add':
            return self.add(*vs)
        if op == 'sub':
            return self.sub(*vs)
        if op == 'neg':
            return self.neg(*vs)
        if op == 'dbl':
            return self.add(vs[0], vs[0])
        if op == 'tpl':
            return self.add(vs[0], self.add(vs[0], vs[0]))
        if op == 'mul':
            return self.mul(vs[0], vs[1], lv)
        if op == 'sqr':
            return self.mul(vs[0], vs[0], lv)
        if op == 'inv':
            return self.inv(vs[0], lv)
        if op in ('conj', 'frob1', 'frob2', 'frob3', 'frob6'):
            return self.frob(vs[0], lv, n // 2 if op == 'conj' else int(op[4:]))
        raise Unsupported('operation %s' % op)

    def frob(self, a, lv, k):
        """x -> x^(p^k) for values with coordinates in Fp (atomic level 0)"""
        if self.atom:
            raise Unsupported('Frobenius over a larger field')
        F = self.tower[lv][1]
        out = self.zero(lv)
        for i, c in enumerate(self.flat(a)):
            e = [0] * F.deg
            e[i] = 1
            b = fpow(F, F.make(e), self.p ** k)
            out = self.add(out, self.smul(self.field_const(b, lv), c))
        return out

    def mul_at(self, a, s, lv, sl):
        if lv == sl or lv <= self.atom:
            return self.mul(a, s, lv) if lv == sl else self.R.mul(a, s)
        return tuple(self.mul_at(x, s, lv - 1, sl) for x in a)

    def decide(self, c):
        if c.op == 'c':
            return bool(c.aux)
        if c.w != 1:
            raise Unsupported('condition')
        if c.op == 'xor':
            r = False
            for a in c.args:
                r ^= self.decide(a)
            return r
        if c.op == 'and':
            # a decidable false conjunct suffices
            und = None
            for a in c.args:
                try:
                    if not self.decide(a):
                        return False
                except Split as s:
                    und = und or s
            if und:
                raise und
            return True
        if c.op == 'or':
            und = None
            for a in c.args:
                try:
                    if self.decide(a):
                        return True
                except Split as s:
                    und = und or s
            if und:
                raise und
            return False
        if c.op == 'ite':
            return self.decide(c.args[1] if self.decide(c.args[0]) else c.args[2])
        if c.op == 'eq' and c.args[0].w % 256 == 0:
            und = None
            for q in self.flat(self.sub(self.value(c.args[0]), self.value(c.args[1]))):
                if self.R.is_zero(q):
                    continue
                if self.R.is_nonzero(q):
                    return False
                und = und or Split(q)
            if und:
                raise und
            return True
        if c.op == 'eq' and c.args[0].w == 1:
            return self.decide(c.args[0]) == self.decide(c.args[1])
        if c.op == 'uf':
            h = self.special.get(c.aux.partition(':')[0])
            if h:
                return h(self, c, None)
        raise Unsupported('condition %s' % T.show(c, 3)[:160])


def explore(make, check, limit=64):
    """run check(make(extra)) over all branches: extra is a list of (poly, zero?) assumptions made on the way.
    make(extra) returns an Interp or None when the assumptions are contradictory.  check returns None or a message."""
    work = [[]]
    n = 0
    while work:
        ext = work.pop()
        n += 1
        if n > limit:
            return 'too many cases'
        I = make(ext)
        if I is None:
            continue
        try:
            msg = check(I)
        except Split as s:
            work.append(ext + [(s.q, False)])
            work.append(ext + [(s.q, True)])
            continue
        if msg:
            return msg
    return None


def assume_nonzero(I, q):
    I.R.facts.append(q)


def solve_zero(I, q):
    """(index, value) so that q = 0 is the substitution of one variable, or None"""
    R = I.R
    q = R.clear(R.reduce(q))
    if not q:
        return ()
    inrules = set(R.rules)
    for pl in R.rules.values():
        for m in pl:
            inrules |= set(R.exps(m))
    # drop common units
    es = [R.exps(m) for m in q]
    low = {i: min(e.get(i, 0) for e in es) for i in R.units}
    s = R.mono({i: e for i, e in low.items() if e})
    q = {m - s: c for m, c in q.items()}
    for i in range(len(R.names)):
        if i in inrules or i in R.invs:
            continue
        hit = [m for m in q if R.exps(m).get(i, 0)]
        if len(hit) != 1 or R.exps(hit[0])[i] != 1:
            continue
        co = {hit[0] - (1 << (SH * i)): q[hit[0]]}
        if not R.unit_mono(co) and list(co) != [0]:
            continue
        rest = {m: c for m, c in q.items() if m != hit[0]}
        return i, R.neg(R.mul(rest, R.inv(co)))
    return None
