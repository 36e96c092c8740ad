"""Canonical forms of terms over a prime field: sums, products and inverses become polynomials over atoms.

Two terms with the same canonical form are equal.  Rewriting a product x * x^-1 needs x != 0: the condition is recorded
in `side` and must be shown by the caller."""
import mont
import term as T

OPS = ('add', 'sub', 'mul', 'neg', 'dbl', 'tpl', 'sqr', 'inv', 'to', 'half')


class Canon:
    def __init__(self, fields):
        self.fields = {n: mont.MODULI[n] for n in fields}
        self.memo = {}
        self.pm = {}
        self.side = []
        self.invs = {n: [] for n in fields}     # (atom id of the inverse, lead atom id, rest polynomial / coefficient)
        self.atoms = {}
        self.ofinv = {}

    def field(self, t):
        if t.op == 'uf' and ':' in t.aux:
            op, _, n = t.aux.partition(':')
            if n in self.fields and op in OPS:
                return n
        return None

    # polynomials: {((atom id, exponent), ...): coefficient}
    def atom(self, n, t):
        self.atoms[t.id] = t
        return {((t.id, 1),): 1}

    def padd(self, n, a, b, k=1):
        P = self.fields[n]
        r = dict(a)
        for m, c in b.items():
            s = (r.get(m, 0) + k * c) % P
            if s:
                r[m] = s
            else:
                r.pop(m, None)
        return r

    def pmul(self, n, a, b):
        P = self.fields[n]
        r = {}
        for m, c in a.items():
            for q, d in b.items():
                e = dict(m)
                for x, k in q:
                    e[x] = e.get(x, 0) + k
                mm = tuple(sorted(e.items()))
                s = (r.get(mm, 0) + c * d) % P
                if s:
                    r[mm] = s
                else:
                    r.pop(mm, None)
        return self.reduce(n, r)

    def reduce(self, n, p):
        """I * lead(q) -> (1 - I * rest) / c for every inverse I of q = c * lead + rest"""
        P = self.fields[n]
        for ia, lead, c, rest in self.invs[n]:
            for _ in range(40):
                hit = [m for m in p if dict(m).get(ia, 0) and dict(m).get(lead, 0)]
                if not hit:
                    break
                m = hit[0]
                k = p.pop(m) * pow(c, -1, P) % P
                e = dict(m)
                e[lead] -= 1
                one = dict(e)
                one[ia] -= 1
                mk = lambda d: tuple(sorted((x, v) for x, v in d.items() if v))
                p = self.padd(n, p, {mk(one): k})
                base = {mk(e): k}
                # - I * rest
                prod = {}
                for q, d in rest.items():
                    ee = dict(mk(e))
                    for x, v in q:
                        ee[x] = ee.get(x, 0) + v
                    prod = self.padd(n, prod, {mk(ee): d * k % P})
                p = self.padd(n, p, prod, -1)
        return p

    def poly(self, n, t):
        key = (n, t)
        if key in self.pm:
            return self.pm[key]
        P = self.fields[n]
        Ri = pow(mont.R, -1, P)
        if t.op == 'c':
            v = t.aux * Ri % P
            r = {(): v} if v else {}
        elif self.field(t) == n:
            op = t.aux.split(':')[0]
            if op == 'to':
                r = self.atom(n, mont.to(n, P, self.go(t.args[0])))
                a = self.atoms[next(iter(r))[0][0]]
                if self.field(a) != n or not a.aux.startswith('to:'):
                    r = self.poly(n, a)
            else:
                a = [self.poly(n, x) for x in t.args]
                if op == 'add':
                    r = self.padd(n, a[0], a[1])
                elif op == 'sub':
                    r = self.padd(n, a[0], a[1], -1)
                elif op == 'neg':
                    r = self.padd(n, {}, a[0], -1)
                elif op == 'dbl':
                    r = self.padd(n, a[0], a[0])
                elif op == 'tpl':
                    r = self.padd(n, a[0], a[0], 2)
                elif op == 'half':
                    r = {m: c * pow(2, -1, P) % P for m, c in a[0].items()}
                elif op == 'mul':
                    r = self.pmul(n, a[0], a[1])
                elif op == 'sqr':
                    r = self.pmul(n, a[0], a[0])
                else:
                    r = self.inverse(n, a[0])
        else:
            r = self.atom(n, self.go(t)) if t.op != 'c' else None
            a = self.atoms[next(iter(r))[0][0]]
            if a is not t and (a.op == 'c' or self.field(a) == n):
                r = self.poly(n, a)
        self.pm[key] = r
        return r

    def inverse(self, n, q):
        P = self.fields[n]
        if not q:
            return {}
        if len(q) == 1 and () in q:
            return {(): pow(q[()], -1, P)}
        k = self.lead(q)
        c = q[k]
        mon = {m: v * pow(c, -1, P) % P for m, v in q.items()}
        I = T.uf('finv:' + n, 256, (self.build(n, mon),), 0, P - 1)
        self.atoms[I.id] = I
        self.ofinv[I.id] = mon
        single = [m for m in mon if len(m) == 1 and m[0][1] == 1 and not any(m[0][0] in dict(o) for o in mon if o != m)]
        if single and not any(x[0] == I.id for x in self.invs[n]):
            m = min(single)
            rest = {o: v for o, v in mon.items() if o != m}
            self.invs[n].append((I.id, m[0][0], mon[m], rest))
            self.side.append(T.not_(self.zero(n, mon)))
        return {((I.id, 1),): pow(c, -1, P)}

    def lead(self, q):
        return max(q)

    def build(self, n, p):
        """one term per polynomial"""
        P = self.fields[n]
        if not p:
            return T.const(0, 256)
        if list(p) == [()]:
            return T.const(p[()] * mont.R % P, 256)
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return self.atoms[m[0][0]]
        ids = sorted({x for m in p for x, _ in m})
        pos = {x: i for i, x in enumerate(ids)}
        shape = sorted((tuple((pos[x], e) for x, e in m), c) for m, c in p.items())
        return T.uf('poly:%s:%s' % (n, shape), 256, [self.atoms[x] for x in ids], 0, P - 1)

    def zero(self, n, p):
        """the polynomial vanishes"""
        P = self.fields[n]
        if not p:
            return T.TRUE
        if list(p) == [()]:
            return T.FALSE
        # clear denominators (nonzero by the recorded side conditions)
        ids = {x for m in p for x, _ in m}
        for ia, _, _, _ in self.invs[n]:
            if ia in ids and len(p) > 1:
                d = max(dict(m).get(ia, 0) for m in p)
                r = {}
                for m, v in p.items():
                    e = dict(m)
                    k = e.pop(ia, 0)
                    t = {tuple(sorted(e.items())): v}
                    for _ in range(d - k):
                        t = self.pmul(n, t, self.ofinv[ia])
                    r = self.padd(n, r, t)
                return self.zero(n, r)
        c = p[self.lead(p)]
        p = {m: v * pow(c, -1, P) % P for m, v in p.items()}
        ms = [m for m in p if m]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
            a = self.atoms[ms[0][0][0]]
            v = -p.get((), 0) * pow(p[ms[0]], -1, P) % P
            if a.op == 'uf' and a.aux == 'to:' + n:
                r = T.FALSE
                x = a.args[0]
                while v < 1 << x.w:
                    r = T.or_(r, T.eq(x, T.const(v, x.w)))
                    v += P
                return r
            if a.id in self.ofinv and v == 0:
                return self.zero(n, self.ofinv[a.id])
            return T.eq(a, T.const(v * mont.R % P, 256))
        if len(p) == 1:
            # a product vanishes exactly when a factor does
            r = T.FALSE
            for x, _ in ms[0]:
                r = T.or_(r, self.zero(n, {((x, 1),): 1}))
            return r
        return T.eq(self.build(n, p), T.const(0, 256))

    def go(self, t):
        """the whole term with field parts in canonical form"""
        r = self.memo.get(t)
        if r is not None:
            return r
        if not t.args:
            self.memo[t] = t
            return t
        n = self.field(t)
        if n is not None:
            r = self.build(n, self.poly(n, t))
        elif t.op == 'eq' and t.args[0].w == 256 and self.eqfrom(*t.args):
            n, x, c = self.eqfrom(*t.args)
            P = self.fields[n]
            r = T.FALSE if c >= P else self.zero(n, self.padd(n, self.poly(n, x), {(): c} if c else {}, -1))
        elif t.op == 'eq' and t.args[0].w == 256 and self.eqfield(*t.args):
            n = self.eqfield(*t.args)
            r = self.zero(n, self.padd(n, self.poly(n, t.args[0]), self.poly(n, t.args[1]), -1))
        else:
            a = [self.go(x) for x in t.args]
            r = t if all(x is y for x, y in zip(a, t.args)) else T.rebuild(t, a)
            if r.op == 'uf' and r.aux.startswith('from:') and r.aux[5:] in self.fields:
                r = mont.frm(r.aux[5:], self.fields[r.aux[5:]], r.args[0])
        self.memo[t] = r
        return r

    def eqfrom(self, a, b):
        for x, y in ((a, b), (b, a)):
            if y.op == 'c' and x.op == 'uf' and x.aux.startswith('from:') and x.aux[5:] in self.fields:
                return x.aux[5:], x.args[0], y.aux
        return None

    def eqfield(self, a, b):
        for x, y in ((a, b), (b, a)):
            n = self.field(x)
            if n is not None and y.hi < self.fields[n]:
                return n
        return None
