"""Reduction of long byte strings: residue back end and the contracts of uint256_mod and its callers."""
import math
import mont
import smt
import term as T
import u256
from contract import Contract

MOD = dict(mont.MODULI)
MOD['sm9n1'] = mont.SM9_N - 1
NAME = {v: k for k, v in MOD.items()}
UFS = dict(mont.UFS)
for _n, _P in MOD.items():
    UFS['addm:' + _n] = lambda t, a, P=_P: (a[0] + a[1]) % P
    UFS['wide:' + _n] = lambda t, a, P=_P: a[0] % P


def wide(n, v):
    """the integer v (big-endian string as a term) modulo the named modulus"""
    P = MOD[n]
    if v.op == 'c':
        return T.const(v.aux % P, 256)
    return T.uf('wide:' + n, 256, [v], 0, P - 1)


def big(bs):
    return T.cat(*bs)


def mod_add_contract(impl):
    def body(c, s, a, b, m):
        x, y, d = c.rd(a, 32), c.rd(b, 32), c.rd(m, 32)
        if d.op != 'c' or d.aux not in NAME:
            import exec as E
            raise E.Unsupported('modulus is not one of the library constants')
        P = d.aux
        c.pre(T.ult(x, d), 'augend below the divisor')
        c.pre(T.ult(y, d), 'addend below the divisor')
        if x.op == 'c' and x.aux == 0 and y.hi < P:
            r = y
        elif x.op == 'c' and y.op == 'c':
            r = T.const((x.aux + y.aux) % P, 256)
        else:
            r = T.uf('addm:' + NAME[P], 256, [x, y], 0, P - 1)
        c.wr(s, r)
    return Contract(u256.NS[impl] + 'uint256_mod_add', body, [('p', 32)] * 4)


def uint256_mod(impl, n, ln):
    P = MOD[n]

    def body(c, s, d, l, m):
        c.wr(s, wide(n, big([c.rd(d, 1, i) for i in range(ln)])) if ln else T.const(0, 256))
    return Contract(u256.NS[impl] + 'uint256_mod', body, [('p', 32, 'S'), ('p', max(ln, 1), 'D'), ('k', T.const(ln, 64)), ('p', 32, 'M', T.const(P, 256))],
                    alias=False)


def mod_handler(impl):
    """contract of uint256_mod at a call: any of the moduli, concrete length"""
    def body(c, s, d, l, m):
        import exec as E
        v = c.rd(m, 32)
        if v.op != 'c' or v.aux not in NAME or l.op != 'c':
            raise E.Unsupported('uint256_mod with an unknown modulus or length')
        c.wr(s, wide(NAME[v.aux], big([c.rd(d, 1, i) for i in range(l.aux)])) if l.aux else T.const(0, 256))
    return Contract(u256.NS[impl] + 'uint256_mod', body, [])


class Residue:
    """residue of a term modulo P as a linear form over byte variables"""

    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.n = 0

    def bytes_of(self, t):
        """value of a word that is a concatenation of variables"""
        if t.op == 'c':
            return {None: t.aux % self.P} if t.aux % self.P else {}
        if t.op == 'v':
            return {t: 1}
        if t.op == 'cat':
            out, at = {}, 0
            for a in reversed(t.args):
                r = self.bytes_of(a)
                if r is None:
                    return None
                for k, c in r.items():
                    out[k] = (out.get(k, 0) + c * pow(2, at, self.P)) % self.P
                at += a.w
            return {k: c for k, c in out.items() if c}
        if t.op == 'ext' and t.args[0].op == 'v':
            return {t: 1}
        return None

    def lin(self, a, b, k=1):
        out = dict(a)
        for x, c in b.items():
            out[x] = (out.get(x, 0) + c * k) % self.P
        return {x: c for x, c in out.items() if c}

    def res(self, t):
        if t in self.memo:
            return self.memo[t]
        r = self._res(t)
        self.memo[t] = r
        return r

    def _res(self, t):
        P = self.P
        if t.op == 'uf' and t.aux.startswith('addm:') and MOD[t.aux[5:]] == P:
            a, b = self.res(t.args[0]), self.res(t.args[1])
            return None if a is None or b is None else self.lin(a, b)
        if t.op == 'uf' and t.aux.startswith('wide:') and MOD[t.aux[5:]] == P:
            return self.bytes_of(t.args[0])
        r = self.bytes_of(t)
        if r is not None:
            return r
        if t.op == 'ite':
            c, a, b = t.args
            ra, rb = self.res(a), self.res(b)
            if ra is not None and rb is not None:
                if ra == rb:
                    return ra
                neg = T.is_not(c)
                c2 = T.not_(c) if neg else c
                if neg:
                    ra, rb = rb, ra
                if c2.op == 'eq':
                    x, y = c2.args
                    if x.op == 'c':
                        x, y = y, x
                    if y.op == 'c' and y.aux == 0:
                        px = self.res(x)
                        # under c the value x is zero, so is every multiple of its residue
                        k0 = next((k for k, q in px.items() if math.gcd(q, P) == 1), None) if px else None
                        if k0 is not None:
                            d = self.lin(ra, rb, -1)
                            k = d.get(k0, 0) * pow(px[k0], -1, P) % P
                            if self.lin(d, px, -k) == {}:
                                return rb
        # a reduction by the modulus of a plain word
        for v in self.words(t):
            X = v
            D = T.const(P, v.w)
            if v.w >= 256 and t.w == 256:
                want = T.ext(T.ite(T.ult(X, D), X, T.sub(X, D)), 0, 256)
                if t is want or smt.check([], T.eq(t, want), 20000)[0] == 'proved':
                    return self.bytes_of(v)
        return None

    def words(self, t):
        seen, st = set(), [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'cat' and x.w == 256 and self.bytes_of(x) is not None:
                yield x
                continue
            st.extend(x.args)


def backend(P):
    R = Residue(P)

    def f(g, su, ex):
        if g.got.w != 256 or g.got is g.want:
            return None
        if g.got.hi >= P and smt.check(list(g.pc), T.ult(g.got, T.const(P, 256)), 20000)[0] != 'proved':
            return None
        a, b = R.res(g.got), R.res(g.want)
        if a is not None and a == b:
            return 'residues'
        return None
    return f
