"""Integer back end: the unsigned value of a bit-vector term as a polynomial with rational coefficients over atoms.

Atoms are input words, floor atoms  q = floor(Y/n)  (used when the quotient has a tiny range) and residue atoms
m = Y mod n (the quotient is then (Y-m)/n exactly).  Every rewriting step is an identity over the integers, so
two terms with the same polynomial have the same value.
"""
from fractions import Fraction as F
import term as T


def padd(a, b, k=1):
    if len(b) > len(a) and k == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    if k == 0:
        return {}
    return {m: c * k for m, c in a.items()}


def pconst(k):
    return {(): k} if k else {}


def norm(c):
    if isinstance(c, F) and c.denominator == 1:
        return c.numerator
    return c


class Atom:
    __slots__ = ('id', 'lo', 'hi', 'kind', 'def_', 'term')


class Undecided(Exception):
    pass


class Arith:
    def __init__(self, cuts=None, max_terms=200000):
        self.atoms = []
        self.index = {}
        self.memo = {}
        self.cuts = {}
        self.max_terms = max_terms
        self.subs = {}       # term -> polynomial (definitions given by contracts)
        self._bm = {}

    # ---- atoms
    def atom(self, key, kind, lo, hi, def_=None, term=None):
        i = self.index.get(key)
        if i is None:
            a = Atom()
            a.id = len(self.atoms)
            a.lo = lo
            a.hi = hi
            a.kind = kind
            a.def_ = def_
            a.term = term
            self.atoms.append(a)
            self.index[key] = i = a.id
        return i

    def mono(self, m1, m2):
        m = tuple(sorted(m1 + m2))
        # idempotent atoms
        out = []
        last = None
        for x in m:
            if x == last and self.atoms[x].lo == 0 and self.atoms[x].hi == 1:
                continue
            out.append(x)
            last = x
        return tuple(out)

    def pmul(self, a, b):
        if len(a) * len(b) > self.max_terms:
            raise Undecided('polynomial too large')
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = self.mono(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return r

    # ---- bounds
    def bounds(self, p):
        lo = hi = 0
        for m, c in p.items():
            l = h = 1
            for x in m:
                a = self.atoms[x]
                cand = (l * a.lo, l * a.hi, h * a.lo, h * a.hi)
                l, h = min(cand), max(cand)
            if c > 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        return lo, hi

    def ibounds(self, p):
        lo, hi = self.bounds(p)
        lo = -((-lo) // 1)
        hi = hi // 1
        return int(lo), int(hi)

    # ---- inputs
    def set_cuts(self, terms):
        """collect the bit positions at which each variable is cut"""
        seen = set()
        st = list(terms)
        cuts = self.cuts
        while st:
            t = st.pop()
            if t in seen:
                continue
            seen.add(t)
            if t.op == 'v':
                cuts.setdefault(t, set()).update((0, t.w))
            elif t.op == 'ext' and t.args[0].op == 'v':
                v = t.args[0]
                cuts.setdefault(v, set()).update((0, v.w, t.aux, t.aux + t.w))
                continue
            st.extend(t.args)

    def var_seg(self, v, lo, w):
        pts = sorted(self.cuts.get(v, {0, v.w}) | {0, v.w})
        if lo not in pts or lo + w not in pts:
            raise Undecided('cut')
        p = {}
        for a, b in zip(pts, pts[1:]):
            if a >= lo and b <= lo + w:
                if len(pts) == 2:
                    h = v.hi
                    l = v.lo
                else:
                    l, h = 0, min((1 << (b - a)) - 1, v.hi >> a)
                    if h == 0:
                        continue
                i = self.atom(('v', v.id, a, b), 'in', l, h, None, T.ext(v, a, b - a))
                p[(i,)] = 1 << (a - lo)
        return p

    # ---- floor
    def floor(self, p, n, lo=None, hi=None):
        """polynomial of floor(p/n); lo/hi optional known bounds of p"""
        if n == 1:
            return p
        n0 = n
        p, n = self.flatten(p, n)
        out = {}
        R = {}
        for m, c in p.items():
            c = norm(c)
            if isinstance(c, int):
                k, r = divmod(c, n)
                if r > n // 2:
                    r -= n
                    k += 1
                if m == () and r < 0:
                    r += n
                    k -= 1
                if k:
                    out[m] = k
                if r:
                    R[m] = r
            else:
                R[m] = c
        if not R:
            return out
        # bounds of the quotient
        blo, bhi = self.ibounds(R)
        fl, fh = blo // n, bhi // n
        if not out and lo is not None:
            fl, fh = max(fl, lo // n0), min(fh, hi // n0)
        if fl == fh:
            return padd(out, pconst(fl))
        # the residue only depends on R modulo n
        C = self.congruent(R, n)
        if C is not None:
            if not C:
                return padd(out, {m: norm(F(c) / n) for m, c in R.items()})
            cl, ch = self.ibounds(C)
            if cl >= 0 and ch < n:
                q = padd(R, C, -1)
                return padd(out, {m: norm(F(c) / n) for m, c in q.items()})
        if C is None:
            C = R
        i = self.atom(('r', tuple(sorted(C.items())), n), 'res', 0, n - 1, (C, n))
        q = {m: norm(F(c) / n) for m, c in R.items()}
        q = padd(q, {(i,): norm(F(-1, n))})
        return padd(out, {m: norm(c) for m, c in q.items()})

    def flatten(self, p, n):
        """floor((X + floor(Y/k))/n) = floor((kX + Y)/(nk)), repeatedly, newest atom first; the quotient
        floor(Y/k) appears as a floor atom or as (Y - m)/k with m = Y mod k"""
        while True:
            best = None
            for m, c in p.items():
                if len(m) != 1:
                    continue
                i = m[0]
                a = self.atoms[i]
                if a.kind in ('floor', 'nfloor'):
                    if c not in (1, -1):
                        continue
                elif a.kind == 'res':
                    if c != F(-1, a.def_[1]) and c != F(1, a.def_[1]):
                        continue
                else:
                    continue
                if best is None or i > best[0]:
                    best = (i, c)
            if best is None:
                return p, n
            i, c = best
            a = self.atoms[i]
            Y, k = a.def_
            if a.kind == 'res':
                s = -1 if c > 0 else 1
                # p = X + s*(Y - m)/k
                X = padd(padd(p, pscale(Y, F(s, k)), -1), {(i,): F(s, k)})
            else:
                s = c if a.kind == 'floor' else -c
                X = dict(p)
                del X[(i,)]
            X = {m: norm(v) for m, v in X.items() if v != 0}
            p = padd(pscale(X, k), Y, s)
            if s == -1:
                p = padd(p, pconst(k - 1))
            p = {m: norm(v) for m, v in p.items() if v != 0}
            n = n * k
            if len(p) > self.max_terms:
                raise Undecided('polynomial too large')

    def congruent(self, R, n):
        """a polynomial with coefficients in [0,n) congruent to R modulo n (None when R has fractional
        coefficients): m = Y mod k may be replaced by Y where its coefficient times k is a multiple of n"""
        out = dict(R)
        for _ in range(10000):
            hit = None
            for m, c in out.items():
                if not isinstance(norm(c), int):
                    return None
                for x in m:
                    a = self.atoms[x]
                    if a.kind == 'res' and (c * a.def_[1]) % n == 0 and all(isinstance(norm(v), int) for v in a.def_[0].values()):
                        hit = (m, c, x)
                        break
                if hit:
                    break
            if hit is None:
                break
            m, c, x = hit
            del out[m]
            rest = list(m)
            rest.remove(x)
            sub = self.pmul({tuple(rest): c}, self.atoms[x].def_[0])
            out = padd(out, sub)
            if len(out) > self.max_terms:
                return None
        r = {}
        for m, c in out.items():
            c = norm(c) % n
            if c:
                r[m] = c
        return r

    def boolean(self, p):
        """p is 0 or 1: name it unless it already is a polynomial in 0/1 atoms"""
        if all(isinstance(norm(c), int) and all(self.atoms[x].lo == 0 and self.atoms[x].hi == 1 for x in m) for m, c in p.items()):
            return p
        i = self.atom(('b', tuple(sorted(p.items()))), 'bool', 0, 1, (p, 1))
        return {(i,): 1}

    # ---- terms
    def val(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        st = [t]
        while st:
            x = st[-1]
            if x in self.memo:
                st.pop()
                continue
            if x in self.subs:
                self.memo[x] = self.subs[x]
                st.pop()
                continue
            if x.op == 'ext' and x.args[0].op == 'v':
                pend = []
            else:
                pend = [a for a in x.args if a not in self.memo]
            if pend:
                st.extend(pend)
                continue
            self.memo[x] = self._val(x)
            st.pop()
        return self.memo[t]

    def mod(self, p, w, lo=None, hi=None):
        f = self.floor(p, 1 << w, lo, hi)
        if not f:
            return p
        return padd(p, f, -(1 << w))

    def _val(self, t):
        op = t.op
        w = t.w
        M = self.memo
        if op == 'c':
            return pconst(t.aux)
        if op == 'v':
            return self.var_seg(t, 0, w)
        if op == 'ext':
            a = t.args[0]
            if a.op == 'v':
                return self.var_seg(a, t.aux, w)
            if a.op == 'udiv' and t.aux == 0 and self.div_small(a, w):
                return M[a]
            p = M[a]
            # floor(p / 2^lo) mod 2^w
            q = self.floor(p, 1 << t.aux, a.lo, a.hi) if t.aux else p
            if (a.hi >> t.aux) < (1 << w):
                return q
            if t.aux:
                top = self.floor(p, 1 << (t.aux + w), a.lo, a.hi)
                return padd(q, top, -(1 << w))
            return self.mod(q, w, a.lo, a.hi)
        if op == 'cat':
            p = {}
            pos = w
            for a in t.args:
                pos -= a.w
                p = padd(p, M[a], 1 << pos)
            return {m: norm(c) for m, c in p.items()}
        if op == 'lin':
            k, cs = t.aux
            p = pconst(T.signed(k, w))
            lo = hi = T.signed(k, w)
            for a, c in zip(t.args, cs):
                sc = T.signed(c, w)
                p = padd(p, M[a], sc)
                lo += sc * (a.lo if sc > 0 else a.hi)
                hi += sc * (a.hi if sc > 0 else a.lo)
            p = {m: norm(c) for m, c in p.items()}
            return self.mod(p, w, lo, hi)
        if op == 'mul':
            p = M[t.args[0]]
            for a in t.args[1:]:
                p = self.pmul(p, M[a])
            if t.c.get('nw'):
                return p
            lo = hi = 1
            for a in t.args:
                lo *= a.lo
                hi *= a.hi
            return self.mod(p, w, lo, hi)
        if op == 'sx':
            a = t.args[0]
            s = self.floor(M[a], 1 << (a.w - 1), a.lo, a.hi)
            return padd(M[a], s, (1 << w) - (1 << a.w))
        if op == 'ite':
            c = self.boolean(M[t.args[0]])
            a, b = M[t.args[1]], M[t.args[2]]
            return padd(b, self.pmul(c, padd(a, b, -1)))
        if w == 1 and op == 'and':
            p = self.boolean(M[t.args[0]])
            for a in t.args[1:]:
                p = self.pmul(p, self.boolean(M[a]))
            return p
        if w == 1 and op == 'or':
            p = self.boolean(M[t.args[0]])
            for a in t.args[1:]:
                q = self.boolean(M[a])
                p = padd(padd(p, q), self.pmul(p, q), -1)
            return p
        if w == 1 and op == 'xor':
            p = self.boolean(M[t.args[0]])
            for a in t.args[1:]:
                q = self.boolean(M[a])
                p = padd(padd(p, q), self.pmul(p, q), -2)
            return p
        if op == 'ult':
            a, b = t.args
            f = self.floor(padd(M[a], M[b], -1), 1 << a.w, a.lo - b.hi, a.hi - b.lo)
            return pscale(f, -1)
        if op == 'slt':
            a, b = t.args
            sa = padd(M[a], self.floor(M[a], 1 << (a.w - 1), a.lo, a.hi), -(1 << a.w))
            sb = padd(M[b], self.floor(M[b], 1 << (b.w - 1), b.lo, b.hi), -(1 << b.w))
            f = self.floor(padd(sa, sb, -1), 1 << a.w)
            return pscale(f, -1)
        if op == 'eq':
            a, b = t.args
            d = padd(M[a], M[b], -1)
            lo, hi = self.ibounds(d)
            lo, hi = max(lo, a.lo - b.hi), min(hi, a.hi - b.lo)
            if lo == hi == 0 or not d:
                return pconst(1)
            if lo > 0 or hi < 0:
                return {}
            if (lo, hi) == (0, 1):
                return padd(pconst(1), d, -1)
            if (lo, hi) == (-1, 0):
                return padd(pconst(1), d)
            f1 = self.floor(d, 1 << a.w, lo, hi)
            f2 = self.floor(padd(d, pconst(-1)), 1 << a.w, lo - 1, hi - 1)
            return padd(f1, f2, -1)
        if op == 'udiv' or op == 'urem':
            a, b = t.args
            i = self.atom(('div', a.id, b.id), 'div', a.lo // max(b.hi, 1), a.hi // max(b.lo, 1), None, T.udiv(a, b))
            q = {(i,): 1}
            if op == 'udiv':
                return q
            return padd(M[a], self.pmul(q, M[b]), -1)
        if op == 'lshr' or op == 'shl':
            pass
        # opaque
        i = self.atom(('t', t.id), 'opaque', t.lo, t.hi, None, t)
        return {(i,): 1}

    def div_small(self, a, w):
        """udiv(X, d) < 2^w because X = 2^w*r + y with r = urem(_, d), y < 2^w"""
        x, d = a.args
        if x.op == 'cat':
            pos = x.w
            hi = None
            top = []
            for s in x.args:
                pos -= s.w
                if pos >= w:
                    top.append(s)
                else:
                    break
            if pos + s.w == w and top:
                h = T.cat(*top)
                return self._rem_of(h, d)
        return x.hi < d.lo << w

    def _rem_of(self, h, d):
        def strip(t):
            while t.op == 'cat' and t.args[0].op == 'c' and t.args[0].aux == 0:
                t = T.cat(*t.args[1:])
            if t.op == 'ext' and t.aux == 0 and t.args[0].hi < (1 << t.w):
                return strip(t.args[0])
            return t
        h = strip(h)
        if h.op == 'ext' and h.aux == 0 and h.args[0].op == 'urem':
            h = h.args[0]
        if h.op == 'urem' and strip(h.args[1]) is strip(d):
            return True
        if h.op == 'c' and h.aux == 0:
            return True
        return False

    # ---- display
    def show(self, p, n=6):
        def an(x):
            a = self.atoms[x]
            return T.show(a.term, 3) if a.term is not None else '%s%d' % (a.kind, x)
        it = list(p.items())
        return ' + '.join('%s*%s' % (c, '*'.join(an(x) for x in m) or '1') for m, c in it[:n]) + (' + ...(%d)' % len(it) if len(it) > n else '')
