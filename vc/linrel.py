"""Integer back end for carry-chain code with exact cancellation (Montgomery reduction).

Every term gets an integer polynomial over integer atoms.  A value whose bits are taken apart is described by its
slices, tied together by one exact linear relation

        p  =  s_0 + 2^c1 s_1 + ... + 2^w q            0 <= s_i < 2^(c_{i+1}-c_i)

Low slices are named by the residue class of p, so equal residues share one atom and residues that are zero
disappear.  A goal holds when it is a rational linear combination of the relations.
"""
from fractions import Fraction as F
import math
import term as T
from arith import padd, pscale, pconst, norm, Undecided


class Atom:
    __slots__ = ('id', 'lo', 'hi', 'low', 'term')


class Lin:
    def __init__(self, terms, deep=False, max_terms=100000):
        self.deep = deep
        self.atoms = []
        self.index = {}
        self.memo = {}
        self.rel = {}          # pivot monomial -> relation (pivot coefficient 1)
        self.slices = {}
        self.max_terms = max_terms
        self.nrel = 0
        cuts = set()
        seen = set()
        st = list(terms)
        while st:
            t = st.pop()
            if t in seen:
                continue
            seen.add(t)
            if t.op == 'ext':
                cuts.update((t.aux, t.aux + t.w))
            st.extend(t.args)
        self.cuts = sorted(c for c in cuts if c)
        self.var_exts = {}

    def atom(self, key, lo, hi, low=None, term=None):
        i = self.index.get(key)
        if i is None:
            a = Atom()
            a.id = len(self.atoms)
            a.lo, a.hi, a.low, a.term = lo, hi, low, term
            self.atoms.append(a)
            self.index[key] = i = a.id
        return i

    def pmul(self, a, b):
        if len(a) * len(b) > self.max_terms:
            raise Undecided('polynomial too large')
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = tuple(sorted(m1 + m2))
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return r

    def bounds(self, p):
        lo = hi = 0
        for m, c in p.items():
            l = h = 1
            for x in m:
                a = self.atoms[x]
                cand = (l * a.lo, l * a.hi, h * a.lo, h * a.hi)
                l, h = min(cand), max(cand)
            lo += c * (l if c > 0 else h)
            hi += c * (h if c > 0 else l)
        return lo, hi

    def congruent(self, p, n, deep=False):
        """canonical polynomial congruent to p modulo n: low-slice atoms are replaced by what they are residues of"""
        out = {m: c % n for m, c in p.items() if c % n}
        for _ in range(5000):
            hit = None
            for m in sorted(out, key=lambda m: max(m) if m else -1, reverse=True):
                c = out[m]
                for x in m:
                    a = self.atoms[x]
                    if a.low is not None and (deep or a.low[2] == 1) and c % a.low[2] == 0 and (c // a.low[2] * a.low[1]) % n == 0:
                        hit = (m, c, x)
                        break
                if hit:
                    break
            if not hit:
                return out
            m, c, x = hit
            del out[m]
            rest = list(m)
            rest.remove(x)
            out = padd(out, self.pmul({tuple(rest): c // self.atoms[x].low[2]}, self.atoms[x].low[0]))
            out = {k: v % n for k, v in out.items() if v % n}
            if len(out) > 2000:
                raise Undecided('polynomial too large')
        raise Undecided('congruence')

    # ---- relations
    def reduce(self, p):
        p = dict(p)
        while True:
            best = None
            for m in p:
                if m in self.rel and (best is None or self.order(m) > self.order(best)):
                    best = m
            if best is None:
                return p
            p = padd(p, self.rel[best], -p[best])

    def order(self, m):
        return (max(m) if m else -1, len(m), m)

    def relate(self, p):
        p = self.reduce({m: F(c) for m, c in p.items()})
        if not p:
            return
        self.nrel += 1
        m = max(p, key=self.order)
        c = p[m]
        self.rel[m] = {k: v / c for k, v in p.items()}

    # ---- slices of the integer polynomial p, as a value of w bits
    def slice(self, p, w, blo, bhi):
        """[(offset, width, polynomial)] for the w low bits of p"""
        key = (tuple(sorted(p.items())), w)
        r = self.slices.get(key)
        if r is not None:
            return r
        lo, hi = self.bounds(p)
        if blo is not None:
            lo, hi = max(lo, blo), min(hi, bhi)
        pts = [0] + [c for c in self.cuts if c < w] + [w]
        if lo >= 0 and hi < (1 << w):
            # drop cut points above the value
            pts = [c for c in pts if c == 0 or c == w or (hi >> c)]
        out = []
        rel = dict(p)
        # low slices: as long as the residue is exactly zero, the value shifts
        lower = {}
        for a, b in zip(pts, pts[1:]):
            n = b - a
            if a == 0:
                C = self.congruent(p, 1 << n)
                cl, ch = self.bounds(C)
                if not C:
                    q = {}
                elif cl >= 0 and ch < (1 << n):
                    q = C
                else:
                    K = self.congruent(C, 1 << n, True) if self.deep else C
                    i = self.atom(('low', tuple(sorted(K.items())), n), 0, (1 << n) - 1, (C, 1 << n, 1))
                    q = {(i,): 1}
            elif hi < (1 << b) and lo >= 0 and (hi >> a) == 0:
                q = {}
            else:
                h = (1 << n) - 1
                if lo >= 0 and hi < (1 << b):
                    h = hi >> a
                C = self.congruent(p, 1 << b)
                cl, ch = self.bounds(C)
                if cl >= 0 and ch < (1 << b):
                    h = min(h, ch >> a)
                if h == 0:
                    q = {}
                else:
                    # 2^a s = (C mod 2^b) - lower slices
                    K = self.congruent(C, 1 << b, True) if self.deep else C
                    i = self.atom(('s', tuple(sorted(K.items())), a, b), 0, h, (padd(C, lower, -1), 1 << b, 1 << a))
                    q = {(i,): 1}
            out.append((a, n, q))
            lower = padd(lower, q, 1 << a)
            rel = padd(rel, q, -(1 << a))
        if not (lo >= 0 and hi < (1 << w)):
            i = self.atom(('q', key[0], w), lo >> w, hi >> w)
            rel = padd(rel, {(i,): 1 << w}, -1)
        self.relate(rel)
        self.slices[key] = out
        return out

    def low(self, p, w, lo=None, hi=None):
        """p mod 2^w"""
        l, h = self.bounds(p)
        if lo is not None:
            l, h = max(l, lo), min(h, hi)
        if l >= 0 and h < (1 << w):
            return p
        r = {}
        for a, n, q in self.slice(p, w, lo, hi):
            r = padd(r, q, 1 << a)
        return r

    def part(self, p, w, lo, n, blo, bhi):
        if lo == 0 and n == w:
            return self.low(p, w, blo, bhi)
        r = {}
        end = 0
        for a, k, q in self.slice(p, w, blo, bhi):
            if a >= lo and a + k <= lo + n:
                r = padd(r, q, 1 << (a - lo))
            elif a + k > lo and a < lo + n:
                # a slice that reaches beyond the requested part: only possible at the top, where it is zero there
                l, h = self.bounds(q)
                if a >= lo and h < (1 << (lo + n - a)):
                    r = padd(r, q, 1 << (a - lo))
                elif a < lo and h < (1 << (lo - a)):
                    pass
                else:
                    raise Undecided('cut')
        return r

    # ---- terms
    def val(self, t):
        st = [t]
        M = self.memo
        while st:
            x = st[-1]
            if x in M:
                st.pop()
                continue
            pend = [a for a in x.args if a not in M]
            if pend:
                st.extend(pend)
                continue
            M[x] = self._val(x)
            st.pop()
        return M[t]

    def _val(self, t):
        op, w, M = t.op, t.w, self.memo
        if op == 'c':
            return pconst(t.aux)
        if op == 'v':
            i = self.atom(('v', t.id), t.lo, t.hi, None, t)
            return {(i,): 1}
        if op == 'ext':
            a = t.args[0]
            p = M[a]
            return self.part(p, a.w, t.aux, w, a.lo, a.hi)
        if op == 'cat':
            p = {}
            pos = w
            for a in t.args:
                pos -= a.w
                p = padd(p, M[a], 1 << pos)
            return p
        if op == 'lin':
            k, cs = t.aux
            p = pconst(T.signed(k, w))
            lo = hi = T.signed(k, w)
            for a, c in zip(t.args, cs):
                sc = T.signed(c, w)
                p = padd(p, M[a], sc)
                lo += sc * (a.lo if sc > 0 else a.hi)
                hi += sc * (a.hi if sc > 0 else a.lo)
            return self.low(p, w, lo, hi)
        if op == 'mul':
            p = M[t.args[0]]
            lo = hi = 1
            for a in t.args:
                lo *= a.lo
                hi *= a.hi
            for a in t.args[1:]:
                p = self.pmul(p, M[a])
            return self.low(p, w, lo, hi)
        if op == 'ult':
            a, b = t.args
            p = padd(M[a], M[b], -1)
            lo, hi = self.bounds(p)
            if hi < 0:
                return pconst(1)
            if lo >= 0:
                return {}
            s = self.slice(p, a.w, a.lo - b.hi, a.hi - b.lo)
            q = {}
            for o, n, x in s:
                q = padd(q, x, 1 << o)
            # p = q - 2^w * c
            i = self.atom(('lt', a.id, b.id), 0, 1)
            self.relate(padd(padd(p, q, -1), {(i,): 1 << a.w}))
            return {(i,): 1}
        i = self.atom(('t', t.id), t.lo, t.hi, None, t)
        return {(i,): 1}

    def show(self, p, n=8):
        return ' + '.join('%s*%s' % (c, m) for m, c in list(p.items())[:n]) + (' ...(%d)' % len(p) if len(p) > n else '')
