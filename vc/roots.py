"""Square roots by exponentiation, decided for every argument.

For a nonzero argument a every value the code forms is c * a^k.  Comparisons are statements about w = a^d for a divisor
d of p-1 such that w takes at most a few values (the roots of unity of order (p-1)/d), and a is a square exactly when
a^((p-1)/2) = 1.  Running through the possible w decides every path; a = 0 is evaluated on its own."""
import math
import term as T
import mont
import sympy


class Not(Exception):
    pass


class Powers:
    def __init__(self, n, P, a):
        self.n, self.P, self.a = n, P, a
        self.Ri = pow(mont.R, -1, P)
        self.d = P - 1
        self.w = None

    def el(self, t, memo):
        """(c, k): t = c * a^k; ite resolved with the current w (None: collect the conditions)"""
        P = self.P
        if t in memo:
            return memo[t]
        r = self._el(t, memo)
        memo[t] = r
        return r

    def _el(self, t, memo):
        P, n = self.P, self.n
        if t is self.a:
            return [(1, 1)]
        if t.op == 'c':
            return [(t.aux * self.Ri % P, 0)]
        if t.op == 'v' and self.w is None:
            return []
        if t.op == 'ite':
            v = self.cond(t.args[0], memo)
            if v is None:
                return self.el(t.args[1], memo) + self.el(t.args[2], memo)
            return self.el(t.args[1] if v else t.args[2], memo)
        if t.op == 'uf':
            op = t.aux.split(':')
            if op[1] != n:
                raise Not()
            if op[0] == 'pow' and t.args[1].op == 'c':
                e = t.args[1].aux
                return [(pow(c, e, P), k * e % (P - 1)) for c, k in self.el(t.args[0], memo)]
            if op[0] == 'inv':
                return [(pow(c, -1, P), -k % (P - 1)) for c, k in self.el(t.args[0], memo)]
            if op[0] == 'mul':
                return [(c1 * c2 % P, (k1 + k2) % (P - 1)) for c1, k1 in self.el(t.args[0], memo) for c2, k2 in self.el(t.args[1], memo)]
            f = {'neg': -1, 'dbl': 2, 'tpl': 3, 'half': pow(2, -1, P)}.get(op[0])
            if f is not None:
                return [(c * f % P, k) for c, k in self.el(t.args[0], memo)]
        raise Not()

    def cond(self, c, memo):
        """value of a condition under the current w; in collecting mode registers it and returns None"""
        if c.op == 'c':
            return bool(c.aux)
        m = T.is_not(c)
        if m is not None:
            v = self.cond(m, memo)
            return None if v is None else not v
        if c.op in ('and', 'or'):
            vs = [self.cond(x, memo) for x in c.args]
            if None in vs:
                return None
            return all(vs) if c.op == 'and' else any(vs)
        if c.op == 'ite':
            v = self.cond(c.args[0], memo)
            if v is None:
                self.cond(c.args[1], memo)
                self.cond(c.args[2], memo)
                return None
            return self.cond(c.args[1] if v else c.args[2], memo)
        if c.op == 'eq' and c.args[0].w == 256:
            z = [x.op == 'c' and x.aux == 0 for x in c.args]
            if any(z):
                return False          # nonzero values
            A, B = self.el(c.args[0], memo), self.el(c.args[1], memo)
            if self.w is None:
                for _, k1 in A:
                    for _, k2 in B:
                        self.d = math.gcd(self.d, (k1 - k2) % (self.P - 1))
                return None
            (c1, k1), (c2, k2) = A[0], B[0]
            m = (k1 - k2) % (self.P - 1)
            if m % self.d:
                raise Not()
            return pow(self.w, m // self.d, self.P) == c2 * pow(c1, -1, self.P) % self.P
        raise Not()


def check_sqrt(n, P, a, ret, root):
    """ret: int term (0 = success), root: the term written.  None when proved, text otherwise"""
    S = Powers(n, P, a)
    S.d = math.gcd(S.d, (P - 1) // 2)

    def retval(t, memo):
        if t.op == 'c':
            return t.aux
        if t.op == 'ite':
            v = S.cond(t.args[0], memo)
            if v is None:
                retval(t.args[1], memo)
                retval(t.args[2], memo)
                return None
            return retval(t.args[1] if v else t.args[2], memo)
        if t.op in ('cat', 'ext', 'sx', 'lin'):
            raise Not()
        raise Not()
    memo = {}
    retval(ret, memo)
    for c, k in S.el(root, memo):
        d = math.gcd(S.d, (2 * k - 1) % (P - 1))
        if (P - 1) // d <= 64:          # otherwise the value must not be returned on a successful path (checked below)
            S.d = d
    N = (P - 1) // S.d
    if N > 64:
        raise Not()
    g = 2
    ps = list(sympy.factorint(N))
    while any(pow(g, S.d * (N // q), P) == 1 for q in ps):
        g += 1
    w0 = pow(g, S.d, P)
    for i in range(N):
        S.w = pow(w0, i, P)
        memo = {}
        square = pow(S.w, ((P - 1) // 2) // S.d, P) == 1
        r = retval(ret, memo)
        if (r == 0) != square:
            return 'for arguments with a^%#x = %#x (%s) the function returns %d' % (S.d, S.w, 'squares' if square else 'non-squares', r)
        if square:
            (c, k), = S.el(root, memo)
            if (2 * k - 1) % (P - 1) % S.d:
                raise Not()
            if c * c * pow(S.w, ((2 * k - 1) % (P - 1)) // S.d, P) % P != 1:
                return 'for square arguments with a^%#x = %#x the result is not a root' % (S.d, S.w)
    return None
