"""Exponent domain: inside an exponentiation every value is a power of the base.

The multiplication contract gives mul(b^x, b^y) = b^(x+y) (Montgomery form throughout); the handlers below keep the
value in the shape pow(b, e) with e a term, so that the postcondition of mont256_pow is an equation of exponents."""
import term as T
import exec as E
import mont
from contract import Contract
from u256 import NS

R = mont.R


def expo(v, base, n, P, memo):
    """e with v = base^e, or None"""
    if v is base:
        return T.const(1, 256)
    if v.op == 'c' and v.aux == R % P:
        return T.const(0, 256)
    if v.op == 'uf' and v.aux == 'pow:' + n and v.args[0] is base:
        return v.args[1]
    if v in memo:
        return memo[v]
    r = None
    if v.op == 'ite':
        a, b = expo(v.args[1], base, n, P, memo), expo(v.args[2], base, n, P, memo)
        if a is not None and b is not None:
            r = T.ite(v.args[0], a, b)
    elif v.op == 'sel':
        xs = [expo(x, base, n, P, memo) for x in v.args[1:]]
        if all(x is not None for x in xs):
            r = T.sel(v.args[0], xs)
    memo[v] = r
    return r


def window(t, memo):
    """(var, lo, hi) when t depends on one narrow piece of one variable, () when on nothing, None otherwise"""
    r = memo.get(t, 0)
    if r != 0:
        return r
    if t.op == 'c':
        r = ()
    elif t.op == 'v':
        r = (t, 0, t.w)
    elif t.op == 'ext' and t.args[0].op == 'v':
        r = (t.args[0], t.aux, t.aux + t.w)
    elif t.op == 'uf':
        r = None
    else:
        r = ()
        for a in t.args:
            x = window(a, memo)
            if x is None:
                r = None
                break
            if not x:
                continue
            if not r:
                r = x
            elif r[0] is x[0]:
                r = (r[0], min(r[1], x[1]), max(r[2], x[2]))
            else:
                r = None
                break
    if r and r[2] - r[1] > 8:
        r = None
    memo[t] = r
    return r


def norm(e):
    """parts of an exponent that depend on one short piece of the input are replaced by the multiple of that piece
    they are equal to (checked for every value of the piece)"""
    if e.op == 'lin':
        k, cs = e.aux
        parts = list(zip(e.args, cs))
    else:
        k, parts = 0, [(e, 1)]
    memo = {}
    out = T.const(k, e.w)
    groups = {}
    for a, c in parts:
        w = window(a, memo)
        if not w:
            out = T.add(out, T.scale(a, c))
        else:
            groups.setdefault((w[0], w[1] // 4), []).append((a, c, w))
    for g in groups.values():
        V = g[0][2][0]
        lo = min(w[1] for _, _, w in g)
        hi = max(w[2] for _, _, w in g)
        f = T.const(0, e.w)
        for a, c, w in g:
            f = T.add(f, T.scale(a, c))
        n = hi - lo
        M = (1 << e.w) - 1
        vals = [T.evaluate([f], {V.aux: x << lo})[0] for x in range(1 << n)]
        b, s = vals[0], (vals[1] - vals[0]) & M
        if all(v == (b + s * x) & M for x, v in enumerate(vals)):
            f = T.add(T.const(b, e.w), T.scale(T.zext(T.ext(V, lo, n), e.w), s))
        out = T.add(out, f)
    return out


def mk(base, e, n, P):
    return T.uf('pow:' + n, 256, (base, e), 0, P - 1)


def handlers(impl, base):
    """mul / sqr in the exponent domain of one base"""
    ns = NS[impl]
    memo = {}

    def val(x, n, P):
        return expo(x, base, n, P, memo)

    def mul(c, ctx, s, a, b):
        P, n = mont.modulus(c, ctx, impl)
        x, y = c.rd(a, 32), c.rd(b, 32)
        ex, ey = val(x, n, P), val(y, n, P)
        if ex is None or ey is None:
            raise E.Unsupported('operand is not a power of the base: %s' % T.show(x if ex is None else y, 3)[:200])
        e = norm(T.add(ex, ey))
        if ex.hi + ey.hi >= R:
            raise E.Unsupported('exponent exceeds 256 bits')
        c.wr(s, mk(base, e, n, P))

    def sqr(c, ctx, s, a):
        mul(c, ctx, s, a, a)
    S, A, Bq = ('p', 32, 'S'), ('p', 32, 'A'), ('p', 32, 'B')
    return {ns + 'mont256_mul': Contract(ns + 'mont256_mul', mul, [('ctx',), S, A, Bq]),
            ns + 'mont256_sqr': Contract(ns + 'mont256_sqr', sqr, [('ctx',), S, A])}
