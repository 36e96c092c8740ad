"""Contracts of the SM9 extension-field layer (sm9_fp2_*, sm9_fp4_*, sm9_fp12_*): results are element-level terms
'op:level.i' (coordinate i), with the concrete meaning given by the field definition u^2 = -2, v^2 = u, w^3 = v."""
import term as T
import mont
import ring
from contract import Contract
from u256 import bswap

P = mont.SM9_P
RI = pow(mont.R, -1, P)
LV = {'f2': (ring.F2, 2), 'f4': (ring.F4, 4), 'f12': (ring.F12, 12)}
PRE = 'sm9::internal::sm9_'


def split(v, n):
    return [(v >> (256 * i)) & ((1 << 256) - 1) for i in range(n)]


def enc(F, x):
    """packed Montgomery representation of a field element"""
    return sum((c * mont.R % P) << (256 * i) for i, c in enumerate(F.coords(x)))


def dec(F, v):
    return F.make([c * RI % P for c in split(v, F.deg)])


def make_ufs():
    u = {}
    for nm, (F, n) in LV.items():
        def op(f, F=F):
            cache = {}

            def val(a):
                k = tuple(a)
                if k not in cache:
                    if len(cache) > 64:
                        cache.clear()
                    cache[k] = F.coords(f(F, *a))
                return cache[k]
            return val
        D = dict(add=lambda F, a, b: F.add(dec(F, a), dec(F, b)), sub=lambda F, a, b: F.sub(dec(F, a), dec(F, b)),
                 mul=lambda F, a, b: F.mul(dec(F, a), dec(F, b)), neg=lambda F, a: F.neg(dec(F, a)),
                 dbl=lambda F, a: F.add(dec(F, a), dec(F, a)), tpl=lambda F, a: F.mul(F.of(3), dec(F, a)),
                 inv=lambda F, a: F.inv(dec(F, a)) if a else F.zero)
        D['mulu' if nm == 'f2' else 'mulv'] = lambda F, a: F.mul(dec(F, a), (F.base.zero, F.base.one) + (F.base.zero,) * (F.n - 2))
        D['mulfp'] = lambda F, a, s: F.make([x * (s * RI) % P for x in F.coords(dec(F, a))])

        def mf2(F, a, s):
            y = dec(ring.F2, s)
            cs = F.coords(dec(F, a))
            return F.make([c for i in range(0, len(cs), 2) for c in ring.F2.mul((cs[i], cs[i + 1]), y)])
        D['mulf2'] = mf2

        def mf4(F, a, s):
            y = dec(ring.F4, s)
            return tuple(ring.F4.mul(x, y) for x in dec(F, a))
        D['mulf4'] = mf4
        D['pow'] = lambda F, a, e: ring.fpow(F, dec(F, a), e)
        for k in (1, 2, 3, 6):
            D['frob%d' % k] = lambda F, a, k=k: frob(F, dec(F, a), k)
        D['conj'] = lambda F, a: conj(F, dec(F, a))
        for o, f in D.items():
            v = op(f)
            for i in range(n):
                u['%s:%s.%d' % (o, nm, i)] = lambda t, a, v=v, i=i: v(a)[i] * mont.R % P
    return u


_fr = {}


def frob(F, x, k):
    out = F.zero
    for i, c in enumerate(F.coords(x)):
        if not c:
            continue
        if (F.deg, k, i) not in _fr:
            e = [0] * F.deg
            e[i] = 1
            _fr[(F.deg, k, i)] = ring.fpow(F, F.make(e), P ** k)
        b = _fr[(F.deg, k, i)]
        out = F.add(out, F.make([y * c % P for y in F.coords(b)]))
    return out


def conj(F, x):
    """the automorphism x -> x^(p^(deg/2)) fixing the middle field: negates the odd powers of the top generator"""
    if F.n != 2:
        return None
    return (x[0], F.base.neg(x[1]))


UFS = make_ufs()


def elem(op, nm, *args):
    """element-level term: concatenation of its coordinates"""
    n = LV[nm][1]
    if all(a.op == 'c' for a in args):
        return T.cat(*[T.const(UFS['%s:%s.%d' % (op, nm, i)](None, [a.aux for a in args]), 256) for i in reversed(range(n))])
    return T.cat(*[T.uf('%s:%s.%d' % (op, nm, i), 256, args, 0, P - 1) for i in reversed(range(n))])


def evar(name, n):
    """an element with coordinates below the modulus"""
    return T.cat(*[T.var('%s.%d' % (name, i), 256, 0, P - 1) for i in reversed(range(n))]) if n > 1 else T.var(name, 256, 0, P - 1)


def below(c, x, what):
    for i in range(x.w // 256):
        c.pre(T.ult(T.ext(x, 256 * i, 256), T.const(P, 256)), 'coordinate %d of %s is below the modulus' % (i, what))


ONE = {n: T.const(mont.R % P, 256 * n) for n in (1, 2, 4, 12)}


def contracts():
    C = {}
    for cn, nm in (('fp2', 'f2'), ('fp4', 'f4'), ('fp12', 'f12')):
        F, n = LV[nm]
        B = 32 * n

        def reg(name, params, body, cn=cn, **kw):
            full = PRE + cn + '_' + name
            C[full] = Contract(full, body, params, **kw)
        S = ('p', B, 'S')

        def V(x, m=n):
            return ('p', 32 * m, x, evar(x, m))

        def b2(op, m=n, nm=nm, B=B):
            def g(c, r, a, b):
                x, y = c.rd(a, B), c.rd(b, 32 * m)
                below(c, x, 'first operand')
                below(c, y, 'second operand')
                c.wr(r, elem(op, nm, x, y))
            return g

        def b1(op, nm=nm, B=B):
            def g(c, r, a):
                x = c.rd(a, B)
                below(c, x, 'operand')
                c.wr(r, elem('mul', nm, x, x) if op == 'sqr' else elem(op, nm, x))
            return g
        for op in ('add', 'sub', 'mul'):
            reg(op, [S, V('A'), V('B')], b2(op))
        for op in ('neg', 'sqr', 'inv', 'dbl', 'tpl', 'mul_u', 'mul_v', 'conjugate'):
            reg(op, [S, V('A')], b1({'mul_u': 'mulu', 'mul_v': 'mulv', 'conjugate': 'conj'}.get(op, op)))
        if nm == 'f12':
            for k, op in ((1, 'frobenius'), (2, 'frobenius2'), (3, 'frobenius3'), (6, 'frobenius6')):
                reg(op, [S, V('A')], b1('frob%d' % k))
        reg('mul_fp', [S, V('A'), ('p', 32, 'K', T.var('K', 256, 0, P - 1))], b2('mulfp', 1))
        if nm in ('f4', 'f12'):
            reg('mul_fp2', [S, V('A'), V('K', 2)], b2('mulf2', 2))
        if nm == 'f12':
            reg('mul_fp4', [S, V('A'), V('K', 4)], b2('mulf4', 4))
        reg('equal', [V('A'), V('B')], lambda c, a, b, B=B: T.eq(c.rd(a, B), c.rd(b, B)))
        reg('equal_zero', [V('A')], lambda c, a, B=B: T.eq(c.rd(a, B), T.const(0, 8 * B)))
        reg('equal_one', [V('A')], lambda c, a, B=B, n=n: T.eq(c.rd(a, B), ONE[n]))
        reg('cpy', [S, V('A')], lambda c, s, a, B=B: c.wr(s, c.rd(a, B)))
        reg('set_zero', [S], lambda c, s, B=B: c.wr(s, T.const(0, 8 * B)))
        reg('set_one', [S], lambda c, s, n=n: c.wr(s, ONE[n]))

        def tob(c, by, a, n=n, B=B):
            x = c.rd(a, B)
            below(c, x, 'operand')
            for i in range(n):
                c.wr(by, bswap(mont.frm('sm9p', P, T.ext(x, 256 * (n - 1 - i), 256))), 32 * i)

        def frb(c, r, by, n=n):
            for i in range(n):
                c.wr(r, mont.to('sm9p', P, bswap(c.rd(by, 32, 32 * (n - 1 - i)))), 32 * i)
        reg('to_bytes', [('p', B, 'BY'), V('A')], tob, alias=False)
        reg('from_bytes', [S, ('p', B, 'BY')], frb, alias=False)
    return C


def poly_backend(curve='sm9', leaves=None):
    """goal: two element-level values are the same polynomial in the input coordinates"""
    def prove(g, su, ex):
        try:
            I = ring.Interp(curve, 0)
            vs = T.free_vars([g.got, g.want])
            for name, v in vs.items():
                if v.w == 256 and v.hi < P:
                    I.bind[(v.id,)] = I.R.var(name)
                elif v.w == 256:
                    return None
            a, b = I.value(g.got), I.value(g.want)
            for x in I.flat(I.sub(a, b)):
                if not I.R.is_zero(x):
                    return None
            return 'polynomial identity over F_p'
        except (ring.Unsupported, ring.Split):
            return None
    return prove


def inv_backend(nm):
    """goal: r is the inverse of the nonzero element a"""
    F, n = LV[nm]
    lv = {'f2': 1, 'f4': 2, 'f12': 3}[nm]

    def prove(g, su, ex):
        name = g.label
        I = ring.Interp('sm9', 0)
        vs = T.free_vars([g.want])
        for nme, v in vs.items():
            I.bind[(v.id,)] = I.R.var(nme)
        # the operand: argument of the wanted inverse
        w = T.ext(g.want, 0, 256)
        if w.op != 'uf' or not w.aux.startswith('inv:'):
            return None
        a = w.args[0]
        A = I.value(a)
        # zero operand
        z = T.evaluate([g.got], {v.aux: 0 for v in T.free_vars([g.got]).values()}, dict(mont.UFS, **UFS))[0]
        if z != 0 or not ring.is_field_tower():
            return None
        try:
            # a is nonzero, so its norms to the smaller fields are
            l = lv
            x = A
            while l > 0:
                x = I.norm(x, l)
                l -= 1
            I.R.facts.append(x)
            I.normof = x
            got = I.value(g.got)
            prod = I.mul(got, A, lv)
            one = I.one(lv)
            for q in I.flat(I.sub(prod, one)):
                if not I.R.is_zero(q):
                    return None
            return 'polynomial identity over F_p'
        except (ring.Unsupported, ring.Split) as e:
            return None
    return prove


# ------------------------------------------------------------------ powers of one base
def expo(x, base, memo):
    """e with x = base^e, or None (terms of the degree 12 level)"""
    return _expo(ring.parts(x), base, memo)


def _expo(ps, base, memo):
    key = tuple(p.id for p in ps)
    if key in memo:
        return memo[key]
    r = None
    p0 = ps[0]
    if key == tuple(T.ext(base, 256 * i, 256).id for i in range(12)):
        r = T.const(1, 256)
    elif all(p.op == 'c' for p in ps):
        r = T.const(0, 256) if T.cat(*reversed(ps)) is ONE[12] else None
    elif p0.op == 'uf' and p0.aux == 'pow:f12.0' and p0.args[0] is base and all(p.op == 'uf' and p.args == p0.args and p.aux == 'pow:f12.%d' % i for i, p in enumerate(ps)):
        r = p0.args[1]
    else:
        for p in ps:
            if p.op == 'ite':
                c = p.args[0]
                a = _expo(tuple(q.args[1] if q.op == 'ite' and q.args[0] is c else q for q in ps), base, memo)
                b = _expo(tuple(q.args[2] if q.op == 'ite' and q.args[0] is c else q for q in ps), base, memo)
                r = T.ite(c, a, b) if a is not None and b is not None else None
                break
            if p.op == 'sel':
                i = p.args[0]
                n = len(p.args) - 1
                xs = [_expo(tuple(q.args[k + 1] if q.op == 'sel' and q.args[0] is i else q for q in ps), base, memo) for k in range(n)]
                r = T.sel(i, xs) if all(x is not None for x in xs) else None
                break
    memo[key] = r
    return r


def pow_handlers(base):
    import exec as E
    import powdom
    memo = {}

    def val(x):
        e = expo(x, base, memo)
        if e is None:
            raise E.Unsupported('operand is not a power of the base: %s' % [T.show(T.ext(x, 256 * i, 256), 3)[:150] for i in (0, 1)])
        return e

    def mul(c, s, a, b):
        ea, eb = val(c.rd(a, 384)), val(c.rd(b, 384))
        if ea.hi + eb.hi >= mont.R:
            raise E.Unsupported('exponent exceeds 256 bits')
        c.wr(s, elem('pow', 'f12', base, powdom.norm(T.add(ea, eb))))

    def sqr(c, s, a):
        mul(c, s, a, a)
    S, A, Bq = ('p', 384, 'S'), ('p', 384, 'A'), ('p', 384, 'B')
    return {PRE + 'fp12_mul': Contract(PRE + 'fp12_mul', mul, [S, A, Bq]), PRE + 'fp12_sqr': Contract(PRE + 'fp12_sqr', sqr, [S, A])}


def same_power(base, ev):
    import powdom
    import smt
    zero = T.eq(base, T.const(0, 3072))

    def prove(g, su, ex):
        got = g.got
        ps = []
        for p in ring.parts(got):
            while p.op == 'ite' and p.args[0] is zero:
                p = p.args[2]
            ps.append(p)
        e = _expo(tuple(ps), base, {})
        if e is None:
            return None
        e = powdom.norm(e)
        if e is ev:
            return 'exponent domain'
        s, _ = smt.check([], T.eq(e, ev), 60000)
        return 'exponent domain + z3' if s == 'proved' else None
    return prove
