"""Contracts of the field layer of the two curves (sm2_fp_*, sm2_fn_*, sm9_fp_*, sm9_fn_*, *_bn_*)."""
import term as T
import exec as E
import mont
from contract import Contract
from u256 import bswap, z

PRE = {'sm2': 'sm2::internal::sm2_', 'sm9': 'sm9::internal::sm9_'}
R = mont.R


def field(curve, f):
    n = curve + ('p' if f == 'fp' else 'n')
    return n, mont.MODULI[n]


def contracts(curve):
    C = {}

    def reg(name, params, body, **kw):
        full = PRE[curve] + name
        C[full] = Contract(full, body, params, **kw)

    for f in ('fp', 'fn'):
        n, P = field(curve, f)

        def V(nm, P=P):
            return ('p', 32, nm, T.var(nm, 256, 0, P - 1))

        def below(c, x, what, P=P):
            c.pre(T.ult(x, T.const(P, 256)), '%s is below the modulus' % what)

        def b2(op, n=n, P=P, below=below):
            def g(c, r, a, b):
                x, y = c.rd(a, 32), c.rd(b, 32)
                below(c, x, 'first operand')
                below(c, y, 'second operand')
                c.wr(r, mont.product(n, P, x, y) if op == 'mul' else mont.uf(op, n, P, x, y))
            return g

        def b1(op, n=n, P=P, below=below):
            def g(c, r, a):
                x = c.rd(a, 32)
                below(c, x, 'operand')
                c.wr(r, mont.product(n, P, x, x) if op == 'sqr' else mont.inverse(n, P, x) if op == 'inv' else mont.uf(op, n, P, x))
            return g
        S = ('p', 32, 'S')
        for op in ('add', 'sub', 'mul'):
            reg('%s_%s' % (f, op), [S, V('A'), V('B')], b2(op))
        for op in ('dbl', 'tpl', 'sqr', 'neg', 'inv'):
            reg('%s_%s' % (f, op), [S, V('A')], b1(op))
        reg(f + '_equal', [V('A'), V('B')], lambda c, a, b: T.eq(c.rd(a, 32), c.rd(b, 32)))
        reg(f + '_equal_zero', [V('A')], lambda c, a: T.eq(c.rd(a, 32), T.const(0, 256)))
        reg(f + '_equal_one', [V('A')], lambda c, a, P=P: T.eq(c.rd(a, 32), T.const(R % P, 256)))
        reg(f + '_cpy', [S, V('A')], lambda c, s, a: c.wr(s, c.rd(a, 32)))
        reg(f + '_set_zero', [S], lambda c, s: c.wr(s, T.const(0, 256)))
        reg(f + '_set_one', [S], lambda c, s, P=P: c.wr(s, T.const(R % P, 256)))

        def frb(c, s, by, n=n, P=P):
            c.wr(s, mont.to(n, P, bswap(c.rd(by, 32))))
        reg(f + '_from_bytes', [S, ('p', 32, 'BY')], frb, alias=False)

        def tob(c, by, a, n=n, P=P, below=below):
            x = c.rd(a, 32)
            below(c, x, 'operand')
            c.wr(by, bswap(mont.frm(n, P, x)))
        reg(f + '_to_bytes', [('p', 32, 'BY'), V('A')], tob, alias=False)

        def tobn(c, r, a, n=n, P=P, below=below):
            x = c.rd(a, 32)
            below(c, x, 'operand')
            c.wr(r, mont.frm(n, P, x))
        reg(f + '_to_bn', [S, V('A')], tobn)
        reg(f + '_from_bn', [S, ('p', 32, 'BN')], lambda c, r, a, n=n, P=P: c.wr(r, mont.to(n, P, c.rd(a, 32))))
    np_, P = field(curve, 'fp')
    nn, N = field(curve, 'fn')
    reg('fn_from_fp', [('p', 32, 'S'), ('p', 32, 'A', T.var('A', 256, 0, P - 1))],
        lambda c, r, a: c.wr(r, mont.to(nn, N, mont.frm(np_, P, c.rd(a, 32)))))
    reg('fn_to_fp', [('p', 32, 'S'), ('p', 32, 'A', T.var('A', 256, 0, N - 1))],
        lambda c, r, a: c.wr(r, mont.to(np_, P, mont.frm(nn, N, c.rd(a, 32)))))
    B = ('p', 32, 'S')

    def cmp(c, a, b):
        x, y = c.rd(a, 32), c.rd(b, 32)
        return T.ite(T.eq(x, y), T.const(0, 32), T.ite(T.ult(x, y), T.const(-1, 32), T.const(1, 32)))
    reg('bn_cmp', [('p', 32, 'A'), ('p', 32, 'B')], cmp)
    reg('bn_cpy', [B, ('p', 32, 'A')], lambda c, s, a: c.wr(s, c.rd(a, 32)))
    reg('bn_equal_zero', [('p', 32, 'A')], lambda c, a: T.eq(c.rd(a, 32), T.const(0, 256)))

    def addw(c, s, a, v):
        t = T.add(z(c.rd(a, 32), 257), z(v, 257))
        c.wr(s, T.ext(t, 0, 256))
        return T.zext(T.ext(t, 256, 1), 32)
    reg('bn_add_uint32', [B, ('p', 32, 'A'), ('v', 32)], addw)
    reg('bn_from_bytes', [B, ('p', 32, 'BY')], lambda c, s, a: c.wr(s, bswap(c.rd(a, 32))), alias=False)
    reg('bn_to_bytes', [('p', 32, 'BY'), ('p', 32, 'A')], lambda c, s, a: c.wr(s, bswap(c.rd(a, 32))), alias=False)
    return C
