"""Contracts of the 256-bit integer layer, for both limb layouts."""
import term as T
import fw
from contract import Contract

NS = {'common': 'number::internal::common::', 'x64': 'number::internal::x64::'}
B = {'common': 32, 'x64': 64}


def z(t, w):
    return T.zext(t, w)


def i32(t):
    return T.zext(t, 32) if t.w < 32 else t


def addc(a, b, n=257):
    s = T.add(z(a, n), z(b, n))
    return T.ext(s, 0, 256), T.ext(s, 256, n - 256)


def subb(a, b):
    s = T.sub(z(a, 257), z(b, 257))
    return T.ext(s, 0, 256), T.ext(s, 256, 1)


def bswap(t):
    n = t.w // 8
    return T.cat(*[T.ext(t, 8 * i, 8) for i in range(n)])


def sign3(a, b):
    return T.ite(T.ult(b, a), T.const(1, 32), T.ite(T.ult(a, b), T.const(-1, 32), T.const(0, 32)))


def contracts(impl):
    ns = NS[impl]
    w = B[impl]
    sfx = 'uint%d' % w
    C = {}

    def reg(name, params, body, **kw):
        C[ns + name] = Contract(ns + name, body, params, **kw)

    P = ('p', 32)

    def add_carry(c, s, a, b):
        r, k = addc(c.rd(a, 32), c.rd(b, 32))
        c.wr(s, r)
        return i32(k)
    reg('uint256_add_carry', [('p', 32, 'S'), ('p', 32, 'A'), ('p', 32, 'B')], add_carry)

    def sub_borrow(c, s, a, b):
        r, k = subb(c.rd(a, 32), c.rd(b, 32))
        c.wr(s, r)
        return T.sext(k, 32)
    reg('uint256_sub_borrow', [('p', 32, 'S'), ('p', 32, 'A'), ('p', 32, 'B')], sub_borrow)

    def mulk(k):
        def f(c, s, a):
            t = T.mul(z(c.rd(a, 32), 258), T.const(k, 258))
            c.wr(s, T.ext(t, 0, 256))
            return i32(T.ext(t, 256, 2))
        return f
    reg('uint256_dbl_carry', [('p', 32, 'S'), ('p', 32, 'A')], mulk(2))
    reg('uint256_tpl_carry', [('p', 32, 'S'), ('p', 32, 'A')], mulk(3))

    def mul(c, s, a, b):
        c.wr(s, T.mul(z(c.rd(a, 32), 512), z(c.rd(b, 32), 512)))
    reg('uint256_mul', [('p', 64, 'S'), ('p', 32, 'A'), ('p', 32, 'B')], mul)
    reg('uint256_sqr', [('p', 64, 'S'), ('p', 32, 'A')], lambda c, s, a: mul(c, s, a, a))

    def add_w(c, s, a, b):
        r, k = addc(c.rd(a, 32), z(b, 256))
        c.wr(s, r)
        return i32(k)
    reg('uint256_add_carry_' + sfx, [('p', 32, 'S'), ('p', 32, 'A'), ('v', w)], add_w)

    def sub_w(c, s, a, b):
        r, k = subb(c.rd(a, 32), z(b, 256))
        c.wr(s, r)
        return T.sext(k, 32)
    reg('uint256_sub_borrow_' + sfx, [('p', 32, 'S'), ('p', 32, 'A'), ('v', w)], sub_w)

    def mul_w(c, s, a, b):
        t = T.mul(z(c.rd(a, 32), 256 + w), z(b, 256 + w))
        c.wr(s, T.ext(t, 0, 256))
        return T.ext(t, 256, w)
    reg('uint256_mul_carry_' + sfx, [('p', 32, 'S'), ('p', 32, 'A'), ('v', w)], mul_w)

    def div_w(c, s, a, b):
        c.pre(T.ne(b, T.const(0, w)), 'divisor is not zero')
        x = c.rd(a, 32)
        bb = z(b, 256)
        c.wr(s, T.udiv(x, bb))
        return T.ext(T.urem(x, bb), 0, w)

    def div_rel(su, ex, st2, ret):
        q = fw.mem_get(ex, st2, su.args[0].obj, 0, 32)
        x = su.init_of('A')
        n = 256 + w
        b = su.args[2]
        g = [fw.Goal('quotient*divisor + remainder = dividend', T.add(T.mul(z(q, n), z(b, n)), z(ret, n)), z(x, n)),
             fw.Goal('remainder below divisor', T.ult(ret, b), T.TRUE)]
        return g, 'Euclid uniqueness'
    reg('uint256_div_' + sfx, [('p', 32, 'S'), ('p', 32, 'A'), ('v', w, 1)], div_w, relational=div_rel)

    def mod_add(c, s, a, b, m):
        x, y, d = c.rd(a, 32), c.rd(b, 32), c.rd(m, 32)
        c.pre(T.ult(x, d), 'augend below the divisor')
        c.pre(T.ult(y, d), 'addend below the divisor')
        t = T.add(z(x, 257), z(y, 257))
        D = z(d, 257)
        c.wr(s, T.ext(T.ite(T.ult(t, D), t, T.sub(t, D)), 0, 256))
    reg('uint256_mod_add', [('p', 32, 'S'), ('p', 32, 'A'), ('p', 32, 'B'), ('p', 32, 'D')], mod_add, noalias=[3])

    def mod_sub(c, s, a, b, m):
        x, y, d = c.rd(a, 32), c.rd(b, 32), c.rd(m, 32)
        c.pre(T.ult(x, d), 'minuend below the divisor')
        c.pre(T.ult(y, d), 'subtrahend below the divisor')
        c.wr(s, T.ite(T.ult(x, y), T.add(T.sub(x, y), d), T.sub(x, y)))
    reg('uint256_mod_sub', [('p', 32, 'S'), ('p', 32, 'A'), ('p', 32, 'B'), ('p', 32, 'D')], mod_sub, noalias=[3])

    reg('uint256_cmp', [('p', 32, 'A'), ('p', 32, 'B')], lambda c, a, b: sign3(c.rd(a, 32), c.rd(b, 32)))
    reg('uint256_cmp_' + sfx, [('p', 32, 'A'), ('v', w)], lambda c, a, b: sign3(c.rd(a, 32), z(b, 256)))
    reg('uint256_equal', [('p', 32, 'A'), ('p', 32, 'B')], lambda c, a, b: T.eq(c.rd(a, 32), c.rd(b, 32)))
    reg('uint256_equal_zero', [('p', 32, 'A')], lambda c, a: T.eq(c.rd(a, 32), T.const(0, 256)))
    reg('uint256_equal_one', [('p', 32, 'A')], lambda c, a: T.eq(c.rd(a, 32), T.const(1, 256)))
    reg('uint256_cpy', [('p', 32, 'S'), ('p', 32, 'A')], lambda c, s, a: c.wr(s, c.rd(a, 32)))
    reg('uint256_set_zero', [('p', 32, 'S')], lambda c, s: c.wr(s, T.const(0, 256)))
    reg('uint256_set_one', [('p', 32, 'S')], lambda c, s: c.wr(s, T.const(1, 256)))
    reg('uint256_set_' + sfx, [('p', 32, 'S'), ('v', w)], lambda c, s, a: c.wr(s, z(a, 256)))
    reg('uint256_from_bytes', [('p', 32, 'S'), ('p', 32, 'BY')], lambda c, s, a: c.wr(s, bswap(c.rd(a, 32))), noalias=[0, 1])
    reg('uint256_to_bytes', [('p', 32, 'BY'), ('p', 32, 'A')], lambda c, s, a: c.wr(s, bswap(c.rd(a, 32))), noalias=[0, 1])

    def bittest(c, a, i):
        x = c.rd(a, 32)
        c.pre(T.ult(i, T.const(256, 32)), 'bit index below 256')
        return T.ext(T.lshr(x, z(T.ext(i, 0, 8), 256)), 0, 1)
    reg('uint256_bittest', [('p', 32, 'A'), ('v', 32, 0, 255)], bittest)
    return C


N05 = {'uint256_from_bytes', 'uint256_to_bytes'}
