"""Scalar multiplication: every intermediate point is an integer multiple of the base point.

The contracts of the point layer (decided as group-law identities by P02 / Q02) are used in the form: doubling takes a
triple that represents m*P to one that represents 2m*P, mixed addition of P or -P to (m+1)*P or (m-1)*P.  The multiple is
kept as an integer polynomial in the bits the code branches on; the postcondition is that the final multiple equals the
scalar modulo the group order."""
import ctypes
import itertools
import os
import random

import contract
import curve as CV
import eclaw
import exec as E
import fw
import mont
import ring
import smt
import term as T
import tower
import u256
from contract import Contract
from u256 import bswap

_tag = itertools.count(1)


# ------------------------------------------------------------------ integer polynomials in bits (multilinear)
def pbit(c, memo, atoms):
    """a one-bit condition as a multilinear polynomial over bit atoms"""
    r = memo.get(c)
    if r is not None:
        return r
    if c.op == 'c':
        r = {frozenset(): 1} if c.aux else {}
    elif c.op == 'and':
        r = {frozenset(): 1}
        for a in c.args:
            r = pmul(r, pbit(a, memo, atoms))
    elif c.op == 'or':
        r = {frozenset(): 1}
        for a in c.args:
            r = pmul(r, padd({frozenset(): 1}, pbit(a, memo, atoms), -1))
        r = padd({frozenset(): 1}, r, -1)
    elif c.op == 'xor':
        r = {}
        for a in c.args:
            b = pbit(a, memo, atoms)
            r = padd(padd(r, b), pmul(r, b), -2)
    elif c.op == 'eq' and c.args[0].w == 1:
        r = pbit(T.xor(T.xor(c.args[0], c.args[1]), T.TRUE), memo, atoms)
    elif c.op == 'ite':
        x = pbit(c.args[0], memo, atoms)
        r = padd(pmul(x, pbit(c.args[1], memo, atoms)), pmul(padd({frozenset(): 1}, x, -1), pbit(c.args[2], memo, atoms)))
    else:
        atoms[c.id] = c
        r = {frozenset([c.id]): 1}
    memo[c] = r
    return r


def padd(a, b, k=1):
    r = dict(a)
    for m, x in b.items():
        s = r.get(m, 0) + k * x
        if s:
            r[m] = s
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    r = {}
    for m, x in a.items():
        for n, y in b.items():
            k = m | n
            s = r.get(k, 0) + x * y
            if s:
                r[k] = s
            else:
                r.pop(k, None)
    return r


class Dom:
    """multiples of one base point of a curve"""

    def __init__(self, C, base):
        self.C = C
        self.base = base          # coordinate terms (x, y)
        self.ny = eclaw.fterm(C, 'neg', base[1])
        self.table = {}           # (tag) -> polynomial
        self.memo = {}
        self.pm = {}
        self.atoms = {}

    def fresh(self, k):
        """coordinates of some triple representing k*P"""
        t = next(_tag)
        self.table[t] = k
        c = T.const(t, 64)
        return [eclaw.fterm(self.C, 'mult' + x, c) for x in 'XYZ']

    def parse(self, xyz):
        ps = tuple(p for x in xyz for p in ring.parts(x))
        return self._parse(ps)

    def _parse(self, ps):
        key = tuple(p.id for p in ps)
        if key in self.memo:
            return self.memo[key]
        r = None
        n = self.C.n
        nm = ring.TOWER[self.C.field][self.C.lv][0]
        p0 = ps[0]
        if all(p.op == 'uf' and p.args == p0.args and p.aux == 'mult%s:%s%s' % ('XYZ'[i // n], nm, '.%d' % (i % n) if n > 1 else '')
               for i, p in enumerate(ps)):
            r = self.table.get(p0.args[0].aux)
        elif all(p.op == 'c' and p.aux == 0 for p in ps[2 * n:]):
            r = {}
        else:
            for p in ps:
                if p.op == 'ite':
                    c = p.args[0]
                    a = self._parse(tuple(q.args[1] if q.op == 'ite' and q.args[0] is c else q for q in ps))
                    b = self._parse(tuple(q.args[2] if q.op == 'ite' and q.args[0] is c else q for q in ps))
                    if a is not None and b is not None:
                        r = padd(b, pmul(pbit(c, self.pm, self.atoms), padd(a, b, -1)))
                    break
        if r is None:
            # the base point itself with Z = 1
            one = [mont.R % self.C.p] + [0] * (n - 1)
            if all(p is q for p, q in zip(ps[:2 * n], [p for x in self.base for p in ring.parts(x)])) and [p.aux for p in ps[2 * n:]] == one:
                r = {frozenset(): 1}
        self.memo[key] = r
        return r

    def aff(self, x, y):
        """multiple of an affine operand"""
        if x is self.base[0] and y is self.base[1]:
            return {frozenset(): 1}
        if x is self.base[0] and y is self.ny:
            return {frozenset(): -1}
        ps = ring.parts(y)
        for p in ps:
            if p.op == 'ite':
                c = p.args[0]
                a = self.aff(x, T.cat(*[q.args[1] if q.op == 'ite' and q.args[0] is c else q for q in reversed(ps)]))
                b = self.aff(x, T.cat(*[q.args[2] if q.op == 'ite' and q.args[0] is c else q for q in reversed(ps)]))
                return padd(b, pmul(pbit(c, self.pm, self.atoms), padd(a, b, -1)))
        raise E.Unsupported('affine operand is not the base point or its opposite')

    def mul_of(self, c, p):
        B = 32 * self.C.n
        xyz = [c.rd(p, B, B * i) for i in range(3)]
        k = self.parse(xyz)
        if k is None:
            raise E.Unsupported('operand is not a known multiple of the base point: %s' % T.show(ring.parts(xyz[0])[0], 3)[:160])
        return k

    def put(self, c, r, k):
        B = 32 * self.C.n
        for i, x in enumerate(self.fresh(k)):
            c.wr(r, x, B * i)

    def handlers(self):
        C = self.C
        B = 32 * C.n
        J = lambda n: ('p', 3 * B, n)
        A = lambda n: ('p', 2 * B, n)
        H = {}

        def reg(op, params, body):
            H[C.pre + op] = Contract(C.pre + op, body, params)
        one = {frozenset(): 1}
        reg('j_dbl', [J('R'), J('P')], lambda c, r, p: (lambda k: self.put(c, r, padd(k, k)))(self.mul_of(c, p)))
        reg('j_neg', [J('R'), J('P')], lambda c, r, p: self.put(c, r, padd({}, self.mul_of(c, p), -1)))
        reg('j_cpy', [J('R'), J('P')], lambda c, r, p: self.put(c, r, self.mul_of(c, p)))
        reg('j_normal', [J('R'), J('P')], lambda c, r, p: self.put(c, r, self.mul_of(c, p)))
        reg('j_set_inf', [J('R')], lambda c, r: self.put(c, r, {}))
        reg('j_add', [J('R'), J('P'), J('Q')], lambda c, r, p, q: self.put(c, r, padd(self.mul_of(c, p), self.mul_of(c, q))))
        reg('j_add_a', [J('R'), J('P'), A('Q')],
            lambda c, r, p, q: self.put(c, r, padd(self.mul_of(c, p), self.aff(c.rd(q, B), c.rd(q, B, B)))))
        reg('j_from_a', [J('R'), A('P')], lambda c, r, p: self.put(c, r, self.aff(c.rd(p, B), c.rd(p, B, B))))

        def aneg(c, r, p):
            k = self.aff(c.rd(p, B), c.rd(p, B, B))
            if k not in (one, {frozenset(): -1}):
                raise E.Unsupported('negation of an unknown affine point')
            c.wr(r, self.base[0])
            c.wr(r, self.ny if k == one else self.base[1], B)
        reg('a_neg', [A('R'), A('P')], aneg)

        def acpy(c, r, p):
            c.wr(r, c.rd(p, B))
            c.wr(r, c.rd(p, B, B), B)
        reg('a_cpy', [A('R'), A('P')], acpy)
        return H

    def goal(self, xyz, want, pc):
        """the triple represents want*P: the polynomial is congruent to the integer term want"""
        k = self.parse(xyz)
        if k is None:
            return None
        r = int_sum(k, self.atoms, want)
        if r:
            return r
        W = 272
        t = T.const(k.get(frozenset(), 0) % (1 << W), W)
        hi = lo = k.get(frozenset(), 0)
        for m, x in k.items():
            if not m:
                continue
            b = None
            for i in m:
                a = self.atoms[i]
                b = a if b is None else T.and_(b, a)
            t = T.add(t, T.scale(T.zext(b, W), x % (1 << W)))
            if x > 0:
                hi += x
            else:
                lo += x
        if hi >= 1 << (W - 2) or lo <= -(1 << (W - 2)):
            return None
        d = T.zext(want, W)
        if t is d:
            return 'multiples of the base point'
        s, _ = smt.check(list(pc or []), T.eq(t, d), 20000)
        return 'multiples of the base point + z3' if s == 'proved' else None


def linear(t, wrap=False):
    """(v, c, d) with t = c*v + d over the integers (modulo the width when wrap), v a variable"""
    if t.op == 'v':
        return t, 1, 0
    if t.op == 'cat' and len(t.args) == 2 and t.args[0].op == 'c' and t.args[0].aux == 0:
        return linear(t.args[1])
    if t.op == 'lin' and len(t.args) == 1:
        r = linear(t.args[0])
        if r is None:
            return None
        v, c, d = r
        k, (m,) = t.aux
        m, k = T.signed(m, t.w), T.signed(k, t.w)
        c, d = c * m, d * m + k
        lo, hi = sorted((c * v.lo + d, c * v.hi + d))
        if wrap or lo >= 0 and hi < 1 << t.w:
            return v, c, d
    return None


def int_sum(k, atoms, want):
    """the polynomial (a weighted sum of bits of linear functions of one variable) equals want, by linear integer arithmetic"""
    import time
    import z3
    w = linear(want)
    const = k.get(frozenset(), 0)
    if not any(m for m in k):
        return 'multiples of the base point' if want.op == 'c' and want.aux == const else None
    bits = {}
    for m, x in k.items():
        if not m:
            continue
        if len(m) != 1:
            return None
        a = atoms[next(iter(m))]
        if a.op == 'ext':
            src, i = a.args[0], a.aux
        elif a.w == 1 and a.op != 'ext':
            return None
        bits.setdefault(src, {})[i] = x
    if w is None:
        w = (None, 0, want.aux) if want.op == 'c' else None
    if w is None:
        return None
    s = z3.Solver()
    s.set('timeout', 20000)
    I = z3.Int
    var = None
    total = z3.IntVal(const)
    n = 0
    for src, bs in bits.items():
        l = linear(src, True)
        if l is None or (var is not None and var is not l[0]) or (w[0] is not None and w[0] is not l[0]):
            return None
        var = l[0]
        val = l[1] * I('e') + l[2]
        idx = sorted(bs)
        while idx:
            j = 1
            while j < len(idx) and idx[j] == idx[j - 1] + 1 and bs[idx[j]] == 2 * bs[idx[j - 1]]:
                j += 1
            lo = idx[0]
            h, m, q = I('h%d' % n), I('m%d' % n), I('l%d' % n)
            n += 1
            s.add(val == (1 << (lo + j)) * h + (1 << lo) * m + q, 0 <= q, q < 1 << lo, 0 <= m, m < 1 << j)
            total = total + bs[lo] * m
            idx = idx[j:]
    if n > 12:
        return None
    s.add(I('e') >= var.lo, I('e') <= var.hi)
    s.add(total != w[1] * I('e') + w[2])
    t0 = time.time()
    r = s.check()
    smt.STAT['queries'] += 1
    smt.STAT['time'] += time.time() - t0
    return 'multiples of the base point + z3 (linear integers)' if r == z3.unsat else None


def ranges(n, top):
    """cover of [1, top] by intervals on which the bit lengths of e and of 3e are constant"""
    cuts = {1, top + 1}
    for i in range(260):
        for v in (1 << i, -(-(1 << i) // 3)):
            if 1 < v <= top:
                cuts.add(v)
    cs = sorted(cuts)
    return [(a, b - 1) for a, b in zip(cs, cs[1:])]


def aff_vars(C):
    eclaw.P_OF[0] = C.p
    return eclaw.coords('P', C.n, 'XY')


def number_contracts(prog):
    H = {}
    for impl in ('common', 'x64'):
        H.update(u256.contracts(impl))
    return H


def mul_tasks(out, C, prog, lib, tag=''):
    name = C.pre + 'j_mul_a'
    B = 32 * C.n
    N = C.order
    cases = [('k = 0', 0, None), ('k = n', N, None)]
    for lo, hi in ranges(N, N - 1):
        cases.append(('k in [%#x, %#x]' % (lo, hi), 0, (lo, hi)))
    for lo, hi in ranges(N, mont.R - 1 - N):
        cases.append(('k = n + e, e in [%#x, %#x]' % (lo, hi), N, (lo, hi)))
    step = 16
    for i in range(0, len(cases), step):
        chunk = cases[i:i + step]
        nm = '%s %s .. %s%s' % (name, chunk[0][0], chunk[-1][0], tag)
        out.append(fw.Task(nm, lambda r, chunk=chunk, nm=nm: [mul_task(r, C, prog, lib, name, B, c, nm) for c in chunk]))
    if C.n == 1:
        out.append(fw.Task('order of the curve group%s' % tag, lambda r: order_task(r, C)))
    nm = C.pre + 'j_mul_g' + tag
    out.append(fw.Task(nm, lambda r, nm=nm: gen_task(r, C, prog, lib, nm)))


def mul_task(r, C, prog, lib, name, B, case, tname):
    desc, add, rng = case
    if rng is None:
        e = T.const(0, 256)
        K = T.const(add, 256)
    else:
        e = T.var('E', 256, *rng)
        K = T.add(e, T.const(add, 256))
    # the bytes of the scalar; when it is n + e they are an opaque value whose big-endian reading is n + e
    KB = bswap(K) if not add or rng is None else T.var('KB', 256)
    base = aff_vars(C)
    hold = {}

    def setup(su):
        o = su.obj('R', 3 * B, [(0, T.var('R', 24 * B))])
        kb = su.obj('K', 32, [(0, KB)])
        p = su.obj('P', 2 * B, [(0, base[0]), (B, base[1])])
        hold['o'] = o
        for x in (o, kb, p):
            su.arg(su.ptr(x))

    def post(su, ex, st, ret):
        xyz = [fw.mem_get(ex, st, hold['o'], B * i, B) for i in range(3)]
        why = hold['dom'].goal(xyz, e, None)
        g = fw.Goal('the result represents k*P (%s)' % desc, T.uf('scalar', 1, (T.const(0, 8),)), T.TRUE, ('fn', desc), lambda g, su, ex: why)
        if why is None:
            if 'w' not in hold:
                hold['w'] = search(C, lib, prog, name)
            if hold['w']:
                g = fw.Goal(g.label, T.FALSE, T.TRUE, ('fn', desc))
        return [g]
    dom = hold['dom'] = Dom(C, base)
    hs = {k: v.handler() for k, v in number_contracts(prog).items()}
    for k, v in CV.contracts(C.field).items():
        hs[k] = v.handler()
    if KB.op == 'v':
        def frb(c, s, a):
            v = c.rd(a, 32)
            c.wr(s, K if v is KB else bswap(v))
        for k in list(hs):
            if k.endswith('_from_bytes') and ('uint256' in k or '_bn_' in k):
                hs[k] = Contract(k, frb, [('p', 32, 'S'), ('p', 32, 'BY')]).handler()
    for k, v in dom.handlers().items():
        hs[k] = v.handler()
    spec = fw.FnSpec('%s %s' % (name, desc), name, setup, post, contracts=hs, lib=lib, ufs={'scalar': lambda t, a: 1}, backends=(), tries=1,
                     frame=lambda su: [(hold['o'], 0, 3 * B)])
    spec.replay = lambda l, s, ee: hold.get('w')
    fw.verify(r, prog, spec)


def order_task(r, C):
    """n is prime, n*G is the identity and n is the only multiple of n in the Hasse interval: every point has order
    dividing n"""
    import math
    import sympy
    N, p = C.order, C.p
    s = math.isqrt(4 * p) + 1
    lo, hi = p + 1 - s, p + 1 + s
    ok = sympy.isprime(N) and sympy.isprime(p) and C.on(C.gen) and C.mulp(N, C.gen) is None and hi // N - (lo - 1) // N == 1 and (hi // N) * N == N
    if ok:
        r.ok('number theory (Hasse interval)')
    else:
        r.fail('failed')
        r.notes.append('the group order is not established')


def gen_task(r, C, prog, lib, nm):
    """the fixed-base routine is the general one applied to the generator of the standard"""
    name = C.pre + 'j_mul_g'
    B = 32 * C.n
    hold = {}
    kv = T.var('K', 256)

    def setup(su):
        o = hold['o'] = su.obj('R', 3 * B, [(0, T.var('R', 24 * B))])
        kb = su.obj('K', 32, [(0, kv)])
        su.arg(su.ptr(o))
        su.arg(su.ptr(kb))
    gx, gy = [T.const(C.enc(v), 256 * C.n) for v in C.gen]

    def mul(c, R_, k, P):
        for i, x in enumerate('XYZ'):
            c.wr(R_, eclaw.fterm(C, 'gmul' + x, c.rd(k, 32), c.rd(P, B), c.rd(P, B, B)), B * i)

    def post(su, ex, st, ret):
        out = []
        for i, x in enumerate('XYZ'):
            g = fw.Goal('coordinate %s of k times the generator' % x, fw.mem_get(ex, st, hold['o'], B * i, B), eclaw.fterm(C, 'gmul' + x, kv, gx, gy), ('mem', hold['o'], B * i, B))
            out.append(g)
        return out
    hs = {k: v.handler() for k, v in CV.contracts(C.field).items()}
    if C.n > 1:
        hs.update({k: v.handler() for k, v in tower.contracts().items() if '_fp2_' in k})
    hs[C.pre + 'j_mul_a'] = Contract(C.pre + 'j_mul_a', mul, [('p', 3 * B, 'R'), ('p', 32, 'K'), ('p', 2 * B, 'P')]).handler()
    ufs = {}
    n = ring.TOWER[C.field][C.lv][0]
    cache = {}

    def val(a, k):
        key = tuple(a)
        if key not in cache:
            kk = int.from_bytes(a[0].to_bytes(32, 'little'), 'big')
            cache[key] = C.mulp(kk % C.order, (C.dec(a[1]), C.dec(a[2]))) if C.on((C.dec(a[1]), C.dec(a[2]))) else None
        return cache[key]
    spec = fw.FnSpec(nm, name, setup, post, contracts=hs, lib=lib, ufs=ufs, backends=('smt',), tries=0, frame=lambda su: [(hold['o'], 0, 3 * B)])
    w = {}

    def replay(l, s, e):
        if 'w' not in w:
            w['w'] = search(C, lib, prog, name)
        return w['w']
    spec.replay = replay
    fw.verify(r, prog, spec)


def scalars(C, R, n=24):
    N = C.order
    out = [0, 1, 2, 3, 4, 5, N - 1, N - 2, N - 3, N, N + 1, N + 2, mont.R - 1, mont.R - N, (1 << 255), (1 << 255) - 1, N // 2, N // 2 + 1]
    for k in (1, 2):
        out += [(k << 256) // 3 + i for i in (-1, 0, 1, 2)]
    out += [(1 << 253) // 3, (1 << 128), (1 << 128) - 1]
    out += [R.randrange(1 << R.choice([8, 64, 128, 200, 256])) for _ in range(n)]
    out += [(1 << R.randrange(256)) + R.randrange(2) for _ in range(n)]
    return [k for k in out if 0 <= k < mont.R]


def search(C, lib, prog, name):
    """a concrete scalar on which the routine is wrong, or None"""
    l = lib() if callable(lib) else lib
    try:
        fn = getattr(l, prog.fn(name).name.lstrip('@').strip('"'))
    except Exception:
        return None
    R = random.Random(fw.SEED)
    gen = name.endswith('_g')
    B = 32 * C.n
    for k in scalars(C, R, 16 if C.n == 1 else 6):
        P = C.gen if gen else eclaw.rnd_point(C, R)
        go = fw.Guarded(R.randbytes(3 * B))
        gk = fw.Guarded(k.to_bytes(32, 'big'))
        gp = fw.Guarded(C.ebytes(*P))

        def call():
            fn.restype = None
            fn(*[ctypes.c_void_p(g.addr) for g in ((go, gk) if gen else (go, gk, gp))])
            return go.read().hex()
        res = fw.in_child(call)
        for g in (go, gk, gp):
            g.free()
        d = '%s with scalar %#x and point %s' % (name, k, C.ebytes(*P).hex())
        if res[0] != 'ok':
            return d + ' ends with %s' % (res,)
        o = bytes.fromhex(res[1])
        es = [C.dec(int.from_bytes(o[B * i:B * i + B], 'little')) for i in range(3)]
        F = C.F
        if es[2] == F.zero:
            got = None
        else:
            zi = F.inv(es[2])
            z2 = F.mul(zi, zi)
            got = (F.mul(es[0], z2), F.mul(es[1], F.mul(z2, zi)))
        if got != C.mulp(k, P):
            return d + ' gives %s, which is not the multiple' % res[1]
    return None
