"""N03: exponentiation for every exponent, inversion, square roots."""
import ctypes
import contract
import curve
import exec as E
import fe
import fw
import mont
import powdom
import roots
import smt
import sympy
import term as T
import u256
from N02 import U, M, CFG, CURVE, contexts, prog_p
from u256 import NS


def pow_contract(impl, k, zero=False):
    """exponent with exactly k leading zero bytes (k = 32: zero)"""
    n = 32 - k
    E_ = T.const(0, 256) if n == 0 else T.zext(T.var('EX', 8 * n, 1 << (8 * n - 8)), 256)

    def body(c, ctx, s, a, e):
        P, nm = mont.modulus(c, ctx, impl)
        x = c.rd(a, 32)
        c.pre(T.ult(x, T.const(P, 256)), 'base below the modulus')
        ev = c.rd(e, 32)
        one = T.const(mont.R % P, 256)
        if ev.op == 'c' and ev.aux == 0:
            c.wr(s, one)
        else:
            c.wr(s, T.ite(T.eq(x, T.const(0, 256)), T.const(0, 256), powdom.mk(x, ev, nm, P)))
    con = contract.Contract(NS[impl] + 'mont256_pow', body, [('ctx',), ('p', 32, 'S'), ('p', 32, 'A'), ('p', 32, 'E', E_)], noalias=[3])
    con.exponent = E_
    return con


def same_power(P, nm, base, ev):
    """goal: the result is base^ev, shown on the exponents"""
    def prove(g, su, ex):
        got = g.got
        if got.op == 'ite' and got.args[0] is T.eq(base, T.const(0, 256)) and got.args[1].op == 'c' and got.args[1].aux == 0:
            got = got.args[2]
        e = powdom.expo(got, base, nm, P, {})
        if e is None:
            return None
        e = powdom.norm(e)
        if e is ev:
            return 'exponent domain'
        s, _ = smt.check([], T.eq(e, ev), 60000)
        return 'exponent domain + z3' if s == 'proved' else None
    return prove


def tasks():
    out = []
    for impl in ('common', 'x64'):
        cfg = CFG[impl]
        for cv, path in CURVE.items():
            prog = fe.program([(U[impl], cfg), (M[impl], cfg), (path, cfg)])
            mod = prog.modules[2]
            lib = fe.lazy_shared('mont' + impl, cfg, [U[impl], M[impl]])
            for gname, ctx in contexts(prog, mod):
                P = prog_p(prog, ctx)
                full = fw.TIER == 'thorough' or P == mont.SM2_P
                for k in range(33):
                    con = pow_contract(impl, k)
                    for asg in con.cases():
                        few = asg[2] != 2
                        if k not in ((0, 31, 32) if few else (0, 1, 16, 31, 32)) and (few or not full):
                            continue
                        nm = '%s %s/%s %d leading zero bytes [%s]' % (con.name, cv, gname.split('MONT')[0][-3:], k, contract.case_name(con, asg))

                        def run(r, con=con, asg=asg, prog=prog, lib=lib, ctx=ctx, nm=nm, P=P, impl=impl):
                            callees = dict(u256.contracts(impl))
                            callees.update(mont.contracts(impl))
                            A = T.var('A' if asg[2] == 2 else 'S', 256)
                            callees.update(powdom.handlers(impl, A))
                            contract.verify(r, prog, con, asg, callees=callees, lib=lib, ctx=ctx, ufs=mont.UFS, name=nm,
                                            goal_backend=same_power(P, mont.NAME[P], A, con.exponent),
                                            special=(P, P - 1, mont.R % P), tries=12, backends=('smt',))
                        out.append(fw.Task(nm, run))
    inv_tasks(out)
    return out


def inv_tasks(out):
    for impl in ('common', 'x64'):
        cfg = CFG[impl]
        for cv, path in CURVE.items():
            prog = fe.program([(U[impl], cfg), (M[impl], cfg), (path, cfg)])
            lib = fe.lazy_shared('field' + impl, cfg, [U[impl], M[impl]] + list(CURVE.values()))
            con0 = mont.contracts(impl)[NS[impl] + 'mont256_inv']
            for gname, ctx in contexts(prog, prog.modules[2]):
                P = prog_p(prog, ctx)
                con = contract.Contract(con0.name, con0.body, [('ctx',), ('p', 32, 'S'), ('p', 32, 'A', T.var('A', 256, 0, P - 1))])
                for asg in con.cases():
                    nm = '%s %s/%s [%s]' % (con.name, cv, gname.split('MONT')[0][-3:], contract.case_name(con, asg))

                    def run(r, con=con, asg=asg, prog=prog, lib=lib, ctx=ctx, nm=nm, P=P, impl=impl):
                        if not sympy.isprime(P):
                            raise E.Unsupported('modulus is not prime')
                        callees = dict(u256.contracts(impl))
                        callees.update(mont.contracts(impl))
                        contract.verify(r, prog, con, asg, callees=callees, lib=lib, ctx=ctx, ufs=mont.UFS, name=nm, special=(P, P - 1), tries=40)
                    out.append(fw.Task(nm, run))
            for asg in ({0: 0, 1: 1}, {0: 0, 1: 0}):
                name = curve.PRE[cv] + 'fp_sqrt'
                nm = '%s %s [%s]' % (name, impl, 'distinct' if asg[1] else 'in place')

                def run(r, asg=asg, prog=prog, lib=lib, nm=nm, impl=impl, cv=cv, name=name):
                    sqrt_task(r, asg, prog, lib, nm, impl, cv, name)
                out.append(fw.Task(nm, run))
            for name, con in curve.contracts(cv).items():
                if name.endswith('_inv'):
                    for asg in con.cases():
                        nm = '%s %s [%s]' % (name, impl, contract.case_name(con, asg))

                        def run(r, con=con, asg=asg, prog=prog, lib=lib, nm=nm, impl=impl):
                            callees = dict(u256.contracts(impl))
                            callees.update(mont.contracts(impl))
                            contract.verify(r, prog, con, asg, callees=callees, lib=lib, ufs=mont.UFS, name=nm, tries=30)
                        out.append(fw.Task(nm, run))


def sqrt_task(r, asg, prog, lib, nm, impl, cv, name):
    n, P = curve.field(cv, 'fp')
    A = T.var('A', 256, 0, P - 1)
    callees = dict(u256.contracts(impl))
    callees.update(mont.contracts(impl))
    hs = {k: v.handler() for k, v in callees.items()}
    hold = {}

    def setup(su):
        o = su.obj('A', 32, [(0, A)])
        s = o if asg[1] == 0 else su.obj('S', 32, [(0, T.var('S', 256))])
        su.arg(su.ptr(s))
        su.arg(su.ptr(o))
        hold['s'] = s

    def value(k):
        def root(g, su, ex):
            try:
                msg = roots.check_sqrt(n, P, A, hold['ret'], hold['root'])
            except roots.Not:
                return None
            if msg is None:
                return 'roots of unity (square root)'
            r.notes.append(msg)
            return None

        def zero(g, su, ex):
            v = T.evaluate([hold['ret'], hold['root']], {'A': 0, 'S': 0}, mont.UFS)
            return 'evaluation at zero' if v == [0, 0] else None
        return zero if k == 0 else root

    def want(su):
        # squares mod P decided on concrete values for counterexamples
        ok = T.uf('issq:' + n, 1, (A,))
        rt = T.uf('sqr_ok:' + n, 1, (A, hold['root']))
        return ok, rt

    def post(su, ex, st, ret):
        hold['ret'] = ret
        hold['root'] = fw.mem_get(ex, st, hold['s'], 0, 32)
        ok, rt = want(su)
        okret = T.eq(ret, T.const(0, 32))
        gs = [fw.Goal('returns 0 exactly for squares', okret, ok, ('fn', 'issq'), value(1)),
              fw.Goal('the result is a square root', T.or_(T.not_(okret), rt), T.TRUE, ('fn', 'root'), value(1)),
              fw.Goal('square root of zero', T.and_(okret, rt), T.and_(okret, rt) if value(0)(None, su, ex) else T.FALSE, None, value(0), (T.eq(A, T.const(0, 256)),))]
        return gs
    ufs = dict(mont.UFS)
    Ri = pow(mont.R, -1, P)
    ufs['issq:' + n] = lambda t, a: int(pow(a[0] * Ri, (P - 1) // 2, P) <= 1)
    ufs['sqr_ok:' + n] = lambda t, a: int(a[1] < P and a[1] * a[1] * Ri % P == a[0])
    spec = fw.FnSpec(nm, name, setup, post, contracts=hs, lib=lib, ufs=ufs, backends=(), tries=60,
                     frame=lambda su: [(hold['s'], 0, 32)])
    spec.replay = sqrt_replay(name, cv, P, asg)
    fw.verify(r, prog, spec)


def sqrt_replay(name, cv, P, asg):
    def replay(lib, sym, env):
        a = T.evaluate([T.var('A', 256, 0, P - 1)], env)[0]
        b = fw.Guarded(a.to_bytes(32, 'little'))
        s = b if asg[1] == 0 else fw.Guarded(bytes(32))

        def call():
            fn = getattr(lib, sym)
            fn.restype = ctypes.c_int
            rc = fn(ctypes.c_void_p(s.addr), ctypes.c_void_p(b.addr))
            return [rc, s.read().hex()]
        res = fw.in_child(call)
        if res[0] != 'ok':
            return 'the call ends with %s' % (res,)
        rc, h = res[1]
        x = int.from_bytes(bytes.fromhex(h), 'little')
        Ri = pow(mont.R, -1, P)
        sq = pow(a * Ri, (P - 1) // 2, P) <= 1
        if (rc == 0) != sq:
            return '%s(%#x) returns %d although the argument is %sa square' % (name, a, rc, '' if sq else 'not ')
        if rc == 0 and (x >= P or x * x * Ri % P != a):
            return '%s(%#x) yields %#x whose square differs' % (name, a, x)
        return None
    return replay


def main():
    return fw.main('N03', tasks(), trusted=fw.TRUSTED, assumptions=fw.ASSUMPTIONS + ['exponent laws b^x b^y = b^(x+y) in a commutative ring'])
