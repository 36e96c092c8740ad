"""The elliptic-curve group law: contracts of the point layer, decided as polynomial identities by cases.

A Jacobian triple (X, Y, Z) represents the identity when Z = 0 and the affine point (X/Z^2, Y/Z^3) otherwise.  The cases
of an addition (identity operands, equal points, opposite points, different abscissas) cover all pairs of points; in
each case the coordinates are parametrised (x a^2, y a^3, a) with a nonzero, and the triple the code computes must
represent the sum prescribed by the group law, as an identity of polynomials modulo the curve equations."""
import ctypes
import os
import random

import contract
import curve as CV
import exec as E
import fw
import mont
import ring
import term as T
import tower
from contract import Contract

SM2_B = 0x28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93


class Curve:
    def __init__(self, key, field, pre, lv, a, b, order, gen):
        self.key, self.field, self.pre, self.lv = key, field, pre, lv
        self.F = ring.TOWER[field][lv][1]
        self.a, self.b = a, b
        self.n = self.F.deg
        self.order = order
        self.gen = gen
        self.p = self.F.p
        self._nr = None

    def odd(self):
        if self._nr is None:
            self._nr = ring.no_root(self.F, self.a, self.b)
        return self._nr

    # reference group law on affine points (None: identity)
    def neg(self, P):
        return None if P is None else (P[0], self.F.neg(P[1]))

    def addp(self, P, Q):
        F = self.F
        if P is None:
            return Q
        if Q is None:
            return P
        if P[0] == Q[0]:
            if P[1] != Q[1] or P[1] == F.zero:
                return None
            l = F.mul(F.add(F.mul(F.of(3), F.mul(P[0], P[0])), self.a), F.inv(F.add(P[1], P[1])))
        else:
            l = F.mul(F.sub(Q[1], P[1]), F.inv(F.sub(Q[0], P[0])))
        x = F.sub(F.sub(F.mul(l, l), P[0]), Q[0])
        return (x, F.sub(F.mul(l, F.sub(P[0], x)), P[1]))

    def mulp(self, k, P):
        R = None
        while k:
            if k & 1:
                R = self.addp(R, P)
            P = self.addp(P, P)
            k >>= 1
        return R

    def on(self, P):
        F = self.F
        return P is None or F.mul(P[1], P[1]) == F.add(F.add(F.mul(P[0], F.mul(P[0], P[0])), F.mul(self.a, P[0])), self.b)

    def enc(self, x):
        """field element -> packed Montgomery integer"""
        return sum((c * mont.R % self.p) << (256 * i) for i, c in enumerate(self.F.coords(x)))

    def dec(self, v):
        ri = pow(mont.R, -1, self.p)
        return self.F.make([((v >> (256 * i)) & (mont.R - 1)) * ri % self.p for i in range(self.n)])

    def ebytes(self, *xs):
        return b''.join(self.enc(x).to_bytes(32 * self.n, 'little') for x in xs)


def be(h):
    return int(h, 16)


CURVES = {
    'sm2': Curve('sm2', 'sm2', 'sm2::internal::sm2_ec_', 0, -3 % mont.SM2_P, SM2_B, mont.SM2_N,
                 (0x32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7, 0xBC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0)),
    'sm9': Curve('sm9', 'sm9', 'sm9::internal::sm9_ec_', 0, 0, 5, mont.SM9_N,
                 (0x93DE051D62BF718FF5ED0704487D01D6E1E4086909DC3280E8C4E4817C66DDDD, 0x21FE8DDA4F21E607631065125C395BBC1C1C00CBFA6024350C464CD70A3EA616)),
    'sm9b': Curve('sm9b', 'sm9', 'sm9::internal::sm9_ec2_', 1, (0, 0), (0, 5), mont.SM9_N,
                  ((0x3722755292130B08D2AAB97FD34EC120EE265948D19C17ABF9B7213BAF82D65B, 0x85AEF3D078640C98597B6027B441A01FF1DD2C190F5E93C454806C11D8806141),
                   (0xA7CF28D519BE3DA65F3170153D278FF247EFBA98A71A08116215BBA5C999A7C7, 0x17509B092E845C1266BA0D262CBEE6ED0736A96FA347C8BD856DC76B84EBEB96))),
}


def coords(name, n, what='XYZ'):
    """symbolic coordinates of a point"""
    p = {1: None}
    return [T.cat(*[T.var('%s%s.%d' % (name, c, i), 256, 0, P_OF[0] - 1) for i in reversed(range(n))]) if n > 1
            else T.var('%s%s' % (name, c), 256, 0, P_OF[0] - 1) for c in what]


P_OF = [None]


def fterm(C, op, *args):
    """element-level term with coordinates below the modulus"""
    nm = ring.TOWER[C.field][C.lv][0]
    if C.n == 1:
        return T.uf('%s:%s' % (op, nm), 256, args, 0, C.p - 1)
    return T.cat(*[T.uf('%s:%s.%d' % (op, nm, i), 256, args, 0, C.p - 1) for i in reversed(range(C.n))])


# ------------------------------------------------------------------ contracts used at call sites of the point layer
def _belows(c, C, xs, what):
    for x in xs:
        for y in ring.parts(x):
            c.pre(T.ult(y, T.const(C.p, 256)), '%s: coordinates below the modulus' % what)


def callee(C, op):
    """abstract contract of an operation for its callers: the result represents op(operands)"""
    B = 32 * C.n

    def dbl(c, r, p):
        xs = [c.rd(p, B, B * i) for i in range(3)]
        _belows(c, C, xs, 'operand')
        for i, k in enumerate('XYZ'):
            c.wr(r, fterm(C, 'jdbl' + k, *xs), B * i)
    body = {'j_dbl': dbl}[op]
    return Contract(C.pre + op, body, [('p', 3 * B, 'R'), ('p', 3 * B, 'P')])


def jdbl_value(k):
    """coordinate k of some triple representing twice the operand"""
    def h(I, args, lv):
        key = ('jdbl',) + tuple(a.id for a in args)
        if key not in I.memo:
            C = I.C
            R = I.R
            X, Y, Z = [I.value(a) for a in args]
            n = sum(1 for q in I.memo if isinstance(q[0], str))
            if R.is_zero(Z):
                I.memo[key] = (R.var('u%dX' % n), R.var('u%dY' % n), {})
            else:
                c = R.var('u%d' % n, True)
                Z2 = R.mul(Z, Z)
                a = R.const(C.a)
                M = R.add(R.scale(R.mul(X, X), R.K.of(3)), R.mul(a, R.mul(Z2, Z2)))
                Y2 = R.mul(Y, Y)
                S = R.scale(R.mul(X, Y2), R.K.of(4))
                XD = R.sub(R.mul(M, M), R.add(S, S))
                YD = R.sub(R.mul(M, R.sub(S, XD)), R.scale(R.mul(Y2, Y2), R.K.of(8)))
                ZD = R.scale(R.mul(Y, Z), R.K.of(2))
                c2 = R.mul(c, c)
                I.memo[key] = (R.mul(c2, XD), R.mul(R.mul(c2, c), YD), R.mul(c, ZD))
        return I.memo[key][k]
    return h


# ------------------------------------------------------------------ cases
def curve_rhs(R, C, x):
    return R.add(R.add(R.mul(R.mul(x, x), x), R.mul(R.const(C.a), x)), R.const(C.b))


class Geo:
    """one case: polynomials for the coordinates of the operands"""

    def __init__(self, C, case, ops):
        # ops: 'jj' both Jacobian, 'ja' second affine, 'j' one Jacobian, 'a' one affine
        self.C = C
        self.R = R = ring.Ring(C.F)
        self.case = case
        x1, y1 = R.var('x1'), R.var('y1')
        a, b, d = R.var('a', True), R.var('b', True), R.var('d', True)
        x2, y2 = R.add(x1, d), R.var('y2')
        self.P = self.Q = None
        R.rules[R.names.index('y1')] = curve_rhs(R, C, x1)
        R.rules[R.names.index('y2')] = curve_rhs(R, C, x2)
        if not C.odd():
            raise ring.Unsupported('the curve has a point of order two')
        R.units.add(R.names.index('y1'))     # no point of order two
        R.units.add(R.names.index('y2'))
        p1 = (x1, y1)
        p2 = (x2, y2)
        m1 = (x1, R.neg(y1))
        sel = {'inf,inf': (None, None), 'inf,P': (None, p2), 'P,inf': (p1, None), 'P,P': (p1, p1), 'P,-P': (p1, m1), 'P,Q': (p1, p2),
               'P': (p1, None), 'inf': (None, None)}[case]
        self.pts = sel
        two = len(ops) == 2
        scal = [a if ops[:1] == 'j' else R.num(1), (b if ops[1] == 'j' else R.num(1)) if two else None]
        self.co = []
        for i in range(len(ops)):
            if sel[i] is None:
                self.co.append([R.var('w%d' % i), R.var('z%d' % i), {}])
            else:
                s = scal[i]
                s2 = R.mul(s, s)
                self.co.append([R.mul(s2, sel[i][0]), R.mul(R.mul(s2, s), sel[i][1]), s])

    # group law on affine pairs of polynomials
    def neg(self, P):
        return None if P is None else (P[0], self.R.neg(P[1]))

    def sum(self, P, Q):
        R, C = self.R, self.C
        if P is None:
            return Q
        if Q is None:
            return P
        if self.case == 'P,-P':
            return None
        if self.case == 'P,P':
            l = R.mul(R.add(R.scale(R.mul(P[0], P[0]), R.K.of(3)), R.const(C.a)), R.inv(R.add(P[1], P[1])))
        else:
            l = R.mul(R.sub(Q[1], P[1]), R.inv(R.sub(Q[0], P[0])))
        x = R.sub(R.sub(R.mul(l, l), P[0]), Q[0])
        return (x, R.sub(R.mul(l, R.sub(P[0], x)), P[1]))

    def dbl(self, P):
        if P is None:
            return None
        c = self.case
        self.case = 'P,P'
        r = self.sum(P, P)
        self.case = c
        return r


def represents(I, xyz, S):
    """None when the triple represents S, else a message"""
    R = I.R
    X, Y, Z = xyz
    if S is None:
        if R.is_zero(Z):
            return None
        if R.is_nonzero(Z):
            return 'the result is not the identity'
        raise ring.Split(Z)
    if R.is_zero(Z):
        return 'the result is the identity'
    if not R.is_nonzero(Z):
        raise ring.Split(Z)
    Z2 = R.mul(Z, Z)
    if not R.is_zero(R.sub(X, R.mul(S[0], Z2))):
        return 'wrong abscissa'
    if not R.is_zero(R.sub(Y, R.mul(S[1], R.mul(Z2, Z)))):
        return 'wrong ordinate'
    return None


def interp(C, geo):
    I = ring.Interp(C.field, C.lv, geo.R)
    I.C = C
    for i, k in enumerate('XYZ'):
        I.special['jdbl' + k] = jdbl_value(i)
    return I


OPS = {  # name: (operands, output, semantics)
    'j_add': ('jj', 'j', lambda g: g.sum(*g.pts)),
    'j_add_a': ('ja', 'j', lambda g: g.sum(*g.pts)),
    'j_dbl': ('j', 'j', lambda g: g.dbl(g.pts[0])),
    'j_neg': ('j', 'j', lambda g: g.neg(g.pts[0])),
    'j_cpy': ('j', 'j', lambda g: g.pts[0]),
    'j_normal': ('j', 'j1', lambda g: g.pts[0]),
    'j_from_a': ('a', 'j', lambda g: g.pts[0]),
    'j_to_a': ('j', 'a', lambda g: g.pts[0]),
    'a_neg': ('a', 'a', lambda g: g.neg(g.pts[0])),
    'a_cpy': ('a', 'a', lambda g: g.pts[0]),
    'j_set_inf': ('', 'j', lambda g: None),
    'j_is_inf': ('j', 'b', lambda g: g.pts[0] is None),
    'j_equal': ('jj', 'b', lambda g: g.case in ('inf,inf', 'P,P')),
    'a_check': ('a', 'check', None),
}


def op_cases(ops):
    if ops == 'jj':
        return ['inf,inf', 'inf,P', 'P,inf', 'P,P', 'P,-P', 'P,Q']
    if ops == 'ja':
        return ['inf,P', 'P,P', 'P,-P', 'P,Q']
    if ops == 'j':
        return ['inf', 'P']
    if ops == 'a':
        return ['P']
    return ['inf']


def shape(C, op):
    """contract-shaped parameter list"""
    ops, out, _ = OPS[op]
    B = 32 * C.n
    ps = []
    if out[0] in 'ja' and out != 'b' and out != 'check':
        ps.append(('p', (3 if out[0] == 'j' else 2) * B, 'R'))
    for i, o in enumerate(ops):
        ps.append(('p', (3 if o == 'j' else 2) * B, 'PQ'[i]))
    return ps


def law_tasks(out, C, prog, callees, lib, tag=''):
    """every point function of the curve against the group law"""
    for op in OPS:
        name = C.pre + op
        con = Contract(name, None, shape(C, op))
        for asg in con.cases():
            nm = '%s [%s]%s' % (name, contract.case_name(con, asg), tag)

            def run(r, con=con, asg=asg, nm=nm, op=op):
                law_task(r, C, op, con, asg, prog, callees, lib, nm)
            out.append(fw.Task(nm, run))


def law_task(r, C, op, con, asg, prog, callees, lib, nm):
    ops, outk, sem = OPS[op]
    B = 32 * C.n
    P_OF[0] = C.p
    hold = {}
    hasout = len(con.params) > len(ops)
    inputs = [i + hasout for i in range(len(ops))]

    def setup(su):
        objs = {}
        for i, p in enumerate(con.params):
            j = asg[i]
            if j not in objs:
                users = [k for k in inputs if asg[k] == j]
                if users:
                    nmz = con.params[users[0]][2]
                    cs = coords(nmz, C.n, 'XYZ' if p[1] == 3 * B else 'XY')
                    objs[j] = su.obj(nmz, p[1], [(B * t, x) for t, x in enumerate(cs)])
                    hold[('in', j)] = cs
                else:
                    objs[j] = su.obj('R', p[1], [(0, T.var('R', 8 * p[1]))])
            su.arg(su.ptr(objs[j]))
        hold['objs'] = objs

    def bindings(I, geo):
        for t, k in enumerate(inputs):
            for x, v in zip(hold[('in', asg[k])], geo.co[t]):
                I.set(x, v)

    def post(su, ex, st, ret):
        goals = []
        cases = op_cases(ops)
        if len(ops) == 2 and asg[inputs[0]] == asg[inputs[1]]:
            cases = ['inf,inf', 'P,P']
        res = None
        if hasout:
            o = hold['objs'][asg[0]]
            res = [fw.mem_get(ex, st, o, B * i, B) for i in range(con.params[0][1] // B)]
        if outk == 'check':
            cases = ['on', 'off']
        for case in cases:
            def make(extra, case=case):
                if outk == 'check':
                    return check_geo(C, case, hold[('in', asg[inputs[0]])], extra)
                geo = Geo(C, case, ops)
                I = interp(C, geo)
                I.geo = geo
                if len(ops) == 2 and asg[inputs[0]] == asg[inputs[1]]:
                    geo.co[1] = geo.co[0]
                return assume(I, geo, extra, bindings)

            def check(I, case=case):
                if outk == 'check':
                    d = I.decide(ret)
                    return None if d == (case == 'on') else 'answers %s for a point %s the curve' % (d, case)
                S = sem(I.geo)
                if outk == 'b':
                    d = I.decide(ret)
                    return None if d == S else 'answers %s' % d
                vals = [I.value(x) for x in res]
                if outk == 'a':
                    if S is None:
                        return None
                    R = I.R
                    for v, s in zip(vals, S):
                        if not R.is_zero(R.sub(v, s)):
                            return 'wrong affine coordinates'
                    return None
                if outk == 'j1' and S is not None and not I.R.is_zero(I.R.sub(vals[2], I.R.num(1))):
                    return 'Z is not one'
                return represents(I, vals, S)
            try:
                msg = ring.explore(make, check)
                if msg and os.environ.get('VC_DEBUG'):
                    print(nm, case, msg)
            except (ring.Unsupported, ring.Split) as e:
                msg = 'not decided: %s' % e
                if os.environ.get('VC_DEBUG'):
                    print(nm, case, msg)
            if msg:
                if hold.get('witness', 0) == 0:
                    hold['witness'] = search(C, op, con, asg, lib, prog)
            hold.setdefault('msgs', {})[case] = msg
            bad = msg and hold.get('witness')
            lab = 'group law, case %s%s' % (case, ': ' + msg if msg else '')
            if bad:
                goals.append(fw.Goal(lab, T.FALSE, T.TRUE, ('fn', case)))
            else:
                # the identity is decided by the ring back end; nothing to evaluate concretely
                g = fw.Goal(lab, T.uf('grouplaw', 1, (T.const(len(goals), 8),)), T.TRUE, ('fn', case), (lambda msg: lambda g, su, ex: None if msg else 'polynomial identity, group law')(msg))
                goals.append(g)
        return goals
    hs = {k: (v.handler() if isinstance(v, Contract) else v) for k, v in callees.items()}
    if op != 'j_dbl':
        hs[C.pre + 'j_dbl'] = callee(C, 'j_dbl').handler()
    hs.pop(C.pre + op, None)
    frame = lambda su: [(hold['objs'][asg[0]], 0, con.params[0][1])] if hasout else []
    spec = fw.FnSpec(nm, con.name, setup, post, contracts=hs, lib=lib, ufs={'grouplaw': lambda t, a: 1}, backends=(), tries=1, frame=frame)
    spec.replay = lambda l, s, e: hold.get('witness')
    fw.verify(r, prog, spec)


def assume(I, geo, extra, bindings):
    """apply branch assumptions to the parametrisation"""
    R = geo.R
    co = geo.co
    pts = list(geo.pts)
    for q, zero in extra:
        for s in getattr(I, 'subs', []):
            q = R.subst(q, *s)
        if not zero:
            R.facts.append(q)
            continue
        sol = ring.solve_zero(I, q)
        if sol is None:
            raise ring.Unsupported('the branch condition %s = 0 is outside the cases' % R.show(q))
        if sol == ():
            continue
        i, v = sol
        if i in R.units:
            if R.is_zero(v):
                return None
            if not R.is_nonzero(v):
                R.facts.append(v)
        if not hasattr(I, 'subs'):
            I.subs = []
        I.subs.append((i, v))
        co = [[R.subst(x, i, v) for x in c] for c in co]
        pts = [None if p is None else tuple(R.subst(x, i, v) for x in p) for p in pts]
        R.facts = [R.subst(f, i, v) for f in R.facts]
    geo.co = co
    geo.pts = tuple(pts)
    bindings(I, geo)
    return I


def check_geo(C, case, cs, extra):
    R = ring.Ring(C.F)
    x, y = R.var('x'), R.var('y')
    I = ring.Interp(C.field, C.lv, R)
    I.C = C
    I.set(cs[0], x)
    I.set(cs[1], y)
    if case == 'on':
        R.rules[1] = curve_rhs(R, C, x)
    else:
        R.facts.append(R.sub(R.mul(y, y), curve_rhs(R, C, x)))
    for q, zero in extra:
        if zero:
            raise ring.Unsupported('branch condition outside the cases')
        R.facts.append(q)
    return I


# ------------------------------------------------------------------ the real code on points of every case
def rnd_point(C, R):
    return C.mulp(R.randrange(1, C.order), C.gen)


def search(C, op, con, asg, lib, prog, tries=3):
    """a concrete input on which the function departs from the group law, or None"""
    l = lib() if callable(lib) else lib
    ops, outk, _ = OPS[op]
    R = random.Random(fw.SEED)
    F = C.F
    try:
        sym = prog.fn(con.name).name.lstrip('@').strip('"')
        fn = getattr(l, sym)
    except Exception:
        return None
    hasout = len(con.params) > len(ops)
    inputs = [i + hasout for i in range(len(ops))]

    def rel():
        while True:
            x = F.make([R.randrange(C.p) for _ in range(C.n)])
            if x != F.zero:
                return x
    samples = []
    for t in range(tries):
        P, Q = rnd_point(C, R), rnd_point(C, R)
        if ops in ('jj', 'ja'):
            samples += [(P, Q), (P, P), (P, C.neg(P))]
            samples += [(None, P)] + ([(P, None), (None, None)] if ops == 'jj' else [])
        elif ops == 'j':
            samples += [(P,), (None,)]
        elif ops == 'a':
            samples += [(P,)]
            if outk == 'check':
                samples += [('off', (P[0], F.add(P[1], rel()))), ('off', (F.add(P[0], rel()), P[1])), ('off', (F.zero, F.zero))]
        else:
            samples.append(())
    for smp in samples:
        for unit in (0, 1):
            off = bool(smp) and smp[0] == 'off'
            pts = list(smp[1:]) if off else list(smp)
            if len(ops) == 2 and asg[inputs[0]] == asg[inputs[1]]:
                pts[1] = pts[0]
            data = {}
            js = {}
            for t, k in enumerate(inputs):
                if asg[k] in data:
                    continue
                if ops[t] == 'a':
                    data[asg[k]] = C.ebytes(*pts[t])
                elif pts[t] is None:
                    data[asg[k]] = C.ebytes(rel(), rel(), F.zero) if not unit else C.ebytes(F.one, F.one, F.zero)
                else:
                    s = F.one if unit else rel()
                    s2 = F.mul(s, s)
                    data[asg[k]] = C.ebytes(F.mul(pts[t][0], s2), F.mul(pts[t][1], F.mul(s2, s)), s)
            if hasout and asg[0] not in data:
                data[asg[0]] = R.randbytes(con.params[0][1])
            gb = {j: fw.Guarded(d) for j, d in data.items()}

            def call():
                fn.restype = ctypes.c_uint8 if outk in ('b', 'check') else None
                v = fn(*[ctypes.c_void_p(gb[asg[i]].addr) for i in range(len(con.params))])
                return [int(v) if v is not None else None, gb[asg[0]].read().hex() if hasout else '']
            res = fw.in_child(call)
            for g in gb.values():
                g.free()
            desc = '%s on %s' % (con.name, ', '.join('%s = %s' % (con.params[j][2], d.hex()) for j, d in data.items() if j in inputs))
            if res[0] != 'ok':
                return desc + ' ends with %s' % (res,)
            v, h = res[1]
            if outk == 'check':
                if bool(v) != C.on(pts[0]):
                    return desc + ' answers %s' % v
                continue
            if op in ('j_add', 'j_add_a'):
                want = C.addp(*pts)
            elif op == 'j_dbl':
                want = C.addp(pts[0], pts[0])
            elif op.endswith('neg'):
                want = C.neg(pts[0])
            elif outk == 'b':
                want = pts[0] == pts[1] if op == 'j_equal' else pts[0] is None
                if bool(v) != want:
                    return desc + ' answers %s' % v
                continue
            else:
                want = pts[0] if pts else None
            out = bytes.fromhex(h)
            es = [C.dec(int.from_bytes(out[32 * C.n * i:32 * C.n * (i + 1)], 'little')) for i in range(len(out) // (32 * C.n))]
            if outk == 'a':
                if want is not None and tuple(es) != want:
                    return desc + ' gives %s' % h
                continue
            if es[2] == F.zero:
                got = None
            else:
                zi = F.inv(es[2])
                z2 = F.mul(zi, zi)
                got = (F.mul(es[0], z2), F.mul(es[1], F.mul(z2, zi)))
            if got != want:
                return desc + ' gives %s, which is not the prescribed point' % h
            if outk == 'j1' and want is not None and es[2] != F.one:
                return desc + ' gives %s, Z is not one' % h
    return None
