"""Protocol histories: keys, signatures and encryption over an abstract hash, the point group and a random stream.

The hash object's state is the sequence of bytes absorbed; its digest is an uninterpreted function of that sequence.
Points are elements of the group (terms); the functions of the point layer are replaced by the contracts decided by the
properties about that layer.  A loop that retries with the next random value is cut at the random draw: everything the
loop changes is arbitrary when the draw happens, and the condition for another draw is part of the specification."""
import ctypes
import hashlib

import codec
import curve as CV
import eclaw
import exec as E
import fcanon
import fe
import fw
import hist
import mont
import smt
import term as T
import wide
from contract import Contract
from u256 import bswap

C64 = lambda v: T.const(v, 64)
INF = 1 << 512
PW = 520


# ------------------------------------------------------------------ hash states
def pieces_of(t):
    if t.op == 'c':
        return ()
    if t.op == 'uf' and t.aux == 'hst':
        return t.args
    return None


def absorb(t, ps):
    """state after absorbing more pieces (bytes, or blobs of symbolic length)"""
    if t.op == 'ite':
        return T.ite(t.args[0], absorb(t.args[1], ps), absorb(t.args[2], ps))
    q = pieces_of(t)
    if q is None:
        raise E.Unsupported('hash state %s' % T.show(t, 2))
    q = list(q)
    for p in ps:
        if p.w == 128 and q and q[-1].w == 128 and q[-1].aux == p.aux and T.add(q[-1].args[0], q[-1].args[1]) is p.args[0]:
            q[-1] = T.uf(p.aux, 128, [q[-1].args[0], T.add(q[-1].args[1], p.args[1])])
        else:
            q.append(p)
    return T.uf('hst', 64, q) if q else C64(0)


def blob(name, off, n):
    return T.uf('blob:' + name, 128, [off, n])


def digest(t):
    if t.op == 'ite':
        return T.ite(t.args[0], digest(t.args[1]), digest(t.args[2]))
    q = pieces_of(t)
    if q is None:
        raise E.Unsupported('hash state %s' % T.show(t, 2))
    return T.uf('H', 256, q if q else [C64(0)])


def H(*parts):
    """digest bytes of a concatenation of byte lists and blobs"""
    s = C64(0)
    for p in parts:
        s = absorb(s, p if isinstance(p, list) else [p])
    d = digest(s)
    return [T.ext(d, 8 * i, 8) for i in range(32)]


def message(ps, vals):
    m = b''
    for t, v in zip(ps, vals):
        if t.w == 8:
            m += bytes([v])
        elif t.w == 128:
            off, n = v >> 64, v & (1 << 64) - 1
            if n > 1 << 16:
                raise hist.TooLong('blob')
            m += bytes(hist.in_byte(off + i) for i in range(n))
    return m


# digests chosen by the check for particular messages (shared with the native driver)
CHOSEN = {}


def sm3(m):
    return CHOSEN.get(m) or hashlib.new('sm3', m).digest()


def h_init(ex, fr, st, a, ins):
    ex.store_bytes(st, a[0], C64(0), 8, fr.fn.name)


def h_update(ex, fr, st, a, ins):
    s = ex.load_bytes(st, a[0], 8, fr.fn.name)
    p, n = a[1], a[2]
    if n.op == 'c':
        if n.aux:
            if n.aux > 1 << 16:
                raise E.Unsupported('hash update of %d bytes' % n.aux)
            v = ex.load_bytes(st, p, n.aux, fr.fn.name)
            s = absorb(s, [T.ext(v, 8 * i, 8) for i in range(n.aux)])
    else:
        if not isinstance(p, E.Ptr) or not getattr(p.obj, 'unbounded', False):
            raise E.Unsupported('hash update of symbolic length')
        z = p.obj.size
        ok = T.and_(T.ule(p.off, z), T.ule(n, T.sub(z, p.off)))
        ex.ob('bounds', st, ok, 'read of the hashed bytes of %s' % p.obj.name, fr.fn.name)
        s = absorb(s, [blob(p.obj.name, p.off, n)])
    ex.store_bytes(st, a[0], s, 8, fr.fn.name)


def h_final(ex, fr, st, a, ins):
    s = ex.load_bytes(st, a[0], 8, fr.fn.name)
    ex.store_bytes(st, a[1], digest(s), 32, fr.fn.name)
    q = pieces_of(s)
    # without a reset the object must not be used again
    ex.store_bytes(st, a[0], T.uf('spent', 64, [s]), 8, fr.fn.name)


# ------------------------------------------------------------------ the group
class Group:
    def __init__(self, C):
        self.C = C
        self.n, self.P = codec.fieldname(C), C.p
        self.N = C.order
        self.G = self.pt(*[T.const(C.enc(v), 256) for v in C.gen])
        self.dec = codec.Dec(C)

    def pt(self, X, Y):
        if X.op == 'uf' and X.aux == 'ax' and Y.op == 'uf' and Y.aux == 'ay' and X.args == Y.args:
            return X.args[0]
        return T.uf('ecpt', PW, [X, Y])

    def smul(self, k, Q):
        if Q.op == 'ite':
            return T.ite(Q.args[0], self.smul(k, Q.args[1]), self.smul(k, Q.args[2]))
        return T.uf('smul', PW, [k, Q])

    def sum(self, A, B):
        if A.id > B.id:
            A, B = B, A
        return T.uf('psum', PW, [A, B])

    def ax(self, Q):
        return Q.args[0] if Q.op == 'uf' and Q.aux == 'ecpt' else T.uf('ax', 256, [Q], 0, self.P - 1)

    def ay(self, Q):
        return Q.args[1] if Q.op == 'uf' and Q.aux == 'ecpt' else T.uf('ay', 256, [Q], 0, self.P - 1)

    def xb(self, Q):
        """big-endian bytes of the abscissa"""
        return bytes_be(mont.frm(self.n, self.P, self.ax(Q)))

    def yb(self, Q):
        return bytes_be(mont.frm(self.n, self.P, self.ay(Q)))

    def inf(self, Q):
        if Q.op == 'uf' and Q.aux == 'ecpt':
            return T.FALSE
        if Q.op == 'uf' and Q.aux == 'smul':
            k, B = Q.args
            return T.or_(T.or_(T.eq(k, T.const(0, 256)), T.eq(k, T.const(self.N, 256))), self.inf(B))
        if Q.op == 'ite':
            return T.ite(Q.args[0], self.inf(Q.args[1]), self.inf(Q.args[2]))
        return T.uf('isinf', 1, [Q])

    def on(self, X, Y):
        """(X, Y) is a point of the curve"""
        if X.op == 'uf' and X.aux == 'ax' and Y.op == 'uf' and Y.aux == 'ay' and X.args == Y.args:
            return T.not_(self.inf(X.args[0]))
        if X.op == 'c' and Y.op == 'c':
            return T.TRUE if self.C.on((self.C.dec(X.aux), self.C.dec(Y.aux))) else T.FALSE
        if Y.op == 'ite':
            return T.ite(Y.args[0], self.on(X, Y.args[1]), self.on(X, Y.args[2]))
        if X.op == 'ite':
            return T.ite(X.args[0], self.on(X.args[1], Y), self.on(X.args[2], Y))
        return self.dec.on(X, Y)

    def triple(self, Q):
        return [T.uf('j' + x, 256, [Q], 0, self.P - 1) for x in 'XYZ']

    def parse(self, xs):
        a = xs[0]
        if a.op == 'ite':
            c = a.args[0]
            f = lambda k: self.parse([x.args[k] if x.op == 'ite' and x.args[0] is c else x for x in xs])
            return T.ite(c, f(1), f(2))
        if all(x.op == 'uf' and x.aux == 'j' + k and x.args == a.args for x, k in zip(xs, 'XYZ')):
            return a.args[0]
        if xs[2].op == 'c' and xs[2].aux == mont.R % self.P:
            return self.pt(xs[0], xs[1])
        raise E.Unsupported('a point of unknown origin')

    def handlers(self):
        C = self.C
        hs = codec.field_handlers(C)
        for k, v in codec.encode_contracts(C).items():
            hs[k] = v.handler()
        pre = C.pre
        B = 32

        def aff(c, p):
            X, Y = c.rd(p, B), c.rd(p, B, B)
            for v in (X, Y):
                c.pre(T.ult(v, T.const(C.p, 256)), 'coordinate below the modulus')
            return X, Y

        def wr3(c, r, Q):
            for i, t in enumerate(self.triple(Q)):
                c.wr(r, t, B * i)

        def rd3(c, p):
            return self.parse([c.rd(p, B, B * i) for i in range(3)])

        def mulg(c, r, k):
            wr3(c, r, self.smul(bswap(c.rd(k, 32)), self.G))

        def mula(c, r, k, p):
            X, Y = aff(c, p)
            c.pre(self.on(X, Y), 'the point is on the curve')
            wr3(c, r, self.smul(bswap(c.rd(k, 32)), self.pt(X, Y)))

        def jadd(c, r, p, q):
            wr3(c, r, self.sum(rd3(c, p), rd3(c, q)))

        def jadda(c, r, p, q):
            X, Y = aff(c, q)
            c.pre(self.on(X, Y), 'the point is on the curve')
            wr3(c, r, self.sum(rd3(c, p), self.pt(X, Y)))

        def toa(c, r, p):
            Q = rd3(c, p)
            c.pre(T.not_(self.inf(Q)), 'the point has affine coordinates')
            c.wr(r, self.ax(Q))
            c.wr(r, self.ay(Q), B)

        def check(c, p):
            X, Y = aff(c, p)
            return self.on(X, Y)

        def cpy(n):
            def f(c, r, p):
                for i in range(n):
                    c.wr(r, c.rd(p, B, B * i), B * i)
            return f

        def frb(c, r, used, p, n):
            if n.op == 'c':
                m = min(n.aux, 65)
            elif self.implies(c, T.ule(C64(65), n)):
                m = 65
            else:
                raise E.Unsupported('decoding of a string of symbolic length')
            by = [c.rd(p, 1, i) for i in range(m)]
            ok, X, Y, u = codec.decode_spec(self.dec, by) if by else (T.FALSE, T.const(0, 256), T.const(0, 256), C64(0))
            # callers that go on after a failure do not satisfy the specifications of this layer, whatever the values
            c.wr(r, X)
            c.wr(r, Y, B)
            c.wr(used, u)
            return T.ite(ok, T.const(0, 32), T.const(-1, 32))
        for nm, f in (('j_is_inf', lambda c, p: self.inf(rd3(c, p))), ('j_mul_g', mulg), ('j_mul_a', mula), ('j_add', jadd), ('j_add_a', jadda), ('j_to_a', toa), ('a_check', check),
                      ('a_cpy', cpy(2)), ('j_cpy', cpy(3)), ('a_from_bytes', frb)):
            hs[pre + nm] = Contract(pre + nm, f, []).handler()
        return hs

    @staticmethod
    def implies(c, t):
        return t is T.TRUE or smt.check(list(c.st.pc), t, 20000)[0] == 'proved'

    # concrete interpretation
    def enc(self, Q):
        return INF if Q is None else self.C.enc(Q[0]) | self.C.enc(Q[1]) << 256

    def decp(self, v):
        M = (1 << 256) - 1
        return None if v == INF else (self.C.dec(v & M), self.C.dec(v >> 256))

    def ufs(self):
        C = self.C
        memo = {}

        def smul(t, a):
            k = tuple(a)
            if k not in memo:
                Q = self.decp(a[1])
                memo[k] = self.enc(C.mulp(a[0] % C.order, Q) if C.on(Q) else None)
            return memo[k]
        M = (1 << 256) - 1

        def rt(a):
            x = C.dec(a)
            return codec.sqrt_mod((x ** 3 + C.a * x + C.b) % C.p, C.p)
        d = dict(wide.UFS)
        d.update({
            'ecpt': lambda t, a: a[0] | a[1] << 256,
            'smul': smul,
            'psum': lambda t, a: self.enc(C.addp(self.decp(a[0]), self.decp(a[1]))),
            'ax': lambda t, a: 0 if a[0] == INF else a[0] & M,
            'ay': lambda t, a: 0 if a[0] == INF else a[0] >> 256,
            'isinf': lambda t, a: int(a[0] == INF),
            'oncurve': lambda t, a: int(C.on((C.dec(a[0]), C.dec(a[1])))),
            'ecsq': lambda t, a: int(rt(a[0]) is not None),
            'ecroot': lambda t, a: C.enc(rt(a[0]) or 0),
            'H': lambda t, a: int.from_bytes(sm3(message(t.args, a)), 'little'),
            'hst': lambda t, a: 0,
        })
        return d


class Ufs(dict):
    def __contains__(self, k):
        return dict.__contains__(self, k) or isinstance(k, str) and (k.startswith('blob:') or k.startswith('blobbyte:'))

    def __missing__(self, k):
        if isinstance(k, str) and k.startswith('blob:'):
            return lambda t, a: a[0] << 64 | a[1]
        if isinstance(k, str) and k.startswith('blobbyte:'):
            return lambda t, a: hist.in_byte(a[0])
        raise KeyError(k)

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d


def bytes_be(t):
    return [T.ext(t, t.w - 8 - 8 * i, 8) for i in range(t.w // 8)]


def cb(v, n=32):
    return [T.const(x, 8) for x in v.to_bytes(n, 'big')]


def val(bs):
    """big-endian integer of bytes"""
    return T.cat(*bs)


# ------------------------------------------------------------------ the random source
class Again(Exception):
    pass


class PRun(hist.Run):
    """a history with random draws"""

    def __init__(self, r, prog, G, name='', lib=None, pre=(), **kw):
        hs = G.handlers()
        hs.update({'vc_h_init': h_init, 'vc_h_update': h_update, 'vc_h_final': h_final, 'vc_rng_gen': self.gen})
        self.G = G
        self.nn, self.N = G.C.field + 'n', G.N
        hs.update(scalar_handlers(G.C))
        super().__init__(r, prog, hs, Ufs(G.ufs()), decide=self.branch, lib=lib, pre=pre, name=name, backend=self.canonical, **kw)
        self.decisions = {}
        self.stream = []
        self.sites = {}
        self.D = {}
        self.again = []
        self.newD = None
        self.smt_limit = 60000
        self.same, self.reps = {}, {}

    def ubuf(self, name, size):
        b = super().ubuf(name, size)
        b.obj.default = lambda off: T.uf('blobbyte:' + name, 8, [off if isinstance(off, T.T) else T.const(off, 64)])
        return b

    # --- deciding with the field facts
    def unify(self, ts):
        """one term for the hashed bytes that are equal as bit vectors"""
        new = []
        seen = set()
        todo = list(ts)
        while todo:
            t = todo.pop()
            if t in seen or not t.args:
                continue
            seen.add(t)
            todo.extend(t.args)
            if t.op == 'uf' and t.aux == 'H':
                new.extend(a for a in t.args if a.w == 8 and a.op not in ('c', 'v', 'uf') and a not in self.same)
        for a in new:
            if a in self.same:
                continue
            self.same[a] = a
            vs = plain_vars(a)
            if vs is None:
                continue
            reps = self.reps.setdefault(vs, [])
            for b in reps:
                if smt.check([], T.eq(a, b), 2000)[0] == 'proved':
                    self.same[a] = b
                    break
            else:
                reps.append(a)
        m = {a: b for a, b in self.same.items() if a is not b}
        return T.subst(list(ts), m) if m else list(ts)

    def canon(self, ts):
        ts = self.unify(ts)
        K = fcanon.Canon([self.G.n, self.nn])
        return K, [K.go(t) for t in ts]

    def facts(self, ts):
        out = []
        seen = set()
        todo = list(ts)
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            todo.extend(t.args)
            if t.op == 'uf' and t.aux.startswith('to:') and t.aux[3:] in mont.MODULI:
                n = t.aux[3:]
                P = mont.MODULI[n]
                v = t.args[0]
                f = T.uf('from:' + n, 256, [t], 0, P - 1)
                out.append(T.or_(T.ule(T.const(P, v.w), v), T.eq(f, T.zext(v, 256) if v.w < 256 else v)))
        return out

    def prove(self, pc, goal, limit=None):
        # cases by the atoms that select what is hashed
        for a in hashed_atoms(goal):
            for v in (T.TRUE, T.FALSE):
                ts = T.subst(list(pc) + [goal], {a: v})
                s = self.prove(ts[:-1] + [a if v is T.TRUE else T.not_(a)], ts[-1], limit)
                if s[0] != 'proved':
                    return s
            return 'proved', None
        K, ts = self.canon(list(pc) + [goal])
        side = list(K.side)
        asm = ts[:-1]
        for s in side:
            if s is T.TRUE:
                continue
            if smt.check(asm + self.facts(asm + [s]), s, self.smt_limit)[0] != 'proved':
                return 'failed', None
        if ts[-1] is T.TRUE:
            return 'proved', None
        return smt.check(asm + self.facts(ts), ts[-1], limit or self.smt_limit)

    def branch(self, ex, st, c):
        pc = list(st.pc) + ex.facts
        K, ts = self.canon(pc + [c])
        if ts[-1].op == 'c' and not K.side:
            return bool(ts[-1].aux)
        if K.side:
            return None
        key = tuple(ts)
        if key not in self.decisions:
            self.decisions[key] = self.decision(ts)
        return self.decisions[key]

    def decision(self, ts):
        f = self.facts(ts)
        if smt.sat(ts[:-1] + f + [ts[-1]], 20000)[0] is False:
            return False
        if smt.sat(ts[:-1] + f + [T.not_(ts[-1])], 20000)[0] is False:
            return True
        return None

    def canonical(self, got, want):
        s, _ = self.prove(list(self.st.pc) + self.ex.facts, T.eq(got, want))
        return 'field normal forms + z3' if s == 'proved' else None

    def flush_obs(self):
        ex = self.ex
        for o in ex.obs[self.nobs[0]:]:
            if self.prove(list(o.pc) + ex.facts, o.cond)[0] == 'proved':
                self.r.ok('z3')
                ex.obs.remove(o)
        super().flush_obs()

    # --- random draws
    def frames(self, fr):
        out = []
        while fr is not None:
            out.append(fr)
            fr = fr.parent
        return out[::-1]

    def gen(self, ex, fr, st, a, ins):
        n = a[1]
        if n.op != 'c':
            raise E.Unsupported('random draw of symbolic length')
        n = n.aux
        chain = self.frames(fr)
        site = tuple([f.fn.name for f in chain] + [id(ins)])
        seen = st.ghost.get('draws', ())
        for s0, snap in seen:
            if s0 != site:
                continue
            # another round of the loop: everything outside D must be as it was
            extra = {}
            for o, m in snap['mem'].items():
                now = st.mem.get(o)
                if now is m or now is None:
                    continue
                cells = set(m.cells) | set(now.cells)
                for k in cells:
                    x, y = m.cells.get(k), now.cells.get(k)
                    if x is None and o.kind in ('alloca', 'heap'):
                        continue        # uninitialised before
                    if not same_cell(x, y) and (o, k) not in snap['D']:
                        extra.setdefault('mem', set()).add((o.name, k))
            for o, now in st.mem.items():
                if o not in snap['mem'] and o.kind not in ('alloca', 'heap', 'global'):
                    extra.setdefault('mem', set()).update((o.name, k) for k in now.cells)
                    extra.setdefault('obj', set()).add(o)
            for d, (f, env) in enumerate(zip(chain, snap['env'])):
                for k, x in env.items():
                    y = f.env.get(k)
                    if not E.same(x, y) and (d, k) not in snap['Denv']:
                        extra.setdefault('env', set()).add((d, k))
            if extra:
                for k, v in extra.items():
                    self.newD.setdefault(k, set()).update(v)
            self.again.append(st.pc)
            raise E.Infeasible()
        # first draw at this place: what the loop changes is arbitrary from here on
        D, Denv = set(), set()
        nv = [0]

        def carried(w):
            # the same names in every run of the same history, so that decisions can be reused
            nv[0] += 1
            return T.var('carried_%d_%d_%d' % (len(seen), nv[0], len(self.steps)), w)
        for o in self.D.get('obj', ()):
            ex.cells_of(st, o, True)
        for o in list(st.mem):
            ks = sorted((k for (nm, k) in self.D.get('mem', ()) if nm == o.name), key=str)
            for k in ks:
                m = ex.cells_of(st, o, True)
                m.cells[k] = (carried(8), 0)
                D.add((o, k))
        for d, k in sorted(self.D.get('env', ()), key=str):
            f = chain[d]
            x = f.env.get(k)
            if not isinstance(x, T.T):
                raise E.Unsupported('a pointer carried around the retry loop')
            f.env[k] = carried(x.w)
            Denv.add((d, k))
        st.tok = object()          # later writes copy
        snap = {'mem': dict(st.mem), 'D': D, 'Denv': Denv, 'env': [dict(f.env) for f in chain]}
        st.ghost['draws'] = seen + ((site, snap),)
        pos = st.ghost.get('drawn', 0)
        bs = self.stream[pos:pos + n]
        if len(bs) < n:
            raise E.Unsupported('more random bytes drawn than the specification allows')
        st.ghost['drawn'] = pos + n
        for i, b in enumerate(bs):
            ex.store_bytes(st, E.padd(a[0], i), b, 1, fr.fn.name)

    def dry(self, fn, args):
        """find what the retry loop changes"""
        ex = self.ex
        a = [self.arg(x) for x in args]
        f = self.prog.fn(fn)
        self.D = {}
        for _ in range(8):
            self.newD = {}
            self.again = []
            keep = (list(ex.obs), ex.nob, ex.nob_discharged, list(ex.throws))
            st = self.st.fork()
            st.ghost = dict(st.ghost)
            st.ghost['draws'] = ()
            st.ghost['drawn'] = 0
            try:
                ex.call(f, list(a), st)
            finally:
                ex.obs[:], ex.nob, ex.nob_discharged, ex.throws[:] = keep[0], keep[1], keep[2], keep[3]
            if not self.newD:
                return
            for k, v in self.newD.items():
                self.D.setdefault(k, set()).update(v)
        raise E.Unsupported('the retry loop has no stable set of changed variables')

    def arg(self, x):
        if isinstance(x, hist.Buf):
            return E.Ptr(x.obj, C64(0))
        if isinstance(x, tuple) and isinstance(x[0], hist.Buf):
            return E.Ptr(x[0].obj, C64(x[1]))
        if x is None:
            return E.NULL
        return C64(x) if isinstance(x, int) else x

    def draw(self, fn, args, stream, again=T.FALSE, **kw):
        """a call that draws random bytes: `stream` are the bytes of the draw that is accepted, `again` the condition
        (on those bytes) under which another draw is required"""
        if self.dead:
            return None
        self.stream = stream
        pc0 = self.st.pc
        self.dry(fn, args)
        cond = T.FALSE
        for pc in self.again:
            c = T.TRUE
            for x in pc:
                if x not in pc0:
                    c = T.and_(c, x)
            cond = T.or_(cond, c)
        s = hist.Step()
        s.fn, s.args, s.ret, s.throws, s.label, s.mem = fn, list(args), None, None, fn, []
        th = kw.get('throws')
        saved = self.st
        if th is not None and th is not True:
            self.st = self.st.fork()
            self.ex.assume(self.st, T.not_(th))
        try:
            good = again is None or self.check(cond, again, s, ('again',), 'draws again exactly when the standard requires')
        finally:
            self.st = saved
        if not good:
            self.dead = True
            return None
        self.st.ghost = dict(self.st.ghost)
        self.st.ghost['draws'] = ()
        self.st.ghost['drawn'] = 0
        kb = self.buf('stream', len(stream), list(stream))
        self.steps.append(script_step(kb, len(stream)))
        r = self.call(fn, args, **kw)
        if not self.dead:
            d = self.st.ghost.get('drawn', 0)
            if d != len(stream):
                self.r.fail('failed')
                self.r.notes.append('%s: %d random bytes drawn, the specification says %d' % (fn, d, len(stream)))
        return r


def plain_vars(t):
    """the variables of a small term without function symbols"""
    vs, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'uf' or len(seen) > 40:
            return None
        if x.op == 'v':
            vs.add(x)
        todo.extend(x.args)
    return frozenset(vs)


def hashed_atoms(t):
    out, seen = [], set()
    todo = [(t, False)]
    while todo:
        x, under = todo.pop()
        if (x, under) in seen:
            continue
        seen.add((x, under))
        if under and x.op == 'uf' and x.aux in ('isinf', 'isinf2'):
            out.append(x)
        under = under or x.op == 'uf' and x.aux == 'H'
        todo.extend((y, under) for y in x.args)
    return out


def script_step(kb, n):
    s = hist.Step()
    s.fn, s.args, s.ret, s.throws, s.label, s.mem = 'vc_script', [kb, n], None, None, 'vc_script', []
    return s


def same_cell(x, y):
    if x is y:
        return True
    if x is None or y is None:
        return False
    a, b = x[0], y[0]
    if isinstance(a, T.T) and isinstance(b, T.T):
        if a.w == b.w and x[1] == y[1] and a is b:
            return True
        return T.ext(a, 8 * x[1], 8) is T.ext(b, 8 * y[1], 8)
    return x[1] == y[1] and E.same(a, b)


def scalar_handlers(C):
    """reductions of scalars (N05)"""
    hs = {}
    pre = CV.PRE[C.field]
    N = C.order
    n = C.field + 'n'
    for k in (1, 2, 3):
        def sub(c, a, k=k):
            x = c.rd(a, 32)
            D = T.const(N - k, 256)
            c.wr(a, T.ite(T.ult(x, D), x, T.sub(x, D)))
        hs[pre + 'bn_mod_n_sub%d' % k] = Contract(pre + 'bn_mod_n_sub%d' % k, sub, []).handler()

    def ex_(c, s, d, l):
        if l.op != 'c':
            raise E.Unsupported('symbolic length')
        v = val([c.rd(d, 1, i) for i in range(l.aux)]) if l.aux else T.const(0, 256)
        if v.w > 256:
            v = wide.wide(n, v)
        c.wr(s, mont.to(n, N, T.zext(v, 256) if v.w < 256 else v))
    hs[pre + 'fn_from_bytes_ex'] = Contract(pre + 'fn_from_bytes_ex', ex_, []).handler()
    return hs
