"""Histories: sequences of calls on the real code with symbolic contents and concrete lengths.

A history runs symbolically (every byte of every input is a variable); after each call the bytes the contract names are
compared with the specification's terms, and everything not named must be unchanged (exact-size buffers detect any
access outside).  The same history can be replayed on the native library."""
import ctypes
import random
import bitcanon
import exec as E
import fe
import fw
import smt
import term as T


class Mismatch(Exception):
    pass


class Buf:
    _n = 0

    def __init__(self, name, size, terms=None):
        self.name = name
        self.size = size
        self.terms = terms
        self.obj = E.Obj(name, size, 'arg')


def bv(name, n):
    """n fresh symbolic bytes"""
    return [T.var('%s%d' % (name, i), 8) for i in range(n)]


def cbytes(bs):
    return [T.const(b, 8) for b in bs]


def word(bs):
    """little-endian memory word of bytes"""
    return T.cat(*reversed(bs)) if bs else None


def unword(t):
    return [T.ext(t, 8 * i, 8) for i in range(t.w // 8)]


def in_byte(i):
    return ((i * 197 + 13) ^ (i >> 7) ^ (i >> 3)) & 255


class TooLong(KeyError):
    pass


class Step:
    __slots__ = ('fn', 'args', 'ret', 'mem', 'throws', 'label')


class Run:
    """one history under construction"""

    def __init__(self, r, prog, handlers, ufs, decide=None, lib=None, pre=(), name='', backend=None, smt_limit=20000, budget=30000000):
        self.r = r
        self.ex = E.Exec(prog, handlers, decide=decide, budget=budget)
        self.prog = prog
        self.ufs = ufs
        self.lib = lib
        self.st = E.State()
        self.steps = []
        self.bufs = []
        self.pre = list(pre)
        self.name = name
        self.backend = backend
        self.smt_limit = smt_limit
        self.dead = False
        for c in pre:
            self.ex.assume(self.st, c)
        self.nobs = [0]
        self.gens = {}
        self.failed = [False]
        self.maxviol = 3

    def fork(self):
        o = object.__new__(Run)
        o.__dict__.update(self.__dict__)
        o.st = self.st.fork()
        o.steps = list(self.steps)
        o.bufs = list(self.bufs)
        return o

    def buf(self, name, size, terms=None):
        b = Buf(name, size, terms)
        if terms is not None:
            m = self.ex.cells_of(self.st, b.obj, True)
            for i, t in enumerate(terms):
                m.cells[i] = (t, 0)
        self.bufs.append(b)
        return b

    def ubuf(self, name, size):
        """an input of symbolic size; byte i is in(i)"""
        b = Buf(name, size)
        b.obj = E.Obj(name, size, 'arg', const=True, default=lambda off: T.uf('in', 8, [off if isinstance(off, T.T) else T.const(off, 64)]))
        b.obj.unbounded = True
        self.bufs.append(b)
        return b

    def mem(self, b, off, n):
        return [fw.mem_get(self.ex, self.st, b.obj, off + i, 1) for i in range(n)]

    def obj(self, name, sizefn):
        f = self.prog.fn(sizefn)
        s = E.State()
        _, v = self.ex.call(f, [], s)
        return self.buf(name, v.aux)

    def call(self, fn, args, mem=(), ret=None, throws=None, keep=(), label=''):
        """mem: [(buf, off, [terms])] contents required afterwards; keep: buffers that must be unchanged;
        throws: None (must not), True (must), or a condition under which it throws (the rest is then checked without it)"""
        if self.dead:
            return None
        s = Step()
        s.fn, s.args, s.ret, s.throws, s.label = fn, list(args), ret, throws, label or fn
        s.mem = list(mem)
        before = {b: [fw.mem_get(self.ex, self.st, b.obj, i, 1) for i in range(b.size)] for b in keep}
        for b in keep:
            s.mem.append((b, 0, before[b]))
        self.steps.append(s)
        a = []
        for x in args:
            if isinstance(x, Buf):
                a.append(E.Ptr(x.obj, T.const(0, 64)))
            elif isinstance(x, tuple) and isinstance(x[0], Buf):
                a.append(E.Ptr(x[0].obj, T.const(x[1], 64)))
            elif x is None:
                a.append(E.NULL)
            elif isinstance(x, int):
                a.append(T.const(x, 64))
            else:
                a.append(x)
        f = self.prog.fn(fn)
        self.r.contract.add(E.short(f.name))
        n0 = len(self.ex.throws)
        pc0 = self.st.pc
        try:
            st2, v = self.ex.call(f, a, self.st)
        except E.OutOfBounds as e:
            self.report(None, 'memory safety: ' + str(e), crash=True)
            self.dead = True
            return None
        th = self.ex.throws[n0:]
        cond = T.FALSE
        for t in th:
            c = T.TRUE
            for x in t.pc:
                if x not in pc0:
                    c = T.and_(c, x)
            cond = T.or_(cond, c)
        del self.ex.throws[n0:]
        want = T.FALSE if throws is None else (T.TRUE if throws is True else throws)
        if st2 is None and not th:
            self.report(None, 'no normal return')
            self.dead = True
            return None
        if not self.check(cond, want, s, ('throw',), 'throws exactly when the contract says so'):
            self.dead = True
            return None
        if st2 is None:
            self.dead = True
            return None
        self.st = st2
        self.flush_obs()
        if ret is not None and v is not None:
            if not isinstance(ret, T.T):
                ret = T.const(ret, v.w)
            self.check(v, ret, s, ('ret',), 'return value')
        for b, off, ts in s.mem:
            if not ts:
                continue
            try:
                got = self.mem(b, off, len(ts))
            except Exception as e:
                if isinstance(e, E.OutOfBounds):
                    raise
                raise
            bad = [i for i in range(len(ts)) if got[i] is not ts[i]]
            if not bad:
                self.r.ok('simplifier')
                continue
            g = T.cat(*reversed([got[i] for i in bad]))
            w = T.cat(*reversed([ts[i] for i in bad]))
            self.check(g, w, s, ('mem', b, off), '%s[%d..%d]' % (b.name, off, off + len(ts)), pos=bad)
        return v

    # ------------------------------------------------------------------ obligations
    def flush_obs(self):
        ex = self.ex
        obs = ex.obs[self.nobs[0]:]
        self.nobs[0] = len(ex.obs)
        for o in obs:
            res, env = smt.check(list(o.pc) + ex.facts, T.eq(o.cond, T.TRUE), self.smt_limit)
            if res == 'proved':
                self.r.ok('z3')
            elif res == 'unknown':
                self.r.fail('undecided')
                self.r.notes.append('solver time limit: %s: %s' % (o.kind, o.desc))
            else:
                self.report(env if res == 'refuted' else None, '%s: %s' % (o.kind, o.desc), crash=True)

    def check(self, got, want, s, where, label, pos=None):
        r = self.r
        if got is want:
            r.ok('simplifier')
            return True
        env = self.concrete(got, want)
        if env is not None:
            self.report(env, '%s: %s' % (s.label, label), got, want)
            return False
        if self.backend is not None:
            k = self.backend(got, want)
            if k:
                r.ok(k)
                return True
        res, env = smt.check(list(self.st.pc) + self.ex.facts, T.eq(got, want), self.smt_limit)
        if res == 'proved':
            r.ok('z3')
            return True
        if res == 'refuted':
            env = dict(env)
            env['__default__'] = lambda t: t.lo
            try:
                a, b = T.evaluate([got, want], env, self.ufs)
                if a != b:
                    self.report(env, '%s: %s' % (s.label, label), got, want)
                    return False
            except KeyError:
                pass
        r.fail('failed')
        r.notes.append('not discharged: %s %s: %s' % (self.name, s.label, label))
        return False

    def concrete(self, got, want):
        for k in range(6):
            R = random.Random(fw.SEED * 1009 + k)
            env = fw.gen_env(R, self.gens)
            try:
                if self.st.pc and not all(T.evaluate(list(self.st.pc), env, self.ufs)):
                    continue
                a, b = T.evaluate([got, want], env, self.ufs)
            except KeyError as e:
                return None
            if a != b:
                return env
        return None

    # ------------------------------------------------------------------ violations
    def report(self, env, what, got=None, want=None, crash=False):
        r = self.r
        r.fail('refuted')
        if len(r.violations) >= self.maxviol:
            return
        v = {'obligation': '%s: %s' % (self.name, what), 'confirmed': False, 'history': [self.show(s) for s in self.steps]}
        if got is not None and env is not None:
            a, b = T.evaluate([got, want], env, self.ufs)
            v['verifier'] = {'code computes': hex(a), 'contract requires': hex(b)}
        v['what'] = what
        if self.lib is not None:
            try:
                e = env
                if e is None:
                    e = fw.gen_env(random.Random(fw.SEED), self.gens)
                w = self.native(e)
                if w:
                    v['confirmed'] = True
                    v['what'] = w
                    v['inputs'] = {b.name: bytes(T.evaluate(b.terms, e, self.ufs)).hex() for b in self.bufs if b.terms}
            except Exception as ex:
                v['replay'] = 'replay failed: %s' % ex
        r.violations.append(v)

    def show(self, s):
        def a(x):
            if isinstance(x, Buf):
                return x.name
            if isinstance(x, tuple):
                return '%s+%d' % (x[0].name, x[1])
            if x is None:
                return 'null'
            return str(x) if isinstance(x, int) else T.show(x, 2)
        return '%s(%s)' % (s.fn, ', '.join(a(x) for x in s.args))

    def native(self, env):
        """replay the history on the real code; returns a description of the first difference, or None"""
        lib = self.lib() if callable(self.lib) else self.lib
        gb = {}
        for b in self.bufs:
            if isinstance(b.size, T.T):
                n = T.evaluate([b.size], env, self.ufs)[0]
                if n > 1 << 16:
                    return None
                data = bytearray(in_byte(i) for i in range(n))
            else:
                data = bytearray(random.Random(fw.SEED + len(gb)).randbytes(b.size))
            if b.terms is not None:
                data[:len(b.terms)] = bytes(T.evaluate(b.terms, env, self.ufs))
            gb[b] = fw.Guarded(data)
        wants = []
        for s in self.steps:
            m = [(b, off, bytes(T.evaluate(ts, env, self.ufs))) for b, off, ts in s.mem if ts]
            th = s.throws
            if isinstance(th, T.T):
                th = bool(T.evaluate([th], env, self.ufs)[0])
            rt = None
            if s.ret is not None:
                rt = s.ret if isinstance(s.ret, int) else T.evaluate([s.ret], env, self.ufs)[0]
            wants.append((m, bool(th), rt))

        def go():
            for s, (m, th, rt) in zip(self.steps, wants):
                f = getattr(lib, s.fn)
                f.restype = ctypes.c_uint64
                ca = []
                for x in s.args:
                    if isinstance(x, Buf):
                        ca.append(ctypes.c_void_p(gb[x].addr))
                    elif isinstance(x, tuple):
                        ca.append(ctypes.c_void_p(gb[x[0]].addr + x[1]))
                    elif x is None:
                        ca.append(ctypes.c_void_p(0))
                    elif isinstance(x, int):
                        ca.append(ctypes.c_uint64(x))
                    else:
                        ca.append(ctypes.c_uint64(T.evaluate([x], env, self.ufs)[0]))
                rc = f(*ca)
                threw = lib.vc_threw() != 0
                if threw != th:
                    return '%s %s an exception; the contract requires %s' % (self.show(s), 'throws' if threw else 'does not throw', 'one' if th else 'none')
                if threw:
                    return None
                if rt is not None:
                    w = s.ret.w if isinstance(s.ret, T.T) else 32
                    if (rc ^ rt) & ((1 << w) - 1):
                        return '%s returns %#x, the contract requires %#x' % (self.show(s), rc & ((1 << w) - 1), rt)
                for b, off, d in m:
                    got = ctypes.string_at(gb[b].addr + off, len(d))
                    if got != d:
                        return 'after %s: %s[%d..%d] is %s, the contract requires %s' % (self.show(s), b.name, off, off + len(d), got.hex(), d.hex())
                for b in gb:
                    if not gb[b].before_intact():
                        return 'after %s: write before the start of %s' % (self.show(s), b.name)
            return None
        res = fw.in_child(go)
        for g in gb.values():
            g.free()
        if res[0] == 'ok':
            return res[1]
        if res[0] == 'signal':
            return 'the history %s crashes with signal %d' % (' ; '.join(self.show(s) for s in self.steps), res[1])
        if res[0] == 'timeout':
            return 'the history does not terminate'
        return None

    def done(self):
        self.r.merge_exec(self.ex)
