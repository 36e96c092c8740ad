"""Any number of blocks: f(out, in, N) = f(out, in, g) ; f(out + g u, in + g u, N - g), for every N in a range, every content
and every object state, for the function whose loop consumes the stream.

The function is executed with a symbolic count up to the second arrival at the head of the loop, and, separately, with the
concrete count g to its end and then again, on the memory it left, with the remaining count and the advanced pointers up to
the first arrival at the same loop head.  When both arrive in the same state (live registers and memory) the rest of the
execution is the same, so the equation holds; with the counts below the range verified one by one, every count follows by
induction (the specification is the same fold).  A loop whose shape does not allow this leaves the count bounded: the lemma
never raises an alarm."""
import re
import signal
import exec as E
import fw
import smt
import term as T

NAME = re.compile(r'%(?:"[^"]*"|[-\w.$]+)')


class NoLemma(Exception):
    pass


class Cut(Exception):
    def __init__(self, fr, blk, st, first):
        self.fr, self.blk, self.st, self.first = fr, blk, st, first


def heads(fn):
    """targets of back edges"""
    h = getattr(fn, '_heads', None)
    if h is not None:
        return h
    h, state, stack = set(), {}, [(fn.entry, iter(fn.succs(fn.entry)))]
    state[fn.entry] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if state.get(s) == 1:
                h.add(s)
            elif s not in state:
                state[s] = 1
                stack.append((s, iter(fn.succs(s))))
                break
        else:
            state[b] = 2
            stack.pop()
    fn._heads = h
    return h


def reach(fn, b):
    seen, todo = {b}, [b]
    while todo:
        for s in fn.succs(todo.pop()):
            if s not in seen:
                seen.add(s)
                todo.append(s)
    return seen


def live(fn, b):
    """names the code from block b on may use (the phis of b are evaluated)"""
    R = reach(fn, b)
    out = set()
    for x in R:
        for ins in fn.blocks[x]:
            if ins.op == 'phi':
                for p, v in ins.a.items():
                    if p in R and v[0] == 'l':
                        out.add(v[1])
                if x == b:
                    out.add(ins.res)
                continue
            out |= set(NAME.findall(ins.text))
    return out


def mentions(v, N, memo):
    if isinstance(v, T.T):
        return N.aux in T.free_vars([v])
    if isinstance(v, E.Ptr):
        return isinstance(v.off, T.T) and mentions(v.off, N, memo)
    return False


class Watch:
    def __init__(self, N, target=None):
        self.N = N
        self.target = target
        self.seen = {}

    def __call__(self, ex, fr, st, blk, prev):
        if self.target is not None:
            if (fr.fn.name, blk) == self.target:
                raise Cut(fr, blk, st, None)
            return None
        if blk not in heads(fr.fn):
            return None
        k = (id(fr), blk)
        first = self.seen.get(k)
        if first is None:
            self.seen[k] = (fr, dict(fr.env))
            return None
        env1 = first[1]
        dep = [env1[i.res] for i in fr.fn.blocks[blk] if i.op == 'phi']
        t = fr.fn.blocks[blk][-1]
        if t.op == 'br' and t.a[0] is not None and t.a[0][0] == 'l':
            dep.append(fr.env.get(t.a[0][1]))
        if any(mentions(v, self.N, None) for v in dep):
            raise Cut(fr, blk, st, env1)
        return None


def executor(prog, handlers, decide=E.smt_decide):
    return E.Exec(prog, handlers, decide=decide, budget=30000000)


class KeepEntry(E.Exec):
    def call(self, f, args, st):
        stack = self.__dict__.setdefault('entries', [])
        stack.append((f, list(args), st.fork()))
        r = E.Exec.call(self, f, args, st)
        stack.pop()
        return r


def eqv(a, b, pc, facts):
    if a is b:
        return True
    if isinstance(a, T.T) and isinstance(b, T.T):
        if a.w != b.w:
            return False
        res, _ = smt.check(list(pc) + facts, T.eq(a, b), 10000)
        return res == 'proved'
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(eqv(x, y, pc, facts) for x, y in zip(a, b))
    if isinstance(a, E.FPtr) and isinstance(b, E.FPtr):
        return a.name == b.name
    return False


def settle(ex, st):
    """the side obligations (bounds) of a run"""
    for o in ex.obs:
        res, _ = smt.check(list(o.pc) + ex.facts, T.eq(o.cond, T.TRUE), 10000)
        if res != 'proved':
            raise NoLemma('side obligation %s: %s' % (o.kind, o.desc))
    n = ex.nob
    return n


def step(prog, handlers, driver, mk, lo, hi, carry=None, req=None):
    """one range lo <= N < hi (hi None: no bound).  mk(ex, st, N) -> (args, {stream object: unit})
    -> (g, obligations)"""
    N = T.var('N', 64)
    ex = KeepEntry(prog, handlers, decide=E.smt_decide, budget=30000000)
    st = E.State()
    args, streams = mk(ex, st, N)[:2]
    pre = [T.ule(T.const(lo, 64), N), T.ult(N, T.const(1 << 52 if hi is None else hi, 64))]
    for c in pre:
        ex.assume(st, c)
    ex.loop_hook = Watch(N)
    try:
        ex.call(prog.fn(driver), args, st)
    except Cut as c:
        cut = c
    else:
        raise NoLemma('no loop over the count')
    leaf, largs, lst = ex.entries[-1]
    if cut.fr.fn is not leaf:
        raise NoLemma('cut outside the innermost call')
    settle(ex, None)
    # the callers pass the stream on to exactly one call and do nothing else with the count
    if len(ex.entries) > 1:
        seen = []

        def h(ex2, fr, st2, a, ins):
            seen.append(a)
            return T.const(0, 64) if ins.res is None else T.var('leafret', E.width(fr.mod, ins.ty) if ins.ty != ('void',) else 64)
        ex2 = executor(prog, dict(handlers, **{leaf.name: h, E.short(leaf.name): h}))
        st2 = E.State()
        a2 = mk(ex2, st2, N)[0]
        for c in pre:
            ex2.assume(st2, c)
        s3, _ = ex2.call(prog.fn(driver), a2, st2)
        if s3 is None or len(seen) != 1 or ex2.throws:
            raise NoLemma('the callers do more than pass the stream on')
        settle(ex2, None)
    # arbitrary contents wherever the state before the call is symbolic
    base = E.State()
    for c in pre:
        base.pc = base.pc + (c,)
    objs = {}
    for o, m in lst.mem.items():
        if o in streams or o.kind == 'global':
            base.mem[o] = E.OM(dict(m.cells), base.tok)
            continue
        cells = {}
        for k, (v, i) in m.cells.items():
            if isinstance(v, T.T) and not (v.op == 'c'):
                cells[k] = (T.var('h.%s[%s]' % (o.name, k), 8), 0)
            else:
                cells[k] = (v, i)
        base.mem[o] = E.OM(cells, base.tok)
        objs[o] = cells
    NOB = [0]
    if req is not None:
        e = executor(prog, handlers)
        for c in req(lambda o, off, n: fw.mem_get(e, base, o, off, n), largs, N):
            base.pc = base.pc + (c,)

    def go(a, s, hook):
        e = executor(prog, handlers)
        e.loop_hook = hook
        try:
            r = e.call(leaf, a, s)
        except Cut as c:
            settle(e, None)
            if e.throws:
                raise NoLemma('throws')
            NOB[0] += e.nob
            return c
        settle(e, None)
        if e.throws:
            raise NoLemma('throws')
        NOB[0] += e.nob
        return r
    c1 = go(largs, base.fork(), Watch(N))
    if not isinstance(c1, Cut):
        raise NoLemma('no second iteration')
    blk, fn = c1.blk, leaf
    g = None
    for ins in fn.blocks[blk]:
        if ins.op != 'phi':
            break
        a, b = c1.first[ins.res], c1.fr.env[ins.res]
        if isinstance(a, E.Ptr) and isinstance(b, E.Ptr) and a.obj is b.obj and a.obj in streams:
            d = T.sub(b.off, a.off)
            if d.op == 'c' and d.aux and d.aux % streams[a.obj] == 0:
                k = d.aux // streams[a.obj]
                if g is not None and g != k:
                    raise NoLemma('unequal strides')
                g = k
    if not g or g > lo:
        raise NoLemma('no stride')

    def subst(a, m, shift):
        if isinstance(a, E.Ptr):
            off = T.subst([a.off], m)[0] if isinstance(a.off, T.T) else a.off
            if shift and a.obj in streams:
                off = T.add(off, T.const(shift * streams[a.obj], 64))
            return E.Ptr(a.obj, off)
        if isinstance(a, T.T):
            return T.subst([a], m)[0]
        return a
    r2 = go([subst(a, {N: T.const(g, 64)}, 0) for a in largs], base.fork(), None)
    s2, ret = r2
    if s2 is None:
        raise NoLemma('no return')
    # constant and pointer contents of the objects are unchanged
    for o, cells in objs.items():
        m = s2.mem.get(o)
        for k, (v, i) in cells.items():
            if not isinstance(v, T.T) or v.op == 'c':
                if m.cells.get(k) is None or m.cells[k][0] is not v:
                    w = m.cells.get(k)
                    if not (w is not None and isinstance(w[0], T.T) and isinstance(v, T.T) and T.ext(w[0], 8 * w[1], 8) is T.ext(v, 8 * i, 8)):
                        raise NoLemma('changes a constant part of %s' % o.name)
    a2 = [subst(a, {N: T.sub(N, T.const(g, 64))}, g) for a in largs]
    if carry is not None:
        a2 = [ret if (isinstance(a, T.T) and a is carry) else a for a in a2]
    mid = s2.fork()
    mid.pc = base.pc
    if req is not None:
        e = executor(prog, handlers)
        for c in req(lambda o, off, n: fw.mem_get(e, mid, o, off, n), a2, T.sub(N, T.const(g, 64))):
            if smt.check(list(base.pc), c, 10000)[0] != 'proved':
                raise NoLemma('the precondition does not carry over')
            NOB[0] += 1
    known = set(base.mem)
    c2 = go(a2, mid, Watch(N, (fn.name, blk)))
    if not isinstance(c2, Cut):
        raise NoLemma('the rest does not reach the loop')
    # compare the two states
    L = live(fn, blk)
    pairs = {}
    pc = list(c1.st.pc)
    for p in c2.st.pc:
        if p not in pc and smt.check(pc, p, 10000)[0] != 'proved':
            raise NoLemma('a case of the rest is not covered')

    def same(x, y, what):
        NOB[0] += 1
        if isinstance(x, E.Ptr) and isinstance(y, E.Ptr):
            if x.obj is not y.obj:
                if x.obj is None or y.obj is None or x.obj.kind != 'alloca' or y.obj.kind != 'alloca' or pairs.get(y.obj, x.obj) is not x.obj:
                    raise NoLemma('%s: different objects' % what)
                pairs[y.obj] = x.obj
            if not eqv(x.off, y.off, pc, []):
                raise NoLemma('%s: different positions' % what)
            return
        if not eqv(x, y, pc, []):
            raise NoLemma('%s differs' % what)
    for k, y in c2.fr.env.items():
        if k in L:
            x = c1.fr.env.get(k)
            if x is None:
                raise NoLemma('%s undefined' % k)
            same(x, y, k)
    done, stale = set(), []
    while True:
        todo = [o for o in c2.st.mem if o not in done and not (o.kind == 'alloca' and o not in known and o not in pairs)]
        if not todo:
            break           # the rest are locals of calls that have returned
        done |= set(todo)
        for o2 in todo:
            m2, o1 = c2.st.mem[o2], pairs.get(o2, o2)
            m1 = c1.st.mem.get(o1)
            if o2.kind == 'global' and (m1 is None or m1 is m2 or m1.cells == m2.cells):
                continue
            ks = set(m2.cells)
            if o2.kind != 'alloca' and m1 is not None:
                ks |= set(m1.cells)
            for k in ks:
                u, v = (m1.cells.get(k) if m1 is not None else None), m2.cells.get(k)
                if u is v or (u is not None and v is not None and u[0] is v[0] and u[1] == v[1]):
                    continue
                if (u is not None and not isinstance(u[0], T.T)) or (v is not None and not isinstance(v[0], T.T)):
                    if u is None or v is None or u[1] != v[1]:
                        raise NoLemma('pointer contents of %s' % o2.name)
                    same(u[0], v[0], o2.name)
                    continue
                e = executor(prog, handlers)
                x = fw.mem_get(e, c1.st, o1, k, 1)
                y = fw.mem_get(e, c2.st, o2, k, 1)
                try:
                    same(x, y, '%s[%s]' % (o2.name, k))
                except NoLemma:
                    if o2 in streams:
                        raise
                    stale.append((o1, k))
    # objects only the first run touched
    for o1, m1 in c1.st.mem.items():
        if o1.kind in ('alloca', 'heap') or o1 in c2.st.mem or o1.kind == 'global':
            continue
        if m1.cells:
            for k in m1.cells:
                e = executor(prog, handlers)
                if fw.mem_get(e, c1.st, o1, k, 1) is not fw.mem_get(e, c2.st, o1, k, 1):
                    raise NoLemma('%s[%s] differs' % (o1.name, k))
    if stale:
        NOB[0] += unread(prog, handlers, leaf, largs, base, streams, N, blk, c1, stale)
    return g, NOB[0]


class Probe:
    """from an arbitrary state at the head of the loop (and of every later loop over the count) once around, and out:
    the stale cells are not read before they are overwritten"""
    def __init__(self, N, streams, stale, head):
        self.N, self.streams, self.stale, self.head = N, streams, stale, head
        self.seen = {}
        self.k = 0
        self.live = False       # the stale cells have been marked

    def fresh(self, w, n):
        self.k += 1
        return T.var('%s.%d' % ('pn' if n else 'pv', self.k), w)

    def clean(self, ts, what):
        for v in T.free_vars([t for t in ts if isinstance(t, T.T)]):
            if v.startswith('stale.'):
                raise NoLemma('a stale cell is read: %s' % what)

    def state(self, st, but=()):
        self.clean(st.pc, 'branch')
        for o, m in st.mem.items():
            if o.kind == 'global':
                continue
            for k, (v, i) in m.cells.items():
                if isinstance(v, T.T) and (o, k) not in but:
                    self.clean([T.ext(v, 8 * i, 8)], '%s[%s]' % (o.name, k))
                elif isinstance(v, E.Ptr) and isinstance(v.off, T.T):
                    self.clean([v.off], o.name)

    def regs(self, fr, blk):
        L = live(fr.fn, blk)
        for k, v in fr.env.items():
            if k in L:
                self.clean([v.off if isinstance(v, E.Ptr) else v], k)

    def __call__(self, ex, fr, st, blk, prev):
        if fr.fn is not self.fn or fr.parent is not None or blk not in heads(fr.fn):
            return None
        phis = [i.res for i in fr.fn.blocks[blk] if i.op == 'phi']
        if blk in self.seen:
            kept = self.seen[blk]
            self.regs(fr, blk)
            self.state(st, self.stale)
            for r in phis:
                v, w = fr.env[r], kept[r]
                if isinstance(w, E.Ptr) and (not isinstance(v, E.Ptr) or v.obj is not w.obj or (w.obj not in self.streams and v.off is not w.off)):
                    raise NoLemma('a pointer moves')
            raise E.Infeasible()

        def dep(v):
            if isinstance(v, E.Ptr):
                v = v.off
            return isinstance(v, T.T) and any(n == self.N.aux or n.startswith('pn.') for n in T.free_vars([v]))
        if not any(dep(fr.env[r]) for r in phis):
            if blk == self.head:
                raise NoLemma('the count is not in the loop state')
            return None
        for r in phis:
            v = fr.env[r]
            if isinstance(v, E.Ptr):
                if v.obj in self.streams:
                    fr.env[r] = E.Ptr(v.obj, self.fresh(64, True))
            elif isinstance(v, T.T):
                fr.env[r] = self.fresh(v.w, dep(v))
            else:
                raise NoLemma('vector state')
        self.seen[blk] = {r: fr.env[r] for r in phis}
        for o in list(st.mem):
            m = st.mem[o]
            if o.kind == 'global':
                continue
            if o in self.streams:
                st.mem[o] = E.OM({}, st.tok)
                continue
            cells = {}
            for k, (v, i) in m.cells.items():
                cells[k] = (self.fresh(8, False), 0) if isinstance(v, T.T) else (v, i)
            if blk == self.head:
                for o2, k in self.stale:
                    if o2 is o:
                        cells[k] = (T.var('stale.%s' % k, 8), 0)
            else:
                # what earlier loops may have left: the stale cells stay marked unless overwritten
                for o2, k in self.stale:
                    if o2 is o and k in m.cells and isinstance(m.cells[k][0], T.T):
                        cells[k] = m.cells[k]
            st.mem[o] = E.OM(cells, st.tok)
        return None


class ProbeExec(E.Exec):
    """the streams hold anything"""
    def load_bytes(self, st, p, n, fn=None):
        if isinstance(p, E.Ptr) and p.obj in self.probe.streams:
            return self.probe.fresh(8 * n, False)
        return E.Exec.load_bytes(self, st, p, n, fn)

    def store_bytes(self, st, p, v, n, fn=None):
        if isinstance(p, E.Ptr) and p.obj in self.probe.streams:
            self.probe.clean([v], 'written to the stream')
            return None
        return E.Exec.store_bytes(self, st, p, v, n, fn)


def unread(prog, handlers, leaf, largs, base, streams, N, blk, c1, stale):
    if any(o.kind == 'alloca' for o, _ in stale) and any(o not in base.mem for o, _ in stale):
        raise NoLemma('a local of the function differs')
    e = ProbeExec(prog, handlers, decide=E.smt_decide, budget=30000000)
    p = e.probe = e.loop_hook = Probe(N, streams, set(stale), blk)
    p.fn = leaf
    s, ret = e.call(leaf, largs, base.fork())
    if s is None or e.throws or blk not in p.seen:
        raise NoLemma('no return')
    p.clean([ret], 'result')
    for o, m in s.mem.items():
        if o.kind == 'global' or (o.kind == 'alloca' and o not in base.mem):
            continue
        for k, (v, i) in m.cells.items():
            if isinstance(v, T.T):
                p.clean([T.ext(v, 8 * i, 8)], '%s[%s] at the end' % (o.name, k))
    p.clean(s.pc, 'branch')
    return len(stale)


def lemma(prog, handlers, driver, mk, tops=(1, 2, 3, 4, 8, 16, 32, 64, 128), carry=None, have=(), req=None):
    """ranges [lo, hi) with their strides covering every count from 1 on, as far as possible:
    -> ([(lo, hi, g)], counts that must be verified one by one, obligations).  have: counts verified anyway."""
    out, n = [], 0
    hi, errs = None, []
    cand = list(tops)
    while True:
        best = None
        todo = [t for t in cand if hi is None or t < hi]
        for lo in todo:
            try:
                g, k = step(prog, handlers, driver, mk, lo, hi, carry, req)
            except NoLemma as e:
                errs.append('N >= %d: %s' % (lo, e))
                continue
            except (E.Unsupported, E.OutOfBounds) as e:
                errs.append('N >= %d: %s: %s' % (lo, type(e).__name__, e))
                continue
            n += k
            best = (lo, hi, g)
            break
        if best is None:
            break
        out.append(best)
        hi = best[0]
        if hi <= 1 or all(i in have for i in range(hi)):
            break
    if not out:
        raise NoLemma('; '.join(errs[-2:]))
    need = set(range(0, out[-1][0])) | {g for _, _, g in out}
    return out, sorted(need), n


def task(name, prog, handlers, driver, mk, verified, unit='block', tops=(1, 2, 3, 4, 8, 16, 32, 64, 128), carry=None, req=None, lib=None, fix=None, limit=200):
    """a task that raises the counts verified one by one to every count; a loop outside its reach leaves them bounded"""
    verified = sorted(verified)

    def native(r, why):
        w = None
        if lib is not None:
            try:
                w = search(lib(), prog.fn(driver).name.lstrip('@').strip('"'), mk, fix, fw.SEED)
            except (AttributeError, OSError) as x:
                r.notes.append('no native search: %s' % x)
        if w:
            r.fail('refuted')
            r.violations.append({'obligation': name, 'what': w, 'confirmed': True, 'verifier_output': [why]})
        return w

    def run(r):
        upto = 0
        while upto in verified:
            upto += 1
        try:
            signal.setitimer(signal.ITIMER_REAL, 0.6 * limit, 5)
            ranges, need, n = lemma(prog, handlers, driver, mk, tops=tops, carry=carry, have=verified, req=req)
        except (NoLemma, E.Unsupported, E.OutOfBounds, RecursionError, fw.Timeout, E.Budget) as e:
            signal.setitimer(signal.ITIMER_REAL, 0.4 * limit, 5)
            if not native(r, str(e)):
                r.bounded = '%s counts %s verified one by one; no induction over the count (%s: %s)' % (unit, verified, type(e).__name__, e)
                r.bounded_n = len(verified)
            return
        r.ok('induction over the count', n)
        gap = [i for i in need if i not in verified]
        text = '; '.join('N >= %d%s: f(N) = f(%d); f(N - %d)' % (lo, '' if hi is None else ', N < %d' % hi, g, g) for lo, hi, g in ranges)
        r.notes.append(text)
        r.inductions.append({'obligation': name, 'lemma': text, 'base_counts_verified_against_the_specification': [i for i in need if i in verified]})
        r.contract.add(driver)
        if gap and not native(r, text):
            r.bounded = 'the induction over the %s count needs the counts %s, not verified here' % (unit, gap)
            r.bounded_n = len(verified)
    return fw.Task(name, run, limit)


def shape(objs, unit, alias=()):
    """arguments: a size (an object of that many bytes), 's' (a stream of N units; alias: positions sharing an object), 'n' (the count)"""
    alias = dict(alias)

    def mk(ex, st, N):
        args, streams, objs2, z = [], {}, {}, T.const(0, 64)
        for i, o in enumerate(objs):
            if o == 'n':
                args.append(N)
            elif o == 's':
                j = alias.get(i, i)
                if j not in objs2:
                    objs2[j] = E.Obj('S%d' % j, N if unit == 1 else T.mul(N, T.const(unit, 64)), 'arg')
                    streams[objs2[j]] = unit
                args.append(E.Ptr(objs2[j], z))
            else:
                args.append(E.Ptr(E.Obj('O%d' % i, o, 'arg'), z))
        return args, streams
    mk.objs, mk.unit, mk.alias = objs, unit, alias
    return mk


COUNTS = list(range(0, 200)) + [255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4099, 65535, 65536, 65537, 70000]


def search(lib, sym, mk, fix=None, seed=1):
    """the real code: N units at once against one unit after another; None or a description of a difference"""
    import ctypes
    import random
    R = random.Random(seed)
    fn = getattr(lib, sym)
    fn.restype = ctypes.c_int

    def one(N):
        idx = [i for i, o in enumerate(mk.objs) if o != 'n']
        init = {}
        for i in idx:
            if mk.alias.get(i, i) == i:
                init[i] = bytearray(R.randbytes(N * mk.unit if mk.objs[i] == 's' else mk.objs[i]))
        if fix is not None:
            fix(init)
        res = []
        for whole in (True, False):
            b = {i: fw.Guarded(bytes(d)) for i, d in init.items()}

            def args(off, n):
                return [ctypes.c_uint64(n) if o == 'n' else ctypes.c_uint64(b[mk.alias.get(i, i)].addr + (off * mk.unit if o == 's' else 0)) for i, o in enumerate(mk.objs)]
            if whole:
                fn(*args(0, N))
            else:
                for j in range(N):
                    fn(*args(j, 1))
            res.append({i: x.read() for i, x in b.items()})
            ok = all(x.before_intact() for x in b.values())
            for x in b.values():
                x.free()
            if not ok:
                return 'writes before a buffer with a count of %d' % N
        if res[0] != res[1]:
            i = [i for i in res[0] if res[0][i] != res[1][i]][0]
            k = [a == b for a, b in zip(res[0][i], res[1][i])].index(False)
            return '%s with a count of %d differs from %d counts of 1: argument %d, byte %d is %#x instead of %#x (random contents, seed %d)' % (sym, N, N, i, k, res[0][i][k], res[1][i][k], seed)

    for N in COUNTS:
        if N * mk.unit > 1 << 21:
            continue
        r = fw.in_child(lambda: one(N))
        if r[0] in ('signal', 'error', 'timeout'):
            return '%s with a count of %d: %s' % (sym, N, ' '.join(map(str, r))) if r[0] == 'signal' else None
        if r[1]:
            return r[1]
