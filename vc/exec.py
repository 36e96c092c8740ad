"""Symbolic execution of LLVM IR functions, one function at a time.

Callees that have a contract are replaced by it; callees that have none are executed in line, so extracting a
helper does not need an annotation.  Branches on symbolic conditions are executed on both sides and joined at the
immediate post-dominator, so every path is covered.  Anything outside the supported subset raises Unsupported: the
obligations of that function are then undecided, never discharged.
"""
import subprocess
import re
import time
import term as T
from term import const, TRUE, FALSE


class Unsupported(Exception):
    pass


class Budget(Unsupported):
    pass


class TimeBudget(Exception):
    """a time limit, not a verdict"""


class Infeasible(Exception):
    """the current path cannot be taken"""


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    w = 64

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj and self.obj.name, T.show(self.off, 3))

    def key(self):
        return (self.obj, self.off)


class PIte:
    __slots__ = ('c', 'a', 'b')
    w = 64

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b


class FPtr:
    __slots__ = ('name', 'mod')
    w = 64

    def __init__(self, name, mod):
        self.name = name
        self.mod = mod


Z64 = const(0, 64)
NULL = Ptr(None, Z64)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj is b.obj and a.off is b.off
    if isinstance(a, FPtr) and isinstance(b, FPtr):
        return a.name == b.name
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


class Obj:
    _n = 0

    def __init__(self, name, size=None, kind='arg', const=False, default=None, maxsize=None):
        Obj._n += 1
        self.id = Obj._n
        self.name = name
        self.size = size          # int, term or None (unchecked)
        self.kind = kind
        self.const = const
        self.default = default    # f(offset_term_or_int) -> byte term
        self.writable = not const

    def __repr__(self):
        return '<obj %s>' % self.name


class OM:
    __slots__ = ('cells', 'tok', 'log')

    def __init__(self, cells, tok, log=()):
        self.cells = cells
        self.tok = tok
        self.log = log      # region writes (unbounded objects)


class State:
    def __init__(self):
        self.mem = {}
        self.pc = ()
        self.tok = object()
        self.ghost = {}

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.ghost = dict(self.ghost)
        self.tok = object()
        return s

    def om(self, o, write=False):
        m = self.mem.get(o)
        if m is None:
            m = self.mem[o] = OM({}, self.tok)
        elif write and m.tok is not self.tok:
            m = self.mem[o] = OM(dict(m.cells), self.tok, m.log)
        return m


class Throw:
    def __init__(self, st, pc, what, fn):
        self.st = st
        self.pc = pc
        self.what = what
        self.fn = fn


class Obligation:
    __slots__ = ('kind', 'pc', 'cond', 'desc', 'fn')

    def __init__(self, kind, pc, cond, desc, fn):
        self.kind = kind
        self.pc = pc
        self.cond = cond
        self.desc = desc
        self.fn = fn


_dem = {}


def demangle_all(names):
    names = [n for n in names if n not in _dem]
    if not names:
        return
    p = subprocess.run(['c++filt'], input='\n'.join(n.lstrip('@').strip('"') for n in names), capture_output=True, text=True)
    for n, d in zip(names, p.stdout.split('\n')):
        _dem[n] = d


def short(name):
    if name not in _dem:
        demangle_all([name])
    d = _dem[name]
    # cut parameter list at depth 0
    dep = 0
    i = 0
    while i < len(d):
        ch = d[i]
        if ch == '<':
            dep += 1
        elif ch == '>':
            dep -= 1
        elif ch == '(' and dep == 0:
            if d.startswith('(anonymous namespace)', i):
                i += len('(anonymous namespace)')
                continue
            break
        i += 1
    s = d[:i]
    if ' ' in s:
        # drop template return types
        parts = re.split(r' (?![^<]*>)', s)
        s = parts[-1] if not s.startswith('operator') else s
    return s


class Program:
    def __init__(self, modules):
        self.modules = modules
        self.gobj = {}
        names = []
        for m in modules:
            names += list(m.funcs) + list(m.decls)
        demangle_all(names)
        self.by_short = {}
        for m in modules:
            for n, f in m.funcs.items():
                self.by_short.setdefault(short(n), []).append(f)

    def find(self, mod, name):
        f = mod.funcs.get(name)
        if f is not None:
            return f
        a = mod.aliases.get(name)
        if a:
            return self.find(mod, a)
        for m in self.modules:
            f = m.funcs.get(name)
            if f is not None and not f.internal:
                return f
            a = m.aliases.get(name)
            if a:
                return self.find(m, a)
        return None

    def fn(self, shortname, nth=0, pred=None):
        l = self.by_short.get(shortname) or []
        if pred:
            l = [f for f in l if pred(f)]
        if not l:
            raise Unsupported('no function ' + shortname)
        return l[nth]

    def global_obj(self, mod, name):
        g = mod.globals.get(name)
        if g is None or g.external:
            g2 = None
            for m in self.modules:
                g2 = m.globals.get(name)
                if g2 is not None and not g2.external:
                    break
            if g2 is None or g2.external:
                if g is None:
                    raise Unsupported('global ' + name)
            else:
                g = g2
        key = (g.mod, name)
        o = self.gobj.get(key)
        if o is None:
            o = Obj(name, g.mod.size(g.ty) if not g.external else None, 'global', g.const)
            o.g = g
            o.initcells = None
            self.gobj[key] = o
        return o

    def init_cells(self, o):
        if o.initcells is None:
            g = o.g
            cells = {}
            if not g.external:
                t, v = g.mod.ginit(g)
                self._fill(g.mod, cells, 0, t, v)
            o.initcells = cells
        return o.initcells

    def _fill(self, mod, cells, off, t, v):
        t = mod.resolve(t)
        k = v[0]
        if k == 'zero' or k == 'undef':
            z = const(0, 8)
            for i in range(mod.size(t)):
                cells[off + i] = (z, 0)
            return
        if t[0] == 'i':
            n = mod.size(t)
            c = const(v[1], 8 * n)
            for i in range(n):
                cells[off + i] = (c, i)
            return
        if t[0] == 'ptr':
            p = self.const_value(mod, t, v)
            for i in range(8):
                cells[off + i] = (p, i)
            return
        if t[0] in ('arr', 'vec'):
            es = mod.size(t[2])
            if k == 'str':
                for i, b in enumerate(v[1]):
                    cells[off + i] = (const(b, 8), 0)
                return
            for i, (et, ev) in enumerate(v[1]):
                self._fill(mod, cells, off + i * es, et, ev)
            return
        if t[0] == 'st':
            for i, (et, ev) in enumerate(v[1]):
                self._fill(mod, cells, off + mod.field_off(t, i), et, ev)
            return
        raise Unsupported('initialiser %r' % (t,))

    def const_value(self, mod, t, v):
        t = mod.resolve(t)
        k = v[0]
        if k == 'c':
            return const(v[1], t[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            return undef(mod, t)
        if k == 'zero':
            return zero(mod, t)
        if k == 'g':
            name = v[1]
            f = self.find(mod, name)
            if f is not None:
                return FPtr(name, f.mod)
            if name in mod.globals:
                return Ptr(self.global_obj(mod, name), Z64)
            return FPtr(name, mod)
        if k == 'expr':
            if v[1] == 'gep':
                base = self.const_value(mod, v[3][0][0], v[3][0][1])
                off = gep_off(mod, v[2], [(it, self.const_value(mod, it, iv)) for it, iv in v[3][1:]])
                if isinstance(base, FPtr):
                    raise Unsupported('gep on function')
                return Ptr(base.obj, T.add(base.off, off))
            if v[1] == 'cast':
                x = self.const_value(mod, v[3], v[4])
                return cast(mod, v[2], v[3], x, v[5])
        if k == 'agg':
            if t[0] == 'vec':
                return T.cat(*[self.const_value(mod, et, ev) for et, ev in reversed(v[1])])
            return tuple(self.const_value(mod, et, ev) for et, ev in v[1])
        if k == 'str':
            return tuple(const(b, 8) for b in v[1])
        raise Unsupported('constant %r' % (v,))


def undef(mod, t):
    t = mod.resolve(t)
    if t[0] == 'i':
        return T.fresh('undef', t[1])
    if t[0] == 'vec':
        return T.fresh('undef', t[1] * width(mod, t[2]))
    if t[0] == 'ptr':
        return NULL
    if t[0] == 'st':
        return tuple(undef(mod, x) for x in t[1])
    if t[0] == 'arr':
        return tuple(undef(mod, t[2]) for _ in range(t[1]))
    raise Unsupported('undef %r' % (t,))


def zero(mod, t):
    t = mod.resolve(t)
    if t[0] == 'i':
        return const(0, t[1])
    if t[0] == 'vec':
        return const(0, t[1] * width(mod, t[2]))
    if t[0] == 'ptr':
        return NULL
    if t[0] == 'st':
        return tuple(zero(mod, x) for x in t[1])
    if t[0] == 'arr':
        return tuple(zero(mod, t[2]) for _ in range(t[1]))
    raise Unsupported('zero %r' % (t,))


def width(mod, t):
    t = mod.resolve(t)
    if t[0] == 'i':
        return t[1]
    if t[0] == 'ptr':
        return 64
    if t[0] == 'vec':
        return t[1] * width(mod, t[2])
    if t == ('fp', 'double'):
        return 64               # bit pattern only: no arithmetic is modelled
    raise Unsupported('width %r' % (t,))


def gep_off(mod, bt, idx):
    """idx: list of (type, value) after the base pointer"""
    off = Z64
    t = bt
    first = True
    for it, iv in idx:
        if isinstance(iv, (Ptr, PIte, FPtr)):
            raise Unsupported('pointer index')
        i64 = T.sext(iv, 64) if iv.w < 64 else iv
        if first:
            off = T.add(off, T.scale(i64, mod.size(t)))
            first = False
            continue
        r = mod.resolve(t)
        if r[0] == 'st':
            if iv.op != 'c':
                raise Unsupported('symbolic struct index')
            off = T.add(off, const(mod.field_off(r, iv.aux), 64))
            t = r[1][iv.aux]
        else:
            t = r[2]
            off = T.add(off, T.scale(i64, mod.size(t)))
    return off


def cast(mod, op, t, x, t2):
    if op in ('bitcast', 'addrspacecast'):
        return x
    if op in ('ptrtoint', 'inttoptr'):
        if isinstance(x, Ptr) and x.obj is None and op == 'ptrtoint':
            return T.ext(x.off, 0, width(mod, t2))
        if isinstance(x, T.T) and op == 'inttoptr':
            return Ptr(None, T.zext(x, 64))
        return x
    a = mod.resolve(t)
    b = mod.resolve(t2)
    if isinstance(x, (Ptr, PIte, FPtr)):
        if op == 'trunc':
            raise Unsupported('trunc of pointer')
        return x
    if a[0] == 'vec':
        n = a[1]
        we = width(mod, a[2])
        wb = width(mod, b[2])
        el = [T.ext(x, i * we, we) for i in range(n)]
        f = {'zext': T.zext, 'sext': T.sext, 'trunc': lambda e, w: T.ext(e, 0, w)}[op]
        return T.cat(*[f(e, wb) for e in reversed(el)])
    w = width(mod, b)
    if op == 'zext':
        return T.zext(x, w)
    if op == 'sext':
        return T.sext(x, w)
    if op == 'trunc':
        return T.ext(x, 0, w)
    raise Unsupported('cast ' + op)


BINF = {'add': T.add, 'sub': T.sub, 'mul': T.mul, 'and': T.and_, 'or': T.or_, 'xor': T.xor,
        'udiv': T.udiv, 'urem': T.urem, 'sdiv': T.sdiv, 'srem': T.srem}


class Frame:
    __slots__ = ('fn', 'env', 'mod', 'depth', 'allocas', 'parent')

    def __init__(self, fn, depth):
        self.fn = fn
        self.mod = fn.mod
        self.env = {}
        self.depth = depth


class Exec:
    def __init__(self, prog, contracts=None, decide=None, budget=4000000, time_limit=None):
        self.prog = prog
        self.contracts = contracts or {}
        self.decide_hook = decide
        self.obs = []
        self.nob = 0
        self.nob_discharged = 0
        self.steps = 0
        self.budget = budget
        self.nest = 0
        self.max_nest = 600
        self.facts = []        # consequences of contracts, valid on every path
        self.throws = []
        self.called = {}
        self.inlined = {}
        self.t_end = None if time_limit is None else time.time() + time_limit
        self.loop_hook = None
        self.cover = set()
        self.pieces = {}
        self.post_fork = None
        self.cur = None        # innermost frame

    # ------------------------------------------------------------ obligations
    def ob(self, kind, st, cond, desc, fn=None):
        self.nob += 1
        if cond.op == 'c' and cond.aux == 1:
            self.nob_discharged += 1
            return
        r = self.decide(st, cond)
        if r is True:
            self.nob_discharged += 1
            return
        self.obs.append(Obligation(kind, st.pc, cond, desc, fn))

    # ------------------------------------------------------------ conditions
    def decide(self, st, c):
        if c.op == 'c':
            return bool(c.aux)
        s = simp_cond(c, st.pc)
        if s.op == 'c':
            return bool(s.aux)
        if self.decide_hook:
            return self.decide_hook(self, st, c)
        return None

    def assume(self, st, c):
        if c.op == 'c':
            return
        if c.op == 'and':
            for x in c.args:
                self.assume(st, x)
            return
        if c not in st.pc:
            st.pc = st.pc + (c,)

    # ------------------------------------------------------------ memory
    def cells_of(self, st, o, write=False):
        m = st.mem.get(o)
        if m is None:
            if o.kind == 'global':
                m = st.mem[o] = OM(self.prog.init_cells(o), None)
            else:
                m = st.mem[o] = OM({}, st.tok)
        if write and m.tok is not st.tok:
            m = st.mem[o] = OM(dict(m.cells), st.tok, m.log)
        return m

    def check_access(self, st, p, n, what, fn):
        o = p.obj
        if o is None:
            if self.infeasible(st):
                raise Infeasible()
            self.ob('null', st, FALSE, '%s through a null or integer pointer' % what, fn)
            raise OutOfBounds('%s through a null or integer pointer in %s' % (what, fn))
        off = p.off
        if o.size is None:
            return
        if isinstance(o.size, int):
            if off.op == 'c':
                v = T.signed(off.aux, 64)
                ok = 0 <= v and v + n <= o.size
                if not ok and self.infeasible(st):
                    raise Infeasible()
                self.ob('bounds', st, TRUE if ok else FALSE,
                        '%s of %d bytes at offset %d of %s (size %d)' % (what, n, v, o.name, o.size), fn)
                if not ok:
                    raise OutOfBounds('%s of %d bytes at offset %d of %s (size %d) in %s' % (what, n, v, o.name, o.size, fn))
            else:
                if n > o.size:
                    c = FALSE
                else:
                    c = T.ule(off, const(o.size - n, 64))
                self.ob('bounds', st, c, '%s of %d bytes at a symbolic offset of %s (size %d)' % (what, n, o.name, o.size), fn)
        else:
            # symbolic size: off + n <= size
            c = T.ule(T.add(off, const(n, 64)), o.size)
            self.ob('bounds', st, c, '%s of %d bytes at offset %s of %s (size %s)' % (what, n, T.show(off, 3), o.name, T.show(o.size, 3)), fn)

    def infeasible(self, st):
        if not st.pc:
            return False
        import smt
        r, _ = smt.sat(list(st.pc) + self.facts, 20000)
        return r is False

    def load_bytes(self, st, p, n, fn=None):
        """value of n bytes (T of width 8n, or a pointer value when exactly one is stored there)"""
        if isinstance(p, PIte):
            r = self.decide(st, p.c)
            if r is not None:
                return self.load_bytes(st, p.a if r else p.b, n, fn)
            pc = st.pc
            a = b = None
            try:
                self.assume(st, p.c)
                try:
                    a = self.load_bytes(st, p.a, n, fn)
                except Infeasible:
                    pass
                st.pc = pc
                self.assume(st, T.not_(p.c))
                try:
                    b = self.load_bytes(st, p.b, n, fn)
                except Infeasible:
                    if a is None:
                        raise
            finally:
                st.pc = pc
            return merge(p.c, a, b) if a is not None and b is not None else b if a is None else a
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r' % (p,))
        self.check_access(st, p, n, 'read', fn)
        o = p.obj
        m = self.cells_of(st, o)
        if p.off.op == 'c':
            off = T.signed(p.off.aux, 64)
            return self._gather(st, o, m, off, n)
        return self._load_sym(st, o, m, p.off, n, fn)

    def _gather(self, st, o, m, off, n, sym=None):
        cells = m.cells
        key = (lambda i: off + i) if sym is None else (lambda i: (sym, off + i))
        first = cells.get(key(0))
        if first is not None and not isinstance(first[0], T.T):
            v, k = first
            if k == 0 and n == 8:
                for i in range(1, 8):
                    c = cells.get(key(i))
                    if c is None or c[0] is not v or c[1] != i:
                        raise Unsupported('partial pointer load')
                return v
            raise Unsupported('partial pointer load')
        out = []
        i = 0
        while i < n:
            c = cells.get(key(i))
            if c is None:
                if sym is not None:
                    d = self.sym_default(st, o, m, sym, off + i)
                else:
                    d = self.default_byte(st, o, off + i)
                if not isinstance(d, T.T):
                    raise Unsupported('mixed pointer load')
                cells[key(i)] = (d, 0) if d.w == 8 else d
                out.append(d)
                i += 1
                continue
            v, k = c
            if not isinstance(v, T.T):
                raise Unsupported('partial pointer load')
            # maximal run
            j = 1
            while i + j < n:
                c2 = cells.get(key(i + j))
                if c2 is None or c2[0] is not v or c2[1] != k + j:
                    break
                j += 1
            out.append(T.ext(v, 8 * k, 8 * j))
            i += j
        return T.cat(*reversed(out))

    def default_byte(self, st, o, off):
        if o.default is not None:
            return o.default(off)
        if o.kind in ('alloca', 'heap'):
            return T.fresh('uninit_' + o.name, 8)
        b = T.var('%s[%d]' % (o.name, off), 8)
        return b

    def sym_default(self, st, o, m, sym, off):
        if o.default is not None:
            return o.default(T.add(sym, const(off, 64)))
        raise Unsupported('symbolic offset in %s' % o.name)

    def _sym_split(self, off):
        """(symbolic part, const)"""
        if off.op == 'lin':
            k = T.signed(off.aux[0], 64)
            return T.sub(off, const(k, 64)), k
        return off, 0

    def _candidates(self, o, off, n, limit):
        """concrete candidate offsets for a symbolic offset: (index term, [offsets])"""
        k, parts = T._lin_parts(off)
        k = T.signed(k, 64)
        if len(parts) == 1:
            (t, c), = parts.items()
            c = T.signed(c, 64)
            if t.op == 'tbl' and len(t.aux) <= limit:
                # a table of a table
                return t.args[0], [k + c * v for v in t.aux]
            # strip zero extension
            idx = t
            while idx.op == 'cat' and len(idx.args) == 2 and idx.args[0].op == 'c' and idx.args[0].aux == 0:
                idx = idx.args[1]
            if idx.op == 'cat' and idx.args[0].op == 'c' and idx.args[0].aux == 0:
                idx = T.cat(*idx.args[1:])
            if t.hi < limit:
                return idx, [k + c * i for i in range(t.hi + 1)]
        else:
            # several small parts: combine to a joint offset list
            tot = 1
            ps = list(parts.items())
            if len(ps) <= 2:
                for t, c in ps:
                    tot *= t.hi + 1
                if tot <= limit:
                    return None
        return None

    def _load_sym(self, st, o, m, off, n, fn):
        if getattr(o, 'unbounded', False):
            sym, k = self._sym_split(off)
            return self.load_unbounded(st, o, m, sym, k, n, fn)
        cand = self._candidates(o, off, n, 4096)
        if cand is None:
            # enumerate byte offsets when the object is small
            if isinstance(o.size, int) and o.size <= 65536:
                step = _stride(off)
                k = off.aux[0] if off.op == 'lin' else 0
                lo = max(off.lo, 0)
                hi = min(off.hi, o.size - n)
                r = None
                base = k % step
                outs = [x for x in range(0, o.size - n + 1) if x % step == base and lo <= x <= hi]
                if len(outs) > 512 or not outs:
                    raise Unsupported('symbolic offset')
                r = self._gather(st, o, m, outs[-1], n)
                for x in reversed(outs[:-1]):
                    r = merge(T.eq(off, const(x, 64)), self._gather(st, o, m, x, n), r)
                return r
            raise Unsupported('symbolic offset %s in %s' % (T.show(off, 4), o.name))
        idx, offs = cand
        vals = []
        last = None
        for x in offs:
            if 0 <= x and (o.size is None or x + n <= o.size):
                last = self._gather(st, o, m, x, n)
                vals.append(last)
            else:
                vals.append(None)
        if last is None:
            raise Unsupported('symbolic load out of range')
        vals = [v if v is not None else last for v in vals]
        if not all(isinstance(v, T.T) for v in vals):
            r = vals[-1]
            for i in range(len(vals) - 2, -1, -1):
                r = merge(T.eq(idx, const(i, idx.w)), vals[i], r)
            return r
        full = 1 << idx.w
        if len(vals) < full and full <= 4096:
            pass
        if all(v.op == 'c' for v in vals):
            return T.tbl(tuple([v.aux for v in vals]), 8 * n, idx)
        return T.sel(idx, vals)

    def load_unbounded(self, st, o, m, sym, k, n, fn):
        return self._gather(st, o, m, k, n, sym)

    def store_bytes(self, st, p, v, n, fn=None):
        if isinstance(p, PIte):
            r = self.decide(st, p.c)
            if r is not None:
                return self.store_bytes(st, p.a if r else p.b, v, n, fn)
            pc = st.pc
            try:
                self.assume(st, p.c)
                olda = self.load_bytes(st, p.a, n, fn)
                self.store_bytes(st, p.a, merge(p.c, v, olda), n, fn)
                # if a and b may overlap, reload
                st.pc = pc
                self.assume(st, T.not_(p.c))
                oldb = self.load_bytes(st, p.b, n, fn)
                self.store_bytes(st, p.b, merge(p.c, oldb, v), n, fn)
            finally:
                st.pc = pc
            return
        if not isinstance(p, Ptr):
            raise Unsupported('store through %r' % (p,))
        self.check_access(st, p, n, 'write', fn)
        o = p.obj
        if not o.writable:
            self.ob('frame', st, FALSE, 'write to read-only object %s' % o.name, fn)
            raise OutOfBounds('write to read-only object %s in %s' % (o.name, fn))
        m = self.cells_of(st, o, True)
        if p.off.op == 'c':
            off = T.signed(p.off.aux, 64)
            cells = m.cells
            if isinstance(v, T.T) and v.w != 8 * n:
                v = T.zext(v, 8 * n)
            for i in range(n):
                cells[off + i] = (v, i)
            return
        if getattr(o, 'unbounded', False):
            sym, k = self._sym_split(p.off)
            if isinstance(v, T.T) and v.w != 8 * n:
                v = T.zext(v, 8 * n)
            self.store_unbounded(st, o, m, sym, k, v, n, fn)
            return
        cand = self._candidates(o, p.off, n, 300)
        if cand is None:
            if isinstance(o.size, int) and o.size <= 1024:
                step = _stride(p.off)
                k = p.off.aux[0] if p.off.op == 'lin' else 0
                outs = [x for x in range(0, o.size - n + 1) if x % step == k % step and p.off.lo <= x <= p.off.hi]
                if len(outs) > 256:
                    raise Unsupported('symbolic store')
                for x in outs:
                    old = self._gather(st, o, m, x, n)
                    nv = merge(T.eq(p.off, const(x, 64)), v, old)
                    for i in range(n):
                        m.cells[x + i] = (nv, i)
                return
            raise Unsupported('symbolic store offset in %s' % o.name)
        idx, offs = cand
        for i, x in enumerate(offs):
            if not (0 <= x and (o.size is None or x + n <= o.size)):
                continue
            old = self._gather(st, o, m, x, n)
            nv = merge(T.eq(idx, const(i, idx.w)), v, old)
            for j in range(n):
                m.cells[x + j] = (nv, j)

    def store_unbounded(self, st, o, m, sym, k, v, n, fn):
        for i in range(n):
            m.cells[(sym, k + i)] = (v, i)

    def load(self, st, mod, t, p, fn=None):
        t = mod.resolve(t)
        if t[0] == 'st':
            return tuple(self.load(st, mod, f, padd(p, mod.field_off(t, i)), fn) for i, f in enumerate(t[1]))
        if t[0] == 'arr':
            es = mod.size(t[2])
            return tuple(self.load(st, mod, t[2], padd(p, i * es), fn) for i in range(t[1]))
        w = width(mod, t)
        n = (w + 7) // 8
        v = self.load_bytes(st, p, n, fn)
        if isinstance(v, T.T):
            if t[0] == 'ptr':
                if v.op == 'c':
                    return Ptr(None, v)
                return Ptr(None, v)
            if v.w != w:
                v = T.ext(v, 0, w)
        return v

    def store(self, st, mod, t, v, p, fn=None):
        t = mod.resolve(t)
        if t[0] == 'st':
            for i, f in enumerate(t[1]):
                self.store(st, mod, f, v[i], padd(p, mod.field_off(t, i)), fn)
            return
        if t[0] == 'arr':
            es = mod.size(t[2])
            for i in range(t[1]):
                self.store(st, mod, t[2], v[i], padd(p, i * es), fn)
            return
        w = width(mod, t)
        n = (w + 7) // 8
        self.store_bytes(st, p, v, n, fn)

    def memcpy(self, st, d, s, n, fn=None):
        """memmove semantics, concrete n, granular copying preserving cell structure"""
        if n == 0:
            return
        if isinstance(d, PIte) or isinstance(s, PIte) or d.off.op != 'c' or s.off.op != 'c':
            v = self.load_bytes(st, s, n, fn)
            self.store_bytes(st, d, v, n, fn)
            return
        self.check_access(st, s, n, 'read', fn)
        self.check_access(st, d, n, 'write', fn)
        if not d.obj.writable:
            self.ob('frame', st, FALSE, 'write to read-only object %s' % d.obj.name, fn)
            raise OutOfBounds('write to read-only object')
        ms = self.cells_of(st, s.obj)
        so = T.signed(s.off.aux, 64)
        do = T.signed(d.off.aux, 64)
        tmp = []
        for i in range(n):
            c = ms.cells.get(so + i)
            if c is None:
                b = self.default_byte(st, s.obj, so + i)
                c = (b, 0)
                ms.cells[so + i] = c
            tmp.append(c)
        md = self.cells_of(st, d.obj, True)
        for i in range(n):
            md.cells[do + i] = tmp[i]

    # ------------------------------------------------------------ execution
    def val(self, fr, t, v):
        k = v[0]
        if k == 'l':
            try:
                return fr.env[v[1]]
            except KeyError:
                raise Unsupported('undefined local %s in %s' % (v[1], fr.fn.name))
        if k == 'c':
            t = fr.mod.resolve(t) if t[0] == 'named' else t
            return const(v[1], t[1])
        return self.prog.const_value(fr.mod, t, v)

    def call(self, f, args, st):
        """run function f; returns (state, value) or (None, None) when no path returns.  Throws go to self.throws"""
        self.nest += 1
        if self.nest > self.max_nest:
            raise Budget('nesting')
        fr = Frame(f, self.nest)
        fr.parent = self.cur
        f.blocks        # parsed on first use
        assert len(args) >= len(f.params), (f.name, len(args), len(f.params))
        for (t, n, at), a in zip(f.params, args):
            if 'byval' in at and isinstance(a, Ptr):
                raise Unsupported('byval')
            fr.env[n] = a
        self.cover.add(f.name)
        self.cur = fr
        try:
            r = self.run(fr, st, f.entry, None, None)
        finally:
            self.cur = fr.parent
        self.nest -= 1
        if r is None:
            return None, None
        _, st2, v = r
        return st2, v

    def phis(self, fr, blk, prev):
        out = []
        for ins in fr.fn.blocks[blk]:
            if ins.op != 'phi':
                break
            out.append((ins.res, self.val(fr, ins.ty, ins.a[prev])))
        for r, v in out:
            fr.env[r] = v

    def run(self, fr, st, blk, prev, stop, skip_phi=False):
        """execute from blk until stop (not executed, phis of stop evaluated) or return.
        result: ('at', st, None) | ('ret', st, value) | None"""
        fn = fr.fn
        while True:
            if prev is not None and not skip_phi:
                self.phis(fr, blk, prev)
            if blk == stop and not skip_phi:
                return ('at', st, None)
            if self.loop_hook is not None and not skip_phi and prev is not None:
                r = self.loop_hook(self, fr, st, blk, prev)
                if r is not None:
                    kind = r[0]
                    if kind == 'goto':
                        # loop summarised: continue at exit block
                        _, st, blk, prev, skip_phi = r
                        continue
            skip_phi = False
            instrs = fn.blocks[blk]
            for ins in instrs:
                op = ins.op
                if op == 'phi':
                    continue
                self.steps += 1
                if self.steps > self.budget:
                    raise Budget('step budget')
                if self.t_end and (self.steps & 255) == 0 and time.time() > self.t_end:
                    raise TimeBudget('time budget')
                if op == 'br':
                    if ins.a[0] is None:
                        prev, blk = blk, ins.a[1]
                        break
                    c = self.val(fr, ('i', 1), ins.a[0])
                    if not isinstance(c, T.T):
                        raise Unsupported('branch on pointer')
                    d = self.decide(st, c)
                    if d is not None:
                        prev, blk = blk, (ins.a[1] if d else ins.a[2])
                        break
                    r = self.fork(fr, st, blk, [(c, ins.a[1]), (T.not_(c), ins.a[2])], stop)
                    if r is None or r[0] == 'ret':
                        return r
                    _, st, blk, prev = r
                    if blk == stop:
                        return ('at', st, None)
                    skip_phi = True
                    break
                if op == 'switch':
                    v = self.val(fr, ins.ty, ins.a[0])
                    if v.op == 'c':
                        tgt = ins.a[1]
                        for cv, l in ins.a[2]:
                            if const(cv, v.w) is v:
                                tgt = l
                                break
                        prev, blk = blk, tgt
                        break
                    arms = {}
                    dflt = TRUE
                    for cv, l in ins.a[2]:
                        e = T.eq(v, const(cv, v.w))
                        arms[l] = T.or_(arms[l], e) if l in arms else e
                        dflt = T.and_(dflt, T.not_(e))
                    arms[ins.a[1]] = T.or_(arms[ins.a[1]], dflt) if ins.a[1] in arms else dflt
                    r = self.fork(fr, st, blk, [(c, l) for l, c in arms.items()], stop)
                    if r is None or r[0] == 'ret':
                        return r
                    _, st, blk, prev = r
                    if blk == stop:
                        return ('at', st, None)
                    skip_phi = True
                    break
                if op == 'ret':
                    v = None
                    if ins.a is not None:
                        v = self.val(fr, ins.ty, ins.a)
                    return ('ret', st, v)
                if op == 'unreachable':
                    self.ob('unreachable', st, FALSE, 'unreachable reached in ' + fn.name, fn.name)
                    return None
                if op == 'call' or op == 'invoke':
                    n0 = len(self.throws)
                    st2 = self.do_call(fr, st, ins)
                    if op == 'invoke' and len(self.throws) > n0:
                        self.unwind(fr, ins, n0)
                    if st2 is None:
                        return None
                    st = st2
                    if op == 'invoke':
                        prev, blk = blk, ins.a['normal']
                        break
                    continue
                self.step(fr, st, ins)
            else:
                raise Unsupported('block without terminator')

    def unwind(self, fr, ins, n0):
        # a landing pad that only cleans up or terminates lets the outcome propagate
        lp = fr.fn.blocks[ins.a['unwind']]
        txt = ''
        for x in lp:
            if x.op == 'landingpad':
                txt = x.text
        if 'catch' in txt:
            term = any(x.op == 'call' and 'clang_call_terminate' in x.text for x in lp)
            if not term:
                raise Unsupported('catch handler')
            for t in self.throws[n0:]:
                t.what = 'terminate'

    def fork(self, fr, st, blk, arms, stop):
        """arms: [(cond, target)] complete.  Joins at the post-dominator.
        returns ('ret', st, v) or ('at', st, block, prev) or None"""
        join = fr.fn.ipdom(blk)
        # the join must not lie beyond an enclosing stop
        self.nest += 1
        if self.nest > self.max_nest:
            raise Budget('nesting')
        target = join if join != 'EXIT' else None
        res = []
        env0 = fr.env
        base_pc = st.pc
        arms = [(c, l) for c, l in arms if not (c.op == 'c' and c.aux == 0)]
        for c, l in arms:
            s = st.fork()
            fr.env = dict(env0)
            self.assume(s, c)
            if self.post_fork and not self.post_fork(self, s, c):
                continue
            nest = self.nest
            try:
                r = self.run(fr, s, l, blk, target)
            except Infeasible:
                self.nest = nest
                r = None
            if r is None:
                continue
            res.append((c, r, fr.env, s))
        fr.env = env0
        self.nest -= 1
        if not res:
            return None
        if len(res) == 1:
            c, r, env, _ = res[0]
            fr.env = env
            if r[0] == 'ret':
                return r
            return ('at', r[1], target, None)
        c, r, env, _ = res[-1]
        stm, vm, envm = r[1], r[2], env
        kind = r[0]
        for c, r, env, _ in reversed(res[:-1]):
            if r[0] != kind:
                raise Unsupported('mixed exits')
            vm = merge(c, r[2], vm) if r[2] is not None else None
            if kind == 'at':
                envm = merge_env(c, env, envm)
            stm = merge_state(self, c, r[1], stm)
        # facts: keep the common prefix; if an arm is missing its negation is known
        pc = base_pc
        stm.pc = pc
        if len(res) < len(arms):
            live = FALSE
            for c, r, env, _ in res:
                live = T.or_(live, c)
            self.assume(stm, live)
        # keep facts common to all arms
        common = [f for f in res[0][1][1].pc if f not in stm.pc and all(f in x[1][1].pc for x in res[1:])] \
            if res[0][1][1] is not stm else []
        for f in common:
            self.assume(stm, f)
        if kind == 'ret':
            return ('ret', stm, vm)
        fr.env = envm
        return ('at', stm, target, None)

    def step(self, fr, st, ins):
        op = ins.op
        env = fr.env
        mod = fr.mod
        if op == 'bin':
            o, a, b, fl = ins.a
            x = self.val(fr, ins.ty, a)
            y = self.val(fr, ins.ty, b)
            env[ins.res] = self.binop(fr, st, o, ins.ty, x, y)
            return
        if op == 'load':
            p = self.val(fr, ('ptr',), ins.a[0])
            env[ins.res] = self.load(st, mod, ins.ty, p, fr.fn.name)
            return
        if op == 'store':
            v = self.val(fr, ins.ty, ins.a[0])
            p = self.val(fr, ('ptr',), ins.a[1])
            self.store(st, mod, ins.ty, v, p, fr.fn.name)
            return
        if op == 'gep':
            bt, ops = ins.a
            p = self.val(fr, ops[0][0], ops[0][1])
            off = gep_off(mod, bt, [(t, self.val(fr, t, v)) for t, v in ops[1:]])
            env[ins.res] = padd_t(p, off)
            return
        if op == 'icmp':
            pred, a, b = ins.a
            x = self.val(fr, ins.ty, a)
            y = self.val(fr, ins.ty, b)
            env[ins.res] = self.icmp(mod, pred, ins.ty, x, y)
            return
        if op == 'cast':
            o, t, a = ins.a
            env[ins.res] = cast(mod, o, t, self.val(fr, t, a), ins.ty)
            return
        if op == 'select':
            t, c, a, b = ins.a
            cv = self.val(fr, t, c)
            x = self.val(fr, ins.ty, a)
            y = self.val(fr, ins.ty, b)
            rt = mod.resolve(t)
            if rt[0] == 'vec':
                n = rt[1]
                ew = width(mod, ins.ty) // n
                env[ins.res] = T.cat(*[T.ite(T.ext(cv, i, 1), T.ext(x, i * ew, ew), T.ext(y, i * ew, ew)) for i in range(n - 1, -1, -1)])
                return
            d = self.decide(st, cv)
            env[ins.res] = (x if d else y) if d is not None else merge(cv, x, y)
            return
        if op == 'alloca':
            n = 1
            if ins.a[0] is not None:
                nv = self.val(fr, ins.a[0][0], ins.a[0][1])
                if nv.op != 'c':
                    raise Unsupported('dynamic alloca')
                n = nv.aux
            o = Obj('%s.%s' % (short(fr.fn.name).split('::')[-1], ins.res[1:]), mod.size(ins.ty) * n, 'alloca')
            env[ins.res] = Ptr(o, Z64)
            return
        if op == 'extractvalue':
            v, idx = ins.a
            x = self.val(fr, ins.ty, v)
            for i in idx:
                x = x[i]
            env[ins.res] = x
            return
        if op == 'insertvalue':
            v, t2, e, idx = ins.a
            x = self.val(fr, ins.ty, v)
            y = self.val(fr, t2, e)
            env[ins.res] = _insert(x, y, idx)
            return
        if op == 'extractelement':
            v, t2, i = ins.a
            x = self.val(fr, ins.ty, v)
            k = self.val(fr, t2, i)
            ew = width(mod, mod.resolve(ins.ty)[2])
            if k.op != 'c':
                raise Unsupported('extractelement symbolic')
            env[ins.res] = T.ext(x, k.aux * ew, ew)
            return
        if op == 'insertelement':
            v, t2, e, t3, i = ins.a
            x = self.val(fr, ins.ty, v)
            y = self.val(fr, t2, e)
            k = self.val(fr, t3, i)
            ew = y.w
            w = x.w
            lo = k.aux * ew
            parts = []
            if lo + ew < w:
                parts.append(T.ext(x, lo + ew, w - lo - ew))
            parts.append(y)
            if lo:
                parts.append(T.ext(x, 0, lo))
            env[ins.res] = T.cat(*parts)
            return
        if op == 'shufflevector':
            a, b, t3, m = ins.a
            x = self.val(fr, ins.ty, a)
            y = self.val(fr, ins.ty, b)
            n = mod.resolve(ins.ty)[1]
            ew = width(mod, mod.resolve(ins.ty)[2])
            rn = mod.resolve(t3)[1]
            el = []
            if m[0] == 'zero':
                mask = [0] * rn
            elif m[0] == 'undef':
                mask = [0] * rn
            else:
                mask = [e[1][1] if e[1][0] == 'c' else 0 for e in m[1]]
            for i in mask:
                el.append(T.ext(x, i * ew, ew) if i < n else T.ext(y, (i - n) * ew, ew))
            env[ins.res] = T.cat(*reversed(el))
            return
        if op == 'freeze':
            env[ins.res] = self.val(fr, ins.ty, ins.a[0])
            return
        if op == 'nop' or op == 'landingpad':
            return
        raise Unsupported('instruction ' + ins.text[:80])

    def binop(self, fr, st, o, t, x, y):
        mod = fr.mod
        if isinstance(x, (Ptr, PIte, FPtr)) or isinstance(y, (Ptr, PIte, FPtr)):
            if o in ('sub', 'add') and (isinstance(x, PIte) or isinstance(y, PIte)):
                p = x if isinstance(x, PIte) else y
                d = self.decide(st, p.c)
                if d is None:
                    pc = st.pc
                    try:
                        self.assume(st, p.c)
                        u = self.binop(fr, st, o, t, p.a if p is x else x, p.a if p is y else y)
                        st.pc = pc
                        self.assume(st, T.not_(p.c))
                        v = self.binop(fr, st, o, t, p.b if p is x else x, p.b if p is y else y)
                    finally:
                        st.pc = pc
                    return merge(p.c, u, v)
                q = p.a if d else p.b
                return self.binop(fr, st, o, t, q if p is x else x, q if p is y else y)
            if o == 'sub' and isinstance(x, Ptr) and isinstance(y, Ptr) and (x.obj is None) != (y.obj is None):
                # an integer that is no pointer into the object (null, uninitialised): the difference is unknown
                return T.fresh('ptrdiff', t[1] if t[0] == 'i' else 64)
            if o == 'sub' and isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.obj is y.obj:
                    return T.sub(x.off, y.off)
                raise Unsupported('difference of unrelated pointers')
            if o == 'add' and isinstance(x, Ptr) and isinstance(y, T.T):
                return Ptr(x.obj, T.add(x.off, y))
            if o == 'add' and isinstance(y, Ptr) and isinstance(x, T.T):
                return Ptr(y.obj, T.add(y.off, x))
            if o == 'sub' and isinstance(x, Ptr) and isinstance(y, T.T):
                return Ptr(x.obj, T.sub(x.off, y))
            raise Unsupported('pointer arithmetic ' + o)
        rt = mod.resolve(t)
        if rt[0] == 'vec' and o not in ('and', 'or', 'xor'):
            n = rt[1]
            ew = width(mod, rt[2])
            out = []
            for i in range(n):
                out.append(self.scalar(fr, st, o, T.ext(x, i * ew, ew), T.ext(y, i * ew, ew)))
            return T.cat(*reversed(out))
        return self.scalar(fr, st, o, x, y)

    def scalar(self, fr, st, o, x, y):
        f = BINF.get(o)
        if f:
            if o in ('udiv', 'urem', 'sdiv', 'srem'):
                self.ob('div', st, T.ne(y, const(0, y.w)), 'division by zero in ' + fr.fn.name, fr.fn.name)
                if o in ('sdiv', 'srem') and not (y.op == 'c' and y.aux != (1 << y.w) - 1):
                    pass
            return f(x, y)
        if o in ('shl', 'lshr', 'ashr'):
            self.ob('shift', st, T.ult(y, const(x.w, y.w)) if x.w < (1 << y.w) else TRUE,
                    'shift amount below the width %d in %s' % (x.w, fr.fn.name), fr.fn.name)
            if y.op == 'c' and y.aux >= x.w:
                return const(0, x.w)
            return getattr(T, o)(x, y)
        raise Unsupported('op ' + o)

    def icmp(self, mod, pred, t, x, y):
        if isinstance(x, PIte):
            return T.ite(x.c, self.icmp(mod, pred, t, x.a, y), self.icmp(mod, pred, t, x.b, y))
        if isinstance(y, PIte):
            return T.ite(y.c, self.icmp(mod, pred, t, x, y.a), self.icmp(mod, pred, t, x, y.b))
        px = isinstance(x, (Ptr, FPtr))
        py = isinstance(y, (Ptr, FPtr))
        if px or py:
            if isinstance(x, T.T):
                x = Ptr(None, x)
            if isinstance(y, T.T):
                y = Ptr(None, y)
            if isinstance(x, FPtr) or isinstance(y, FPtr):
                if pred in ('eq', 'ne'):
                    e = isinstance(x, FPtr) and isinstance(y, FPtr) and x.name == y.name
                    return TRUE if e == (pred == 'eq') else FALSE
                raise Unsupported('function pointer compare')
            if x.obj is y.obj:
                return self.icmp_t(pred, x.off, y.off)
            if pred in ('eq', 'ne'):
                nn = x if y.obj is None else y if x.obj is None else None
                o = y if nn is x else x
                mn = getattr((x.obj or y.obj), 'maybe_null', None)
                if mn is not None and nn is not None:
                    e = mn
                    return e if pred == 'eq' else T.not_(e)
                # distinct objects never have the same address (pointers one past the end are not compared)
                return FALSE if pred == 'eq' else TRUE
            raise Unsupported('ordering of unrelated pointers')
        rt = mod.resolve(t)
        if rt[0] == 'vec':
            ew = width(mod, rt[2])
            return T.cat(*[self.icmp_t(pred, T.ext(x, i * ew, ew), T.ext(y, i * ew, ew)) for i in range(rt[1] - 1, -1, -1)])
        return self.icmp_t(pred, x, y)

    def icmp_t(self, pred, x, y):
        if pred == 'eq':
            return T.eq(x, y)
        if pred == 'ne':
            return T.ne(x, y)
        if pred == 'ult':
            return T.ult(x, y)
        if pred == 'ule':
            return T.ule(x, y)
        if pred == 'ugt':
            return T.ult(y, x)
        if pred == 'uge':
            return T.ule(y, x)
        if pred == 'slt':
            return T.slt(x, y)
        if pred == 'sle':
            return T.sle(x, y)
        if pred == 'sgt':
            return T.slt(y, x)
        if pred == 'sge':
            return T.sle(y, x)
        raise Unsupported(pred)

    # ------------------------------------------------------------ calls
    def throw(self, st, cond, what, fn):
        """record that under cond the call throws; returns False when it always does"""
        d = self.decide(st, cond)
        if d is False:
            return True
        s = st.fork()
        self.assume(s, cond)
        self.throws.append(Throw(s, s.pc, what, fn))
        if d is True:
            return False
        self.assume(st, T.not_(cond))
        return True

    def do_call(self, fr, st, ins):
        cal = ins.a['callee']
        if cal[0] == 'g':
            fp = FPtr(cal[1], fr.mod)
        else:
            fp = self.val(fr, ('ptr',), cal)
        args = []
        for t, v, at in ins.a['args']:
            if t == ('metadata',):
                args.append(None)
                continue
            args.append(self.val(fr, t, v))
        return self.dispatch(fr, st, ins, fp, args)

    def dispatch(self, fr, st, ins, fp, args):
        if isinstance(fp, PIte):
            d = self.decide(st, fp.c)
            if d is not None:
                return self.dispatch(fr, st, ins, fp.a if d else fp.b, args)
            raise Unsupported('symbolic callee')
        if not isinstance(fp, FPtr):
            raise Unsupported('indirect call through %r in %s' % (fp, fr.fn.name))
        name = fp.name
        mod = fp.mod
        if name.startswith('@llvm.'):
            import intrin
            v = intrin.call(self, fr, st, ins, name[1:], args)
            if ins.res:
                fr.env[ins.res] = v
            return st
        sn = short(name)
        h = self.contracts.get(sn) or self.contracts.get(name)
        if h is not None:
            self.called[sn] = self.called.get(sn, 0) + 1
            r = h(self, fr, st, args, ins)
            if r is DEAD:
                return None
            if ins.res:
                fr.env[ins.res] = r
            return st
        f = self.prog.find(mod, name)
        if f is None:
            import intrin
            v = intrin.libc(self, fr, st, ins, name[1:], args)
            if v is DEAD:
                return None
            if ins.res:
                fr.env[ins.res] = v
            return st
        self.inlined[sn] = self.inlined.get(sn, 0) + 1
        st2, v = self.call(f, args, st)
        if st2 is None:
            return None
        if ins.res:
            fr.env[ins.res] = v
        return st2


class OutOfBounds(Exception):
    pass


class _Dead:
    pass


DEAD = _Dead()


def _insert(x, y, idx):
    i = idx[0]
    l = list(x)
    l[i] = y if len(idx) == 1 else _insert(l[i], y, idx[1:])
    return tuple(l)


def padd(p, k):
    if k == 0:
        return p
    return padd_t(p, const(k, 64))


def padd_t(p, off):
    if isinstance(p, PIte):
        return PIte(p.c, padd_t(p.a, off), padd_t(p.b, off))
    if isinstance(p, FPtr):
        if off.op == 'c' and off.aux == 0:
            return p
        raise Unsupported('gep on function pointer')
    if isinstance(p, T.T):
        return Ptr(None, T.add(p, off))
    return Ptr(p.obj, T.add(p.off, off))


def _stride(off):
    import math
    if off.op == 'lin':
        g = 0
        for c in off.aux[1]:
            g = math.gcd(g, abs(T.signed(c, 64)))
        return max(g, 1)
    return 1


def merge(c, a, b):
    if a is b:
        return a
    if isinstance(a, T.T) and isinstance(b, T.T):
        return T.join(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a if b is None else b
    if same(a, b):
        return a
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
        return Ptr(a.obj, T.ite(c, a.off, b.off))
    if isinstance(a, (Ptr, PIte, FPtr)) and isinstance(b, (Ptr, PIte, FPtr)):
        return PIte(c, a, b)
    if isinstance(a, (Ptr, PIte)) and isinstance(b, T.T):
        return PIte(c, a, Ptr(None, b))
    if isinstance(b, (Ptr, PIte)) and isinstance(a, T.T):
        return PIte(c, Ptr(None, a), b)
    raise Unsupported('merge %r %r' % (a, b))


def merge_env(c, ea, eb):
    out = {}
    for k, va in ea.items():
        vb = eb.get(k, None)
        if k in eb:
            if va is vb:
                out[k] = va
            else:
                try:
                    out[k] = merge(c, va, vb)
                except Unsupported:
                    pass
    return out


def merge_state(ex, c, a, b):
    """merge memories; result is a fresh state"""
    s = State()
    s.pc = b.pc
    s.ghost = {}
    for k in set(a.ghost) | set(b.ghost):
        if k in a.ghost and k in b.ghost:
            s.ghost[k] = merge(c, a.ghost[k], b.ghost[k])
        else:
            s.ghost[k] = a.ghost.get(k, b.ghost.get(k))
    memo = {}
    for o in set(a.mem) | set(b.mem):
        ma = a.mem.get(o)
        mb = b.mem.get(o)
        if ma is mb:
            s.mem[o] = ma
            continue
        if ma is None or mb is None:
            m = ma or mb
            # present in one arm only: alloca of that arm, or untouched in the other
            if o.kind in ('alloca', 'heap'):
                s.mem[o] = OM(dict(m.cells), s.tok, m.log)
                continue
            other = a if ma is None else b
            m2 = ex.cells_of(other, o)
            if ma is None:
                ma = m2
            else:
                mb = m2
        if ma.log != mb.log:
            raise Unsupported('merge of unbounded regions')
        cells = {}
        keys = set(ma.cells) | set(mb.cells)
        for k in sorted(keys, key=lambda k: (isinstance(k, tuple), k if not isinstance(k, tuple) else k[1])):
            if k in cells:
                continue
            x = ma.cells.get(k)
            y = mb.cells.get(k)
            if x is None:
                x = _dflt(ex, a, o, k)
                ma_c = x
            if y is None:
                y = _dflt(ex, b, o, k)
            if x[0] is y[0] and x[1] == y[1]:
                cells[k] = x
                continue
            va, ka = x
            vb, kb = y
            if ka == kb and va.w == vb.w:
                key = (id(va), id(vb))
                v = memo.get(key)
                if v is None:
                    v = memo[key] = merge(c, va, vb)
                cells[k] = (v, ka)
            else:
                if not (isinstance(va, T.T) and isinstance(vb, T.T)):
                    if not merge_ptr(ex, c, a, b, o, ma.cells, mb.cells, k, cells):
                        raise Unsupported('merge pointer cells')
                    continue
                if isinstance(k, int) and merge_word(c, ma.cells, mb.cells, k, cells):
                    continue
                cells[k] = (T.ite(c, T.ext(va, 8 * ka, 8), T.ext(vb, 8 * kb, 8)), 0)
        s.mem[o] = OM(cells, s.tok, ma.log)
    return s


def merge_ptr(ex, c, a, b, o, ca, cb, k, cells):
    """one side holds a whole pointer at k, the other eight bytes of data: an integer is no pointer to any object"""
    if not isinstance(k, int):
        return False

    def side(st, cs):
        x = cs.get(k)
        if x is not None and not isinstance(x[0], T.T):
            if x[1] == 0 and all(cs.get(k + i) == (x[0], i) for i in range(1, 8)):
                return x[0]
            return None
        out = []
        for i in range(8):
            y = cs.get(k + i) or _dflt(ex, st, o, k + i)
            if not isinstance(y[0], T.T):
                return None
            out.append(T.ext(y[0], 8 * y[1], 8))
        return Ptr(None, T.cat(*reversed(out)))
    x, y = side(a, ca), side(b, cb)
    if x is None or y is None or any(k + i in cells for i in range(8)):
        return False
    v = merge(c, x, y)
    for i in range(8):
        cells[k + i] = (v, i)
    return True


def word_at(cells, k):
    x = cells.get(k)
    if x is None or not isinstance(x[0], T.T) or x[1] != 0:
        return None
    n = x[0].w // 8
    if x[0].w != 8 * n:
        return None
    for i in range(1, n):
        y = cells.get(k + i)
        if y is None or y[0] is not x[0] or y[1] != i:
            return None
    return n


def gather(cells, k, n):
    out = []
    i = 0
    while i < n:
        x = cells.get(k + i)
        if x is None or not isinstance(x[0], T.T):
            return None
        v, a = x
        j = 1
        while i + j < n and 8 * (a + j) < v.w:
            y = cells.get(k + i + j)
            if y is None or y[0] is not v or y[1] != a + j:
                break
            j += 1
        if 8 * (a + j) > v.w:
            return None
        out.append(T.ext(v, 8 * a, 8 * j))
        i += j
    return T.cat(*reversed(out))


def merge_word(c, ca, cb, k, cells):
    """merge a whole word that starts at k in one of the two memories"""
    ns = [n for n in (word_at(ca, k), word_at(cb, k)) if n and n > 1]
    if not ns:
        return False
    n = min(ns)
    if any(k + i in cells for i in range(n)):
        return False
    x = gather(ca, k, n)
    y = gather(cb, k, n)
    if x is None or y is None:
        return False
    v = T.join(c, x, y)
    for i in range(n):
        cells[k + i] = (v, i)
    return True


def _dflt(ex, st, o, k):
    if isinstance(k, tuple):
        return (ex.sym_default(st, o, None, k[0], k[1]), 0)
    if o.kind == 'global':
        c = ex.prog.init_cells(o).get(k)
        if c is not None:
            return c
    return (ex.default_byte(st, o, k), 0)


def smt_decide(ex, st, c):
    """decide a branch condition with the SMT back end (used where loops end on data)"""
    import smt
    r, _ = smt.sat(list(st.pc) + ex.facts + [c], 20000)
    if r is False:
        return False
    r, _ = smt.sat(list(st.pc) + ex.facts + [T.not_(c)], 20000)
    if r is False:
        return True
    return None


def simp_cond(c, pc, depth=0):
    """use the path facts to simplify a condition"""
    if not pc:
        return c
    facts = set(pc)
    if c in facts:
        return TRUE
    n = T.not_(c)
    if n in facts:
        return FALSE
    if c.op in ('and', 'or') and depth < 4:
        r = None
        f = T.and_ if c.op == 'and' else T.or_
        for a in c.args:
            x = simp_cond(a, pc, depth + 1)
            r = x if r is None else f(r, x)
        return r
    if c.op == 'ite' and depth < 4:
        x = simp_cond(c.args[0], pc, depth + 1)
        if x.op == 'c':
            return simp_cond(c.args[1] if x.aux else c.args[2], pc, depth + 1)
    if n is not c and c.op == 'xor' and depth < 4:
        m = T.is_not(c)
        if m is not None:
            return T.not_(simp_cond(m, pc, depth + 1))
    return c
