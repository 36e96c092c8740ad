"""Contracts: one definition serves as the specification a function is verified against and as the behaviour its
callers are checked against."""
import term as T
import exec as E
import fw


class Call:
    """the view a contract body has of one call: memory before, memory after, precondition"""

    def __init__(self, ex, st, fn, verify=None):
        self.ex = ex
        self.st = st
        self.fn = fn
        self.su = verify
        self.writes = []
        self.pend = []

    def rd(self, p, n, off=0):
        return self.ex.load_bytes(self.st, E.padd(p, off), n, self.fn)

    def wr(self, p, t, off=0):
        """writes take effect together when the contract returns"""
        self.pend.append((E.padd(p, off), t))

    def commit(self):
        for p, t in self.pend:
            self.ex.store_bytes(self.st, p, t, t.w // 8, self.fn)
            if isinstance(p, E.Ptr) and p.off.op == 'c':
                self.writes.append((p.obj, T.signed(p.off.aux, 64), t.w // 8))
        self.pend = []

    def pre(self, cond, desc):
        if self.su is not None:
            self.su.require(cond)
        else:
            self.ex.ob('pre', self.st, cond, 'precondition of %s: %s' % (self.fn, desc), self.fn)

    def throws(self, cond, what):
        """under cond the function throws"""
        if self.su is not None:
            self.su.throw_cond = T.or_(getattr(self.su, 'throw_cond', T.FALSE), cond)
            return
        if not self.ex.throw(self.st, cond, what, self.fn):
            raise Always()


class Always(Exception):
    pass


class Contract:
    def __init__(self, name, body, params, alias=True, noalias=(), relational=None):
        """params: list of ('p', size[, name]) or ('v', width[, lo, hi]) ; noalias: indices never overlapping others"""
        self.name = name
        self.body = body
        self.params = params
        self.alias = alias
        self.noalias = set(noalias)
        self.relational = relational

    def handler(self):
        def h(ex, fr, st, args, ins):
            c = Call(ex, st, self.name)
            try:
                r = self.body(c, *args)
            except Always:
                return E.DEAD
            c.commit()
            return r
        return h

    def cases(self):
        """aliasing patterns: tuples giving the object index of each pointer parameter"""
        ps = [i for i, p in enumerate(self.params) if p[0] == 'p']
        free = [i for i in ps if self.alias and i not in self.noalias]
        outs = []

        def rec(k, asg, nxt):
            if k == len(ps):
                outs.append(dict(asg))
                return
            i = ps[k]
            if i in free:
                for j in ps[:k]:
                    if j in free and self.params[j][1] == self.params[i][1] and asg[j] == j:
                        asg[i] = j
                        rec(k + 1, asg, nxt)
            asg[i] = i
            rec(k + 1, asg, nxt)
            del asg[i]
        rec(0, {}, 0)
        return outs


def case_name(con, asg):
    g = [('%d=%d' % (i, j)) for i, j in sorted(asg.items()) if i != j]
    return ','.join(g) if g else 'distinct'


def verify(r, prog, con, asg, callees=None, lib=None, ufs=None, gens=None, special=(), name=None, objsetup=None, ctx=None, goal_backend=None, **kw):
    """check one function against its contract for one aliasing pattern"""
    holder = {}

    def setup(su):
        objs = {}
        for i, p in enumerate(con.params):
            if p[0] == 'p':
                j = asg[i]
                if j not in objs:
                    nm = p[2] if len(p) > 2 else 'p%d' % i
                    grp = [q for k, q in enumerate(con.params) if asg.get(k) == j and len(q) > 3]
                    v = grp[0][3] if grp else T.var(nm, 8 * p[1])
                    objs[j] = su.obj(nm, p[1], [(0, v)])
                su.arg(su.ptr(objs[j]))
            elif p[0] == 'v':
                su.arg(T.var('v%d' % i, p[1], *(p[2:4])))
            elif p[0] == 'ctx':
                su.arg(ctx)
            else:
                su.arg(p[1])
        if gens:
            su.gens.update(gens)
        su.special = special
        if objsetup:
            objsetup(su, objs)
        ref = su.st.fork()
        c = Call(su.ex, ref, con.name, verify=su)
        ret = con.body(c, *su.args)
        c.commit()
        holder['ref'] = ref
        holder['c'] = c
        holder['ret'] = ret

    def post(su, ex, st2, ret):
        goals = []
        for o, off, n in dedupe(holder['c'].writes):
            got = fw.mem_get(ex, st2, o, off, n)
            want = fw.mem_get(ex, holder['ref'], o, off, n)
            goals.append(fw.Goal('%s[%d..%d]' % (o.name, off, off + n), got, want, ('mem', o, off, n)))
        if holder['ret'] is not None:
            want = holder['ret']
            if isinstance(want, T.T):
                goals.append(fw.Goal('return value', ret, want, ('ret',)))
            elif not E.same(want, ret):
                goals.append(fw.Goal('return value', T.FALSE, T.TRUE, ('ret',)))
        if getattr(su, 'redc', None):
            import mont
            for g in goals:
                g.backend = mont.redc_backend(*su.redc)
        if goal_backend:
            for g in goals:
                g.backend = goal_backend
        if con.relational:
            rel, why = con.relational(su, ex, st2, ret)
            for g in goals:
                g.backend = lambda g, su, ex: why
            goals += rel
        return goals

    hs = {}
    for k, v in (callees or {}).items():
        hs[k] = v.handler() if isinstance(v, Contract) else v
    hs.pop(con.name, None)
    spec = fw.FnSpec(name or '%s [%s]' % (con.name, case_name(con, asg)), con.name, setup, post, contracts=hs, lib=lib, ufs=ufs,
                     frame=lambda su: holder['c'].writes, **kw)
    fw.verify(r, prog, spec)
    r.assumed -= set()


def dedupe(ws):
    seen = []
    for w in ws:
        if w not in seen:
            seen.append(w)
    return seen
