"""Bit-vector terms -> z3 (SMT back end)."""
import time
import z3
import term as T

STAT = {'queries': 0, 'time': 0.0, 'timeouts': 0, 'slowest': 0.0}


class Z:
    def __init__(self):
        self.memo = {}
        self.vars = {}
        self.side = []

    def tr(self, root):
        memo = self.memo
        st = [root]
        while st:
            t = st[-1]
            if t in memo:
                st.pop()
                continue
            pend = [a for a in t.args if a not in memo]
            if pend:
                st.extend(pend)
                continue
            memo[t] = self._one(t, [memo[a] for a in t.args])
            st.pop()
        return memo[root]

    def b(self, t):
        return self.tr(t) == z3.BitVecVal(1, 1)

    def _one(self, t, a):
        op = t.op
        w = t.w
        if op == 'c':
            return z3.BitVecVal(t.aux, w)
        if op == 'v':
            v = z3.BitVec('%s' % t.aux, w)
            self.vars[t] = v
            if t.hi != (1 << w) - 1:
                self.side.append(z3.ULE(v, z3.BitVecVal(t.hi, w)))
            if t.lo:
                self.side.append(z3.UGE(v, z3.BitVecVal(t.lo, w)))
            return v
        if op == 'lin':
            k, cs = t.aux
            r = None
            for x, c in zip(a, cs):
                sc = T.signed(c, w)
                if sc == 1:
                    r = x if r is None else r + x
                elif sc == -1:
                    r = -x if r is None else r - x
                else:
                    y = x * z3.BitVecVal(c, w)
                    r = y if r is None else r + y
            return r + z3.BitVecVal(k, w) if k else r
        if op == 'mul':
            r = a[0]
            for x in a[1:]:
                r = r * x
            return r
        if op in ('and', 'or', 'xor'):
            r = a[0]
            for x in a[1:]:
                r = (r & x) if op == 'and' else (r | x) if op == 'or' else (r ^ x)
            return r
        if op == 'cat':
            return z3.Concat(*a)
        if op == 'ext':
            return z3.Extract(t.aux + w - 1, t.aux, a[0])
        if op == 'sx':
            return z3.SignExt(w - t.args[0].w, a[0])
        if op == 'ite':
            return z3.If(a[0] == 1, a[1], a[2])
        one, zero = z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)
        if op == 'eq':
            return z3.If(a[0] == a[1], one, zero)
        if op == 'ult':
            return z3.If(z3.ULT(a[0], a[1]), one, zero)
        if op == 'slt':
            return z3.If(a[0] < a[1], one, zero)
        if op == 'shl':
            return a[0] << a[1]
        if op == 'lshr':
            return z3.LShR(a[0], a[1])
        if op == 'ashr':
            return a[0] >> a[1]
        if op == 'udiv':
            return z3.UDiv(a[0], a[1])
        if op == 'urem':
            return z3.URem(a[0], a[1])
        if op == 'sdiv':
            return a[0] / a[1]
        if op == 'srem':
            return z3.SRem(a[0], a[1])
        if op == 'tbl':
            r = z3.BitVecVal(t.aux[-1], w)
            for i in range(len(t.aux) - 2, -1, -1):
                r = z3.If(a[0] == i, z3.BitVecVal(t.aux[i], w), r)
            return r
        if op == 'sel':
            r = a[-1]
            for i in range(len(a) - 3, -1, -1):
                r = z3.If(a[0] == i, a[1 + i], r)
            return r
        if op == 'uf':
            if not a:
                return z3.BitVec('uf_%s' % (t.aux,), w)
            f = z3.Function('uf_%s' % (t.aux,), *([z3.BitVecSort(x.size()) for x in a] + [z3.BitVecSort(w)]))
            r = f(*a)
            if t.lo > 0:
                self.side.append(z3.UGE(r, t.lo))
            if t.hi < (1 << w) - 1:
                self.side.append(z3.ULE(r, t.hi))
            return r
        raise NotImplementedError(op)


def check(assumptions, goal, timeout=20000, model_vars=None):
    """prove goal (1-bit term) under assumptions.  returns ('proved',None) / ('refuted', env) / ('unknown',None)"""
    z = Z()
    s = z3.Solver()
    s.set('timeout', timeout)
    for a in assumptions:
        s.add(z.b(a))
    s.add(z3.Not(z.b(goal)))
    for c in z.side:
        s.add(c)
    t0 = time.time()
    r = s.check()
    STAT['queries'] += 1
    STAT['time'] += time.time() - t0
    STAT['slowest'] = max(STAT['slowest'], time.time() - t0)
    if r == z3.unknown:
        STAT['timeouts'] += 1
    if r == z3.unsat:
        return 'proved', None
    if r == z3.sat:
        m = s.model()
        env = {}
        for t, v in z.vars.items():
            x = m.eval(v, model_completion=True)
            env[t.aux] = x.as_long()
        return 'refuted', env
    return 'unknown', None


def sat(conds, timeout=5000):
    z = Z()
    s = z3.Solver()
    s.set('timeout', timeout)
    for a in conds:
        s.add(z.b(a))
    for c in z.side:
        s.add(c)
    t0 = time.time()
    r = s.check()
    STAT['queries'] += 1
    STAT['time'] += time.time() - t0
    STAT['slowest'] = max(STAT['slowest'], time.time() - t0)
    if r == z3.unknown:
        STAT['timeouts'] += 1
    if r == z3.sat:
        m = s.model()
        return True, {t.aux: m.eval(v, model_completion=True).as_long() for t, v in z.vars.items()}
    if r == z3.unsat:
        return False, None
    return None, None
