"""Equality by congruence: applications of uninterpreted functions in the code's term are identified, innermost first, with
applications in the contract's term whose arguments are provably equal; what remains must be identical."""
import random
import fw
import smt
import term as T


class Congr:
    def __init__(self, ufs, names=None, limit=10000, gens=None):
        self.ufs = ufs
        self.names = names
        self.limit = limit
        self.map = {}          # proven: uf node -> canonical node
        self.no = set()
        self.gens = gens

    def nodes(self, root):
        """uf nodes, arguments first"""
        seen, out, st = set(), [], [(root, False)]
        while st:
            t, done = st.pop()
            if done:
                if t.op == 'uf' and (self.names is None or t.aux in self.names):
                    out.append(t)
                continue
            if t in seen:
                continue
            seen.add(t)
            st.append((t, True))
            for a in t.args:
                if a not in seen:
                    st.append((a, False))
        return out

    def equal(self, got, want, pc=()):
        gn = self.nodes(got)
        wn = self.nodes(want)
        ws = set(wn)
        todo = [t for t in gn if t not in ws]
        if todo:
            envs = []
            for k in range(3):
                envs.append(fw.gen_env(random.Random(fw.SEED * 77 + k), self.gens))
            try:
                sg = [T.evaluate(todo, e, self.ufs) for e in envs]
                sw = [T.evaluate(wn, e, self.ufs) for e in envs]
            except KeyError:
                return None
            tab = {}
            for i, t in enumerate(wn):
                tab.setdefault((t.aux,) + tuple(x[i] for x in sw), []).append(t)
            m = {}
            for i, t in enumerate(todo):
                if t in self.map and self.map[t] in ws:
                    m[t] = self.map[t]
                    continue
                args = T.subst(list(t.args), m) if m else list(t.args)
                for c in tab.get((t.aux,) + tuple(x[i] for x in sg), []):
                    if all(self.same(a, b, pc) for a, b in zip(args, c.args)):
                        self.map[t] = c
                        m[t] = c
                        break
            if m:
                got = T.subst([got], m)[0]
        if got is want:
            return 'congruence+z3'
        return None

    def same(self, a, b, pc):
        if a is b:
            return True
        if (a, b) in self.no:
            return False
        res, env = smt.check(list(pc), T.eq(a, b), self.limit)
        if res != 'proved':
            self.no.add((a, b))
            return False
        return True
