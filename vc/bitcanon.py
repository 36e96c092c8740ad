"""Canonical form of bit-vector terms over GF(2).

A word of width w is  XOR_m  m * mask_m  xor  XOR_k tables_k :  m runs over monomials (sets of atom bits, the empty one
is the constant), mask_m is a w-bit coefficient; tables_k collects, for one lookup index k (canonical), the truth table
of every bit.  Bitwise operations, shifts, rotations, byte permutations, table lookups, carry-less products and selections
have a unique normal form here; sums modulo 2^n and uninterpreted functions become atoms keyed by the normal forms of their
arguments.  Two terms with the same normal form are equal for every value of their variables.
"""
import term as T


class TooBig(Exception):
    pass


_atoms = {}        # key -> base id
_next = [1]
_lin = {}          # base id -> (w, k, parts)
_keys = {}         # interned index keys
LIMIT = 400000
_tabs = {}
_words = {}      # key of an index word -> the word
STRICT = False


def atom(key, w):
    b = _atoms.get(key)
    if b is None:
        b = _atoms[key] = _next[0]
        _next[0] += w
    return b


class W:
    __slots__ = ('w', 'P', 'D', '_k')

    def __init__(self, w, P, D=None):
        self.w = w
        self.P = P
        self.D = D or {}
        self._k = None

    def key(self):
        if self._k is None:
            k = (self.w, frozenset(self.P.items()), frozenset(self.D.items()))
            self._k = _keys.setdefault(k, len(_keys))
        return self._k


def const(v, w):
    v &= (1 << w) - 1
    return W(w, {(): v} if v else {})


def atomic(base, w):
    return W(w, {(base + i,): 1 << i for i in range(w)})


def xorn(ws, w):
    P = {}
    D = {}
    for x in ws:
        for m, c in x.P.items():
            n = P.get(m, 0) ^ c
            if n:
                P[m] = n
            else:
                del P[m]
        for k, c in x.D.items():
            n = D.get(k, 0) ^ c
            if n:
                D[k] = n
            else:
                del D[k]
    return W(w, P, D)


def ext(x, lo, w):
    if lo == 0 and w == x.w:
        return x
    M = (1 << w) - 1
    P = {}
    for m, c in x.P.items():
        c = (c >> lo) & M
        if c:
            P[m] = c
    D = {}
    if x.D:
        MM = (1 << (256 * w)) - 1
        for k, c in x.D.items():
            c = (c >> (256 * lo)) & MM
            if c:
                D[k] = c
    return W(w, P, D)


def cat(parts, w):
    """parts: most significant first"""
    P = {}
    D = {}
    pos = w
    for x in parts:
        pos -= x.w
        for m, c in x.P.items():
            P[m] = P.get(m, 0) | (c << pos)
        for k, c in x.D.items():
            D[k] = D.get(k, 0) | (c << (256 * pos))
    return W(w, P, D)


def cval(x):
    if x.D:
        return None
    if not x.P:
        return 0
    if len(x.P) == 1 and () in x.P:
        return x.P[()]
    return None


def bits(x):
    """per bit: list of monomials"""
    out = [[] for _ in range(x.w)]
    for m, c in x.P.items():
        while c:
            l = c & -c
            out[l.bit_length() - 1].append(m)
            c ^= l
    for k, c in x.D.items():
        i = 0
        while c:
            t = c & ((1 << 256) - 1)
            if t:
                out[i].append((atom(('tt', k, t), 1),))
            c >>= 256
            i += 1
    return out


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    return tuple(sorted(set(a) | set(b)))


def bmul(a, b):
    """product of two lists of monomials"""
    r = set()
    for x in a:
        for y in b:
            r ^= {mmul(x, y)}
    if len(r) > LIMIT:
        raise TooBig()
    return r


def and2(a, b):
    ca, cb = cval(a), cval(b)
    if ca is not None:
        a, b, ca, cb = b, a, cb, ca
    if cb is not None:
        P = {}
        for m, c in a.P.items():
            c &= cb
            if c:
                P[m] = c
        D = {}
        if a.D:
            mask = sum(((1 << 256) - 1) << (256 * i) for i in range(a.w) if (cb >> i) & 1)
            for k, c in a.D.items():
                c &= mask
                if c:
                    D[k] = c
        return W(a.w, P, D)
    x, y = bits(a), bits(b)
    P = {}
    for i in range(a.w):
        for m in bmul(x[i], y[i]):
            P[m] = P.get(m, 0) ^ (1 << i)
    return W(a.w, {m: c for m, c in P.items() if c})


def clmul(a, b):
    x, y = bits(a), bits(b)
    P = {}
    n = 0
    for i, xs in enumerate(x):
        for j, ys in enumerate(y):
            for p in xs:
                for q in ys:
                    m = mmul(p, q)
                    c = P.get(m, 0) ^ (1 << (i + j))
                    P[m] = c
        if len(P) > LIMIT:
            raise TooBig()
    return W(2 * a.w, {m: c for m, c in P.items() if c})


def lookup(vals, w, idx):
    """vals[idx]"""
    n = idx.w
    # constant bits and constant offset of the index
    c = idx.P.get((), 0)
    lin = W(n, {m: v for m, v in idx.P.items() if m != ()}, idx.D)
    vals = [vals[i ^ c] if (i ^ c) < len(vals) else 0 for i in range(1 << n)]
    live = [i for i in range(n) if any((v >> i) & 1 for v in lin.P.values()) or any((v >> (256 * i)) & ((1 << 256) - 1) for v in lin.D.values())]
    if len(live) < n:
        sub = []
        for j in range(1 << len(live)):
            v = 0
            for k, i in enumerate(live):
                v |= ((j >> k) & 1) << i
            sub.append(vals[v])
        vals = sub
        lin = cat([ext(lin, i, 1) for i in reversed(live)], len(live)) if live else const(0, 0)
        n = len(live)
    if n == 0:
        return const(vals[0], w)
    if not lin.P and len(lin.D) == 1:
        # a table of a table
        (k, d), = lin.D.items()
        inner = _words[k]
        comp = []
        for j in range(1 << inner.w):
            v = 0
            for i in range(n):
                v |= ((d >> (256 * i + j)) & 1) << i
            comp.append(vals[v])
        return lookup(comp, w, inner)
    if n > 8:
        raise TooBig()
    # affine part
    parts = [const(vals[0], w)]
    sl = [vals[1 << i] ^ vals[0] for i in range(n)]
    rest = []
    nz = 0
    for j in range(1 << n):
        v = vals[j] ^ vals[0]
        for i in range(n):
            if (j >> i) & 1:
                v ^= sl[i]
        rest.append(v)
        nz |= v
    if nz and n > 3 and not STRICT:
        # keep the table whole; its affine part is only separated in strict mode
        rest = [v ^ vals[0] for v in vals]
    else:
        for i in range(n):
            if sl[i]:
                parts.append(smear(ext(lin, i, 1), sl[i], w))
    if nz:
        if n <= 3:
            # expand in monomials
            an = list(rest)
            for i in range(n):
                for j in range(1 << n):
                    if (j >> i) & 1:
                        an[j] ^= an[j ^ (1 << i)]
            bs = bits(lin)
            for j in range(1 << n):
                if an[j]:
                    pr = [()]
                    for i in range(n):
                        if (j >> i) & 1:
                            pr = bmul(pr, bs[i])
                    parts.append(W(w, {m: an[j] for m in pr}))
        else:
            ck = (tuple(rest), w)
            D = _tabs.get(ck)
            if D is None:
                D = 0
                for b in range(w):
                    t = 0
                    for j in range(1 << n):
                        if (rest[j] >> b) & 1:
                            t |= 1 << j
                    D |= t << (256 * b)
                _tabs[ck] = D
            _words[lin.key()] = lin
            parts.append(W(w, {}, {lin.key(): D}))
    return xorn(parts, w)


def smear(b, mask, w):
    """one-bit word b times the mask"""
    if not mask:
        return const(0, w)
    P = {m: mask for m in b.P}
    D = {}
    for k, c in b.D.items():
        v = 0
        for i in range(w):
            if (mask >> i) & 1:
                v |= c << (256 * i)
        D[k] = v
    return W(w, P, D)


def ite(c, a, b):
    """b ^ c&(a^b)"""
    k = cval(c)
    if k is not None:
        return a if k else b
    d = xorn([a, b], a.w)
    dk = cval(d)
    if dk is not None:
        return xorn([b, smear(c, dk, a.w)], a.w)
    cb = bits(c)[0]
    x = bits(d)
    P = {}
    for i in range(a.w):
        for m in bmul(cb, x[i]):
            P[m] = P.get(m, 0) ^ (1 << i)
    return xorn([b, W(a.w, {m: v for m, v in P.items() if v})], a.w)


def select(idx, terms):
    """terms[idx] with symbolic entries"""
    n = idx.w
    w = terms[0].w
    ts = list(terms) + [const(0, w)] * ((1 << n) - len(terms))
    for i in range(n):
        for j in range(1 << n):
            if (j >> i) & 1:
                ts[j] = xorn([ts[j], ts[j ^ (1 << i)]], w)
    bs = bits(idx)
    mon = {0: {()}}
    P = {}
    D = {}
    for j in range(1 << n):
        if not ts[j].P and not ts[j].D:
            continue
        if j not in mon:
            pr = {()}
            for i in range(n):
                if (j >> i) & 1:
                    pr = bmul(pr, bs[i])
            mon[j] = pr
        x = ts[j]
        if x.D:
            x = W(w, dict(_flat(x)))
        for m, c in x.P.items():
            for q in mon[j]:
                mm = mmul(m, q)
                P[mm] = P.get(mm, 0) ^ c
        if len(P) > LIMIT:
            raise TooBig()
    return W(w, {m: c for m, c in P.items() if c}, D)


def _flat(x):
    P = {}
    for i, ms in enumerate(bits(x)):
        for m in ms:
            P[m] = P.get(m, 0) ^ (1 << i)
    return P


def _lincombine(w, k, parts):
    """canonical atom of k + sum c*x mod 2^w"""
    M = (1 << w) - 1
    acc = {}
    keep = {}
    todo = list(parts)
    while todo:
        c, x = todo.pop()
        v = cval(x)
        if v is not None:
            k = (k + c * v) & M
            continue
        e = _islin(x)
        if e is not None and e[0] == w:
            k = (k + c * e[1]) & M
            for c2, x2 in e[2]:
                todo.append((c * c2, x2))
            continue
        hi = 0
        for cc in x.P.values():
            hi |= cc
        if not x.D and hi == 1 and not todo and not acc:
            # one bit: k + c*b = k ^ b&(k ^ (k+c))
            return xorn([const(k, w), smear(W(w, x.P), k ^ ((k + c) & M), w)], w)
        # complement: ~x = -1 - x ; use the representative without the top constant bit
        kk = x.P.get((), 0)
        if kk >> (x.w - 1) & 1 and x.w == w:
            y = xorn([x, const(-1, w)], w)
            k = (k - c) & M
            c, x = -c, y
            todo.append((c & M, x))
            continue
        key = x.key()
        acc[key] = (acc.get(key, 0) + c) & M
        keep[key] = x
    items = tuple(sorted((kx, c) for kx, c in acc.items() if c))
    if not items:
        return const(k, w)
    if len(items) == 1:
        kx, c = items[0]
        if k == 0 and c == 1:
            return keep[kx]
        if k == M and c == M:
            return xorn([keep[kx], const(M, w)], w)
    b = atom(('lin', w, k, items), w)
    _lin[b] = (w, k, [(c, keep[kx]) for kx, c in items])
    return atomic(b, w)


def _islin(x):
    """x is exactly the atom of an earlier sum"""
    if x.D or len(x.P) != x.w:
        return None
    b = None
    for m, c in x.P.items():
        if len(m) != 1 or c & (c - 1):
            return None
        i = c.bit_length() - 1
        if b is None:
            b = m[0] - i
        elif m[0] - i != b:
            return None
    return _lin.get(b)


_memo = {}
UFHOOK = {}


PUSH = ('xor', 'and', 'or', 'ite', 'cat', 'ext', 'sel', 'tbl', 'c')
_smemo = {}
OPAQUE_CLMUL = False


def _slice(t, lo, w):
    """the term for bits [lo, lo+w) with the extraction pushed through bitwise operations (one level)"""
    k = (t, lo, w)
    r = _smemo.get(k)
    if r is not None:
        return r
    op = t.op
    if op == 'cat':
        parts = []
        pos = t.w
        for x in t.args:
            pos -= x.w
            a, b = max(lo, pos), min(lo + w, pos + x.w)
            if a < b:
                parts.append((x, a - pos, b - a))
        r = ('cat', parts)
    elif op == 'ext':
        r = ('is', [(t.args[0], t.aux + lo, w)])
    elif op in ('xor', 'and', 'or'):
        r = (op, [(x, lo, w) for x in t.args])
    elif op == 'ite':
        r = ('ite', [(t.args[0], 0, 1), (t.args[1], lo, w), (t.args[2], lo, w)])
    elif op == 'sel':
        r = ('sel', [(t.args[0], 0, t.args[0].w)] + [(x, lo, w) for x in t.args[1:]])
    elif op == 'tbl':
        r = ('tbl', [(t.args[0], 0, t.args[0].w)])
    elif op == 'c':
        r = ('c', [])
    else:
        r = ('whole', [(x, 0, x.w) for x in t.args])
    _smemo[k] = r
    return r


def canon(root, lo=0, w=None):
    if w is None:
        w = root.w
    st = [(root, lo, w)]
    while st:
        k = st[-1]
        if k in _memo:
            st.pop()
            continue
        t, l, n = k
        kind, sub = _slice(t, l, n)
        if kind == 'whole' and (l, n) != (0, t.w):
            kk = (t, 0, t.w)
            if kk not in _memo:
                st.append(kk)
                continue
            _memo[k] = ext(_memo[kk], l, n)
            st.pop()
            continue
        pend = [a for a in sub if a not in _memo]
        if pend:
            st.extend(pend)
            continue
        a = [_memo[x] for x in sub]
        if kind == 'cat':
            r = cat(a, n) if len(a) > 1 else a[0]
        elif kind == 'is':
            r = a[0]
        elif kind == 'tbl':
            M = (1 << n) - 1
            r = lookup([(v >> l) & M for v in t.aux], n, a[0])
        elif kind == 'c':
            r = const(t.aux >> l, n)
        elif kind == 'xor':
            r = xorn(a, n)
        elif kind == 'ite':
            r = ite(a[0], a[1], a[2])
        elif kind == 'sel':
            r = select(a[0], a[1:])
        elif kind == 'and':
            r = a[0]
            for x in a[1:]:
                r = and2(r, x)
        elif kind == 'or':
            one = const(-1, n)
            r = xorn([a[0], one], n)
            for x in a[1:]:
                r = and2(r, xorn([x, one], n))
            r = xorn([r, one], n)
        else:
            r = _one(t, a)
        _memo[k] = r
        st.pop()
    return _memo[(root, lo, w)]


def _one(t, a):
    op = t.op
    w = t.w
    if op == 'v':
        return atomic(atom(('v', t.aux, w), w), w)
    if op == 'sx':
        n = a[0].w
        return cat([ext(a[0], n - 1, 1)] * (w - n) + [a[0]], w)
    if op == 'lin':
        return _lincombine(w, t.aux[0], list(zip(t.aux[1], a)))
    if op == 'uf' and t.aux == 'clmul':
        if OPAQUE_CLMUL:
            return atomic(atom(('clmul', 128) + tuple(sorted((a[0].key(), a[1].key()))), 128), 128)
        return clmul(a[0], a[1])
    if op == 'uf' and t.aux in UFHOOK:
        r = UFHOOK[t.aux](t, a)
        if r is not None:
            return r
    if op == 'eq':
        # 0 test of the difference
        d = xorn(a, a[0].w)
        v = cval(d)
        if v is not None:
            return const(int(v == 0), 1)
        if d.w == 1:
            return xorn([d, const(1, 1)], 1)
        hi = 0
        for cc in d.P.values():
            hi |= cc
        if not d.D and hi & (hi - 1) == 0:
            # a single bit can be set
            return xorn([ext(d, hi.bit_length() - 1, 1), const(1, 1)], 1)
        return atomic(atom(('eq0', d.key()), 1), 1)
    ks = [x.key() for x in a]
    if op in ('mul',):
        ks.sort()
    return atomic(atom((op, w, t.aux, tuple(ks)), w), w)


def equal(a, b):
    global STRICT
    if _equal(a, b):
        return True
    if STRICT or not any(x.D for x in _memo.values()):
        return False
    # different tables may still agree up to affine maps
    STRICT = True
    _memo.clear()
    return _equal(a, b)


def _equal(a, b):
    n = a.w
    for lo in range(0, n, 32):
        w = min(32, n - lo)
        if canon(a, lo, w).key() != canon(b, lo, w).key():
            return False
    return True


def backend(g, su, ex):
    try:
        if equal(g.got, g.want):
            return 'GF(2) normal form'
    except TooBig:
        pass
    return None


backend.final = True
