"""Hash-consed bit-vector terms with a normalising constructor layer.

A term is an immutable node; structurally equal terms are the same object.
Bit order: bit 0 is least significant.  cat args are most-significant first.
"""
import sys
sys.setrecursionlimit(1000000)

_tab = {}
_next = [0]


class T:
    __slots__ = ('op', 'w', 'args', 'aux', 'id', 'lo', 'hi', '__weakref__', 'c')

    def __repr__(self):
        return show(self, 4)


def _mk(op, w, args, aux=None, lo=None, hi=None):
    key = (op, w, tuple([a.id for a in args]), aux) if op != 'v' else (op, w, lo, hi, aux)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.w = w
    t.args = args
    t.aux = aux
    t.id = _next[0]
    _next[0] += 1
    t.lo = 0 if lo is None else lo
    t.hi = (1 << w) - 1 if hi is None else hi
    t.c = {}
    _tab[key] = t
    return t


def const(v, w):
    v &= (1 << w) - 1
    return _mk('c', w, (), v, v, v)


TRUE = const(1, 1)
FALSE = const(0, 1)


def var(name, w, lo=0, hi=None):
    return _mk('v', w, (), name, lo, (1 << w) - 1 if hi is None else hi)


_fresh = [0]


def fresh(prefix, w, lo=0, hi=None):
    _fresh[0] += 1
    return var('%s!%d' % (prefix, _fresh[0]), w, lo, hi)


def isc(t):
    return t.op == 'c'


# ---------------------------------------------------------------- linear
def _lin_parts(t):
    """(const, {term: coef}) mod 2^w."""
    if t.op == 'c':
        return t.aux, {}
    if t.op == 'lin':
        return t.aux[0], dict(zip(t.args, t.aux[1]))
    return 0, {t: 1}


def signed(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def lin(w, k, parts):
    M = (1 << w) - 1
    k &= M
    items = []
    for t, c in parts.items():
        c &= M
        if c:
            items.append((t, c))
    if not items:
        return const(k, w)
    if k == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    # interval without wrap
    lo = hi = signed(k, w)
    for t, c in items:
        sc = signed(c, w)
        if sc > 0:
            lo += sc * t.lo
            hi += sc * t.hi
        else:
            lo += sc * t.hi
            hi += sc * t.lo
    if lo < 0 and hi < 0:
        # maybe k should be taken unsigned
        lo += 1 << w
        hi += 1 << w
    elif lo < 0 and k >> (w - 1):
        lo2, hi2 = lo + (1 << w), hi + (1 << w)
        if lo2 >= 0 and hi2 <= M:
            lo, hi = lo2, hi2
    nowrap = lo >= 0 and hi <= M
    if not nowrap:
        lo, hi = 0, M
    r = _mk('lin', w, tuple([p[0] for p in items]), (k, tuple([p[1] for p in items])), lo, hi)
    if nowrap:
        r.c['nw'] = True
    return r


def add(a, b):
    if a.op == 'c':
        if b.op == 'c':
            return const(a.aux + b.aux, a.w)
        if a.aux == 0:
            return b
    elif b.op == 'c' and b.aux == 0:
        return a
    assert a.w == b.w, (a.w, b.w)
    if a.w == 1:
        return xor(a, b)
    k1, p1 = _lin_parts(a)
    k2, p2 = _lin_parts(b)
    if len(p2) > len(p1):
        p1, p2 = p2, p1
    for t, c in p2.items():
        p1[t] = p1.get(t, 0) + c
    return lin(a.w, k1 + k2, p1)


def scale(a, c):
    k, p = _lin_parts(a)
    return lin(a.w, k * c, {t: x * c for t, x in p.items()})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    if b.op == 'c' and b.aux == 0:
        return a
    if a is b:
        return const(0, a.w)
    if a.op == 'c' and b.op == 'c':
        return const(a.aux - b.aux, a.w)
    return add(a, scale(b, -1))


def mul(a, b):
    if a.op == 'c' and b.op == 'c':
        return const(a.aux * b.aux, a.w)
    if a.op == 'c':
        return scale(b, a.aux)
    if b.op == 'c':
        return scale(a, b.aux)
    fa = list(a.args) if a.op == 'mul' else [a]
    fb = list(b.args) if b.op == 'mul' else [b]
    f = sorted(fa + fb, key=lambda t: t.id)
    lo = 1
    hi = 1
    for t in f:
        lo *= t.lo
        hi *= t.hi
    M = (1 << a.w) - 1
    if hi > M:
        lo, hi = 0, M
        nw = False
    else:
        nw = True
    r = _mk('mul', a.w, tuple(f), None, lo, hi)
    if nw:
        r.c['nw'] = True
    return r


# ---------------------------------------------------------------- structure
LAZY = False      # keep xor/and/or nested and do not push extractions into them (a normal form is computed later)


def _const_range(a, lo, w):
    if a.op == 'c':
        return True
    if a.op == 'cat':
        pos = a.w
        for x in a.args:
            pos -= x.w
            if pos <= lo and lo + w <= pos + x.w:
                return x.op == 'c'
    return False


def ext(t, lo, w):
    """bits [lo, lo+w) of t"""
    if lo == 0 and w == t.w:
        return t
    assert lo + w <= t.w and w > 0, (lo, w, t.w)
    op = t.op
    if op == 'c':
        return const(t.aux >> lo, w)
    if t.lo >> lo == t.hi >> lo:
        return const(t.lo >> lo, w)
    if op == 'ext':
        return ext(t.args[0], t.aux + lo, w)
    if op == 'cat':
        out = []
        pos = t.w
        hi = lo + w
        for a in t.args:
            pos -= a.w
            l = max(lo, pos)
            h = min(hi, pos + a.w)
            if l < h:
                out.append(ext(a, l - pos, h - l))
        return cat(*out)
    if op == 'lin':
        if lo == 0:
            return lin(w, t.aux[0], _merge([(ext(a, 0, w), c) for a, c in zip(t.args, t.aux[1])]))
        m = (1 << lo) - 1
        if all((c & m) == 0 for c in t.aux[1]):
            # exact division, no carries out of the low part
            n = t.w - lo
            p = _merge([(ext(a, 0, n), c >> lo) for a, c in zip(t.args, t.aux[1])])
            r = lin(n, t.aux[0] >> lo, p)
            return ext(r, 0, w)
    if op == 'mul' and lo == 0:
        r = const(1, w)
        for a in t.args:
            r = mul(r, ext(a, 0, w))
        return r
    if op == 'sx':
        a = t.args[0]
        if lo + w <= a.w:
            return ext(a, lo, w)
    if op == 'ite':
        c, a, b = t.args
        if (a.op == 'c' or b.op == 'c' or a.op == 'cat' or b.op == 'cat'):
            return ite(c, ext(a, lo, w), ext(b, lo, w))
    if op in ('xor', 'and', 'or'):
        # distribute only when it exposes constants
        for a in t.args:
            if a.op in ('c', 'cat', 'sx') and (not LAZY or _const_range(a, lo, w)):
                r = None
                f = {'xor': xor, 'and': and_, 'or': or_}[op]
                for x in t.args:
                    e = ext(x, lo, w)
                    r = e if r is None else f(r, e)
                return r
    if op == 'tbl' and t.aux is not None:
        vals = t.aux
        m = (1 << w) - 1
        return tbl(tuple([(v >> lo) & m for v in vals]), w, t.args[0])
    if op == 'sel':
        return sel(t.args[0], [ext(x, lo, w) for x in t.args[1:]])
    if t.hi < (1 << lo):
        return const(0, w)
    h = t.hi >> lo
    M = (1 << w) - 1
    if h <= M:
        return _mk('ext', w, (t,), lo, t.lo >> lo, h)
    return _mk('ext', w, (t,), lo)


def _merge(lst):
    d = {}
    for t, c in lst:
        if t.op in ('c', 'lin'):
            d.setdefault('L', []).append((t, c))
        else:
            d[t] = d.get(t, 0) + c
    L = d.pop('L', None)
    if L:
        k = 0
        for t, c in L:
            k0, p = _lin_parts(t)
            k += k0 * c
            for x, cx in p.items():
                d[x] = d.get(x, 0) + cx * c
        d2 = _LinDict(d)
        d2.k = k
        return d2
    return d


class _LinDict(dict):
    k = 0


_lin0 = lin


def lin(w, k, parts):  # noqa: F811
    if isinstance(parts, _LinDict):
        k += parts.k
    return _lin0(w, k, parts)


def cat(*args):
    if len(args) == 1:
        return args[0]
    out = []
    for a in args:
        if a.op == 'cat':
            lst = a.args
        else:
            lst = (a,)
        for x in lst:
            if out:
                p = out[-1]
                if p.op == 'c' and x.op == 'c':
                    out[-1] = const((p.aux << x.w) | x.aux, p.w + x.w)
                    continue
                m = _adj(p, x)
                if m is not None:
                    out[-1] = m
                    continue
            out.append(x)
    if len(out) == 1:
        return out[0]
    w = 0
    lo = hi = 0
    for a in out:
        w += a.w
        lo = (lo << a.w) | a.lo
        hi = (hi << a.w) | a.hi
    if len(out) == 2 and out[0].op == 'c' and out[1].op == 'ext' and out[1].aux == 0:
        # high part of a value that its range determines
        y = out[1].args[0]
        n = out[1].w
        if y.w == w and y.lo >> n == y.hi >> n == out[0].aux:
            return y
    if len(out) == 2 and out[0].op == 'c' and out[0].aux == 0:
        x = out[1]
        # zero extension of non-wrapping linear forms / products distributes
        if x.op == 'lin' and x.c.get('nw'):
            r = _zext_lin(x, w)
            if r is not None:
                return r
        if x.op == 'mul' and x.c.get('nw'):
            r = const(1, w)
            for a in x.args:
                r = mul(r, cat(const(0, w - x.w), a))
            return r
        if x.op == 'ite' and (x.args[1].op == 'c' or x.args[2].op == 'c'):
            z = const(0, w - x.w)
            return ite(x.args[0], cat(z, x.args[1]), cat(z, x.args[2]))
        if x.op == 'ext' and x.aux == 0 and x.args[0].hi < (1 << x.w):
            y = x.args[0]
            if y.w == w:
                return y
            if y.w < w:
                return cat(const(0, w - y.w), y)
            return ext(y, 0, w)
        if x.op == 'ext' and x.args[0].w == w + 0 and False:
            pass
        if x.op == 'tbl' and x.aux is not None:
            return tbl(x.aux, w, x.args[0])
    return _mk('cat', w, tuple(out), None, lo, hi)


def _zext_lin(x, w):
    k, cs = x.aux
    ow = x.w
    z = w - ow
    lo = hi = signed(k, ow)
    parts = {}
    zc = const(0, z)
    for a, c in zip(x.args, cs):
        sc = signed(c, ow)
        if sc > 0:
            lo += sc * a.lo
            hi += sc * a.hi
        else:
            lo += sc * a.hi
            hi += sc * a.lo
        za = cat(zc, a)
        k2, p2 = _lin_parts(za)
        if k2:
            return None
        for t, cc in p2.items():
            parts[t] = parts.get(t, 0) + cc * sc
    kk = signed(k, ow)
    if lo < 0:
        lo += 1 << ow
        hi += 1 << ow
        kk += 1 << ow
    if lo < 0 or hi >= (1 << ow):
        return None
    return lin(w, kk, parts)


def _adj(p, x):
    """p above x: merge adjacent extracts of the same term"""
    if x.op == 'ext':
        base, lo = x.args[0], x.aux
        if p.op == 'ext' and p.args[0] is base and p.aux == lo + x.w:
            return ext(base, lo, x.w + p.w)
    if x.w <= 16 and p.op == 'ext' and p.aux == x.w and p.args[0].op in ('lin', 'mul') and x.op != 'c':
        base = p.args[0]
        if ext(base, 0, x.w) is x:
            return ext(base, 0, x.w + p.w)
    if p.op == 'tbl' and x.op == 'tbl' and p.args[0] is x.args[0]:
        return tbl(tuple([(a << x.w) | b for a, b in zip(p.aux, x.aux)]), p.w + x.w, p.args[0])
    if p.op == 'ite' and x.op == 'ite' and p.args[0] is x.args[0]:
        a = cat(p.args[1], x.args[1])
        b = cat(p.args[2], x.args[2])
        return ite(p.args[0], a, b)
    if p.op == 'ite' and x.op == 'c' and (p.args[1].op == 'c' or p.args[2].op == 'c') and x.aux == 0 and False:
        return ite(p.args[0], cat(p.args[1], x), cat(p.args[2], x))
    return None


def zext(t, w):
    if w == t.w:
        return t
    return cat(const(0, w - t.w), t)


def sext(t, w):
    if w == t.w:
        return t
    if t.op == 'c':
        return const(signed(t.aux, t.w), w)
    if t.hi < (1 << (t.w - 1)):
        return zext(t, w)
    if t.op == 'ite':
        return ite(t.args[0], sext(t.args[1], w), sext(t.args[2], w))
    if t.w == 1:
        return ite(t, const(-1, w), const(0, w))
    if t.op == 'sx':
        return sext(t.args[0], w)
    if t.op == 'cat' and t.args[0].op == 'ite' and False:
        pass
    return _mk('sx', w, (t,))


def trunc(t, w):
    return ext(t, 0, w)


# ---------------------------------------------------------------- bitwise
def _segments(c, w):
    """runs of equal bits of const c, msb first: [(bit, lo, len)]"""
    out = []
    i = w
    while i > 0:
        b = (c >> (i - 1)) & 1
        j = i
        while j > 0 and ((c >> (j - 1)) & 1) == b:
            j -= 1
        out.append((b, j, i - j))
        i = j
    return out


def _bounds(t):
    """boundaries inside t at which constants start/stop (set of bit positions), or None"""
    if t.op == 'cat':
        s = set()
        pos = t.w
        anyc = False
        for a in t.args:
            pos -= a.w
            if a.op == 'c':
                anyc = True
            s.add(pos)
        return s if anyc else None
    return None


def _mask(t):
    """if t is an all-zero/all-one mask controlled by one bit return the bit"""
    if t.op == 'ite' and t.args[1].op == 'c' and t.args[2].op == 'c':
        M = (1 << t.w) - 1
        if (t.args[1].aux, t.args[2].aux) == (M, 0):
            return t.args[0]
        if (t.args[1].aux, t.args[2].aux) == (0, M):
            return not_(t.args[0])
    if t.op == 'lin' and len(t.args) == 1 and t.args[0].hi == 1 and t.w > 1:
        M = (1 << t.w) - 1
        k, (c,) = t.aux
        b = ext(t.args[0], 0, 1)
        if k == 0 and c == M:
            return b
        if k == M and c == 1:
            return not_(b)
    return None


def and_(a, b):
    assert a.w == b.w
    if a is b:
        return a
    if a.w > 1 and a.op != 'c' and b.op != 'c':
        m = _mask(a)
        if m is not None:
            return ite(m, b, const(0, a.w))
        m = _mask(b)
        if m is not None:
            return ite(m, a, const(0, a.w))
    if b.op == 'c':
        a, b = b, a
    w = a.w
    if a.op == 'c':
        if b.op == 'c':
            return const(a.aux & b.aux, w)
        if a.aux == 0:
            return a
        if a.aux == (1 << w) - 1:
            return b
        if w == 1:
            return b if a.aux else a
        segs = _segments(a.aux, w)
        if len(segs) <= 16 or True:
            return cat(*[ext(b, lo, n) if bit else const(0, n) for bit, lo, n in segs])
    r = _split('and', a, b)
    if r is not None:
        return r
    if w == 1:
        if is_not(a) is b or is_not(b) is a:
            return FALSE
    return _nary('and', a, b)


def or_(a, b):
    assert a.w == b.w
    if a is b:
        return a
    if b.op == 'c':
        a, b = b, a
    w = a.w
    if a.op == 'c':
        if b.op == 'c':
            return const(a.aux | b.aux, w)
        if a.aux == 0:
            return b
        if a.aux == (1 << w) - 1:
            return a
        segs = _segments(a.aux, w)
        return cat(*[const(-1, n) if bit else ext(b, lo, n) for bit, lo, n in segs])
    r = _split('or', a, b)
    if r is not None:
        return r
    if w == 1:
        if is_not(a) is b or is_not(b) is a:
            return TRUE
    return _nary('or', a, b)


def xor(a, b):
    assert a.w == b.w, (a.w, b.w)
    if a is b:
        return const(0, a.w)
    if b.op == 'c':
        a, b = b, a
    w = a.w
    if a.op == 'c':
        if b.op == 'c':
            return const(a.aux ^ b.aux, w)
        if a.aux == 0:
            return b
        if b.op == 'ite' and (b.args[1].op == 'c' and b.args[2].op == 'c'):
            return ite(b.args[0], xor(a, b.args[1]), xor(a, b.args[2]))
    r = _split('xor', a, b)
    if r is not None:
        return r
    if LAZY and (a.op == 'xor' or b.op == 'xor') and a.op != 'c' and b.op != 'c' and len(a.args) + len(b.args) > 6:
        return _mk('xor', w, tuple(sorted((a, b), key=lambda t: t.id)))
    # n-ary with cancellation
    k = 0
    cnt = {}
    for t in (a, b):
        for x in (t.args if t.op == 'xor' else (t,)):
            if x.op == 'c':
                k ^= x.aux
            elif x in cnt:
                del cnt[x]
            else:
                cnt[x] = 1
    args = sorted(cnt, key=lambda t: t.id)
    if k:
        args.append(const(k, w))
    if not args:
        return const(0, w)
    if len(args) == 1:
        return args[0]
    return _mk('xor', w, tuple(args))


def _nary(op, a, b):
    s = {}
    for t in (a, b):
        for x in (t.args if t.op == op else (t,)):
            s[x] = 1
    if a.w == 1:
        for x in s:
            n = is_not(x)
            if n is not None and n in s:
                return FALSE if op == 'and' else TRUE
    args = tuple(sorted(s, key=lambda t: t.id))
    if len(args) == 1:
        return args[0]
    return _mk(op, a.w, args, None, 0, min(x.hi for x in args) if op == 'and' else None)


def _split(op, a, b):
    """piecewise when one of the operands is a concatenation containing constants"""
    ba = _bounds(a)
    bb = _bounds(b)
    if ba is None and bb is None:
        return None
    # full constants are handled by callers; only split where each segment becomes simpler
    if op == 'xor' and (a.op == 'c' or b.op == 'c'):
        pass
    s = (ba or set()) | (bb or set())
    if ba is None and a.op == 'cat':
        pass
    pts = sorted(s | {0, a.w}, reverse=True)
    f = {'and': and_, 'or': or_, 'xor': xor}[op]
    segs = []
    simp = False
    for h, l in zip(pts, pts[1:]):
        x = ext(a, l, h - l)
        y = ext(b, l, h - l)
        if x.op == 'c' or y.op == 'c':
            k = x if x.op == 'c' else y
            if k.aux == 0 or k.aux == (1 << k.w) - 1:
                simp = True
        segs.append((x, y))
    if not simp:
        return None
    return cat(*[f(x, y) for x, y in segs])


def not_(a):
    return xor(a, const(-1, a.w))


def is_not(t):
    """if t = ~x (bool) return x"""
    if t.op == 'xor' and t.w == 1 and t.args[-1].op == 'c':
        if len(t.args) == 2:
            return t.args[0]
        return _mk('xor', 1, t.args[:-1])
    return None


def shl(a, n):
    if isinstance(n, int):
        if n == 0:
            return a
        if n >= a.w:
            return const(0, a.w)
        return cat(ext(a, 0, a.w - n), const(0, n))
    if n.op == 'c':
        return shl(a, n.aux)
    if a.op == 'c' or True:
        r = _shift_enum('shl', a, n)
        if r is not None:
            return r
    return _mk('shl', a.w, (a, n))


def lshr(a, n):
    if isinstance(n, int):
        if n == 0:
            return a
        if n >= a.w:
            return const(0, a.w)
        return cat(const(0, n), ext(a, n, a.w - n))
    if n.op == 'c':
        return lshr(a, n.aux)
    r = _shift_enum('lshr', a, n)
    if r is not None:
        return r
    return _mk('lshr', a.w, (a, n))


def _shift_enum(op, a, n):
    if n.op == 'ite' and n.args[1].op == 'c' and n.args[2].op == 'c':
        f = shl if op == 'shl' else lshr
        return ite(n.args[0], f(a, n.args[1]), f(a, n.args[2]))
    return None


def ashr(a, n):
    if isinstance(n, int):
        n = min(n, a.w - 1)
        if n == 0:
            return a
        return sext(ext(a, n, a.w - n), a.w)
    if n.op == 'c':
        return ashr(a, n.aux)
    return _mk('ashr', a.w, (a, n))


# ---------------------------------------------------------------- division
def udiv(a, b):
    if b.op == 'c':
        d = b.aux
        if a.op == 'c':
            return const(a.aux // d, a.w) if d else const(-1, a.w)
        if d and d & (d - 1) == 0:
            return lshr(a, d.bit_length() - 1)
        if d and a.hi < d:
            return const(0, a.w)
    return _mk('udiv', a.w, (a, b))


def urem(a, b):
    if b.op == 'c':
        d = b.aux
        if a.op == 'c' and d:
            return const(a.aux % d, a.w)
        if d and d & (d - 1) == 0:
            k = d.bit_length() - 1
            if k == 0:
                return const(0, a.w)
            return zext(ext(a, 0, k), a.w)
        if d and a.hi < d:
            return a
    return _mk('urem', a.w, (a, b), None, 0, min(a.hi, b.hi - 1) if b.lo > 0 else None)


def sdiv(a, b):
    if a.op == 'c' and b.op == 'c' and b.aux:
        x, y = signed(a.aux, a.w), signed(b.aux, b.w)
        q = abs(x) // abs(y)
        return const(q if (x < 0) == (y < 0) else -q, a.w)
    M = 1 << (a.w - 1)
    if a.hi < M and b.hi < M:
        return udiv(a, b)
    return _mk('sdiv', a.w, (a, b))


def srem(a, b):
    if a.op == 'c' and b.op == 'c' and b.aux:
        x, y = signed(a.aux, a.w), signed(b.aux, b.w)
        r = abs(x) % abs(y)
        return const(-r if x < 0 else r, a.w)
    M = 1 << (a.w - 1)
    if a.hi < M and b.hi < M:
        return urem(a, b)
    return _mk('srem', a.w, (a, b))


# ---------------------------------------------------------------- predicates
def eq(a, b):
    assert a.w == b.w, (a.w, b.w)
    if a is b:
        return TRUE
    if a.op == 'c' and b.op == 'c':
        return TRUE if a.aux == b.aux else FALSE
    if b.op == 'c':
        a, b = b, a
    if a.hi < b.lo or b.hi < a.lo:
        return FALSE
    w = a.w
    if a.op == 'c':
        k = a.aux
        if w == 1:
            return b if k else not_(b)
        if b.op == 'ite':
            c, x, y = b.args
            if x.op == 'c' or y.op == 'c':
                return ite(c, eq(x, a), eq(y, a))
        if b.op == 'cat':
            # split off constant segments
            pos = w
            rest = []
            simp = False
            for s in b.args:
                pos -= s.w
                kk = (k >> pos) & ((1 << s.w) - 1)
                if s.op == 'c':
                    simp = True
                    if s.aux != kk:
                        return FALSE
                else:
                    rest.append((s, kk))
            if simp:
                r = TRUE
                # keep contiguous non-constant runs together
                if len(rest) == 1:
                    return eq(rest[0][0], const(rest[0][1], rest[0][0].w))
                for s, kk in rest:
                    r = and_(r, eq(s, const(kk, s.w)))
                return r
        if b.op == 'lin':
            kk, cs = b.aux
            if kk:
                return eq(const(k - kk, w), lin(w, 0, dict(zip(b.args, cs))))
            if len(b.args) == 1 and cs[0] & 1:
                inv = pow(cs[0], -1, 1 << w)
                if cs[0] != 1:
                    return eq(const(k * inv, w), b.args[0])
            if len(b.args) == 1:
                c0 = cs[0]
                tz = (c0 & -c0).bit_length() - 1
                if tz:
                    if k & ((1 << tz) - 1):
                        return FALSE
                    sc = signed(c0, w)
                    if b.c.get('nw') and sc > 0:
                        if k % sc:
                            return FALSE
                        return eq(b.args[0], const(k // sc, w))
        if b.op == 'xor' and b.args[-1].op == 'c':
            k2 = b.args[-1].aux
            x = _mk('xor', w, b.args[:-1]) if len(b.args) > 2 else b.args[0]
            return eq(const(k ^ k2, w), x)
    else:
        if w == 1:
            return not_(xor(a, b))
        if a.op in ('lin',) or b.op in ('lin',):
            d = sub(a, b)
            if d.op == 'c':
                return TRUE if d.aux == 0 else FALSE
            ka, pa = _lin_parts(a)
            kb, pb = _lin_parts(b)
            common = [t for t in pa if t in pb]
            if common:
                return eq(d, const(0, w))
    if a.id > b.id:
        a, b = b, a
    return _mk('eq', 1, (a, b))


def ne(a, b):
    return not_(eq(a, b))


def strip0(t):
    """drop leading zero bits"""
    while t.op == 'cat' and t.args[0].op == 'c' and t.args[0].aux == 0:
        t = cat(*t.args[1:])
    return t


def ult(a, b):
    assert a.w == b.w
    if a is b:
        return FALSE
    if a.hi < b.lo:
        return TRUE
    if a.lo >= b.hi:
        return FALSE
    if b.op == 'c' and b.aux == 1:
        return eq(a, const(0, a.w))
    if a.op == 'c' and a.aux == 0:
        return ne(b, a)
    u = strip0(a)
    if u.op == 'ext' and u.aux == 0:
        u = u.args[0]
    if u.op == 'urem' and b.lo > 0:
        d = u.args[1]
        if strip0(d) is strip0(b):
            return TRUE
    # common high zeros
    if a.op == 'c' and a.aux == (1 << a.w) - 1:
        return FALSE
    if a.op == 'ite' and b.op == 'c' and a.args[1].op == 'c' and a.args[2].op == 'c':
        return ite(a.args[0], ult(a.args[1], b), ult(a.args[2], b))
    if b.op == 'ite' and a.op == 'c' and b.args[1].op == 'c' and b.args[2].op == 'c':
        return ite(b.args[0], ult(a, b.args[1]), ult(a, b.args[2]))
    # both linear non wrapping: compare difference interval
    ia = _exact(a)
    ib = _exact(b)
    if ia is not None and ib is not None:
        k, p = ia
        k2, p2 = ib
        d = dict(p)
        for t, c in p2.items():
            d[t] = d.get(t, 0) - c
        kk = k - k2
        lo = hi = kk
        for t, c in d.items():
            if c > 0:
                lo += c * t.lo
                hi += c * t.hi
            elif c < 0:
                lo += c * t.hi
                hi += c * t.lo
        if hi < 0:
            return TRUE
        if lo >= 0:
            return FALSE
        # single variable: normalise  c*x + kk < 0
        d = {t: c for t, c in d.items() if c}
        if len(d) == 1:
            (t, c), = d.items()
            if c > 0:
                # t < -kk / c  -> t < ceil(-kk/c)
                bound = (-kk + c - 1) // c
                return _ultc(t, bound)
            else:
                # c*t < -kk -> t > kk/(-c) -> not (t < floor(kk/-c)+1)
                bound = kk // (-c) + 1
                return not_(_ultc(t, bound))
    if a.op == 'cat' and b.op in ('cat', 'c') and a.args[0].op == 'c' and a.args[0].aux == 0:
        n = a.args[0].w
        if b.op == 'c' and b.aux < (1 << (a.w - n)):
            return ult(cat(*a.args[1:]), const(b.aux, a.w - n))
        if b.op == 'cat' and b.args[0].op == 'c' and b.args[0].aux == 0:
            m = min(n, b.args[0].w)
            return ult(ext(a, 0, a.w - m), ext(b, 0, a.w - m))
    if a.op == 'c' and b.op == 'cat' and b.args[0].op == 'c' and b.args[0].aux == 0:
        n = b.args[0].w
        if a.aux < (1 << (b.w - n)):
            return ult(const(a.aux, b.w - n), ext(b, 0, b.w - n))
    return _mk('ult', 1, (a, b))


def _ultc(t, bound):
    if t.hi < bound:
        return TRUE
    if t.lo >= bound:
        return FALSE
    if bound == 1:
        return eq(t, const(0, t.w))
    if t.op == 'cat' and t.args[0].op == 'c' and t.args[0].aux == 0:
        n = t.args[0].w
        return _ultc(ext(t, 0, t.w - n), bound)
    return _mk('ult', 1, (t, const(bound, t.w)))


def _exact(t):
    if t.op == 'c':
        return t.aux, {}
    if t.op == 'lin':
        if not t.c.get('nw'):
            return None
        w = t.w
        k = signed(t.aux[0], w)
        p = {a: signed(c, w) for a, c in zip(t.args, t.aux[1])}
        lo = k + sum(c * (a.lo if c > 0 else a.hi) for a, c in p.items())
        if lo < 0:
            k += 1 << w
        return k, p
    return 0, {t: 1}


def ule(a, b):
    return not_(ult(b, a))


def slt(a, b):
    if a is b:
        return FALSE
    w = a.w
    if a.op == 'c' and b.op == 'c':
        return TRUE if signed(a.aux, w) < signed(b.aux, w) else FALSE
    M = 1 << (w - 1)
    if a.hi < M and b.hi < M:
        return ult(a, b)
    if a.op == 'ite' and (a.args[1].op == 'c' or a.args[2].op == 'c') and b.op == 'c':
        return ite(a.args[0], slt(a.args[1], b), slt(a.args[2], b))
    if b.op == 'ite' and (b.args[1].op == 'c' or b.args[2].op == 'c') and a.op == 'c':
        return ite(b.args[0], slt(a, b.args[1]), slt(a, b.args[2]))
    if b.op == 'c' and b.aux == 0:
        return ext(a, w - 1, 1)
    if a.op == 'c' and a.aux == M * 2 - 1:      # -1 < b
        return not_(ext(b, w - 1, 1))
    if a.op == 'sx' and b.op == 'sx' and a.args[0].w == b.args[0].w:
        return slt(a.args[0], b.args[0])
    return _mk('slt', 1, (a, b))


def sle(a, b):
    return not_(slt(b, a))


def ite(c, a, b):
    assert c.w == 1 and a.w == b.w, (c.w, a.w, b.w)
    if c.op == 'c':
        return a if c.aux else b
    if a is b:
        return a
    n = is_not(c)
    if n is not None:
        return ite(n, b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.w == 1:
        if a.op == 'c':
            return or_(c, b) if a.aux else and_(not_(c), b)
        if b.op == 'c':
            return or_(not_(c), a) if b.aux else and_(c, a)
    if a.op == 'ite' and a.args[1].op == 'c' and a.args[2] is b and b.op == 'c':
        return ite(and_(c, a.args[0]), a.args[1], b)
    if b.op == 'ite' and b.args[1] is a and a.op == 'c':
        return ite(or_(c, b.args[0]), a, b.args[2])
    if a.op == 'cat' and b.op == 'cat' and a.args[0] is b.args[0]:
        h = a.args[0]
        return cat(h, ite(c, ext(a, 0, a.w - h.w), ext(b, 0, a.w - h.w)))
    return _mk('ite', a.w, (c, a, b), None, min(a.lo, b.lo), max(a.hi, b.hi))


# ---------------------------------------------------------------- lookups
def tbl(vals, w, idx):
    """constant table lookup; vals[i] for idx value i (len(vals) > idx.hi)"""
    if idx.op == 'c':
        return const(vals[idx.aux], w)
    if all(v == vals[0] for v in vals):
        return const(vals[0], w)
    if idx.op == 'cat' and idx.args[0].op == 'c':
        # strip constant high part
        k = idx.args[0]
        lo = ext(idx, 0, idx.w - k.w)
        base = k.aux << lo.w
        return tbl(tuple(vals[base:base + (1 << lo.w)]), w, lo)
    if all(v == i for i, v in enumerate(vals)) and len(vals) == 1 << idx.w:
        return zext(idx, w) if w >= idx.w else ext(idx, 0, w)
    vals = tuple(vals)
    return _mk('tbl', w, (idx,), vals, min(vals), max(vals))


def sel(idx, terms):
    """terms[idx]"""
    if idx.op == 'c':
        return terms[idx.aux]
    if all(t is terms[0] for t in terms):
        return terms[0]
    if all(t.op == 'c' for t in terms):
        return tbl(tuple([t.aux for t in terms]), terms[0].w, idx)
    return _mk('sel', terms[0].w, (idx,) + tuple(terms))


COMMUTE = {'clmul'}


def uf(name, w, args, lo=None, hi=None):
    if name in COMMUTE:
        args = sorted(args, key=lambda t: t.id)
    return _mk('uf', w, tuple(args), name, lo, hi)


# ---------------------------------------------------------------- evaluation
def evaluate(ts, env, ufs=None):
    """concrete values of the terms under env: var name -> int"""
    memo = {}
    out = []
    for t in ts:
        out.append(_eval(t, env, memo, ufs or {}))
    return out


def _eval(root, env, memo, ufs):
    st = [root]
    while st:
        t = st[-1]
        if t in memo:
            st.pop()
            continue
        pend = [a for a in t.args if a not in memo]
        if pend:
            if t.op == 'ite':
                c = t.args[0]
                if c in memo:
                    ch = t.args[1] if memo[c] else t.args[2]
                    if ch in memo:
                        memo[t] = memo[ch]
                        st.pop()
                    else:
                        st.append(ch)
                    continue
                st.append(c)
                continue
            if t.op == 'sel' and t.args[0] in memo:
                ch = t.args[1 + memo[t.args[0]]]
                if ch in memo:
                    memo[t] = memo[ch]
                    st.pop()
                else:
                    st.append(ch)
                continue
            st.extend(pend)
            continue
        memo[t] = _eval1(t, [memo[a] for a in t.args], env, ufs)
        st.pop()
    return memo[root]


def _eval1(t, a, env, ufs):
    op = t.op
    w = t.w
    M = (1 << w) - 1
    if op == 'c':
        return t.aux
    if op == 'v':
        if t.aux not in env:
            d = env.get('__default__')
            if d is None:
                raise KeyError(t.aux)
            env[t.aux] = d(t)
        return env[t.aux] & M
    if op == 'lin':
        return (t.aux[0] + sum(c * x for c, x in zip(t.aux[1], a))) & M
    if op == 'mul':
        r = 1
        for x in a:
            r *= x
        return r & M
    if op == 'and':
        r = M
        for x in a:
            r &= x
        return r
    if op == 'or':
        r = 0
        for x in a:
            r |= x
        return r
    if op == 'xor':
        r = 0
        for x in a:
            r ^= x
        return r
    if op == 'cat':
        r = 0
        for x, s in zip(a, t.args):
            r = (r << s.w) | x
        return r
    if op == 'ext':
        return (a[0] >> t.aux) & M
    if op == 'sx':
        return signed(a[0], t.args[0].w) & M
    if op == 'ite':
        return a[1] if a[0] else a[2]
    if op == 'eq':
        return int(a[0] == a[1])
    if op == 'ult':
        return int(a[0] < a[1])
    if op == 'slt':
        n = t.args[0].w
        return int(signed(a[0], n) < signed(a[1], n))
    if op == 'shl':
        return (a[0] << a[1]) & M if a[1] < w else 0
    if op == 'lshr':
        return a[0] >> a[1] if a[1] < w else 0
    if op == 'ashr':
        return (signed(a[0], w) >> min(a[1], w - 1)) & M
    if op == 'udiv':
        return a[0] // a[1] if a[1] else M
    if op == 'urem':
        return a[0] % a[1] if a[1] else a[0]
    if op == 'sdiv' or op == 'srem':
        x, y = signed(a[0], w), signed(a[1], w)
        if y == 0:
            return M if op == 'sdiv' else a[0]
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return (q if op == 'sdiv' else x - q * y) & M
    if op == 'tbl':
        return t.aux[a[0]]
    if op == 'sel':
        return a[1 + a[0]]
    if op == 'uf':
        f = ufs.get(t.aux) or ufs.get(t.aux[0] if isinstance(t.aux, tuple) else None)
        if f is None:
            raise KeyError('uf %r' % (t.aux,))
        return f(t, a) & M
    raise NotImplementedError(op)


def free_vars(ts):
    seen = set()
    out = {}
    st = list(ts)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'v':
            out[t.aux] = t
        st.extend(t.args)
    return out


def size(ts):
    seen = set()
    st = list(ts)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        st.extend(t.args)
    return len(seen)


def subst(ts, m):
    """substitute terms (dict term->term), rebuilding through constructors"""
    memo = dict(m)

    def go(t):
        if t in memo:
            return memo[t]
        if not t.args:
            memo[t] = t
            return t
        a = [go(x) for x in t.args]
        r = t if all(x is y for x, y in zip(a, t.args)) else rebuild(t, a)
        memo[t] = r
        return r
    return [go(t) for t in ts]


def rebuild(t, a):
    op = t.op
    if op == 'lin':
        r = const(t.aux[0], t.w)
        for x, c in zip(a, t.aux[1]):
            r = add(r, scale(x, c))
        return r
    if op in ('mul', 'and', 'or', 'xor'):
        f = {'mul': mul, 'and': and_, 'or': or_, 'xor': xor}[op]
        r = a[0]
        for x in a[1:]:
            r = f(r, x)
        return r
    if op == 'cat':
        return cat(*a)
    if op == 'ext':
        return ext(a[0], t.aux, t.w)
    if op == 'sx':
        return sext(a[0], t.w)
    if op == 'tbl':
        return tbl(t.aux, t.w, a[0])
    if op == 'sel':
        return sel(a[0], a[1:])
    if op == 'uf':
        return uf(t.aux, t.w, a, t.lo, t.hi)
    f = {'ite': ite, 'eq': eq, 'ult': ult, 'slt': slt, 'shl': shl, 'lshr': lshr,
         'ashr': ashr, 'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem}[op]
    return f(*a)


def cofactor(t, x, v):
    """t with x replaced by v; only nodes younger than x can contain it"""
    memo = {x: v}
    lim = x.id

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if not t.args or t.id < lim:
            return t
        if len(memo) > 600:
            raise OverflowError
        a = [go(y) for y in t.args]
        r = t if all(p is q for p, q in zip(a, t.args)) else rebuild(t, a)
        memo[t] = r
        return r
    return go(t)


def join(c, a, b):
    """value of c ? a : b at a control-flow join, recognising arms that agree once the condition is used"""
    if a is b:
        return a
    if c.op == 'c' or a.op == 'c' and b.op == 'c':
        return ite(c, a, b)
    pos = c
    x, y = a, b
    n = is_not(c)
    if n is not None:
        pos, x, y = n, b, a
    # pos ? x : y
    try:
        if pos.op == 'eq' and pos.args[0].op == 'c' or pos.op == 'eq' and pos.args[1].op == 'c':
            k, v = pos.args if pos.args[0].op == 'c' else (pos.args[1], pos.args[0])
            if v.op != 'c' and cofactor(y, v, k) is cofactor(x, v, k):
                return y
        if cofactor(x, pos, FALSE) is y:
            return x
        if cofactor(y, pos, TRUE) is x:
            return y
    except OverflowError:
        pass
    return ite(c, a, b)


def show(t, depth=6):
    if t.op == 'c':
        return '%#x:%d' % (t.aux, t.w)
    if t.op == 'v':
        return str(t.aux)
    if depth == 0:
        return '<%s#%d>' % (t.op, t.id)
    if t.op == 'lin':
        s = ' + '.join('%s*%s' % (signed(c, t.w), show(a, depth - 1)) for a, c in zip(t.args, t.aux[1]))
        return '(%s + %d):%d' % (s, signed(t.aux[0], t.w), t.w)
    if t.op == 'ext':
        return '%s[%d:%d]' % (show(t.args[0], depth - 1), t.aux + t.w - 1, t.aux)
    if t.op == 'tbl':
        return 'tbl#%x(%s)' % (hash(t.aux) & 0xffff, show(t.args[0], depth - 1))
    return '%s%s(%s)' % (t.op, '' if t.op != 'uf' else ':' + str(t.aux),
                         ', '.join(show(a, depth - 1) for a in t.args[:12]))
