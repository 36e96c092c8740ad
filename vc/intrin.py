"""Semantics of LLVM/x86 intrinsics and of the few C/C++ runtime functions the code calls (trusted)."""
import term as T
from term import const, TRUE, FALSE
import exec as E
import gf

LIBC = {}


def lanes(v, n, w):
    return [T.ext(v, i * w, w) for i in range(n)]


def vec(el):
    return T.cat(*reversed(el))


def bswap(v):
    n = v.w // 8
    return T.cat(*[T.ext(v, 8 * i, 8) for i in range(n)])


def concrete(n, what):
    if n.op != 'c':
        raise E.Unsupported('symbolic length in ' + what)
    return n.aux


# --- AES
def _bytes(v):
    return [T.ext(v, 8 * i, 8) for i in range(16)]


def _lut(tab, b):
    return T.tbl(tab, 8, b)


def aes_mix(s, coef):
    """column mix with circulant first row coef; s: 16 terms that are (tab-able) bytes"""
    out = []
    for c in range(4):
        col = s[4 * c:4 * c + 4]
        for r in range(4):
            acc = None
            for k in range(4):
                x = _lut(gf.MULT[coef[(k - r) % 4]], col[k])
                acc = x if acc is None else T.xor(acc, x)
            out.append(acc)
    return out


def aes_mix_sub(s, coef, box):
    """mix of substituted bytes: uses composed tables"""
    out = []
    tabs = {k: gf.compose(gf.MULT[k], box) for k in set(coef)}
    for c in range(4):
        col = s[4 * c:4 * c + 4]
        for r in range(4):
            acc = None
            for k in range(4):
                x = _lut(tabs[coef[(k - r) % 4]], col[k])
                acc = x if acc is None else T.xor(acc, x)
            out.append(acc)
    return out


def shift_rows(s):
    return [s[4 * ((c + r) % 4) + r] for c in range(4) for r in range(4)]


def inv_shift_rows(s):
    return [s[4 * ((c - r) % 4) + r] for c in range(4) for r in range(4)]


ENC = (2, 3, 1, 1)
DEC = (14, 11, 13, 9)


def aesenc(a, k):
    return T.xor(vec(aes_mix_sub(shift_rows(_bytes(a)), ENC, gf.SBOX)), k)


def aesenclast(a, k):
    return T.xor(vec([_lut(gf.SBOX, x) for x in shift_rows(_bytes(a))]), k)


def aesdec(a, k):
    return T.xor(vec(aes_mix_sub(inv_shift_rows(_bytes(a)), DEC, gf.INVS)), k)


def aesdeclast(a, k):
    return T.xor(vec([_lut(gf.INVS, x) for x in inv_shift_rows(_bytes(a))]), k)


def aesimc(a):
    return vec(aes_mix(_bytes(a), DEC))


def keygenassist(a, rcon):
    w = lanes(a, 4, 32)

    def subw(x):
        return vec([_lut(gf.SBOX, T.ext(x, 8 * i, 8)) for i in range(4)])

    def rotw(x):
        return T.cat(T.ext(x, 0, 8), T.ext(x, 8, 24))
    x1, x3 = w[1], w[3]
    rc = const(rcon, 32)
    return vec([subw(x1), T.xor(rotw(subw(x1)), rc), subw(x3), T.xor(rotw(subw(x3)), rc)])


def clmul64(a, b):
    if a.op == 'c' and b.op == 'c':
        r = 0
        for i in range(64):
            if (b.aux >> i) & 1:
                r ^= a.aux << i
        return const(r, 128)
    if a.id > b.id:
        a, b = b, a
    return T.uf('clmul', 128, [a, b])


def pshufb(a, b, n):
    out = []
    for i in range(n):
        m = T.ext(b, 8 * i, 8)
        if m.op != 'c':
            src = [T.ext(a, 8 * k, 8) for k in range(n)]
            hit = []
            for j in range(16):
                hit.append(src[(i & ~15) + j])
            v = T.sel(T.ext(m, 0, 4), hit)
            out.append(T.ite(T.ext(m, 7, 1), T.const(0, 8), v))
            continue
        if m.aux & 0x80:
            out.append(const(0, 8))
        else:
            k = (m.aux & 15) + (i & 16)
            out.append(T.ext(a, 8 * k, 8))
    return vec(out)


def call(ex, fr, st, ins, name, args):
    fn = fr.fn.name
    if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.donothing', 'llvm.invariant')):
        return None
    if name.startswith(('llvm.memcpy', 'llvm.memmove')):
        mem_copy(ex, st, args[0], args[1], args[2], fn)
        return None
    if name.startswith('llvm.memset'):
        mem_set(ex, st, args[0], args[1], args[2], fn)
        return None
    if name.startswith('llvm.bswap'):
        return bswap(args[0])
    if name.startswith('llvm.expect'):
        return args[0]
    if name.startswith('llvm.is.constant'):
        return FALSE
    if name.startswith('llvm.objectsize'):
        return const(-1, args[-1].w) if False else const(-1, 64)
    if name.startswith('llvm.fsh'):
        a, b, n = args
        w = a.w
        if n.op != 'c':
            raise E.Unsupported('symbolic funnel shift')
        k = n.aux % w
        d = T.cat(a, b)
        return T.ext(d, w - k, w) if name.startswith('llvm.fshl') else T.ext(d, k, w)
    if name.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
        a, b = args
        c = T.ult(a, b) if name[5] == 'u' else T.slt(a, b)
        return T.ite(c, a, b) if name[6:9] == 'min' else T.ite(c, b, a)
    if name.startswith('llvm.abs'):
        a = args[0]
        return T.ite(T.slt(a, const(0, a.w)), T.neg(a), a)
    if '.with.overflow' in name:
        a, b = args[:2]
        w = a.w
        k = name[5:9]
        sgn = k[0] == 's'
        e = T.sext if sgn else T.zext
        op = {'add': T.add, 'sub': T.sub, 'mul': T.mul}[k[1:]]
        r2 = op(e(a, 2 * w), e(b, 2 * w))
        r = T.ext(r2, 0, w)
        return (r, T.ne(r2, e(r, 2 * w)))
    if name.startswith('llvm.ctpop') or name.startswith('llvm.ctlz') or name.startswith('llvm.cttz'):
        a = args[0]
        if a.op == 'c':
            w = a.w
            x = a.aux
            if 'ctpop' in name:
                v = bin(x).count('1')
            elif 'ctlz' in name:
                v = w - x.bit_length()
            else:
                v = w if x == 0 else (x & -x).bit_length() - 1
            return const(v, w)
        if a.w <= 10:
            def f(x):
                if 'ctpop' in name:
                    return bin(x).count('1')
                if 'ctlz' in name:
                    return a.w - x.bit_length()
                return a.w if x == 0 else (x & -x).bit_length() - 1
            return T.tbl(tuple(f(x) for x in range(1 << a.w)), a.w, a)
        raise E.Unsupported(name)
    if name.startswith('llvm.x86.'):
        return x86(ex, fr, st, name[9:], args)
    if name.startswith('llvm.trap') or name.startswith('llvm.ubsantrap'):
        ex.ob('trap', st, FALSE, 'trap', fn)
        raise E.Unsupported('trap')
    if name.startswith('llvm.vector.reduce.'):
        raise E.Unsupported(name)
    if name.startswith('llvm.launder') or name.startswith('llvm.strip'):
        return args[0]
    raise E.Unsupported('intrinsic ' + name)


def carry_op(ci, a, b, w, is_sub):
    """add with carry / subtract with borrow; a chain of them is one wide operation:
    carry(X + Y) + a + b = floor((2^k a + X + 2^k b + Y) / 2^k), and likewise for borrows"""
    op = T.sub if is_sub else T.add
    hit = CHAIN.get(ci)
    if hit is not None and hit[0] == is_sub:
        _, X, Y, c0 = hit
        k = X.w
        A = T.cat(a, X)
        Bb = T.cat(b, Y)
        s = op(T.zext(A, w + k + 1), T.zext(Bb, w + k + 1))
        if c0:
            s = op(s, T.const(1, w + k + 1))
        co = T.ext(s, w + k, 1)
        if co.op != 'c':
            CHAIN[co] = (is_sub, A, Bb, c0)
        return (T.zext(co, 8), T.ext(s, k, w))
    s = op(op(T.zext(a, w + 1), T.zext(b, w + 1)), T.zext(ci, w + 1))
    co = T.ext(s, w, 1)
    if ci.op == 'c' and co.op != 'c':
        CHAIN[co] = (is_sub, a, b, ci.aux)
    return (T.zext(co, 8), T.ext(s, 0, w))


CHAIN = {}


def x86(ex, fr, st, name, args):
    if name.startswith('addcarry.') or name.startswith('subborrow.'):
        w = int(name.split('.')[1])
        c, a, b = args
        ci = T.ne(c, const(0, 8))
        return carry_op(ci, a, b, w, name.startswith('sub'))
    if name == 'aesni.aesenc':
        return aesenc(*args)
    if name == 'aesni.aesenclast':
        return aesenclast(*args)
    if name == 'aesni.aesdec':
        return aesdec(*args)
    if name == 'aesni.aesdeclast':
        return aesdeclast(*args)
    if name == 'aesni.aesimc':
        return aesimc(*args)
    if name == 'aesni.aeskeygenassist':
        return keygenassist(args[0], args[1].aux)
    if name == 'pclmulqdq':
        a, b, i = args
        x = T.ext(a, 64 * (i.aux & 1), 64)
        y = T.ext(b, 64 * ((i.aux >> 4) & 1), 64)
        return clmul64(x, y)
    if name == 'ssse3.pshuf.b.128':
        return pshufb(args[0], args[1], 16)
    if name == 'avx2.pshuf.b':
        return pshufb(args[0], args[1], 32)
    import re
    m = re.fullmatch(r'(?:sse2|avx2)\.(psll|psrl|psra)(i?)\.([wdq])', name)
    if m:
        a, n = args
        ew = {'w': 16, 'd': 32, 'q': 64}[m.group(3)]
        if not m.group(2):
            n = T.ext(n, 0, 64)
        if n.op != 'c':
            raise E.Unsupported('symbolic vector shift')
        k = n.aux
        f = {'psll': T.shl, 'psrl': T.lshr, 'psra': T.ashr}[m.group(1)]
        if k >= ew and m.group(1) != 'psra':
            return const(0, a.w)
        return vec([f(x, min(k, ew - 1) if m.group(1) == 'psra' else k) for x in lanes(a, a.w // ew, ew)])
    m = re.fullmatch(r'avx2\.gather\.d\.(d|q)(\.256)?', name)
    if m:
        src, base, idx, mask, scale = args
        ew = 32 if m.group(1) == 'd' else 64
        n = src.w // ew
        out = []
        for i in range(n):
            mk = T.ext(mask, ew * i + ew - 1, 1)
            off = T.scale(T.sext(T.ext(idx, 32 * i, 32), 64), scale.aux)
            if mk.op != 'c':
                raise E.Unsupported('symbolic gather mask')
            if mk.aux:
                out.append(ex.load_bytes(st, E.padd_t(base, off), ew // 8, fr.fn.name))
            else:
                out.append(T.ext(src, ew * i, ew))
        return vec(out)
    if name.startswith('rdrand.') or name.startswith('rdseed.'):
        h = ex.contracts.get('llvm.x86.' + name)
        if h:
            return h(ex, fr, st, args, None)
    raise E.Unsupported('x86 intrinsic ' + name)


def mem_copy(ex, st, d, s, n, fn):
    if n.op != 'c':
        h = ex.contracts.get('memcpy')
        if h:
            h(ex, st, d, s, n, fn)
            return
        by_length(ex, st, n, [d, s], lambda q, k, ps: ex.memcpy(q, ps[0], ps[1], k, fn), 'memcpy')
        return
    ex.memcpy(st, d, s, n.aux, fn)


def by_length(ex, st, n, ps, op, what):
    """case split on a symbolic length that the path condition bounds"""
    import smt
    pc = st.pc
    hi = n.hi
    if hi > 128:
        for b in (32, 64, 128):
            if smt.sat(list(pc) + ex.facts + [T.ult(const(b, n.w), n)], 20000)[0] is False:
                hi = b
                break
        else:
            raise E.Unsupported('symbolic length in %s: %s' % (what, T.show(n, 3)))
    k0, parts = T._lin_parts(n)
    m = None
    if len(parts) == 1:
        (x, c), = parts.items()
        if T.signed(c, n.w) in (1, -1):
            m = x, T.signed(c, n.w)
    arms = []
    for k in range(n.lo, hi + 1):
        e = T.eq(n, const(k, n.w))
        if e is T.FALSE or smt.sat(list(pc) + ex.facts + [e], 20000)[0] is False:
            continue
        q = st.fork()
        q.pc = pc
        ex.assume(q, e)
        sub = {n: const(k, n.w)}
        if m:
            sub[m[0]] = const((k - k0) * m[1], n.w)

        def at(p):
            if isinstance(p, E.Ptr):
                return E.Ptr(p.obj, T.subst([p.off], sub)[0])
            return p
        if k:
            op(q, k, [at(p) for p in ps])
        arms.append((e, q))
    if not arms:
        raise E.Infeasible()
    r = arms[-1][1]
    for e, q in reversed(arms[:-1]):
        r = E.merge_state(ex, e, q, r)
    st.mem, st.tok, st.pc = r.mem, r.tok, pc


def mem_set(ex, st, d, v, n, fn):
    if n.op != 'c':
        by_length(ex, st, n, [d], lambda q, k, ps: mem_set(ex, q, ps[0], v, const(k, n.w), fn), 'memset')
        return
    n = n.aux
    if n == 0:
        return
    b = T.ext(v, 0, 8)
    if b.op == 'c':
        ex.store_bytes(st, d, const(int.from_bytes(bytes([b.aux]) * n, 'little'), 8 * n), n, fn)
    else:
        for i in range(n):
            ex.store_bytes(st, E.padd(d, i), b, 1, fn)


def mem_cmp(ex, st, a, b, n, fn):
    """exact memcmp with values -1/0/1"""
    n = concrete(n, 'memcmp')
    if n == 0:
        return const(0, 32)
    x = ex.load_bytes(st, a, n, fn)
    y = ex.load_bytes(st, b, n, fn)
    xb = bswap(x)
    yb = bswap(y)
    e = T.eq(xb, yb)
    return T.ite(e, const(0, 32), T.ite(T.ult(xb, yb), const(-1, 32), const(1, 32)))


def libc(ex, fr, st, ins, name, args):
    fn = fr.fn.name
    if name in ('memcpy', 'memmove'):
        mem_copy(ex, st, args[0], args[1], args[2], fn)
        return args[0]
    if name == 'memset':
        mem_set(ex, st, args[0], args[1], args[2], fn)
        return args[0]
    if name in ('memcmp', 'bcmp'):
        return mem_cmp(ex, st, args[0], args[1], args[2], fn)
    if name in ('_Znwm', '_Znam', 'malloc'):
        n = concrete(args[0], 'new')
        o = E.Obj('heap', n, 'heap')
        return E.Ptr(o, E.Z64)
    if name in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free'):
        return None
    if name == '__cxa_allocate_exception':
        o = E.Obj('exception', args[0].aux, 'heap')
        return E.Ptr(o, E.Z64)
    if name == '__cxa_free_exception':
        return None
    if name == '__cxa_throw':
        ti = args[1].obj.name if isinstance(args[1], E.Ptr) and args[1].obj else getattr(args[1], 'name', '?')
        ex.throw(st, TRUE, ti, fn)
        return E.DEAD
    if name in ('_ZSt9terminatev', 'abort', '__clang_call_terminate'):
        ex.throw(st, TRUE, 'terminate', fn)
        return E.DEAD
    if name.startswith('_ZNSt') and 'C1EPKc' in name or name.startswith('_ZNSt') and 'C2EPKc' in name:
        # std::xxx_error(const char*): exception construction has no observable effect here
        return None
    if name.startswith('_ZNSt') and ('D1Ev' in name or 'D2Ev' in name):
        return None
    raise E.Unsupported('external function %s' % name)
