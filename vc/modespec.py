"""Mode definitions (NIST SP 800-38A/D, GB/T 17964) over an uninterpreted block cipher, and the checks shared by B01-B04."""
import congr
import fe
import fw
import gcmspec as G
import hashspec as HS
import hist
import term as T
from hist import bv, word, unword


def _perm(inv):
    def f(t, a):
        k = a[0].to_bytes(16, 'little')
        s = list(a[1].to_bytes(16, 'little'))
        for r in (range(3) if not inv else range(2, -1, -1)):
            for i in (range(16) if not inv else range(15, -1, -1)):
                x = s[(i + 1) & 15] ^ k[(i + 5 * r) & 15]
                s[i] ^= (x * x + 7 * x + (x >> 3) + s[(i + 7) & 15] + r + 29 * i) & 255
        return int.from_bytes(bytes(s), 'little')
    return f


UFS = dict(HS.UFS)
UFS['E'] = _perm(False)
UFS['D'] = _perm(True)


def enc(k, x):
    if x.op == 'uf' and x.aux == 'D' and x.args[0] is k:
        return x.args[1]
    return T.uf('E', 128, [k, x])


def dec(k, x):
    """D(k, .) is the inverse of E(k, .)"""
    if x.op == 'uf' and x.aux == 'E' and x.args[0] is k:
        return x.args[1]
    return T.uf('D', 128, [k, x])


def handlers():
    def mk(f):
        def h(ex, fr, st, a, ins):
            ex.store_bytes(st, a[1], f(ex.load_bytes(st, a[0], 16, 'cipher'), ex.load_bytes(st, a[2], 16, 'cipher')), 16, 'cipher')
            return None
        return h
    hs = {'vc_E': mk(enc), 'vc_D': mk(dec)}
    for i in ('lut256', 'pclmul', 'common'):
        hs.update(HS.ghash_handlers(i))
    return hs


SRC = ['memory_utils/memxor.cpp', 'ghash/ghash_common.cpp', 'ghash/ghash_lut256.cpp', 'ghash/ghash_pclmul.cpp']


CONGR = congr.Congr(UFS)


def new_run(r, e, nm):
    prog, lib, hs = e
    return hist.Run(r, prog, hs, UFS, lib=lib, name=nm, backend=CONGR.equal)


def env(cfg):
    prog = fe.program([(fe.VERIF + '/native/modes.cpp', cfg)] + [(s, cfg) for s in SRC])
    lib = fe.lazy_shared('modes' + cfg, cfg, SRC, driver='modes.cpp')
    return prog, lib, handlers()


# ------------------------------------------------------------------ mode definitions on byte terms
def xor(a, b):
    return [T.xor(x, y) for x, y in zip(a, b)]


def E(k, bs):
    return unword(enc(word(k), word(bs)))


def D(k, bs):
    return unword(dec(word(k), word(bs)))


def ctr_add(iv, n, bits=128):
    """counter block iv + n, incrementing the low `bits` bits (big endian)"""
    v = T.cat(*iv)
    lo = T.add(T.ext(v, 0, bits), T.const(n, bits))
    v = lo if bits == 128 else T.cat(T.ext(v, bits, 128 - bits), lo)
    return [T.ext(v, 120 - 8 * i, 8) for i in range(16)]


def spec(mode, k, iv, data):
    """output bytes for the data so far, the tail of less than a block included where the mode allows it"""
    out = []
    n = len(data)
    blocks = [data[i:i + 16] for i in range(0, n, 16)]
    c = iv
    for j, b in enumerate(blocks):
        m = len(b)
        if mode in ('ecbe', 'ecbd', 'cbce', 'cbcd') and m < 16:
            break
        if mode == 'ecbe':
            o = E(k, b)
        elif mode == 'ecbd':
            o = D(k, b)
        elif mode == 'cbce':
            o = c = E(k, xor(b, c))
        elif mode == 'cbcd':
            o = xor(D(k, b), c)
            c = b
        elif mode == 'cfbe':
            o = c = xor(b, E(k, c))
        elif mode == 'cfbd':
            o = xor(b, E(k, c))
            c = b
        elif mode in ('ofbe', 'ofbd'):
            c = E(k, c)
            o = xor(b, c)
        elif mode in ('ctre', 'ctrd'):
            o = xor(b, E(k, ctr_add(iv, j)))
        out += o
    return out


class Mode:
    def __init__(self, m, P):
        self.m = m
        self.P = P
        self.f = 'vc_%s%d_' % (m, P)
        self.whole = m[:3] in ('ecb', 'cbc')
        self.iv = m[:3] != 'ecb'


def start(run, M, o, how, k, iv, tag=''):
    kb = run.buf('key' + tag, 16, k)
    a = [kb]
    if M.iv:
        a.append(run.buf('iv' + tag, 16, iv))
    if how == 'ctor':
        run.call(M.f + 'newk', [o] + a, keep=a)
    elif how == 'init':
        run.call(M.f + 'init', [o] + a, keep=a)
    else:
        run.call(M.f + 'reset', [o] + a[1:], keep=a[1:])


def u64(n):
    return unword(T.const(n, 64))


def update(run, M, o, k, iv, pre, data, nm, inplace=False):
    """update with the bytes `data`; pre: the bytes supplied before"""
    t, n = len(pre) % 16, len(data)
    olen = (t + n) // 16 * 16
    full = spec(M.m, k, iv, (pre + data)[:len(pre) - t + olen])
    want = full[len(pre) - t:]
    ln = run.buf('outl', 8)
    inp = run.buf(nm, n, data) if n else None
    out = inp if inplace else run.buf('out', olen)
    run.call(M.f + 'update', [o, out, ln, inp, n], mem=[(ln, 0, u64(olen)), (out, 0, want)], keep=[inp] if inp and not inplace else [])


def final(run, M, o, k, iv, pre, data, nm, inplace=False):
    t, n = len(pre) % 16, len(data)
    ln = run.buf('outl', 8)
    inp = run.buf(nm, n, data) if n else None
    if M.whole and (t + n) % 16:
        out = run.buf('out', (t + n + 15) // 16 * 16)
        run.call(M.f + 'final', [o, out, ln, inp, n], throws=True)
        return
    want = spec(M.m, k, iv, pre + data)[len(pre) - t:]
    out = inp if inplace else run.buf('out', t + n)
    if n == 0 and not inplace and t % 2:
        run.call(M.f + 'final0', [o, out, ln], mem=[(ln, 0, u64(t)), (out, 0, want)])
        return
    run.call(M.f + 'final', [o, out, ln, inp, n], mem=[(ln, 0, u64(t + n)), (out, 0, want)], keep=[inp] if inp and not inplace else [])


def lens(a, P):
    """piece lengths: every residue around the block counts where the code can change path"""
    if P <= 4:
        return range(0, 16 * (2 * P + 2) + 1 if fw.TIER == 'quick' else 16 * (4 * P + 3))
    out = set(range(0, 34))
    for b in (P - 1, P, P + 1, 2 * P - 1, 2 * P, 2 * P + 1) if fw.TIER != 'quick' else (P - 1, P, 2 * P + 1):
        for d in (range(-1, 18) if fw.TIER != 'quick' else (-1, 0, 1, 15)):
            out.add(16 * b - a + d)
    return sorted(x for x in out if x >= 0)


def chain(M, a, e, nm):
    """pending bytes a, one piece of any length, and the end of the message"""
    def run(r):
        base = new_run(r, e, nm)
        o = base.obj('obj', M.f + 'size')
        k, iv = bv('k', 16), bv('v', 16)
        if a % 2:
            start(base, M, o, 'ctor', k, iv)
        else:
            base.call(M.f + 'new', [o])
            start(base, M, o, 'init', k, iv)
        ma = bv('a', a)
        if a:
            update(base, M, o, k, iv, [], ma, 'a')
        for b in lens(a, M.P):
            if r.violations:
                return
            run = base.fork()
            mb = bv('b', b)
            update(run, M, o, k, iv, ma, mb, 'b')
            t = (a + b) % 16
            for c in sorted({0, 1, 16 - t, 19 - t, 33}):
                final(run.fork(), M, o, k, iv, ma + mb, bv('c', c), 'c')
            if b % 5 == 0:
                r2 = run.fork()
                mc = bv('c', 21)
                update(r2, M, o, k, iv, ma + mb, mc, 'c')
                final(r2, M, o, k, iv, ma + mb + mc, bv('d', (16 - (a + b + 21)) % 16), 'd')
        base.done()
    return run


def inplace(M, e, nm):
    def run(r):
        base = new_run(r, e, nm)
        o = base.obj('obj', M.f + 'size')
        k, iv = bv('k', 16), bv('v', 16)
        start(base, M, o, 'ctor', k, iv)
        for n in range(0, 16 * (2 * M.P + 2), 1 if not M.whole and M.P < 16 else 8):
            if r.violations:
                return
            d = bv('a', n)
            if n % 16 == 0:
                run = base.fork()
                update(run, M, o, k, iv, [], d, 'a', inplace=True)
                update(run, M, o, k, iv, d, bv('b', 32), 'b', inplace=True)
            if n and not (M.whole and n % 16):
                run = base.fork()
                final(run, M, o, k, iv, [], d, 'a', inplace=True)
        base.done()
    return run


def reuse(M, e, nm):
    """earlier messages, ended or abandoned, do not influence a message started by init or reset"""
    def run(r):
        base = new_run(r, e, nm)
        o = base.obj('obj', M.f + 'size')
        k0, v0, k, iv = bv('j', 16), bv('w', 16), bv('k', 16), bv('v', 16)
        start(base, M, o, 'ctor', k0, v0, '0')
        for n in (0, 1, 15, 16, 17, 33) if fw.TIER == 'quick' else range(0, 50):
            old = bv('old', n)
            for end in ('no', 'final'):
                b = base.fork()
                if end == 'final':
                    final(b, M, o, k0, v0, [], old, 'old')
                    if b.dead:
                        # the call threw as required; its state is not observed further
                        continue
                else:
                    update(b, M, o, k0, v0, [], old, 'old')
                for how in ('init', 'reset'):
                    if r.violations:
                        return
                    b2 = b.fork()
                    start(b2, M, o, how, k, iv)
                    kk = k if how == 'init' else k0
                    for p, q in ((0, 16), (3, 29), (20, 12), (37, 11)):
                        c = b2.fork()
                        d, x = bv('a', p), bv('b', q)
                        update(c, M, o, kk, iv, [], d, 'a')
                        final(c, M, o, kk, iv, d, x, 'b')
        base.done()
    return run


def inverse(Me, Md, e, nm):
    """decrypting what was encrypted gives the plaintext back, for the encryptor's actual output"""
    def run(r):
        base = new_run(r, e, nm)
        k, iv = bv('k', 16), bv('v', 16)
        for n in range(0, 16 * (Me.P + 2), 16 if Me.whole else 5):
            if r.violations:
                return
            run = base.fork()
            o, o2 = run.obj('enc', Me.f + 'size'), run.obj('dec', Md.f + 'size')
            start(run, Me, o, 'ctor', k, iv)
            start(run, Md, o2, 'ctor', k, iv)
            m = bv('m', n)
            inp = run.buf('m', n, m) if n else None
            ct, pt, ln, l2 = run.buf('ct', n), run.buf('pt', n), run.buf('outl', 8), run.buf('outl2', 8)
            run.call(Me.f + 'final', [o, ct, ln, inp, n], mem=[(ln, 0, u64(n))])
            if not run.dead:
                run.call(Md.f + 'final', [o2, pt, l2, ct, n], mem=[(l2, 0, u64(n)), (pt, 0, m)])
        base.done()
    return run


def tasks(modes, Ps=(1, 4, 16)):
    out = []
    for cfg in ('port', 'simd'):
        e = env(cfg)
        for m in modes:
            for P in Ps:
                if cfg == 'simd' and P == 1 and fw.TIER == 'quick':
                    continue
                M = Mode(m, P)
                for a in range(16):
                    if P == 4 and a % 3 and fw.TIER == 'quick':
                        continue
                    nm = '%s/%d lanes (%s), %d pending bytes' % (m, P, cfg, a)
                    out.append(fw.Task(nm, chain(M, a, e, nm)))
                nm = '%s/%d lanes (%s) in place' % (m, P, cfg)
                out.append(fw.Task(nm, inplace(M, e, nm)))
                nm = '%s/%d lanes (%s) reuse' % (m, P, cfg)
                out.append(fw.Task(nm, reuse(M, e, nm)))
        for m in modes:
            if m.endswith('e'):
                for P in Ps:
                    nm = '%s: decryption inverts encryption, %d lanes (%s)' % (m[:3], P, cfg)
                    out.append(fw.Task(nm, inverse(Mode(m, P), Mode(m[:3] + 'd', P), e, nm)))
    return out


ASSUME = ['the block cipher is an uninterpreted keyed permutation; that the ciphers of the library implement their standard is C01/C02',
          'all contents, keys and IVs are symbolic; the lengths are concrete: all pending lengths and piece lengths around every change of path (up to 2 parallel groups + 2 blocks)']
