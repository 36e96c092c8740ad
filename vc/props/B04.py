"""B04: GCM computes the ciphertext and tag of NIST SP 800-38D and accepts exactly authentic messages, after any earlier use."""
import fw
import gcmspec as G
import hashspec as HS
import modespec as S
import term as T
from hist import bv, word


def pad(bs):
    return bs + [T.const(0, 8)] * (-len(bs) % 16)


def be64(n):
    return [T.const(b, 8) for b in n.to_bytes(8, 'big')]


def y0(k, iv):
    H = S.E(k, [T.const(0, 8)] * 16)
    if len(iv) == 12:
        return H, iv + [T.const(b, 8) for b in (0, 0, 0, 1)]
    return H, HS.ghash_digest(H, pad(iv) + [T.const(0, 8)] * 8 + be64(8 * len(iv)))


def gctr(k, y, data):
    out = []
    for j in range(0, len(data), 16):
        b = data[j:j + 16]
        out += S.xor(b, S.E(k, S.ctr_add(y, j // 16 + 1, 32)))
    return out


def tag(k, H, y, aad, ct):
    s = HS.ghash_digest(H, pad(aad) + pad(ct) + be64(8 * len(aad)) + be64(8 * len(ct)))
    return S.xor(s, S.E(k, y))


class Msg:
    """one message under key k: what the specification says about it"""

    def __init__(self, run, o, P, dec, how, k, iv, aad, nm=''):
        self.f = 'vc_gcm%s%d_' % ('d' if dec else 'e', P)
        self.dec, self.o, self.k, self.aad = dec, o, k, aad
        self.H, self.y = y0(k, iv)
        self.data = []
        self.nm = nm
        kb = run.buf('key' + nm, 16, k)
        ib = run.buf('iv' + nm, len(iv), iv)
        ab = run.buf('aad' + nm, len(aad), aad) if aad else None
        run.call(self.f + ('newk' if how == 'ctor' else 'init'), [o, kb, ib, len(iv), ab, len(aad)], keep=[b for b in (kb, ib, ab) if b])

    def copy(self):
        o = object.__new__(Msg)
        o.__dict__.update(self.__dict__)
        o.data = list(self.data)
        return o

    def update(self, run, d, inplace=False):
        t = len(self.data) % 16
        n = (t + len(d)) // 16 * 16
        self.data += d
        at = (len(self.data) - len(d)) - t
        want = gctr(self.k, self.y, self.data[:at + n])[at:]
        ln = run.buf('outl', 8)
        inp = run.buf('p', len(d), d) if d else None
        out = inp if inplace and d else run.buf('out', n)
        run.call(self.f + 'update', [self.o, out, ln, inp, len(d)], mem=[(ln, 0, S.u64(n)), (out, 0, want)],
                 keep=[inp] if inp and not inplace else [])

    def final(self, run, d, inplace=False, authentic=False):
        t = len(self.data) % 16
        self.data += d
        at = len(self.data) - len(d) - t
        res = gctr(self.k, self.y, self.data)
        ct = self.data if self.dec else res
        want = tag(self.k, self.H, self.y, self.aad, ct)
        ln = run.buf('outl', 8)
        inp = run.buf('p', len(d), d) if d else None
        out = inp if inplace and d else run.buf('out', t + len(d))
        th = None
        if self.dec:
            given = want if authentic else bv('tag', 16)
            tb = run.buf('tag', 16, given)
            run.call(self.f + 'settag', [self.o, tb], keep=[tb])
            if not authentic:
                th = T.not_(T.eq(word(given), word(want)))
        mem = [(ln, 0, S.u64(t + len(d))), (out, 0, res[at:])]
        args = [self.o, out, ln, inp, len(d)]
        run.call(self.f + 'final', args, mem=mem, throws=th, keep=[inp] if inp and not inplace else [])
        if not self.dec and not run.dead:
            tb = run.buf('tag', 16)
            run.call(self.f + 'tag', [self.o, tb], mem=[(tb, 0, want)])


def new(run, P, dec):
    return run.obj('obj', 'vc_gcm%s%d_size' % ('d' if dec else 'e', P))


def chain(P, dec, a, e, nm):
    def run(r):
        base = S.new_run(r, e, nm)
        o = new(base, P, dec)
        k, iv = bv('k', 16), bv('v', 12 if a % 3 else 16)
        if a % 2:
            m = Msg(base, o, P, dec, 'ctor', k, iv, bv('h', a))
        else:
            base.call('vc_gcm%s%d_new' % ('d' if dec else 'e', P), [o])
            m = Msg(base, o, P, dec, 'init', k, iv, bv('h', a))
        if a:
            m.update(base, bv('a', a))
        bl = S.lens(a, P)
        if P == 4 and fw.TIER == 'quick':
            bl = sorted(set(range(0, 40)) | set(x for b in (P - 1, P, 2 * P + 1) for x in range(16 * b - a - 1, 16 * b - a + 2)))
        for b in bl:
            if r.violations:
                return
            run = base.fork()
            m1 = m.copy()
            m1.update(run, bv('b', b))
            t = (a + b) % 16
            for c in sorted({0, 1, 16 - t, 19 - t}):
                m1.copy().final(run.fork(), bv('c', c))
            if b % 7 == 0:
                r2, m2 = run.fork(), m1.copy()
                m2.update(r2, bv('c', 21))
                m2.final(r2, bv('d', b % 16))
        base.done()
    return run


def ivs(P, dec, e, lo, hi, nm):
    """every IV length, every length of associated data up to the bound"""
    def run(r):
        for L in range(lo, hi):
            if r.violations:
                return
            base = S.new_run(r, e, nm)
            o = new(base, P, dec)
            m = Msg(base, o, P, dec, 'ctor', bv('k', 16), bv('v', L), bv('h', (L * 7) % 35))
            m.final(base, bv('a', 19))
            base = S.new_run(r, e, nm)
            o = new(base, P, dec)
            m = Msg(base, o, P, dec, 'ctor', bv('k', 16), bv('v', (12, 8)[L % 2]), bv('h', L))
            m.final(base, bv('a', L % 18))
            base.done()
    return run


def inplace(P, dec, e, nm):
    def run(r):
        base = S.new_run(r, e, nm)
        o = new(base, P, dec)
        m = Msg(base, o, P, dec, 'ctor', bv('k', 16), bv('v', 12), bv('h', 5))
        for n in sorted(set(range(0, 40)) | {16 * b + d for b in (P - 1, P, P + 1, 2 * P + 1) for d in (0, 3)}):
            if r.violations:
                return
            if n % 16 == 0:
                run, m1 = base.fork(), m.copy()
                m1.update(run, bv('a', n), True)
                m1.final(run, bv('b', 21), True)
            m.copy().final(base.fork(), bv('a', n), True)
        base.done()
    return run


def reuse(P, dec, e, nm):
    """earlier messages, completed or abandoned, do not influence a message started by init"""
    def run(r):
        base = S.new_run(r, e, nm)
        o = new(base, P, dec)
        m = Msg(base, o, P, dec, 'ctor', bv('j', 16), bv('w', 12), bv('g', 7), '0')
        for n in (0, 1, 15, 16, 17, 33):
            for end in (False, True):
                b, m1 = base.fork(), m.copy()
                if end:
                    m1.final(b, bv('old', n), authentic=True)
                else:
                    m1.update(b, bv('old', n))
                for L, A, p, q in ((12, 0, 3, 20), (16, 5, 0, 16), (7, 16, 17, 0), (12, 20, 33, 5)):
                    if r.violations:
                        return
                    c = b.fork()
                    m2 = Msg(c, o, P, dec, 'init', bv('k', 16), bv('v', L), bv('h', A))
                    m2.update(c, bv('a', p))
                    m2.final(c, bv('b', q))
        base.done()
    return run


def other(P, dec, e, nm):
    """messages handled by other objects of the process have no influence (no shared state)"""
    def run(r):
        base = S.new_run(r, e, nm)
        o1, o2 = new(base, P, dec), new(base, P, dec)
        m1 = Msg(base, o1, P, dec, 'ctor', bv('j', 16), bv('w', 12), bv('g', 7), '1')
        m2 = Msg(base, o2, P, dec, 'ctor', bv('k', 16), bv('v', 16), bv('h', 3), '2')
        m1.update(base, bv('a', 21))
        for n in (0, 5, 16, 19):
            if r.violations:
                return
            run, a, b = base.fork(), m1.copy(), m2.copy()
            b.update(run, bv('x', n))
            a.final(run, bv('b', 9), authentic=True)
            b.final(run, bv('y', 18))
        base.done()
    return run


def inverse(P, e, nm):
    def run(r):
        for n in (0, 1, 15, 16, 17, 32, 16 * P + 5):
            base = S.new_run(r, e, nm)
            o, o2 = new(base, P, False), new(base, P, True)
            k, iv, aad = bv('k', 16), bv('v', 12 if n % 2 else 20), bv('h', n)
            Msg(base, o, P, False, 'ctor', k, iv, aad)
            Msg(base, o2, P, True, 'ctor', k, iv, aad)
            pt = bv('m', n)
            inp = base.buf('m', n, pt) if n else None
            ct, out, tb, ln = base.buf('ct', n), base.buf('pt', n), base.buf('tag', 16), base.buf('outl', 8)
            base.call('vc_gcme%d_final' % P, [o, ct, ln, inp, n])
            base.call('vc_gcme%d_tag' % P, [o, tb])
            base.call('vc_gcmd%d_settag' % P, [o2, tb])
            base.call('vc_gcmd%d_final' % P, [o2, out, ln, ct, n], mem=[(out, 0, pt)])
            base.done()
    return run


def main():
    out = []
    for cfg in ('port', 'simd'):
        e = S.env(cfg)
        for P in (1, 4, 16):
            if cfg == 'simd' and P == 1 and fw.TIER == 'quick':
                continue
            for dec in (False, True):
                w = 'GCM %scryption/%d lanes (%s)' % ('de' if dec else 'en', P, cfg)
                for a in range(16):
                    if P == 4 and a % 3 and fw.TIER == 'quick':
                        continue
                    nm = '%s, %d pending bytes' % (w, a)
                    out.append(fw.Task(nm, chain(P, dec, a, e, nm)))
                out.append(fw.Task(w + ' in place', inplace(P, dec, e, w + ' in place')))
                out.append(fw.Task(w + ' reuse', reuse(P, dec, e, w + ' reuse')))
                out.append(fw.Task(w + ' other objects', other(P, dec, e, w + ' other objects')))
                for lo in range(1, 70, 10):
                    nm = w + ' IV and AAD lengths %d..%d' % (lo, lo + 9)
                    out.append(fw.Task(nm, ivs(P, dec, e, lo, lo + 10, nm)))
            nm = 'GCM: decryption inverts encryption, %d lanes (%s)' % (P, cfg)
            out.append(fw.Task(nm, inverse(P, e, nm)))
    return fw.main('B04', out, trusted=fw.TRUSTED, assumptions=fw.ASSUMPTIONS + S.ASSUME + [
        'contracts of the GHASH block functions are those proved under G01'])
