"""Random generators over a source with an arbitrary sequence of values and failures."""
import random
import exec as E
import fe
import fw
import hist
import smt
import term as T
from asn1spec import c64

M64 = (1 << 64) - 1
S0 = T.var('script', 64)


def mix(n, s):
    x = ((n + 1) * 0x9E3779B97F4A7C15 ^ s * 0xBF58476D1CE4E5B9) & M64
    x ^= x >> 29
    x = x * 0x94D049BB133111EB & M64
    return x ^ x >> 32


UFS = {'src.ok': lambda t, a: int((mix(a[0], a[1]) & 15) >= (a[1] & 15)),
       'src.val64': lambda t, a: mix(a[0], (a[1] + 99) & M64),
       'src.val32': lambda t, a: mix(a[0], (a[1] + 99) & M64) & 0xffffffff,
       'src.rand': lambda t, a: mix(a[0], 7) & 0x7fffffff,
       'src.dev': lambda t, a: mix(a[0], 7) & 0xffffffff}


def okv(i):
    return T.eq(T.uf('src.ok', 8, [i, S0], 0, 1), T.const(1, 8))


def val(i, w):
    return T.uf('src.val%d' % w, w, [i, S0])


def source(w):
    """one step of the hardware source: the n-th attempt succeeds or fails, and delivers its value on success, 0 otherwise"""
    def h(ex, fr, st, args, ins):
        n = st.ghost.get('n', c64(0))
        st.ghost['n'] = T.add(n, c64(1))
        k = okv(n)
        ex.store_bytes(st, args[0], T.ite(k, val(n, w), T.const(0, w)), w // 8, fr.fn.name)
        return T.ite(k, T.const(1, 32), T.const(0, 32))
    return h


def counter(what):
    def h(ex, fr, st, args, ins):
        n = st.ghost.get('n', c64(0))
        st.ghost['n'] = T.add(n, c64(1))
        return T.uf('src.' + what, 32, [n], 0, 0x7fffffff if what == 'rand' else None)
    return h


HANDLERS = {'vc_src32': source(32), 'vc_src64': source(64), 'rand': counter('rand'), 'std::rand': counter('rand'),
            'std::random_device::_M_getval': counter('dev'), 'std::random_device::operator()': counter('dev')}


def env(cfg='port'):
    prog = fe.program([(fe.VERIF + '/native/rng.cpp', cfg)])
    return prog, fe.lazy_shared('rng' + cfg, cfg, [], driver='rng.cpp')


def word(n, retries, w):
    """(ok, value, attempts used) of a draw that starts at attempt n"""
    ok, v, c = T.FALSE, T.const(0, w), T.add(n, c64(retries + 1))
    for k in reversed(range(retries + 1)):
        i = T.add(n, c64(k))
        s = okv(i)
        ok = T.or_(s, ok)
        v = T.ite(s, val(i, w), v)
        c = T.ite(s, T.add(i, c64(1)), c)
    return ok, v, c


def spec(length, retries, w):
    n, ok, out = c64(0), T.TRUE, []
    while len(out) < length:
        k, v, n = word(n, retries, w)
        ok = T.and_(ok, k)
        out += [T.ext(v, 8 * i, 8) for i in range(w // 8)]
    return ok, out[:length]


def pattern(length, retries, w, fails):
    """the source fails fails[j] times before the j-th draw succeeds (more than retries: the draw fails)"""
    n, out = 0, []
    conds = []
    for f in fails:
        for _ in range(f):
            conds.append(T.not_(okv(c64(n))))
            n += 1
        if f > retries:
            return conds, True, out
        conds.append(okv(c64(n)))
        v = val(c64(n), w)
        out += [T.ext(v, 8 * i, 8) for i in range(w // 8)]
        n += 1
    return conds, False, out[:length]


def hw(e, name, w, retries, lengths):
    def go(r):
        prog, lib = e
        for n in lengths:
            run = hist.Run(r, prog, HANDLERS, UFS, decide=E.smt_decide, lib=lib, name='%s%d, %d retries, %d bytes' % (name, w, retries, n), backend=None)
            run.gens = {'script': lambda R: R.choice((0, 3, 8, 12, 14, 15)) + 16 * R.randrange(1 << 20)}
            run.call('vc_script', [S0])
            o = run.buf('out', n)
            ok, out = spec(n, retries, w)
            run.call('vc_%s%d_%d' % (name, w, retries), [o, n], mem=[(o, 0, out)], throws=T.not_(ok))
            run.done()
            if r.violations:
                return
    return go


def pat(e, name, w, retries, lengths, seed):
    def go(r):
        prog, lib = e
        R = random.Random(fw.SEED * 7919 + seed)
        for n in lengths:
            words = -(-n // (w // 8))
            pats = [[0] * words]
            for j in range(min(words, 6)):
                for f in sorted({1, retries, retries + 1}):
                    p = [0] * words
                    p[R.randrange(words) if j > 2 else j % words] = f
                    pats.append(p)
            pats += [[R.choice((0, 0, 1, retries // 2, retries)) for _ in range(words)] for _ in range(3)]
            for fails in pats:
                conds, thr, out = pattern(n, retries, w, fails)
                run = hist.Run(r, prog, HANDLERS, UFS, decide=None, lib=lib, pre=conds, name='%s%d, %d retries, %d bytes, failures %s' % (name, w, retries, n, fails))
                o = run.buf('out', n)
                run.call('vc_%s%d_%d' % (name, w, retries), [o, n], mem=[] if thr else [(o, 0, out)], throws=True if thr else None)
                run.done()
                if r.violations:
                    return
    return go


def soft(e, name, what, lengths):
    def go(r):
        prog, lib = e
        for n in lengths:
            run = hist.Run(r, prog, HANDLERS, UFS, lib=None, name='%s, %d bytes' % (name, n))
            o = run.buf('out', n)
            out = [T.ext(T.uf('src.' + what, 32, [c64(i)], 0, 0x7fffffff if what == 'rand' else None), 0, 8) for i in range(n)]
            run.call('vc_' + name, [o, n], mem=[(o, 0, out)])
            run.done()
            if r.violations:
                return
    return go


def typed(e):
    def go(r):
        prog, lib = e
        for n in (5, 8):
            run = hist.Run(r, prog, HANDLERS, UFS, decide=E.smt_decide, lib=lib, name='rand<T>, %d bytes' % n)
            run.gens = {'script': lambda R: R.choice((0, 3, 8, 12, 14, 15)) + 16 * R.randrange(1 << 20)}
            run.call('vc_script', [S0])
            o = run.buf('out', n)
            ok, out = spec(n, 3, 64)
            run.call('vc_rand%d' % n, [o], mem=[(o, 0, out)], throws=T.not_(ok))
            run.done()
    return go


def tasks():
    e = env()
    out = []
    for name in ('rdrand', 'rdseed'):
        for w in (32, 64):
            b = w // 8
            for retries in (10, 0, 3):
                out.append(fw.Task('%s%d, %d retries, up to %d bytes' % (name, w, retries, (4 if retries > 3 else 5) * b), hw(e, name, w, retries, range(0, (4 if retries > 3 else 5) * b + 1))))
                out.append(fw.Task('%s%d, %d retries, listed failure patterns' % (name, w, retries), pat(e, name, w, retries, list(range(1, 70)) + [127, 128, 129, 255, 256, 300, 1000], retries)))
    out.append(fw.Task('CstdRng', soft(e, 'cstd', 'rand', list(range(0, 70)) + [255, 256, 257, 1000])))
    out.append(fw.Task('StdRng', soft(e, 'std', 'dev', list(range(0, 70)) + [255, 256, 257, 1000])))
    out.append(fw.Task('rand<T>', typed(e)))
    return out


def main():
    return fw.main('R01', tasks(), trusted=fw.TRUSTED + ['the hardware step instruction: reports success with a value, or failure'], assumptions=fw.ASSUMPTIONS + [
        'up to four words the source is arbitrary (every sequence of failures and values); longer requests: the failure patterns generated by the check, all values',
        'Windows generators (bcrypt, wincrypt) cannot be compiled here and are not covered'])
