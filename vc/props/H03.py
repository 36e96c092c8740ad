"""H03: HMAC-SM3 equals RFC 2104 for every key length, message and chunking; a new key starts afresh."""
import fe
import fw
import hashspec as HS
import hist
import sm3spec as S
import term as T
from hist import bv
from props.H02 import SRC, VARIANTS


def xorc(bs, k):
    return [T.xor(b, T.const(k, 8)) for b in bs]


def k0(key):
    k = list(key) if len(key) <= 64 else HS.sm3_digest(key)
    return k + [T.const(0, 8)] * (64 - len(k))


def mac(K, msg, V=None, bits=None):
    if V is None:
        inner = HS.sm3_digest(xorc(K, 0x36) + msg)
    else:
        inner = HS.sm3_digest(msg, V, bits)
    return HS.sm3_digest(xorc(K, 0x5c) + inner)


def tasks():
    out = []
    for impl, extra in VARIANTS:
        prog = fe.program([(fe.VERIF + '/native/hash.cpp', 'port', extra)] + [(s, 'port') for s in SRC[:2]])
        lib = fe.lazy_shared('hmac' + impl, 'port', SRC, driver='hash.cpp', extra=extra)
        hs = HS.sm3_handlers('sm3::internal::%s::' % impl)

        def keyed(r, name, n, how, prog=prog, lib=lib, hs=hs):
            run = hist.Run(r, prog, hs, HS.UFS, lib=lib, name=name)
            o = run.obj('obj', 'vc_hmac_size')
            if how in ('ctor', 'new'):
                if how == 'new':
                    run.call('vc_hmac_new', [o])
            else:
                # earlier use with another key
                n0, m0 = how
                kk = bv('j', n0)
                kb = run.buf('key0', n0, kk)
                run.call('vc_hmac_newk', [o, kb, n0], keep=[kb])
                om = bv('old', m0)
                if m0:
                    p = run.buf('old', m0, om)
                    run.call('vc_hmac_update', [o, p, m0], keep=[p])
                if m0 % 2:
                    d = run.buf('d0', 32)
                    run.call('vc_hmac_final0', [o, d], mem=[(d, 0, mac(k0(kk), om))])
            key = bv('k', n)
            kb = run.buf('key', n, key) if n else run.buf('key', 1)
            run.call('vc_hmac_newk' if how == 'ctor' else 'vc_hmac_setkey', [o, kb, n], keep=[kb])
            return run, o, k0(key)

        def finish(run, o, K, msg, c):
            m = bv('c', c)
            d = run.buf('mac', 32)
            if c == 0 and len(msg) % 2 == 0:
                run.call('vc_hmac_final0', [o, d], mem=[(d, 0, mac(K, msg))])
                return
            p = run.buf('c', c, m) if c else None
            run.call('vc_hmac_final', [o, d, p, c], mem=[(d, 0, mac(K, msg + m))], keep=[p] if p else [])

        def by_key(ns, how, name):
            def go(r):
                for n in ns:
                    if r.violations:
                        return
                    base, o, K = keyed(r, '%s, key of %d bytes' % (name, n), n, how)
                    for a, c in ((0, 0), (0, 3), (1, 0), (64, 0), (63, 1), (63, 66), (65, 127)):
                        run = base.fork()
                        ma = bv('a', a)
                        if a:
                            p = run.buf('a', a, ma)
                            run.call('vc_hmac_update', [o, p, a], keep=[p])
                        finish(run, o, K, ma, c)
                    base.done()
            return go

        def long_key(rr, prog=prog, lib=lib, hs=hs):
            def go(r):
                run = hist.Run(r, prog, hs, HS.UFS, lib=lib, name='HMAC-SM3, key of 64*Q+%d bytes' % rr)
                o = run.obj('obj', 'vc_hmac_size')
                run.call('vc_hmac_new', [o])
                Q = T.var('Q', 58, 1 if rr else 2, 1 << 40)
                run.gens = {'Q': lambda R: R.randrange(2, 5)}
                q = T.zext(Q, 64)
                n = T.add(T.scale(q, 64), T.const(rr, 64))
                kb = run.ubuf('key', n)
                run.call('vc_hmac_setkey', [o, kb, n])
                V = HS.fold(HS.IV_WORD, T.const(0, 64), q)
                at = T.scale(q, 64)
                kd = HS.sm3_digest([kb.obj.default(T.add(at, T.const(i, 64))) for i in range(rr)], V, T.scale(q, 512))
                finish(run, o, kd + [T.const(0, 8)] * 32, [], 5)
                run.done()
            return go

        def by_msg(a):
            def go(r):
                base, o, K = keyed(r, 'HMAC-SM3 (%s), first piece %d bytes' % (impl, a), 20, 'ctor')
                ma = bv('a', a)
                if a:
                    p = base.buf('a', a, ma)
                    base.call('vc_hmac_update', [o, p, a], keep=[p])
                for b in range(0, 131):
                    if r.violations:
                        return
                    run = base.fork()
                    mb = bv('b', b)
                    p = run.buf('b', b, mb) if b else None
                    run.call('vc_hmac_update', [o, p, b], keep=[p] if p else [])
                    for c in {0, 1, 64 - (a + b) % 64} if b % 5 == 0 else {0}:
                        finish(run.fork(), o, K, ma + mb, c)
                need = (64 - a) % 64
                q = T.zext(T.var('Q', 58, 1, 1 << 40), 64)
                for rr in range(64):
                    if r.violations:
                        return
                    run = base.fork()
                    run.gens = {'Q': lambda R: R.randrange(1, 4)}
                    inl = T.add(T.const(need + rr, 64), T.scale(q, 64))
                    p = run.ubuf('piece', inl)
                    run.call('vc_hmac_update', [o, p, inl])
                    V = S.uf_compress(HS.IV_WORD, HS.word(xorc(K, 0x36)))
                    if a:
                        V = S.uf_compress(V, HS.word(ma + [p.obj.default(i) for i in range(need)]))
                    V = HS.fold(V, T.const(need, 64), q)
                    at = T.add(T.const(need, 64), T.scale(q, 64))
                    rest = [p.obj.default(T.add(at, T.const(i, 64))) for i in range(rr)]
                    d = run.buf('mac', 32)
                    run.call('vc_hmac_final0', [o, d], mem=[(d, 0, mac(K, rest, V, T.add(T.const(8 * (64 + a + need), 64), T.scale(q, 512))))])
                base.done()
            return go
        top = 200 if fw.TIER == 'quick' else 400
        for lo in range(0, top, 10):
            for how in ('ctor', 'new'):
                nm = 'HMAC-SM3 (%s, %s)' % (impl, how)
                out.append(fw.Task('%s keys of %d..%d bytes' % (nm, lo, lo + 9), by_key(range(lo, lo + 10), how, nm)))
        for how in ((5, 0), (5, 1), (64, 70), (65, 64), (100, 33), (32, 127)):
            nm = 'HMAC-SM3 (%s) re-keyed after a %d-byte key and %d bytes' % (impl, how[0], how[1])
            out.append(fw.Task(nm, by_key((0, 1, 31, 63, 64, 65, 128), how, nm)))
        for rr in range(64):
            out.append(fw.Task('HMAC-SM3 (%s) key of 64*Q+%d bytes' % (impl, rr), long_key(rr)))
        for a in range(64):
            out.append(fw.Task('HMAC-SM3 (%s) messages, first piece %d bytes' % (impl, a), by_msg(a)))
    return out


def main():
    return fw.main('H03', tasks(), trusted=fw.TRUSTED, assumptions=fw.ASSUMPTIONS + [
        'contracts of the SM3 block functions are those proved under H01'])
