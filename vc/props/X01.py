"""ASN.1: decoders for every input of every length, encoders for every value (lengths as stated), round trips."""
import random
import asn1spec as A
import exec as E
import fe
import fw
import hist
import term as T
from hist import bv, cbytes
from asn1spec import c64

UFS = {'in': lambda t, a: hist.in_byte(a[0])}
Z = T.const(0, 64)


def env(cfg='port'):
    prog = fe.program([(fe.VERIF + '/native/asn1.cpp', cfg), ('asn1/asn1.cpp', cfg), ('sm2/sm2p256v1_asn1.cpp', cfg)])
    return prog, fe.lazy_shared('asn1' + cfg, cfg, ['asn1/asn1.cpp', 'sm2/sm2p256v1_asn1.cpp'], driver='asn1.cpp')


def words(ts):
    return [T.ext(t, 8 * i, 8) for t in ts for i in range(8)]


PRIM, CONS = 0, 0x20


def spec(kind, rd, inl):
    """(ok, [results]) required of a decoder"""
    ok, cls, pc, num, n, h = A.tlv(rd, inl)
    total = T.add(h, n)
    v0, v1 = rd(h), rd(T.add(h, c64(1)))
    if kind == 'tlv':
        return ok, [cls, pc, num, n, h, total]

    def tag(t, p=None):
        c = A.conj(ok, T.eq(num, c64(t)))
        return c if p is None else A.conj(c, T.eq(pc, c64(p)))
    nz = T.ult(Z, n)
    if kind == 'bool':
        return A.conj(tag(1, PRIM), T.eq(n, c64(1))), [T.ite(T.eq(v0, T.const(0, 8)), Z, c64(1)), total]
    if kind == 'int':
        two = T.ult(c64(1), n)
        z0, f0 = T.eq(v0, T.const(0, 8)), T.eq(v0, T.const(255, 8))
        top = T.eq(T.ext(v1, 7, 1), T.const(1, 1))
        bad = T.and_(two, T.or_(T.and_(z0, T.not_(top)), T.and_(f0, top)))
        s = T.ite(T.and_(two, z0), c64(1), Z)
        return A.conj(tag(2, PRIM), nz, T.not_(bad)), [T.add(h, s), T.sub(n, s), total]
    if kind == 'bit':
        ok = A.conj(tag(3), nz, T.not_(T.and_(T.eq(n, c64(1)), T.ne(v0, T.const(0, 8)))), T.ule(v0, T.const(7, 8)))
        return ok, [T.add(h, c64(1)), T.sub(n, c64(1)), total, T.sub(T.scale(T.sub(n, c64(1)), 8), T.zext(v0, 64))]
    if kind == 'oct':
        return tag(4), [h, n, total]
    if kind == 'null':
        return A.conj(tag(5, PRIM), T.eq(n, Z)), [total]
    if kind == 'seq':
        return tag(16, CONS), [h, n, total]
    if kind == 'set':
        return tag(17, CONS), [h, n, total]


FN = {'tlv': 'vc_tlv', 'bool': 'vc_dbool', 'int': 'vc_dint', 'bit': 'vc_dbit', 'oct': 'vc_doct', 'null': 'vc_dnull', 'seq': 'vc_dseq', 'set': 'vc_dset'}


def guarded(kind, rd, inl):
    ok, res = spec(kind, rd, inl)
    return words([T.ite(ok, Z, c64(1))] + [T.ite(ok, x, Z) for x in res])


def dec_concrete(kind, e, n):
    def run(r):
        prog, lib = e
        run = hist.Run(r, prog, {}, UFS, decide=E.smt_decide, lib=lib, name='decode %s, %d input bytes' % (kind, n))
        bs = bv('a', n)
        p = run.buf('in', n, bs)

        def rd(off):
            """byte at a symbolic offset (0 outside: only used under ok)"""
            if off.op == 'c':
                return bs[off.aux] if off.aux < n else T.const(0, 8)
            x = T.const(0, 8)
            for i in range(n):
                x = T.ite(T.eq(off, c64(i)), bs[i], x)
            return x
        k = len(spec(kind, rd, c64(n))[1]) + 1
        o = run.buf('res', 8 * k, cbytes([0] * 8 * k))
        run.call(FN[kind], [o, p, n], mem=[(o, 0, guarded(kind, rd, c64(n)))], keep=[p])
        run.done()
    return run


def dec_any(kind, e):
    def run(r):
        prog, lib = e
        inl = T.var('inl', 64, 0, 1 << 62)
        run = hist.Run(r, prog, {}, UFS, decide=E.smt_decide, lib=lib, name='decode %s, any input length' % kind)
        run.gens = {'inl': lambda R: R.randrange(0, 300)}
        p = run.ubuf('in', inl)
        rd = p.obj.default
        k = len(spec(kind, rd, inl)[1]) + 1
        o = run.buf('res', 8 * k, cbytes([0] * 8 * k))
        run.call(FN[kind], [o, p, inl], mem=[(o, 0, guarded(kind, rd, inl))])
        run.done()
    return run


def sym_len(r, e):
    """headers and announced lengths for every 64-bit value length"""
    prog, lib = e
    n = T.var('n', 64, 0, (1 << 63) - 1)
    n = T.var('n', 64)

    def lenoct(n):
        """(count, bytes) as terms"""
        cnt = c64(1)
        out = [T.ext(n, 0, 8)] + [None] * 8
        res = [(T.ult(n, c64(128)), bytes)]
        return cnt, out
    for fn, tag in (('vc_bit_tl', 0x23), ('vc_oct_tl', 0x24), ('vc_seq_tl', 0x30), ('vc_set_tl', 0x31)):
        for w in range(0, 9):
            # w length octets after the first
            lo, hi = (0, 127) if w == 0 else (128 if w == 1 else 1 << (8 * (w - 1)), (1 << (8 * w)) - 1)
            n = T.var('n%d' % w, 64, lo, hi)
            run = hist.Run(r, prog, {}, UFS, decide=E.smt_decide, lib=lib, name='%s with %d-octet length' % (fn, 1 + w))
            run.gens = {'n%d' % w: lambda R, lo=lo, hi=hi: R.choice((lo, hi, R.randrange(lo, hi + 1)))}
            want = [T.const(tag, 8)]
            if w == 0:
                want.append(T.ext(n, 0, 8))
            else:
                want.append(T.const(0x80 | w, 8))
                want += [T.ext(n, 8 * i, 8) for i in reversed(range(w))]
            o = run.buf('out', len(want))
            l = run.buf('outl', 8)
            run.call(fn, [o, l, n], mem=[(o, 0, want), (l, 0, words([c64(len(want))]))])
            run.done()
    for fn in ('vc_tlv_outl', 'vc_oct_outl', 'vc_seq_outl', 'vc_set_outl', 'vc_bit_outl'):
        for w in range(0, 8):
            lo, hi = (0, 127) if w == 0 else (128 if w == 1 else 1 << (8 * (w - 1)), (1 << (8 * w)) - 1)
            if fn == 'vc_bit_outl':
                lo, hi = max(lo - 1, 0) * 8, (hi - 1) * 8
                n = T.var('n%d' % w, 64, lo + (1 if w else 0), hi)
                want = T.add(c64(3 + w), T.lshr(T.add(n, c64(7)), c64(3)))
            else:
                n = T.var('n%d' % w, 64, lo, hi)
                want = T.add(c64(2 + w), n)
            run = hist.Run(r, prog, {}, UFS, decide=E.smt_decide, lib=lib, name='%s with %d-octet length' % (fn, 1 + w))
            run.gens = {'n%d' % w: lambda R, lo=lo, hi=hi: R.choice((lo + 1, hi, R.randrange(lo + 1, hi + 1)))}
            run.call(fn, [n], ret=want)
            run.done()


def header(tag, n):
    return cbytes(A.tl(tag, n))


def roundtrip(run, kind, enc, want):
    """decode what was encoded, with something after it, and with the last byte missing"""
    n = len(enc)
    for extra, cut in ((0, 0), (3, 0), (0, 1)):
        if cut and not n:
            continue
        b = run.fork()
        bs = (enc + bv('t', extra))[:n + extra - cut]
        p = b.buf('enc', len(bs), bs)
        res = [c64(1)] + [Z] * len(want) if cut else [Z] + [c64(x) if isinstance(x, int) else x for x in want]
        o = b.buf('res', 8 * len(res), cbytes([0] * 8 * len(res)))
        b.call(FN[kind], [o, p, len(bs)], mem=[(o, 0, words(res))], keep=[p])


def ints(lo, hi):
    def go(r, e):
        prog, lib = e
        for n in range(lo, hi):
            for k in range(0, n + 1):
                for top in ((0, 1) if k < n else (None,)):
                    run = hist.Run(r, prog, {}, UFS, decide=E.smt_decide, lib=lib, name='integer of %d bytes, %d leading zero bytes, top bit %s' % (n, k, top))
                    bs = cbytes([0] * k) + ([T.var('h', 8, 1 if not top else 128, 255 if top else 127)] + bv('d', n - k - 1) if k < n else [])
                    run.gens = {'h': lambda R, top=top: R.randrange(128, 256) if top else R.randrange(1, 128)}
                    d = run.buf('data', n, bs)
                    body = ([T.const(0, 8)] if top else []) + bs[min(k, n - 1):]
                    want = header(2, len(body)) + body
                    o = run.buf('out', len(want))
                    l = run.buf('outl', 8)
                    run.call('vc_eint', [o, l, d, n], mem=[(o, 0, want), (l, 0, words([c64(len(want))]))], keep=[d])
                    run.call('vc_int_outl', [d, n], ret=c64(len(want)), keep=[d])
                    hl = len(want) - len(body)
                    s = 1 if top else 0
                    roundtrip(run, 'int', want, [hl + s, len(body) - s, len(want)])
                    run.done()
                    if r.violations:
                        return
    return go


def strings(lens, kind):
    def go(r, e):
        prog, lib = e
        for n in lens:
            for un in (range(8) if kind == 'bit' and n else (0,)):
                run = hist.Run(r, prog, {}, UFS, decide=E.smt_decide, lib=lib, name='%s string of %d bytes%s' % (kind, n, ', %d unused bits' % un if un else ''))
                bs = bv('d', n)
                d = run.buf('data', n, bs)
                body = bs if kind == 'oct' else [T.const(un, 8)] + bs
                want = header(4 if kind == 'oct' else 3, len(body)) + body
                o = run.buf('out', len(want))
                l = run.buf('outl', 8)
                a = [o, l, d, n] + ([] if kind == 'oct' else [8 * n - un])
                run.call('vc_eoct' if kind == 'oct' else 'vc_ebit', a, mem=[(o, 0, want), (l, 0, words([c64(len(want))]))], keep=[d])
                hl = len(want) - n
                run.call('vc_oct_outl' if kind == 'oct' else 'vc_bit_outl', [n if kind == 'oct' else 8 * n - un], ret=c64(len(want)))
                roundtrip(run, kind, want, [hl, n, len(want)] + ([8 * n - un] if kind == 'bit' else []))
                if kind == 'oct':
                    for t, k2 in ((0x30, 'seq'), (0x31, 'set')):
                        roundtrip(run, k2, header(t, n) + bs, [hl, n, len(want)])
                run.done()
                if r.violations:
                    return
    return go


def booleans(r, e):
    prog, lib = e
    v = T.var('v', 64, 0, 255)
    run = hist.Run(r, prog, {}, UFS, decide=E.smt_decide, lib=lib, name='boolean')
    run.gens = {'v': lambda R: R.choice((0, 1, 255))}
    o = run.buf('out', 3)
    l = run.buf('outl', 8)
    want = cbytes([1, 1]) + [T.ite(T.eq(v, Z), T.const(0, 8), T.const(255, 8))]
    run.call('vc_ebool', [o, l, v], mem=[(o, 0, want), (l, 0, words([c64(3)]))])
    run.call('vc_bool_outl', [], ret=c64(3))
    roundtrip(run, 'bool', want, [T.ite(T.eq(v, Z), Z, c64(1)), 3])
    run.done()


STR = list(range(0, 20)) + [31, 32, 33, 64, 65, 125, 126, 127, 128, 129, 253, 254, 255, 256, 257, 300]


def tasks():
    e = env()
    out = []
    for kind in FN:
        for n in range(0, 16):
            out.append(fw.Task('decode %s, %d bytes' % (kind, n), dec_concrete(kind, e, n)))
        out.append(fw.Task('decode %s, any length' % kind, dec_any(kind, e)))
    out.append(fw.Task('headers and lengths', lambda r: sym_len(r, e)))
    out.append(fw.Task('boolean', lambda r: booleans(r, e)))
    for lo in (1, 11, 19, 25, 30, 34):
        hi = {1: 11, 11: 19, 19: 25, 25: 30, 30: 34, 34: 37}[lo]
        out.append(fw.Task('integers of %d..%d bytes' % (lo, hi - 1), lambda r, f=ints(lo, hi): f(r, e)))
    for n in (126, 127, 128, 129):
        out.append(fw.Task('integers of %d bytes' % n, lambda r, f=ints(n, n + 1): f(r, e)))
    for kind in ('oct', 'bit'):
        out.append(fw.Task('%s strings' % kind, lambda r, f=strings(STR, kind): f(r, e)))
    return out


def main():
    return fw.main('X01', tasks(), trusted=fw.TRUSTED, assumptions=fw.ASSUMPTIONS + [
        'decoders: every input of every length up to 2^62 (byte contents and length symbolic)',
        'header encoders: every value length below 2^63; INTEGER, BIT STRING and OCTET STRING bodies: the lengths named in the tasks, all contents'])
