"""DER of the SM2 structures: encoders and round trips for every value; decoders for every input against the contracts of
the ASN.1 decoders (X01)."""
import random
import asn1spec as A
import exec as E
import fe
import fw
import hist
import smt
import term as T
from asn1spec import c64
from hist import bv, cbytes
from props import X01

UFS = X01.UFS
Z = X01.Z
words = X01.words


def env():
    return X01.env()


# ------------------------------------------------------------------ values by the shape of their leading bytes
def val32(name, k, top):
    """32 bytes with exactly k leading zero bytes; top: high bit of the first nonzero byte; returns (bytes, DER body)"""
    if k == 32:
        return cbytes([0] * 32), cbytes([0]), {}
    h = T.var(name + 'h', 8, 128 if top else 1, 255 if top else 127)
    bs = cbytes([0] * k) + [h] + bv(name, 31 - k)
    g = {name + 'h': lambda R, top=top: R.randrange(128, 256) if top else R.randrange(1, 128)}
    return bs, (cbytes([0]) if top else []) + bs[k:], g


SHAPES = [(k, t) for k in range(32) for t in (0, 1)] + [(32, 0)]


def der(tag, body):
    return cbytes(A.tl(tag, len(body))) + body


def check_decode(run, fn, enc, want, vals, nv):
    """decode: exact, followed by other bytes, and truncated"""
    n = len(enc)
    k = 1 + len(want)
    for extra, cut in ((0, 0), (2, 0), (0, 1)):
        b = run.fork()
        bs = (enc + bv('t', extra))[:n + extra - cut]
        p = b.buf('enc', len(bs), bs)
        o = b.buf('res', 8 * k, cbytes([0] * 8 * k))
        v = b.buf('val', nv)
        res = [1] + [0] * len(want) if cut else [0] + want
        b.call(fn, [o, v, p, len(bs)], mem=[(o, 0, words([c64(x) for x in res]))] + ([] if cut else [(v, 0, vals)]), keep=[p])


def start(r, e, name, gens):
    prog, lib = e
    run = hist.Run(r, prog, {}, UFS, decide=E.smt_decide, lib=lib, name=name)
    run.gens = gens
    return run


def outlen(run, n):
    return run.buf('outl', 8)


def signatures(shapes_r):
    def go(r, e):
        for kr, tr in shapes_r:
            for ks, ts in SHAPES if fw.TIER != 'quick' or kr in (0, 1, 32) else [(0, 0), (0, 1), (1, 1), (2, 0), (31, 1), (32, 0), (kr, tr)]:
                R, br, g1 = val32('r', kr, tr)
                S, bs, g2 = val32('s', ks, ts)
                run = start(r, e, 'signature, R with %d leading zeros/top bit %d, S with %d/%d' % (kr, tr, ks, ts), {**g1, **g2})
                enc = der(0x30, der(2, br) + der(2, bs))
                a, b = run.buf('R', 32, R), run.buf('S', 32, S)
                o, l = run.buf('out', len(enc)), run.buf('outl', 8)
                run.call('vc_esig', [o, l, a, b], mem=[(o, 0, enc), (l, 0, words([c64(len(enc))]))], keep=[a, b])
                run.call('vc_sig_outl', [a, b], ret=c64(len(enc)), keep=[a, b])
                check_decode(run, 'vc_dsig', enc, [len(enc)], R + S, 64)
                run.done()
                if r.violations:
                    return
    return go


def ciphers(shapes, lens):
    def go(r, e):
        for (kx, tx), (ky, ty) in shapes:
            for hn, cn in lens:
                X, bx, g1 = val32('x', kx, tx)
                Y, by, g2 = val32('y', ky, ty)
                H, C = bv('h', hn), bv('c', cn)
                run = start(r, e, 'ciphertext, X %d/%d, Y %d/%d, hash %d, text %d bytes' % (kx, tx, ky, ty, hn, cn), {**g1, **g2})
                body = der(2, bx) + der(2, by) + der(4, H) + der(4, C)
                enc = der(0x30, body)
                a, b, h, c = run.buf('X', 32, X), run.buf('Y', 32, Y), run.buf('H', hn, H), run.buf('C', cn, C)
                o, l = run.buf('out', len(enc)), run.buf('outl', 8)
                args = [a, b, h, hn, c, cn]
                run.call('vc_ecip', [o, l] + args, mem=[(o, 0, enc), (l, 0, words([c64(len(enc))]))], keep=[a, b, h, c])
                run.call('vc_cip_outl', args, ret=c64(len(enc)))
                v = run.call('vc_cip_max', [hn, cn])
                if v is not None:
                    run.check(T.ule(c64(len(enc)), v), T.TRUE, run.steps[-1], ('ret',), 'announced maximum is enough')
                at_c = len(enc) - cn
                at_h = at_c - (len(der(4, C)) - cn) - hn
                check_decode(run, 'vc_dcip', enc, [len(enc), hn, at_h, cn, at_c], X + Y, 64)
                run.done()
                if r.violations:
                    return
    return go


def keys(r, e):
    for k, t in SHAPES:
        V, b, g = val32('d', k, t)
        run = start(r, e, 'private key with %d leading zeros/top bit %d' % (k, t), g)
        enc = der(2, b)
        a = run.buf('d', 32, V)
        o, l = run.buf('out', len(enc)), run.buf('outl', 8)
        run.call('vc_epriv', [o, l, a], mem=[(o, 0, enc), (l, 0, words([c64(len(enc))]))], keep=[a])
        run.call('vc_priv_outl', [a], ret=c64(len(enc)))
        check_decode(run, 'vc_dpriv', enc, [len(enc)], V, 32)
        run.done()
    V = bv('q', 65)
    run = start(r, e, 'public key', {})
    enc = der(3, cbytes([0]) + V)
    a = run.buf('q', 65, V)
    o, l = run.buf('out', len(enc)), run.buf('outl', 8)
    run.call('vc_epub', [o, l, a], mem=[(o, 0, enc), (l, 0, words([c64(len(enc))]))], keep=[a])
    run.call('vc_pub_outl', [a], ret=c64(len(enc)))
    check_decode(run, 'vc_dpub', enc, [len(enc)], V, 65)
    run.done()


def reject(r, e):
    """well-formed DER whose fields have the wrong size or type"""
    def no(fn, enc, k, nv, nm):
        run = start(r, e, 'rejects ' + nm, {})
        p = run.buf('enc', len(enc), enc)
        o, v = run.buf('res', 8 * k, cbytes([0] * 8 * k)), run.buf('val', nv)
        run.call(fn, [o, v, p, len(enc)], mem=[(o, 0, words([c64(1)] + [Z] * (k - 1)))], keep=[p])
        run.done()
    h = T.var('h', 8, 1, 127)
    good = der(2, [h] + bv('g', 31))
    for n in (33, 34, 40, 64):
        for lead in ([h], [T.const(0, 8), T.var('H', 8, 128, 255)]):
            bad = der(2, lead + bv('b', n - 1))
            no('vc_dpriv', bad, 2, 32, 'a private key of %d bytes' % n)
            no('vc_dsig', der(0x30, bad + good), 2, 64, 'R of %d bytes' % n)
            no('vc_dsig', der(0x30, good + bad), 2, 64, 'S of %d bytes' % n)
            t = der(4, bv('k', 32)) + der(4, bv('c', 3))
            no('vc_dcip', der(0x30, bad + good + t), 6, 64, 'X of %d bytes' % n)
            no('vc_dcip', der(0x30, good + bad + t), 6, 64, 'Y of %d bytes' % n)
    for n in list(range(0, 65)) + [66, 67, 130]:
        no('vc_dpub', der(3, cbytes([0]) + bv('q', n)), 2, 65, 'a public key of %d bytes' % n)
    for u in range(1, 8):
        no('vc_dpub', der(3, cbytes([u]) + bv('q', 65)), 2, 65, 'a public key of %d bits' % (520 - u))
        no('vc_dpub', der(3, cbytes([u]) + bv('q', 66)), 2, 65, 'a public key of %d bits' % (528 - u))
    no('vc_dsig', der(0x30, good), 2, 64, 'a signature without S')
    no('vc_dsig', der(0x30, []), 2, 64, 'an empty signature')
    no('vc_dsig', der(0x31, good + good), 2, 64, 'a SET as signature')
    no('vc_dcip', der(0x30, good + good + der(4, bv('k', 32))), 6, 64, 'a ciphertext without text')
    no('vc_dcip', der(0x30, good + good), 6, 64, 'a ciphertext without hash and text')


# ------------------------------------------------------------------ any input, over the contracts of the ASN.1 decoders
_res = {}


def res(what, w, a, lo=0, hi=None):
    """a result of a decoder applied to a range: one unknown per range"""
    k = (what, tuple(a))
    if k not in _res:
        _res[k] = T.var('%s#%d' % (what, len(_res)), w, lo, hi)
    return _res[k]


def int_contract(off, inl):
    a = [off, inl]
    o = res('asn1.int.off', 64, a, 0, 1 << 62)
    n = res('asn1.int.n', 64, a, 0, 1 << 62)
    ok = T.and_(T.eq(res('asn1.int.ok', 8, a, 0, 1), T.const(1, 8)), T.ule(n, c64(32)))
    return ok, o, n, res('asn1.int.v', 256, a)


def handlers(obj, sub):
    """contracts proved under X01, with uninterpreted results: on success the value lies inside the given range and the
    number of bytes consumed is its end; on failure nothing is known about the outputs"""
    def put(ex, st, p, v, n=8):
        ex.store_bytes(st, p, v, n)

    def dec(kind, ptrs):
        def h(ex, fr, st, args, ins):
            *outs, rdp, inp, inl = args
            while isinstance(inp, E.PIte):
                d = ex.decide(st, inp.c)
                if d is None:
                    raise E.Unsupported('decoder called on one of two inputs')
                inp = inp.a if d else inp.b
            known = {}
            for c in st.pc:
                known[c] = T.TRUE
                known[T.not_(c)] = T.FALSE
            inl, off0 = T.subst([inl, inp.off], known)
            inp = E.Ptr(inp.obj, off0)
            if not isinstance(inp, E.Ptr) or inp.obj is not obj:
                raise E.Unsupported('decoder called outside the input')
            # precondition: the range lies inside the input
            pre = T.and_(T.ule(inp.off, obj.size), T.ule(inl, T.sub(obj.size, inp.off)))
            ex.ob('precondition', st, pre, '%s: range inside the input' % kind, fr.fn.name)
            a = [inp.off, inl]
            ok = T.eq(res('asn1.%s.ok' % kind, 8, a, 0, 1), T.const(1, 8))
            off = res('asn1.%s.off' % kind, 64, a, 0, 1 << 62)
            n = res('asn1.%s.n' % kind, 64, a, 0, 1 << 62)
            end = T.add(off, n)
            ex.facts.append(T.or_(T.not_(T.and_(ok, pre)), T.and_(T.ule(T.add(inp.off, c64(2)), off), T.ule(end, T.add(inp.off, inl)))))
            und = lambda w=64: T.fresh('und', w)
            put(ex, st, outs[0], E.PIte(ok, E.Ptr(obj, off), E.Ptr(None, und())))
            put(ex, st, outs[1], T.ite(ok, n, und()))
            if kind == 'bit':
                bits = res('asn1.bit.bits', 64, a)
                put(ex, st, outs[2], T.ite(ok, bits, und()))
            put(ex, st, rdp, T.ite(ok, T.sub(end, inp.off), und()))
            return T.ite(ok, T.const(0, 32), T.const(0xffffffff, 32))
        return h
    def int256(ex, fr, st, args, ins):
        """contract proved on the private key decoder (which consists of it) for every input: success exactly when the
        INTEGER decodes and has at most 32 bytes; then *value points to its 32-byte big-endian value"""
        valp, buf, rdp, inp, inl = args
        while isinstance(inp, E.PIte):
            d = ex.decide(st, inp.c)
            if d is None:
                raise E.Unsupported('decoder called on one of two inputs')
            inp = inp.a if d else inp.b
        known = {}
        for c in st.pc:
            known[c] = T.TRUE
            known[T.not_(c)] = T.FALSE
        inl, off = T.subst([inl, inp.off], known)
        if inp.obj is not obj:
            raise E.Unsupported('decoder called outside the input')
        pre = T.and_(T.ule(off, obj.size), T.ule(inl, T.sub(obj.size, off)))
        ex.ob('precondition', st, pre, 'INTEGER: range inside the input', fr.fn.name)
        ok, o, n, v = int_contract(off, inl)
        end = T.add(o, n)
        ex.facts.append(T.or_(T.not_(T.and_(ok, pre)), T.and_(T.ule(T.add(off, c64(2)), o), T.ule(end, T.add(off, inl)))))
        ex.store_bytes(st, buf, T.fresh('und', 256), 32)
        V = E.Obj('value', 32, 'arg', const=True, default=lambda i: T.ext(v, 8 * (31 - i), 8))
        ex.store_bytes(st, valp, E.PIte(ok, E.Ptr(V, Z), E.Ptr(None, T.fresh('und', 64))), 8)
        ex.store_bytes(st, rdp, T.ite(ok, T.sub(end, off), T.fresh('und', 64)), 8)
        return T.ite(ok, T.const(0, 32), T.const(0xffffffff, 32))
    hs = {} if not sub else {'sm2::internal::sm2_asn1_decode_int256': int256}
    return {**hs, 'asn1::asn1_decode_integer_value': dec('int', 1), 'asn1::asn1_decode_octet_string_value': dec('oct', 1),
            'asn1::asn1_decode_sequence_value': dec('seq', 1), 'asn1::asn1_decode_bit_string_value': dec('bit', 2)}


class Parse:
    """the same contracts as specification terms"""

    def __init__(self):
        self.ok = T.TRUE

    def dec(self, kind, off, inl):
        a = [off, inl]
        self.ok = T.and_(self.ok, T.eq(res('asn1.%s.ok' % kind, 8, a, 0, 1), T.const(1, 8)))
        o = res('asn1.%s.off' % kind, 64, a, 0, 1 << 62)
        n = res('asn1.%s.n' % kind, 64, a, 0, 1 << 62)
        return o, n, T.add(o, n)

    def int256(self, off, inl):
        ok, o, n, v = int_contract(off, inl)
        self.ok = T.and_(self.ok, ok)
        return [T.ext(v, 8 * (31 - i), 8) for i in range(32)], T.add(o, n)

    def int32(self, rd, off, inl):
        o, n, end = self.dec('int', off, inl)
        self.ok = T.and_(self.ok, T.ule(n, c64(32)))
        out = []
        for i in range(32):
            x = T.const(0, 8)
            # byte i is at o + n - 32 + i when it exists
            x = T.ite(T.ule(c64(32 - i), n), rd(T.add(T.add(o, n), c64(i - 32))), x)
            out.append(x)
        return out, end


def by_size(got, want):
    """case split on the integer lengths that occur in the goal"""
    ns, seen, todo = [], set(), [got, want]
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'v' and t.aux.startswith('asn1.int.n#'):
            ns.append(t)
        todo += t.args
    ns = [n for n in ns if not any(n is not m and n in under(m) for m in ns)]

    def go(g, w, rest):
        if g is w:
            return True
        if not rest:
            return smt.check([], T.eq(g, w), 10000)[0] == 'proved'
        n = rest[0]
        x = T.var('n!big%d' % len(rest), 64, 33, 1 << 62)
        for k in list(range(33)) + [None]:
            v = x if k is None else c64(k)
            a, b = T.subst([g, w], {n: v})
            if not go(a, b, rest[1:]):
                return False
        return True
    # bytes grouped by the lengths they depend on
    groups = {}
    for i in range(0, got.w, 8):
        g, w = T.ext(got, i, 8), T.ext(want, i, 8)
        if g is w:
            continue
        u = under(g) | under(w)
        groups.setdefault(tuple(n for n in ns if n in u), []).append((g, w))
    for mine, l in groups.items():
        if len(mine) > 2 or not go(T.cat(*[x for x, _ in l]), T.cat(*[y for _, y in l]), mine):
            return None
    return 'case split'


def under(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += x.args
    return seen


def anyinput(which):
    def go(r, e):
        prog, lib = e
        inl = T.var('inl', 64, 0, 1 << 40)
        run = hist.Run(r, prog, {}, UFS, decide=E.smt_decide, lib=None, name='decode %s, any input' % which, backend=by_size)
        p = run.ubuf('in', inl)
        run.ex.handlers.update(handlers(p.obj, which in ('sig', 'cip'))) if hasattr(run.ex, 'handlers') else run.ex.contracts.update(handlers(p.obj, which in ('sig', 'cip')))
        rd = p.obj.default
        P = Parse()
        out = []
        if which == 'priv':
            vals, end = P.int32(rd, Z, inl)
            out = [end]
        elif which == 'pub':
            o, n, end = P.dec('bit', Z, inl)
            P.ok = A.conj(P.ok, T.eq(n, c64(65)), T.eq(res('asn1.bit.bits', 64, [Z, inl]), c64(520)))
            vals = [rd(T.add(o, c64(i))) for i in range(65)]
            out = [end]
        else:
            o, n, end = P.dec('seq', Z, inl)
            lim = end
            a, e1 = P.int256(o, n)
            b, e2 = P.int256(e1, T.sub(lim, e1))
            vals = a + b
            out = [end]
            if which == 'cip':
                o3, n3, e3 = P.dec('oct', e2, T.sub(lim, e2))
                o4, n4, e4 = P.dec('oct', e3, T.sub(lim, e3))
                out += [n3, o3, n4, o4]
        k = 1 + len(out)
        o = run.buf('res', 8 * k, cbytes([0] * 8 * k))
        init = bv('v', len(vals))
        v = run.buf('val', len(vals), init)
        run.call('vc_d' + which, [o, v, p, inl], mem=[
            (o, 0, words([T.ite(P.ok, Z, c64(1))] + [T.ite(P.ok, x, Z) for x in out])),
            (v, 0, [T.ite(P.ok, x, y) for x, y in zip(vals, init)])])
        run.done()
    return go


def tasks():
    e = env()
    out = []
    for i in range(0, len(SHAPES), 5):
        sh = SHAPES[i:i + 5]
        out.append(fw.Task('signatures, R shapes %s' % (sh,), lambda r, f=signatures(sh): f(r, e)))
    D = ((0, 0), (0, 0))
    pairs = [((k, t), (0, 1)) for k, t in SHAPES] + [((0, 0), s) for s in SHAPES] + [((k, 1), (k, 0)) for k in range(32)]
    for i in range(0, len(pairs), 20):
        out.append(fw.Task('ciphertexts, coordinate shapes %d..' % i, lambda r, f=ciphers(pairs[i:i + 20], [(32, 5), (32, 0)]): f(r, e)))
    lens = [(32, n) for n in list(range(0, 34)) + [80, 100, 126, 127, 128, 129, 160, 200, 255, 256, 257, 300]] + [(0, 4), (20, 4), (48, 4), (64, 70), (127, 128), (128, 1)]
    out.append(fw.Task('ciphertexts, lengths', lambda r, f=ciphers([((0, 1), (1, 0))], lens): f(r, e)))
    out.append(fw.Task('keys', lambda r: keys(r, e)))
    out.append(fw.Task('wrong sizes', lambda r: reject(r, e)))
    for w in ('priv', 'pub', 'sig', 'cip'):
        out.append(fw.Task('decode %s, any input' % w, lambda r, f=anyinput(w): f(r, e)))
    return out


def main():
    return fw.main('X02', tasks(), trusted=fw.TRUSTED, assumptions=fw.ASSUMPTIONS + [
        'decoders over any input use the contracts of the ASN.1 decoders proved under X01 (success implies the value lies inside the given range)',
        'round trips: every shape of leading bytes, all remaining bytes symbolic; hash and text lengths as listed in the tasks'])
