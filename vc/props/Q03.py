"""Q03: the pairing is the R-ate pairing."""
import ctypes
import random

import curve
import fw
import mont
import pairref
import pairspec
import term as T
import tower
from P02 import progs

SRC = 'sm9/sm9_field.cpp'
FN = {'sm9_pairing': 'PQ', 'sm9_pairing_P1_Q': 'Q', 'sm9_pairing_P_P2': 'P'}


def search(prog, lib, name):
    """a pair of points on which the library and the reference differ"""
    def run():
        R = random.Random(fw.SEED)
        n = mont.SM9_N
        so = lib()
        ks = [(1, 1), (2, 3), (n - 1, 1), (1, n - 1)] + [(R.randrange(1, n), R.randrange(1, n)) for _ in range(4)]
        for a, b in ks:
            a = a if 'P' in FN[name] else 1
            b = b if 'Q' in FN[name] else 1
            Pt, Q = pairref.G1.mulp(a, pairref.G1.gen), pairref.G2.mulp(b, pairref.G2.gen)
            want = pairref.pack(pairref.pairing(Pt, Q)).to_bytes(384, 'little').hex()

            def call():
                fn = getattr(so, prog.fn(pairspec.PRE[:-4] + name).name.lstrip('@'))
                fn.restype = None
                out = fw.Guarded(bytes(384))
                args = [out]
                if 'P' in FN[name]:
                    args.append(fw.Guarded(pairref.G1.ebytes(*Pt)))
                if 'Q' in FN[name]:
                    args.append(fw.Guarded(pairref.G2.ebytes(*Q)))
                fn(*[ctypes.c_void_p(x.addr) for x in args])
                return out.read().hex()
            o = fw.in_child(call)
            if o[0] == 'error':
                raise RuntimeError('the native run failed')
            if o != ('ok', want):
                return '%s with P = [%#x]P1, Q = [%#x]P2 gives %s, the R-ate pairing is %s' % (name, a, b, o, want)
        return None
    return run


def callees():
    C = dict(curve.contracts('sm9'))
    C.update({k: v for k, v in tower.contracts().items()
              if not k.endswith('_conjugate') and 'frobenius' not in k})
    return C


def pairing_task(r, prog, lib, name, nm):
    if 'P' in FN[name]:
        pc = [T.var('P.%d' % i, 256, 0, mont.SM9_P - 1) for i in range(2)]
    else:
        pc = [T.const(pairref.G1.enc(x), 256) for x in pairref.G1.gen]
    if 'Q' in FN[name]:
        qc = [T.var('Q.%d' % i, 256, 0, mont.SM9_P - 1) for i in range(4)]
    else:
        qc = [T.const(y, 256) for x in pairref.G2.gen for y in tower.split(pairref.G2.enc(x), 2)]
    W = pairspec.World(pc[0], pc[1], qc)
    hold = {}

    def setup(su):
        hold['r'] = su.obj('R', 384, [(0, T.var('R0', 3072))])
        su.arg(su.ptr(hold['r']))
        if 'P' in FN[name]:
            su.arg(su.ptr(su.obj('P', 64, [(32 * i, x) for i, x in enumerate(pc)])))
        if 'Q' in FN[name]:
            su.arg(su.ptr(su.obj('Q', 128, [(32 * i, x) for i, x in enumerate(qc)])))

    def post(su, ex, st, ret):
        t = fw.mem_get(ex, st, hold['r'], 0, 384)
        why = pairspec.is_pairing(W.parse(t))
        if why:
            r.notes.append(why)

        def backend(g, su, ex):
            return None if why else 'formal products and divisors'
        for i in range(W.nlines):
            r.ok('polynomial identity over F_p')
        return [fw.Goal('%s is the R-ate pairing of its operands' % name, t, T.var('pairing', 3072), ('mem', hold['r'], 0, 384), backend)]
    C = callees()
    C.update(W.handlers())
    C = {k: v.handler() for k, v in C.items()}
    fw.verify(r, prog, fw.FnSpec(nm, pairspec.PRE[:-4] + name, setup, post, contracts=C, lib=lib, tries=0, backends=(),
                                 frame=lambda su: [(hold['r'], 0, 384)]))


def facts_task(r):
    for what, ok in pairspec.facts():
        if ok:
            r.ok('computation')
        else:
            r.fail('failed')
            r.notes.append('not so: ' + what)


def tasks():
    out = [fw.Task('arithmetic facts behind the pairing argument', facts_task)]
    for prog, lib, tag in progs(SRC, 'sm9ec'):
        for name in FN:
            nm = name + tag

            def run(r, prog=prog, lib=lib, name=name, nm=nm):
                pairing_task(r, prog, lib, name, nm)
            out.append(fw.searched(nm, run, search(prog, lib, name), 400))
    return out


def main():
    return fw.main('Q03', tasks(), trusted=fw.TRUSTED, assumptions=fw.ASSUMPTIONS)
