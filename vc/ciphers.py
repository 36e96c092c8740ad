"""Shared by C01 and C02: the block ciphers through their key schedules."""
import bitcanon
import blockspec as B
import contract
import exec as E
import fe
import fw
import induct
import term as T
from contract import Contract


def fn_contract(name, klen, algo, enc, n, single):
    def body(c, key, out, inp, *rest):
        k = [c.rd(key, 1, i) for i in range(klen)]
        ks = B.sm4_keys(k) if algo == 'sm4' else B.aes_keys(k)
        for i in range(n):
            blk = [c.rd(inp, 1, 16 * i + j) for j in range(16)]
            if algo == 'sm4':
                o = B.sm4_block(ks, blk, enc)
            else:
                o = (B.aes_enc if enc else B.aes_dec)(ks, blk)
            c.wr(out, T.cat(*reversed(o)), 16 * i)
    ps = [('p', klen, 'KEY'), ('p', max(1, 16 * n), 'OUT'), ('p', max(1, 16 * n), 'IN')]
    if not single:
        ps.append(('k', T.const(n, 64)))
    return Contract(name, body, ps, noalias=(0,))


def tasks(impls, algo, srcs, counts):
    """impls: [(name, cfg, klen)]"""
    out = []
    for name, cfg, klen in impls:
        prog = fe.program([(fe.VERIF + '/native/ciphers.cpp', cfg)] + [(s, cfg) for s in srcs(cfg)])
        lib = fe.lazy_shared('ciph%s' % cfg, cfg, ['sm4/sm4_common.cpp', 'sm4/sm4_lang18.cpp', 'aes/aes_lut.cpp', 'aes/aes_aesni.cpp'], driver='ciphers.cpp')
        for enc in (True, False):
            for n in ['1'] + list(counts(name, cfg)):
                single = n == '1'
                m = int(n)
                con = fn_contract('vc_%s_%s%s' % (name, 'enc' if enc else 'dec', '1' if single else ''), klen, algo, enc, m, single)
                for asg in con.cases():
                    nm = '%s %s %s [%s]' % (con.name, cfg, 'block' if single else '%d blocks' % m, contract.case_name(con, asg))

                    def run(r, con=con, asg=asg, prog=prog, lib=lib, nm=nm):
                        contract.verify(r, prog, con, asg, lib=lib, name=nm, goal_backend=bitcanon.backend, tries=4, decide=None)
                    out.append(fw.Task(nm, run))
            # quick: the implementations themselves, out of place; the wrappers and the in-place pattern in the thorough tier
            for alias in (False, True) if fw.TIER != 'quick' else (False,) if '_' in name else ():
                f = 'vc_%s_%s' % (name, 'enc' if enc else 'dec')
                out.append(induct.task('%s %s any number of blocks [%s]' % (f, cfg, 'in place' if alias else 'out of place'), prog, {}, f, induct.shape([klen, 's', 's', 'n'], 16, {2: 1} if alias else {}), set(counts(name, cfg)), lib=lib))
    return out

