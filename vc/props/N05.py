"""N05: byte conversions are mutually inverse and long strings reduce to exactly their value modulo the modulus."""
import contract
import curve
import exec as E
import fe
import fw
import hist
import mont
import term as T
import u256
import wide
from contract import Contract
from props.N02 import CFG, CURVE, M, U, contexts, prog_p


def lens():
    return range(0, 101) if fw.TIER == 'quick' else range(0, 260)


def ex_contract(impl, n, ln, full, P):
    """bytes of any length -> Montgomery residue"""
    def body(c, *a):
        s, d = a[-3], a[-2]
        c.wr(s, mont.to(n, P, wide.wide(n, wide.big([c.rd(d, 1, i) for i in range(ln)])) if ln else T.const(0, 256)))
    ps = [('p', 32, 'S'), ('p', max(ln, 1), 'D'), ('k', T.const(ln, 64))]
    if 'mont256' in full:
        ps = [('ctx',)] + ps
    return Contract(full, body, ps, alias=False)


def sub_contract(full, m):
    """one word modulo m"""
    def body(c, a):
        x = c.rd(a, 32)
        D = T.const(m, 256)
        c.wr(a, T.ite(T.ult(x, D), x, T.sub(x, D)))
    return Contract(full, body, [('p', 32, 'A')])


def tasks():
    out = []
    for impl in ('common', 'x64'):
        cfg = CFG[impl]
        prog = fe.program([(U[impl], cfg)])
        lib = fe.lazy_shared('u256' + impl, cfg, [U[impl]])
        C = u256.contracts(impl)
        for name, con in C.items():
            if name.split('::')[-1] in u256.N05:
                for asg in con.cases():
                    out.append(fw.Task('%s [%s]' % (name, contract.case_name(con, asg)),
                                       lambda r, con=con, asg=asg, prog=prog, C=C, lib=lib: contract.verify(r, prog, con, asg, callees=C, lib=lib)))
        hs = dict(C)
        ma = wide.mod_add_contract(impl)
        hs[ma.name] = ma
        for n, P in wide.MOD.items():
            for grp in range(0, len(lens()), 5):
                def run(r, impl=impl, n=n, P=P, grp=grp, hs=hs, prog=prog, lib=lib):
                    for ln in lens()[grp:grp + 5]:
                        con = wide.uint256_mod(impl, n, ln)
                        contract.verify(r, prog, con, con.cases()[0], callees=hs, lib=lib, ufs=wide.UFS, decide=E.smt_decide,
                                        goal_backend=wide.backend(P), name='%s mod %s, %d bytes' % (con.name, n, ln), tries=6)
                out.append(fw.Task('uint256_mod (%s) modulo %s, %d.. bytes' % (impl, n, lens()[grp]), run))
        for cv, path in CURVE.items():
            prog2 = fe.program([(U[impl], cfg), (M[impl], cfg), (path, cfg)])
            mod = prog2.modules[2]
            lib2 = fe.lazy_shared('field' + impl, cfg, [U[impl], M[impl]] + list(CURVE.values()))
            h2 = dict(C)
            h2.update(mont.contracts(impl))
            mh = wide.mod_handler(impl)
            h2[mh.name] = mh

            def conv(r, impl=impl, prog2=prog2, mod=mod, lib2=lib2, h2=h2, cv=cv):
                todo = []
                for ln in sorted({0, 1, 31, 32, 33, 40, 64, 65, 97}):
                    for gname, ctx in contexts(prog2, mod):
                        P = prog_p(prog2, ctx)
                        todo.append((ex_contract(impl, mont.NAME[P], ln, u256.NS[impl] + 'mont256_from_bytes_ex', P), ctx))
                    full = curve.PRE[cv] + 'fn_from_bytes_ex'
                    if full in prog2.by_short:
                        nn, N = curve.field(cv, 'fn')
                        todo.append((ex_contract(impl, nn, ln, full, N), None))
                N = mont.MODULI[cv + 'n']
                for k in (1, 2, 3):
                    full = curve.PRE[cv] + 'bn_mod_n_sub%d' % k
                    if full in prog2.by_short:
                        todo.append((sub_contract(full, N - k), None))
                for con, ctx in todo:
                    nm = '%s %s' % (con.name, impl)
                    contract.verify(r, prog2, con, con.cases()[0], callees=h2, lib=lib2, ufs=wide.UFS, decide=E.smt_decide, ctx=ctx, name=nm, tries=6,
                                    special=(N, N - 1, N - 2, N - 3))
                if cv == 'sm9':
                    for ln in (1, 32, 40, 64):
                        def body(c, a, d, l, ln=ln):
                            c.wr(a, wide.wide('sm9n1', wide.big([c.rd(d, 1, i) for i in range(ln)])))
                        con = Contract(curve.PRE[cv] + 'bn_mod_n_sub1_ex', body, [('p', 32, 'A'), ('p', ln, 'D'), ('k', T.const(ln, 64))], alias=False)
                        contract.verify(r, prog2, con, con.cases()[0], callees=h2, lib=lib2, ufs=wide.UFS, name=con.name + ' ' + impl, tries=6)
            out.append(fw.Task('conversions of %s (%s)' % (cv, impl), conv))
    return out


def main():
    return fw.main('N05', tasks(), trusted=fw.TRUSTED, assumptions=fw.ASSUMPTIONS + [
        'contracts of the Montgomery and 256-bit layers are those proved under N01 and N02',
        'lengths of reduced strings are concrete: every length from 0 to the bound named in the tasks, all contents'])
