"""N02: Montgomery arithmetic on the four library moduli is modular arithmetic, in both implementations."""
import contract
import curve
import exec as E
import fe
import fw
import mont
import term as T
import u256

U = {'common': 'number/uint256_common.cpp', 'x64': 'number/uint256_x64.cpp'}
M = {'common': 'number/mont256_common.cpp', 'x64': 'number/mont256_x64.cpp'}
CFG = {'common': 'port', 'x64': 'simd'}
CURVE = {'sm2': 'sm2/sm2p256v1.cpp', 'sm9': 'sm9/sm9_field.cpp'}
OPS = ['add', 'sub', 'dbl', 'tpl', 'neg', 'div2', 'mul', 'sqr', 'equal', 'equal_zero', 'equal_one', 'cpy', 'set_zero', 'set_one',
       'set_uint32', 'set_uint64', 'from_bytes', 'to_bytes']


def contexts(prog, mod):
    """the Montgomery contexts a curve module defines"""
    out = []
    for name in mod.globals:
        if 'MONT_CTX' in name:
            out.append((name, E.Ptr(prog.global_obj(mod, name), T.const(0, 64))))
    return out


def tasks():
    out = []
    for impl in ('common', 'x64'):
        cfg = CFG[impl]
        for cv, path in CURVE.items():
            prog = fe.program([(U[impl], cfg), (M[impl], cfg), (path, cfg)])
            mod = prog.modules[2]
            UC = u256.contracts(impl)
            MC = mont.contracts(impl)
            lib = fe.lazy_shared('mont' + impl, cfg, [U[impl], M[impl]])
            for gname, ctx in contexts(prog, mod):
                P = prog_p(prog, ctx)
                for name, con in MC.items():
                    sn = name.split('::mont256_')[-1]
                    if sn not in OPS:
                        continue
                    callees = dict(UC)
                    if sn.startswith('set_uint') or sn == 'from_bytes':
                        callees.update(MC)
                    for asg in con.cases():
                        nm = '%s %s/%s [%s]' % (name, cv, gname.split('MONT')[0][-3:], contract.case_name(con, asg))

                        def run(r, con=con, asg=asg, prog=prog, callees=callees, lib=lib, ctx=ctx, nm=nm, P=P):
                            contract.verify(r, prog, con, asg, callees=callees, lib=lib, ctx=ctx, ufs=mont.UFS, name=nm, decide=E.smt_decide if con.name.endswith('tpl') else None,
                                            special=(P, P - 1, mont.R % P))
                        out.append(fw.Task(nm, run))
    for impl in ('common', 'x64'):
        cfg = CFG[impl]
        for cv, path in CURVE.items():
            prog = fe.program([(U[impl], cfg), (M[impl], cfg), (path, cfg)])
            lib = fe.lazy_shared('field' + impl, cfg, [U[impl], M[impl]] + list(CURVE.values()))
            callees = dict(u256.contracts(impl))
            callees.update(mont.contracts(impl))
            for name, con in curve.contracts(cv).items():
                if name not in prog.by_short:
                    continue
                for asg in con.cases():
                    nm = '%s %s [%s]' % (name, impl, contract.case_name(con, asg))

                    def run(r, con=con, asg=asg, prog=prog, callees=callees, lib=lib, nm=nm):
                        contract.verify(r, prog, con, asg, callees=callees, lib=lib, ufs=mont.UFS, name=nm, tries=30)
                    out.append(fw.Task(nm, run))
    return out


def prog_p(prog, ctx):
    c = prog.init_cells(ctx.obj)
    p = c[0][0]
    v = prog.init_cells(p.obj)
    return sum(((v[i][0].aux >> (8 * v[i][1])) & 255) << (8 * i) for i in range(32))


def main():
    return fw.main('N02', tasks(), trusted=fw.TRUSTED, assumptions=fw.ASSUMPTIONS)
