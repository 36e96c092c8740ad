"""P01: SM2 point decoding and encoding."""
import N03
import P02
import codec
import contract
import curve
import eclaw
import fw
from contract import Contract


def check_task(out, C, prog, lib, callees, tag):
    con = Contract(C.pre + 'a_check', None, eclaw.shape(C, 'a_check'))
    nm = '%s%s' % (con.name, tag)
    out.append(fw.Task(nm, lambda r: eclaw.law_task(r, C, 'a_check', con, {0: 0}, prog, callees, lib, nm)))


def tasks():
    out = []
    C = eclaw.CURVES['sm2']
    for prog, lib, tag in P02.progs(P02.SRC, 'sm2ec'):
        check_task(out, C, prog, lib, curve.contracts('sm2'), tag)
        codec.decode_tasks(out, C, prog, lib, tag)
        codec.encode_tasks(out, C, prog, lib, tag)
        codec.roundtrip_tasks(out, C, tag)
    low = []
    N03.inv_tasks(low)
    out += [t for t in low if t.name.startswith(curve.PRE['sm2'] + 'fp_sqrt')]
    return out


def main():
    return fw.main('P01', tasks(), trusted=fw.TRUSTED, assumptions=fw.ASSUMPTIONS)
