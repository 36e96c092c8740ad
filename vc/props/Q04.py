"""Q04: SM9 signatures: keys, derivation, signing, verification, and the encodings of G1 they use."""
import P02
import codec
import eclaw
import fw
import sm9spec
from eclaw import CURVES


def tasks():
    out = sm9spec.tasks()
    C = CURVES['sm9']
    for prog, lib, tag in P02.progs('sm9/sm9_field.cpp', 'sm9ec'):
        codec.decode_tasks(out, C, prog, lib, tag)
        codec.encode_tasks(out, C, prog, lib, tag)
        codec.roundtrip_tasks(out, C, tag)
    return out


def main():
    return fw.main('Q04', tasks(), trusted=fw.TRUSTED, assumptions=fw.ASSUMPTIONS)
