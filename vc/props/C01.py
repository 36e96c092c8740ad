"""C01: SM4 is GB/T 32907 in every implementation, single and multi-block, in place or not; decryption inverts encryption."""
import bitcanon
import blockspec as B
import ciphers
import fe
import fw
import term as T
T.LAZY = True


def counts(name, cfg):
    q = fw.TIER == 'quick'
    if name == 'sm4_common':
        return [0, 1, 2] if q else range(9)
    if name == 'SM4':
        return [2] if q else [0, 1, 2, 4, 5, 8, 9, 16]
    if cfg == 'port':
        return [0, 1, 3, 4, 5, 9] if q else range(14)
    return [0, 1, 4, 8, 16, 29] if q else list(range(34)) + [49]


def inverse(r):
    k = [T.var('k%d' % i, 8) for i in range(16)]
    b = [T.var('b%d' % i, 8) for i in range(16)]
    ks = B.sm4_keys(k)
    for first in (True, False):
        o = B.sm4_block(ks, B.sm4_block(ks, b, first), not first)
        for x, y in zip(o, b):
            if bitcanon.equal(x, y):
                r.ok('GF(2) normal form')
            else:
                r.fail('failed')


def tasks():
    impls = [(n, c, 16) for c in ('port', 'simd') for n in ('sm4_common', 'sm4_lang18', 'SM4')]
    out = ciphers.tasks(impls, 'sm4', lambda cfg: ['sm4/sm4_common.cpp', 'sm4/sm4_lang18.cpp'], counts)
    out.append(fw.Task('lemma: the two directions of the specification are inverse', inverse))
    return out


def main():
    return fw.main('C01', tasks(), trusted=fw.TRUSTED, assumptions=fw.ASSUMPTIONS)
