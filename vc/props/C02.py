"""C02: AES-128/192/256 is FIPS 197 in both implementations, single and multi-block; decryption inverts encryption."""
import bitcanon
import blockspec as B
import ciphers
import fw
import term as T
T.LAZY = True


def counts(name, cfg):
    return [0, 1, 2, 4, 5, 9] if fw.TIER == 'quick' else range(13)


def inverse(n):
    def f(r):
        k = [T.var('k%d' % i, 8) for i in range(n)]
        b = [T.var('b%d' % i, 8) for i in range(16)]
        rk = B.aes_keys(k)
        for o in (B.aes_dec(rk, B.aes_enc(rk, b)), B.aes_enc(rk, B.aes_dec(rk, b))):
            for x, y in zip(o, b):
                if bitcanon.equal(x, y):
                    r.ok('GF(2) normal form')
                else:
                    r.fail('failed')
    return f


def tasks():
    impls = []
    for bits in (128, 192, 256):
        impls += [('aes%d_lut' % bits, c, bits // 8) for c in ('port', 'simd')]
        impls += [('aes%d_aesni' % bits, 'simd', bits // 8)]
        impls += [('AES%d' % bits, c, bits // 8) for c in ('port', 'simd')]
    out = ciphers.tasks(impls, 'aes', lambda cfg: ['aes/aes_lut.cpp', 'aes/aes_aesni.cpp'], counts)
    for n in (16, 24, 32):
        out.append(fw.Task("lemma: AES-%d decryption inverts encryption" % (8 * n), inverse(n)))
    return out


def main():
    return fw.main('C02', tasks(), trusted=fw.TRUSTED, assumptions=fw.ASSUMPTIONS)
