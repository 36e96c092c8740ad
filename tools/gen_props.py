#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here in readable form)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({'state': state} if state else {}))))

prop('N01', '256-bit integer arithmetic is exact in both implementations',
     'For all 256-bit operands, every add, subtract, double, triple, multiply, square, shift, compare, bit-test and small-operand routine of the 256-bit integer layer returns exactly the mathematical result: the low words plus the reported carry or borrow equal the integer result. This holds in the portable and in the 64-bit implementation and for every overlap of output with an input that callers use (output equal to an input).',
     ['inputs', 'configurations'], 'all 2^256 (pairs of) operands, both limb layouts, output aliasing each input',
     'Carry chains fail only for operand patterns of probability about 2^-32 or 2^-64 per limb; the unit tests use a handful of fixed vectors.',
     ['src/number/uint256_common.cpp', 'src/number/uint256_x64.cpp', 'include/gmlib/number/internal/uint256_common.h', 'include/gmlib/number/internal/uint256_x64.h'],
     [('limb-serial carry/borrow propagation', 'src/number/uint256_*.cpp'), ('schoolbook multiplication', 'uint256_mul / uint256_sqr')])
prop('N02', 'Modular arithmetic is correct and canonical for every library modulus',
     'For each of the four moduli the library uses (field and group order of both curves) and all canonical residues, modular addition, subtraction, negation, doubling, tripling, multiplication, squaring, conversion and comparison return the mathematically correct residue. Every result is again canonical, that is strictly below the modulus, including when an operand is zero or the modulus minus one.',
     ['inputs', 'configurations'], 'all canonical operand pairs for 4 moduli, both limb layouts, output aliasing inputs',
     'Final-subtraction and carry-out corner cases have probability around 2^-32 to 2^-256 under random testing; the tests use fixed vectors and check neither canonicity nor zero.',
     ['src/number/mont256_common.cpp', 'src/number/mont256_x64.cpp', 'src/sm2/sm2p256v1.cpp', 'src/sm9/sm9_field.cpp'],
     [('Montgomery reduction', 'mont256_redc / mont256_mul'), ('conditional final subtraction', 'mont256_add, mont256_sub, mont256_neg, mont256_tpl')])
prop('N03', 'Modular exponentiation and inversion are correct for every exponent',
     'For every residue a and every 256-bit exponent e (including 0 and exponents with leading or embedded zero digits), modular exponentiation returns a to the power e modulo the modulus. Modular inversion of a nonzero residue returns its inverse, and field square root returns a root exactly when one exists and reports failure otherwise.',
     ['inputs', 'configurations'], 'all residues and all 2^256 exponents, four moduli, both limb layouts',
     'Window digits, leading zeros and zero exponent are data-dependent paths; the tests run a few fixed exponents.',
     ['src/number/mont256_common.cpp', 'src/number/mont256_x64.cpp', 'src/sm2/sm2p256v1.cpp', 'src/sm9/sm9_field.cpp'],
     [('4-bit window exponentiation', 'mont256_pow'), ('square root by exponentiation', 'sm2_fp_sqrt, sm9_fp_sqrt')])
prop('N04', 'Multi-limb integer routines are exact for every limb count',
     'For every limb count n of at least one and all operands, the multi-precision add, subtract, compare and multiply routines compute the exact integer result with the exact carry, borrow or ordering. This holds in the portable and in the 64-bit implementation.',
     ['inputs', 'configurations'], 'all limb counts and all operands', 'The length is unbounded and carries are rare; tests fix both.',
     ['src/number/mpz_common.cpp', 'src/number/mpz_x64.cpp'], [('limb loops with carried state', 'mpz_add_carry, mpz_sub_borrow, mpz_cmp, mpz_mul, ...')])
prop('N05', 'Byte conversions and wide modular reduction are exact',
     'Big-endian import and export of 256-bit integers are mutually inverse, and reducing a byte string of any length modulo a modulus yields exactly the integer value of the string modulo that modulus. Conversion of bytes into a residue reduces values at or above the modulus correctly.',
     ['inputs', 'configurations'], 'all byte strings of every length, both limb layouts', 'Length is unbounded and the subtract-and-retry path is data dependent; tests use fixed vectors.',
     ['src/number/uint256_common.cpp', 'src/number/uint256_x64.cpp', 'src/number/mont256_common.cpp', 'src/number/mont256_x64.cpp'],
     [('byte-serial shift and subtract reduction', 'uint256_mod'), ('chunked import', 'mont256_from_bytes_ex')])
prop('U01', 'Endian and XOR helpers are exact for every width and length',
     'Every fixed-width load and store helper converts between integer and byte order exactly at any alignment. XOR of two buffers of any length writes exactly the byte-wise XOR to exactly that many output bytes and nothing else, also when the output is one of the inputs.',
     ['inputs', 'configurations'], 'all values, all lengths, in-place and separate buffers, portable and SIMD builds', 'Tail handling depends on length modulo the vector width; tests sample a few lengths.',
     ['include/gmlib/memory_utils/endian.h', 'include/gmlib/memory_utils/memxor.h', 'src/memory_utils/memxor.cpp'],
     [('byte swap helpers', 'endian.h'), ('wide-word main loop with narrower tails', 'memxor_n')])
prop('H01', 'SM3 compression equals the standard in both implementations',
     'For every chaining value and every message block, each SM3 implementation computes exactly the compression function of GB/T 32905-2016. Processing several blocks equals iterating the single-block function in order.',
     ['inputs', 'configurations'], 'all 2^256 chaining values, all 2^512 blocks, every block count, both implementations', 'Test vectors exercise a few blocks; an error on rare carries or one round constant combination can hide.',
     ['src/sm3/sm3_common.cpp', 'src/sm3/sm3_yang15.cpp'], [('round function and message expansion', 'sm3_compress_block'), ('block loop', 'sm3_update_blocks')])
prop('H02', 'SM3 digests depend only on the message, not on how it was fed',
     'For every message and every way of splitting it into update calls (including empty pieces and a piece passed to the finishing call), the digest equals the standard padded-message digest, in every implementation. After a reset the object behaves like a fresh one, whatever was fed before, and the bit length is tracked exactly.',
     ['inputs', 'histories'], 'all messages, all chunkings, reset at any point', 'The number of chunkings is exponential; tests use one or two.',
     ['include/gmlib/hash_lib/hash.h', 'include/gmlib/sm3/sm3.h', 'src/sm3/sm3_common.cpp', 'src/sm3/sm3_yang15.cpp'],
     [('partial block buffer', 'Hash::update'), ('padding and length block', 'sm3_final_block')], [dict(name='buf_, buf_size_', meaning='pending partial block'), dict(name='ctx_', meaning='chaining value and bits processed')])
prop('H03', 'HMAC equals RFC 2104 for every key and message',
     'For every key length (shorter than, equal to and longer than the hash block) and every message in every chunking, the MAC equals the RFC 2104 construction over the underlying hash. Setting a key again starts a fresh computation that does not depend on earlier use.',
     ['inputs', 'histories'], 'all keys, all messages, all chunkings, re-keying histories', 'Key-length boundaries and re-keying sequences are not enumerated by tests.',
     ['include/gmlib/hash_lib/hmac.h'], [('key block and pads', 'HMac::set_key, HMac::do_final')])
prop('G01', 'All GHASH implementations compute the same GF(2^128) function',
     'For every hash key, accumulated state and block, each GHASH implementation (bitwise, table, carry-less multiply) computes state-xor-block times key in GF(2^128) as specified for GCM. Processing many blocks equals processing them one by one. A digest is produced only when no partial block remains pending.',
     ['inputs', 'configurations'], 'all 2^128 keys x 2^128 states, every block count, three implementations', 'A wrong table entry or reduction bit is visible only for some keys; tests use fixed keys.',
     ['src/ghash/ghash_common.cpp', 'src/ghash/ghash_lut256.cpp', 'src/ghash/ghash_pclmul.cpp'], [('multiplication and reduction', 'ghash_mul / ghash_update_blocks'), ('key table construction', 'ghash_init')])
prop('G02', 'Streaming GHASH does not depend on chunking or earlier use',
     'For every key and data, feeding the data in any pieces gives the same digest as feeding it at once, and no update reads or writes outside the object or the given input. After a reset or a new key the result depends only on what is fed afterwards.',
     ['inputs', 'histories'], 'all chunkings and reset/re-key histories', 'Tests feed whole inputs; partial-buffer continuations are not covered.',
     ['include/gmlib/hash_lib/hash.h', 'include/gmlib/ghash/ghash.h'], [('partial block buffer', 'Hash::update'), ('reset and key change', 'GHash::reset, GHash::set_key')])
prop('C01', 'SM4 equals the standard for all keys and blocks, and inverts',
     'For every key and block, every SM4 implementation computes exactly the GB/T 32907-2016 key schedule and block function, single-block and multi-block entry points agree for every block count, and decryption inverts encryption. In-place operation gives the same result.',
     ['inputs', 'configurations'], 'all 2^128 keys and blocks, every block count, portable and vector builds', 'A single wrong table entry or lane permutation shows up only for some inputs or counts; tests use fixed vectors.',
     ['src/sm4/sm4_common.cpp', 'src/sm4/sm4_lang18.cpp', 'include/gmlib/sm4/sm4.h'], [('T-table rounds', 'sm4_compute_block'), ('4/8/16-way kernels', 'sm4_compute_blocks_x4, avx2_sm4_compute_blocks_x8/x16')])
prop('C02', 'AES equals FIPS 197 for all keys and blocks, and inverts',
     'For each key size, every key and block, both AES implementations compute exactly the FIPS 197 cipher and inverse cipher, single- and multi-block entry points agree for every block count, and decryption inverts encryption. In-place operation gives the same result.',
     ['inputs', 'configurations'], 'all keys of 128/192/256 bits, all blocks, every block count, table and hardware-instruction builds', 'Table entries, key-schedule words and round counts are only sampled by known-answer tests.',
     ['src/aes/aes_lut.cpp', 'src/aes/aes_aesni.cpp', 'include/gmlib/aes/aes.h'], [('T-table rounds and key schedule', 'aes_lut.cpp'), ('hardware-instruction rounds and key schedule', 'aes_aesni.cpp')])
prop('B01', 'ECB and CBC streaming equals the one-shot mode definition',
     'For every block cipher, key, IV, data length and split into calls, the concatenated output of the ECB and CBC encryptors and decryptors equals the mode definition applied to the whole input, reported output lengths are exact, and decryption inverts encryption. Finishing on an incomplete block is rejected, in-place buffers are allowed for whole calls, and re-initialisation starts fresh.',
     ['inputs', 'histories'], 'all lengths, all chunkings, in-place or separate buffers, re-initialisation at any point', 'Chunkings and multi-message histories are exponential; tests use one or two call patterns.',
     ['include/gmlib/block_cipher_mode/block_cipher_mode.h', 'include/gmlib/block_cipher_mode/ecb_mode.h', 'include/gmlib/block_cipher_mode/cbc_mode.h'], [('partial block buffer', 'BlockCipherMode::update'), ('chaining', 'CbcEncryptor, CbcDecryptor')])
prop('B02', 'CFB and OFB streaming equals the one-shot mode definition',
     'For every block cipher, key, IV, data length and split into calls, the concatenated output of the CFB and OFB encryptors and decryptors equals the mode definition applied to the whole input, reported lengths are exact, and decryption inverts encryption. Any total length is accepted and re-initialisation starts fresh.',
     ['inputs', 'histories'], 'all lengths, all chunkings, in-place or separate buffers, re-initialisation', 'Chunkings are exponential; tests use one or two call patterns.',
     ['include/gmlib/block_cipher_mode/cfb_mode.h', 'include/gmlib/block_cipher_mode/ofb_mode.h'], [('feedback register', 'CfbEncryptor, CfbDecryptor, OfbEncryptor')])
prop('B03', 'CTR streaming uses each counter value once, in order',
     'For every key, initial counter (including values that wrap), data length and split into calls, the output is the input xored with the encryptions of consecutive 128-bit big-endian counters, one per block, and reported lengths are exact. Decryption inverts encryption and re-initialisation starts fresh.',
     ['inputs', 'histories'], 'all counters, all lengths, all chunkings', 'Counter wrap-around and batch boundaries are not enumerated by tests.',
     ['include/gmlib/block_cipher_mode/ctr_mode.h', 'include/gmlib/block_cipher_mode/internal/ctr_inc.h'], [('counter increment', 'ctr_inc'), ('batched keystream', 'CtrEncryptor::update_blocks')])
prop('B04', 'GCM computes the standard tag and accepts exactly authentic messages',
     'For every key, IV length, associated data, plaintext and chunking, encryption produces the ciphertext and tag of the GCM specification. Decryption recovers the plaintext and succeeds if and only if the supplied tag equals the specified tag, regardless of what messages the process handled before.',
     ['inputs', 'histories'], 'all IV/AAD/text lengths, all chunkings, any history of earlier operations', 'Partial-block and history-dependent paths are not covered by the tests.',
     ['include/gmlib/block_cipher_mode/gcm_mode.h'], [('counter mode and authentication', 'GcmEncryptor, GcmDecryptor'), ('final partial block', 'final_block')])
prop('P01', 'SM2 point decoding accepts exactly encodings of curve points, in bounds',
     'Decoding a point reads only the bytes supplied, succeeds exactly when they begin with a well-formed encoding of a point on the curve, and yields that point and the consumed length; every encoding the library emits (uncompressed, compressed, mixed) decodes to the same point.',
     ['inputs'], 'all byte strings of every length, all curve points', 'Malformed and truncated inputs are unbounded in number; tests only decode valid ones.',
     ['src/sm2/sm2p256v1.cpp'], [('point import/export', 'sm2_ec_a_from_bytes, sm2_ec_a_to_bytes*'), ('decompression', 'square root and parity selection')])
prop('P02', 'SM2 point arithmetic implements the group law for all points',
     'For all curve points in any projective representation, including the identity, equal points and opposite points, addition, mixed addition, doubling, negation, conversion and comparison agree with the elliptic-curve group law. Output may alias an input.',
     ['inputs'], 'all points and representations, aliasing', 'Exceptional cases have probability 2^-256 under random testing.',
     ['src/sm2/sm2p256v1.cpp'], [('Jacobian formulas', 'sm2_ec_j_add, sm2_ec_j_add_a, sm2_ec_j_dbl, ...')])
prop('P03', 'SM2 scalar multiplication is correct for every scalar',
     'For every 256-bit scalar k and every curve point P, the scalar multiplication routines return k times P (the identity exactly when k is a multiple of the group order), and the fixed-base routine agrees with the general one.',
     ['inputs'], 'all 2^256 scalars including 0, n-1, n, n+1 and 2^256-1, all points', 'Digit patterns and the reduction and carry cases are data dependent; tests use few scalars.',
     ['src/sm2/sm2p256v1.cpp'], [('signed-digit double-and-add', 'sm2_ec_j_mul_a, sm2_ec_j_mul_g')])
prop('P04', 'SM2 signatures: signing follows the standard and verification is exact',
     'For every key, identity, message and random stream, signing outputs the (r, s) prescribed by GB/T 32918.2 for the first acceptable nonce, retrying exactly when the standard requires. Verification accepts exactly the pairs the standard accepts, rejects out-of-range values, and accepts every signature produced by signing.',
     ['inputs', 'fault_sequences'], 'all keys, messages, nonce streams and candidate signatures', 'Retry conditions and range corner cases have negligible probability in tests.',
     ['include/gmlib/sm2/sm2.h', 'include/gmlib/sm2/internal/sm2_alg.h'], [('sign / verify equations', 'SM2PrivateKey::sign, SM2PublicKey::verify'), ('identity digest', 'sm2_compute_z')])
prop('P05', 'SM2 encryption round-trips and decryption rejects altered ciphertexts',
     'For every key, plaintext length and random stream, encryption produces the ciphertext prescribed by GB/T 32918.4 and decryption returns the plaintext. Decryption reads only the bytes supplied and fails whenever the point is invalid, the input is too short or the recomputed check value differs.',
     ['inputs', 'fault_sequences'], 'all plaintext lengths, all ciphertext byte strings', 'Lengths and malformed ciphertexts are unbounded; tests use a few.',
     ['include/gmlib/sm2/sm2.h', 'include/gmlib/sm2/internal/sm2_alg.h'], [('key derivation and masking', 'sm2_kdf'), ('check value', 'encrypt / decrypt')])
prop('P06', 'SM2 keys are always in range and public keys always match',
     'Every private key accepted or generated lies in [1, n-2] for any random stream, and the associated public key is exactly that multiple of the base point. Public keys that are not curve points, or private keys out of range, are rejected.',
     ['inputs', 'fault_sequences'], 'all byte strings offered as keys, all random streams', 'Boundary values have probability 2^-256.',
     ['include/gmlib/sm2/sm2.h', 'src/sm2/sm2p256v1.cpp'], [('key import and generation', 'set_priv, gen_priv, set_pub'), ('range reduction', 'sm2_bn_mod_n_sub*')])
prop('Q01', 'SM9 extension-field arithmetic satisfies the field definition',
     'For all elements, addition, subtraction, negation, multiplication, squaring, inversion, exponentiation (every 256-bit exponent), Frobenius maps and byte conversion in the degree 2, 4 and 12 extensions equal the operations defined by u^2=-2, v^2=u, w^3=v. Output may alias an input.',
     ['inputs'], 'all field elements, aliasing', 'Formula errors that vanish on special inputs and aliasing bugs are only sampled by tests.',
     ['src/sm9/sm9_field.cpp'], [('tower formulas', 'sm9_fp2_*, sm9_fp4_*, sm9_fp12_*')])
prop('Q02', 'SM9 group arithmetic implements the group law in both groups',
     'For all points of the curve and of its twist in any projective representation, including the identity, equal and opposite points, addition, doubling, negation and conversion agree with the group law, and scalar multiplication is correct for every 256-bit scalar.',
     ['inputs'], 'all points, all scalars, aliasing', 'Exceptional cases and special scalars such as n-2 have negligible probability in tests.',
     ['src/sm9/sm9_field.cpp'], [('Jacobian formulas over both fields', 'sm9_ec_j_*, sm9_ec2_j_*'), ('signed-digit double-and-add', 'sm9_ec_j_mul_a, sm9_ec2_j_mul_a')])
prop('Q03', 'The SM9 pairing follows the R-ate definition for all points',
     'For all points of the two groups, each Miller-loop step evaluates the correct tangent or chord up to a subfield factor, the loop follows the prescribed digit expansion with the two Frobenius correction steps, and the final exponentiation raises to exactly (p^12-1)/n up to the documented fixed factor. Fixed-argument variants agree with the general pairing.',
     ['inputs'], 'all point pairs', 'Tests check one or two pairing values.',
     ['src/sm9/sm9_field.cpp'], [('Miller loop', 'sm9_pairing'), ('final exponentiation', 'sm9_pairing_final_exp*')])
prop('Q04', 'SM9 signatures: signing follows the standard and verification is exact',
     'For every master key, identity, message and random stream, key derivation, signing and verification compute the values prescribed by GM/T 0044.2, every signature produced verifies, and verification reads only the bytes supplied, terminates on every input and rejects malformed or out-of-range signatures.',
     ['inputs', 'fault_sequences'], 'all keys, identities, messages, random streams and candidate signatures', 'Malformed signatures (short, zero hash value) and retry paths are not covered by tests.',
     ['include/gmlib/sm9/sm9.h', 'include/gmlib/sm9/internal/sm9_alg.h', 'src/sm9/sm9_field.cpp'], [('sign / verify equations', 'SM9SignPrivateKey::sign, SM9SignMasterPublicKey::verify'), ('hash to range', 'sm9_Hn')])
prop('X01', 'ASN.1 encoding and decoding are inverse and never read out of bounds',
     'For every value the encoders accept, the produced DER has exactly the announced length, is minimal, and decodes back to the same value. Decoding any byte string reads only the bytes supplied and either fails or returns a value contained in the input.',
     ['inputs'], 'all values and all byte strings of every length', 'Length-of-length forms, truncated inputs and sign-padding cases are unbounded; the tests only print a dump.',
     ['src/asn1/asn1.cpp', 'include/gmlib/asn1/asn1.h'], [('length encoding and decoding', 'asn1_encode_tlv*, asn1_decode_tlv'), ('typed wrappers', 'asn1_encode_*, asn1_decode_*')])
prop('X02', 'SM2 key, signature and ciphertext DER structures round-trip',
     'For every signature pair, ciphertext and key, DER encoding followed by decoding returns the original value, whatever its leading bytes are, and announced lengths equal written lengths. Decoding rejects inputs whose fields have the wrong size.',
     ['inputs'], 'all signatures, ciphertext lengths and keys, all byte strings', 'Values with leading zero or high bits are rare; no test covers this layer.',
     ['src/sm2/sm2p256v1_asn1.cpp', 'include/gmlib/sm2/internal/sm2_asn1.h'], [('structure codecs', 'sm2_signature_asn1_*, sm2_ciphertext_asn1_*, sm2_public_key_asn1_*')])
prop('R01', 'Random generators fill exactly the requested bytes or report failure',
     'For every requested length and every sequence of hardware source successes and failures, a generator either fills exactly that many bytes with fresh source output, each byte once, or throws; it never writes beyond the buffer.',
     ['inputs', 'fault_sequences'], 'all lengths, all success/failure sequences of the hardware source', 'Hardware failure cannot be provoked by tests and lengths are only sampled.',
     ['include/gmlib/rng/rng.h', 'include/gmlib/rng/hardware_rng/rdrand64_rng.h', 'include/gmlib/rng/hardware_rng/rdseed64_rng.h', 'include/gmlib/rng/hardware_rng/rdrand32_rng.h', 'include/gmlib/rng/hardware_rng/rdseed32_rng.h', 'include/gmlib/rng/cstd_rng.h', 'include/gmlib/rng/std_rng.h'],
     [('retry and tail handling', 'gen')])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
