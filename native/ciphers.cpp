// entry points under contract for C01/C02: key schedule followed by the block functions, as the real code does it
#include <gmlib/sm4/sm4.h>
#include <gmlib/aes/aes.h>
#define RUN(NAME, NS, CTX, PRE)                                                                                             \
    extern "C" void vc_##NAME##_enc(const std::uint8_t* key, std::uint8_t* out, const std::uint8_t* in, std::size_t n)      \
    { NS::CTX c; NS::PRE##_enc_key_init(&c, key); NS::PRE##_enc_blocks(&c, out, in, n); }                                   \
    extern "C" void vc_##NAME##_dec(const std::uint8_t* key, std::uint8_t* out, const std::uint8_t* in, std::size_t n)      \
    { NS::CTX c; NS::PRE##_dec_key_init(&c, key); NS::PRE##_dec_blocks(&c, out, in, n); }                                   \
    extern "C" void vc_##NAME##_enc1(const std::uint8_t* key, std::uint8_t* out, const std::uint8_t* in)                    \
    { NS::CTX c; NS::PRE##_enc_key_init(&c, key); NS::PRE##_enc_block(&c, out, in); }                                       \
    extern "C" void vc_##NAME##_dec1(const std::uint8_t* key, std::uint8_t* out, const std::uint8_t* in)                    \
    { NS::CTX c; NS::PRE##_dec_key_init(&c, key); NS::PRE##_dec_block(&c, out, in); }
#define CLS(NAME, TYPE)                                                                                                     \
    extern "C" void vc_##NAME##_enc(const std::uint8_t* key, std::uint8_t* out, const std::uint8_t* in, std::size_t n)      \
    { TYPE c; c.set_key(key, TYPE::ENCRYPTION); c.encrypt_blocks(out, in, n); }                                             \
    extern "C" void vc_##NAME##_dec(const std::uint8_t* key, std::uint8_t* out, const std::uint8_t* in, std::size_t n)      \
    { TYPE c(key, TYPE::DECRYPTION); c.decrypt_blocks(out, in, n); }                                                        \
    extern "C" void vc_##NAME##_enc1(const std::uint8_t* key, std::uint8_t* out, const std::uint8_t* in)                    \
    { TYPE c(key, TYPE::ENCRYPTION); c.encrypt_block(out, in); }                                                            \
    extern "C" void vc_##NAME##_dec1(const std::uint8_t* key, std::uint8_t* out, const std::uint8_t* in)                    \
    { TYPE c; c.set_key(key, TYPE::DECRYPTION); c.decrypt_block(out, in); }
RUN(sm4_common, sm4::internal::common, Sm4CTX, sm4)
RUN(sm4_lang18, sm4::internal::lang18, Sm4CTX, sm4)
CLS(SM4, sm4::SM4)
RUN(aes128_lut, aes::internal::lut, Aes128CTX, aes128)
RUN(aes192_lut, aes::internal::lut, Aes192CTX, aes192)
RUN(aes256_lut, aes::internal::lut, Aes256CTX, aes256)
#if defined(CPU_FLAG_AES) && defined(CPU_FLAG_SSE2)
RUN(aes128_aesni, aes::internal::aesni, Aes128CTX, aes128)
RUN(aes192_aesni, aes::internal::aesni, Aes192CTX, aes192)
RUN(aes256_aesni, aes::internal::aesni, Aes256CTX, aes256)
#endif
CLS(AES128, aes::AES128)
CLS(AES192, aes::AES192)
CLS(AES256, aes::AES256)
