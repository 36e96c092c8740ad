// entry points under contract for G01: hash key set-up, an arbitrary accumulated state, n blocks, digest
#include <cstring>
#include <gmlib/ghash/ghash.h>
#define RUN(NAME, NS)                                                                                                        \
    extern "C" void vc_ghash_##NAME##_run(const std::uint8_t* key, std::uint8_t* state, const std::uint8_t* in, std::size_t n) \
    { NS::GHashCTX c; NS::ghash_init(&c, key); std::memcpy(c.state, state, 16); NS::ghash_update_blocks(&c, in, n); std::memcpy(state, c.state, 16); } \
    extern "C" int vc_ghash_##NAME##_digest(const std::uint8_t* key, const std::uint8_t* state, std::uint8_t* out, const std::uint8_t* in, std::size_t inl) \
    { NS::GHashCTX c; NS::ghash_init(&c, key); std::memcpy(c.state, state, 16); return NS::ghash_final_block(&c, out, in, inl); } \
    extern "C" int vc_ghash_##NAME##_one(const std::uint8_t* key, std::uint8_t* out, const std::uint8_t* in)                  \
    { NS::GHashCTX c; NS::ghash_init(&c, key); NS::ghash_update_blocks(&c, in, 1); return NS::ghash_final_block(&c, out, in, 0); } \
    extern "C" int vc_ghash_##NAME##_reset(const std::uint8_t* key, const std::uint8_t* state, std::uint8_t* out, const std::uint8_t* in) \
    { NS::GHashCTX c; NS::ghash_init(&c, key); std::memcpy(c.state, state, 16); NS::ghash_reset(&c); NS::ghash_update_blocks(&c, in, 1); return NS::ghash_final_block(&c, out, in, 0); }
RUN(common, ghash::internal::common)
RUN(lut256, ghash::internal::lut256)
#if defined(CPU_FLAG_PCLMUL) && defined(CPU_FLAG_SSE2)
RUN(pclmul, ghash::internal::pclmul)
#endif
