// memory helpers (U01)
#include "vc.h"
#include <gmlib/memory_utils/endian.h>
#include <gmlib/memory_utils/memxor.h>
#include <utility>
using namespace memory_utils;
#define LS(W, O, T)                                                                     \
    std::uint64_t vc_load##W##_##O(const void* p) { std::uint64_t r = 0; VC_TRY(r = load##W##_##O(p)); return r; } \
    void          vc_store##W##_##O(void* p, std::uint64_t v) { VC_TRY(store##W##_##O(p, (T)v)); }
template <sz N>
static void fixed(void* o, const void* a, const void* b)
{
    memxor<N>(o, a, b);
}
using F = void (*)(void*, const void*, const void*);
#define A1(N) template void fixed<N>(void*, const void*, const void*);
extern "C" {
LS(8, le, u8) LS(16, le, std::uint16_t) LS(32, le, std::uint32_t) LS(64, le, std::uint64_t)
LS(8, be, u8) LS(16, be, std::uint16_t) LS(32, be, std::uint32_t) LS(64, be, std::uint64_t)
void vc_memxor_n(void* o, const void* a, const void* b, sz n) { VC_TRY(memxor_n(o, a, b, n)); }
#define X(N) void vc_memxor_##N(void* o, const void* a, const void* b) { VC_TRY(memxor<N>(o, a, b)); }
#define X8(H) X(H##0) X(H##1) X(H##2) X(H##3) X(H##4) X(H##5) X(H##6) X(H##7) X(H##8) X(H##9)
X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9)
X8(1) X8(2) X8(3) X8(4) X8(5) X8(6) X8(7) X8(8) X8(9) X8(10) X8(11) X8(12) X8(13)
X(191) X(192) X(240) X(255) X(256) X(257) X(383) X(384) X(448) X(496) X(511) X(512) X(513) X(560) X(767) X(768) X(1008) X(1023) X(1024) X(1025) X(1279)
}
