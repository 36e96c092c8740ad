// random generators (R01).  The hardware step functions are replaced by a scripted source (declared in the namespace of
// the generators, so that the headers find it instead of the intrinsic); everything else is the library's code.
#include "vc.h"
#include <immintrin.h>
#include <ctime>
using u64 = std::uint64_t;
extern "C" int vc_src32(unsigned int* p);
extern "C" int vc_src64(unsigned long long* p);
namespace rng::hardware_rng {
static inline int _rdrand32_step(unsigned int* p) { return vc_src32(p); }
static inline int _rdrand64_step(unsigned long long* p) { return vc_src64(p); }
static inline int _rdseed32_step(unsigned int* p) { return vc_src32(p); }
static inline int _rdseed64_step(unsigned long long* p) { return vc_src64(p); }
} // namespace rng::hardware_rng
#define CPU_FLAG_RDRAND
#define CPU_FLAG_RDSEED
#include <gmlib/rng/cstd_rng.h>
#include <gmlib/rng/hardware_rng/rdrand32_rng.h>
#include <gmlib/rng/hardware_rng/rdrand64_rng.h>
#include <gmlib/rng/hardware_rng/rdseed32_rng.h>
#include <gmlib/rng/hardware_rng/rdseed64_rng.h>
#include <gmlib/rng/std_rng.h>
using namespace rng;
using namespace rng::hardware_rng;
#ifndef VC_VERIFY
static u64 vc_n, vc_seed;
static u64 mix(u64 n, u64 s)
{
    u64 x = (n + 1) * 0x9E3779B97F4A7C15ull ^ s * 0xBF58476D1CE4E5B9ull;
    x ^= x >> 29;
    x *= 0x94D049BB133111EBull;
    return x ^ x >> 32;
}
static bool ok(u64 n) { return (mix(n, vc_seed) & 15) >= (vc_seed & 15); }
extern "C" int vc_src32(unsigned int* p) { u64 n = vc_n++; bool k = ok(n); *p = k ? (unsigned)mix(n, vc_seed + 99) : 0; return k; }
extern "C" int vc_src64(unsigned long long* p) { u64 n = vc_n++; bool k = ok(n); *p = k ? mix(n, vc_seed + 99) : 0; return k; }
#endif
template <class R>
static void run(void* o, sz n)
{
    alignas(16) unsigned char mem[sizeof(R)];
    R* r = (R*)(void*)mem;
    VC_TRY(r->R::gen(o, n));
}
template <class R, class T>
static void runT(void* o)
{
#ifdef VC_VERIFY
    R r;
#else
    R r;
#endif
    T v{};
    VC_TRY(v = r.template rand<T>());
    std::memcpy(o, &v, sizeof(T));
}
extern "C" {
void vc_script(u64 s)
{
#ifndef VC_VERIFY
    vc_flag = 0;
    vc_seed = s;
    vc_n    = 0;
#endif
}
#define G(NAME, W)                                                                   \
    void vc_##NAME##W##_10(void* o, sz n) { run<NAME##W##R<10>>(o, n); }              \
    void vc_##NAME##W##_0(void* o, sz n) { run<NAME##W##R<0>>(o, n); }                \
    void vc_##NAME##W##_3(void* o, sz n) { run<NAME##W##R<3>>(o, n); }
}
template <unsigned N> using rdrand32R = RdrandRng_32<N>;
template <unsigned N> using rdrand64R = RdrandRng_64<N>;
template <unsigned N> using rdseed32R = RdseedRng_32<N>;
template <unsigned N> using rdseed64R = RdseedRng_64<N>;
struct P5 { unsigned char b[5]; };
extern "C" {
G(rdrand, 32) G(rdrand, 64) G(rdseed, 32) G(rdseed, 64)
void vc_cstd(void* o, sz n) { run<CstdRng>(o, n); }
void vc_std(void* o, sz n) { run<StdRng>(o, n); }
void vc_rand8(void* o) { runT<RdrandRng_64<3>, u64>(o); }
void vc_rand5(void* o) { runT<RdrandRng_64<3>, P5>(o); }
}
