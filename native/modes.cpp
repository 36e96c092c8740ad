// histories over the real mode templates, instantiated with an abstract block cipher (B01-B04)
#include "vc.h"
#include <gmlib/block_cipher_mode/ecb_mode.h>
#include <gmlib/block_cipher_mode/cbc_mode.h>
#include <gmlib/block_cipher_mode/cfb_mode.h>
#include <gmlib/block_cipher_mode/ofb_mode.h>
#include <gmlib/block_cipher_mode/ctr_mode.h>
#include <gmlib/block_cipher_mode/gcm_mode.h>
using namespace block_cipher_mode;
// the abstract cipher: any keyed permutation of blocks; natively one concrete invertible choice
extern "C" {
#ifdef VC_VERIFY
void vc_E(const u8* key, u8* out, const u8* in);
void vc_D(const u8* key, u8* out, const u8* in);
#else
void vc_E(const u8* k, u8* out, const u8* in)
{
    u8 s[16];
    std::memcpy(s, in, 16);
    for (int r = 0; r < 3; r++)
        for (int i = 0; i < 16; i++)
        {
            u8 x = s[(i + 1) & 15] ^ k[(i + 5 * r) & 15];
            s[i] ^= (u8)(x * x + 7 * x + (x >> 3) + s[(i + 7) & 15] + r + 29 * i);
        }
    std::memcpy(out, s, 16);
}
void vc_D(const u8* k, u8* out, const u8* in)
{
    u8 s[16];
    std::memcpy(s, in, 16);
    for (int r = 2; r >= 0; r--)
        for (int i = 15; i >= 0; i--)
        {
            u8 x = s[(i + 1) & 15] ^ k[(i + 5 * r) & 15];
            s[i] ^= (u8)(x * x + 7 * x + (x >> 3) + s[(i + 7) & 15] + r + 29 * i);
        }
    std::memcpy(out, s, 16);
}
#endif
}
template <sz P>
struct AC
{
    static constexpr sz  BLOCK_SIZE = 16, USER_KEY_LEN = 16, PARALLEL_NUM = P;
    static constexpr int ENCRYPTION = 1, DECRYPTION = 2;
    u8                   key[16];
    int                  dir;
    void set_key(const u8* k, int e) noexcept
    {
        std::memcpy(key, k, 16);
        dir = e;
    }
    // the schedule for one direction is useless for the other, as in the real ciphers
    void encrypt_block(u8* out, const u8* in) const noexcept
    {
        if (dir == 1) vc_E(key, out, in);
    }
    void decrypt_block(u8* out, const u8* in) const noexcept
    {
        if (dir == 2) vc_D(key, out, in);
    }
    void encrypt_blocks(u8* out, const u8* in, sz n) const noexcept
    {
        for (sz i = 0; i < n; i++) encrypt_block(out + 16 * i, in + 16 * i);
    }
    void decrypt_blocks(u8* out, const u8* in, sz n) const noexcept
    {
        for (sz i = 0; i < n; i++) decrypt_block(out + 16 * i, in + 16 * i);
    }
};
#define COMMON(N, T)                                                                                                 \
    sz   vc_##N##_size() { return sizeof(T); }                                                                       \
    void vc_##N##_new(void* o) { VC_TRY(new (o) T()); }                                                              \
    void vc_##N##_update(T* o, u8* out, sz* outl, const u8* in, sz n) { VC_TRY(o->update(out, outl, in, n)); }       \
    void vc_##N##_final(T* o, u8* out, sz* outl, const u8* in, sz n) { VC_TRY(o->do_final(out, outl, in, n)); }      \
    void vc_##N##_final0(T* o, u8* out, sz* outl) { VC_TRY(o->do_final(out, outl)); }
#define NOIV(N, T)                                                                                                   \
    COMMON(N, T)                                                                                                     \
    void vc_##N##_newk(void* o, const u8* k) { VC_TRY(new (o) T(k)); }                                               \
    void vc_##N##_init(T* o, const u8* k) { VC_TRY(o->init(k)); }                                                    \
    void vc_##N##_reset(T* o) { VC_TRY(o->reset()); }
#define IV(N, T)                                                                                                     \
    COMMON(N, T)                                                                                                     \
    void vc_##N##_newk(void* o, const u8* k, const u8* iv) { VC_TRY(new (o) T(k, iv)); }                             \
    void vc_##N##_init(T* o, const u8* k, const u8* iv) { VC_TRY(o->init(k, iv)); }                                  \
    void vc_##N##_reset(T* o, const u8* iv) { VC_TRY(o->reset(iv)); }
#define GCM(N, T)                                                                                                    \
    COMMON(N, T)                                                                                                     \
    void vc_##N##_newk(void* o, const u8* k, const u8* iv, sz il, const u8* a, sz al)                                \
    {                                                                                                                \
        VC_TRY(new (o) T(k, iv, il, a, al));                                                                         \
    }                                                                                                                \
    void vc_##N##_init(T* o, const u8* k, const u8* iv, sz il, const u8* a, sz al) { VC_TRY(o->init(k, iv, il, a, al)); }
#define ALL(P)                                                                                                       \
    NOIV(ecbe##P, EcbEncryptor<AC<P>>)                                                                               \
    NOIV(ecbd##P, EcbDecryptor<AC<P>>)                                                                               \
    IV(cbce##P, CbcEncryptor<AC<P>>)                                                                                 \
    IV(cbcd##P, CbcDecryptor<AC<P>>)                                                                                 \
    IV(cfbe##P, CfbEncryptor<AC<P>>)                                                                                 \
    IV(cfbd##P, CfbDecryptor<AC<P>>)                                                                                 \
    IV(ofbe##P, OfbEncryptor<AC<P>>)                                                                                 \
    IV(ofbd##P, OfbDecryptor<AC<P>>)                                                                                 \
    IV(ctre##P, CtrEncryptor<AC<P>>)                                                                                 \
    IV(ctrd##P, CtrDecryptor<AC<P>>)                                                                                 \
    GCM(gcme##P, GcmEncryptor<AC<P>>)                                                                                \
    GCM(gcmd##P, GcmDecryptor<AC<P>>)                                                                                \
    void vc_gcme##P##_tag(GcmEncryptor<AC<P>>* o, u8* t) { VC_TRY(o->get_tag(t)); }                                  \
    void vc_gcmd##P##_settag(GcmDecryptor<AC<P>>* o, const u8* t) { VC_TRY(o->set_tag(t)); }
extern "C" {
ALL(1)
ALL(4)
ALL(16)
}
