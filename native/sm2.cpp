// SM2 keys, signatures and encryption over an abstract hash function and a scripted random source (P04, P05, P06)
#include "vc.h"
#include <gmlib/rng/rng.h>
#include <gmlib/sm2/sm2.h>
using u64 = std::uint64_t;
extern "C" {
// the hash object's only state; the bytes absorbed so far are a function of it
void vc_h_init(u64* h);
void vc_h_update(u64* h, const u8* p, sz n);
void vc_h_final(u64* h, u8* d);
void vc_rng_gen(u8* p, sz n);
}
#ifndef VC_VERIFY
#include "sm2_native.h"
#endif
template <sz N>
struct AH
{
    static constexpr sz DIGEST_SIZE = N;
    static constexpr sz BLOCK_SIZE  = 64;
    u64                 h;
    AH() noexcept { vc_h_init(&h); }
    void reset() noexcept { vc_h_init(&h); }
    void update(const u8* p, sz n) { vc_h_update(&h, p, n); }
    void do_final(u8* d) { vc_h_final(&h, d); }
    void do_final(u8* d, const u8* p, sz n)
    {
        vc_h_update(&h, p, n);
        vc_h_final(&h, d);
    }
};
struct VRng : rng::Rng
{
    const char* name() const override { return "scripted"; }
    void        gen(void* p, sz n) override { vc_rng_gen((u8*)p, n); }
};
using H  = AH<32>;
using PK = sm2::SM2PublicKey<H>;
using SK = sm2::SM2PrivateKey<H>;
static sm2::SM2EcPC pcof(int k)
{
    return k == 0 ? sm2::SM2EcPC::UNCOMPRESSED : k == 1 ? sm2::SM2EcPC::COMPRESSED : sm2::SM2EcPC::MIX;
}
extern "C" {
sz   vc_pk_size() { return sizeof(PK); }
sz   vc_sk_size() { return sizeof(SK); }
void vc_pk_set(PK* k, const u8* x, const u8* y) { VC_TRY(k->set_pub(x, y)); }
void vc_pk_ctor(void* k, const u8* x, const u8* y) { VC_TRY(new (k) PK(x, y)); }
void vc_pk_get(const PK* k, u8* x, u8* y) { VC_TRY(k->get_pub(x, y)); }
void vc_sk_set(SK* k, const u8* d) { VC_TRY(k->set_priv(d)); }
void vc_sk_ctor(void* k, const u8* d) { VC_TRY(new (k) SK(d)); }
void vc_sk_gen(SK* k) { VRng g; VC_TRY(k->gen_priv(g)); }
void vc_sk_ctorg(void* k) { VRng g; VC_TRY(new (k) SK(g)); }
void vc_sk_get(const SK* k, u8* d) { VC_TRY(k->get_priv(d)); }
void vc_sk_pub(const SK* k, u8* x, u8* y) { VC_TRY(k->fetch_pub().get_pub(x, y)); }
int  vc_pk_verify(const PK* k, const u8* s, const u8* m, sz n, const u8* id, sz l) { int r = 0; VC_TRY(r = k->verify(s, m, n, id, l)); return r; }
int  vc_pk_verify0(const PK* k, const u8* s, const u8* m, sz n) { int r = 0; VC_TRY(r = k->verify(s, m, n)); return r; }
int  vc_sk_verify(const SK* k, const u8* s, const u8* m, sz n, const u8* id, sz l) { int r = 0; VC_TRY(r = k->verify(s, m, n, id, l)); return r; }
void vc_sk_sign(const SK* k, u8* s, const u8* m, sz n, const u8* id, sz l) { VRng g; VC_TRY(k->sign(s, m, n, g, id, l)); }
void vc_sk_sign0(const SK* k, u8* s, const u8* m, sz n) { VRng g; VC_TRY(k->sign(s, m, n, g)); }
void vc_pk_enc(const PK* k, u8* c, sz* cl, const u8* m, sz n, int pc) { VRng g; VC_TRY(k->encrypt(c, cl, m, n, g, pcof(pc))); }
void vc_sk_enc(const SK* k, u8* c, sz* cl, const u8* m, sz n, int pc) { VRng g; VC_TRY(k->encrypt(c, cl, m, n, g, pcof(pc))); }
void vc_pk_enc0(const PK* k, u8* c, sz* cl, const u8* m, sz n) { VRng g; VC_TRY(k->encrypt(c, cl, m, n, g)); }
void vc_sk_dec(const SK* k, u8* m, sz* ml, const u8* c, sz n) { VC_TRY(k->decrypt(m, ml, c, n)); }
sz   vc_ptlen(const u8* c, sz n) { sz r = 0; VC_TRY(r = SK::plaintext_len(c, n)); return r; }
sz   vc_ctlen(const u8* m, sz n, int pc) { sz r = 0; VC_TRY(r = PK::ciphertext_len(m, n, pcof(pc))); return r; }
sz   vc_sk_ctlen(const u8* m, sz n, int pc) { sz r = 0; VC_TRY(r = SK::ciphertext_len(m, n, pcof(pc))); return r; }
void vc_script(const u8* k, sz n)
{
#ifndef VC_VERIFY
    vc_flag = 0;
    vc_stream.assign(k, k + n);
    vc_pos = 0;
#endif
}
}
