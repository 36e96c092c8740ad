// SM9 signature keys, signing and verification over an abstract hash function and a scripted random source (Q04)
#include "vc.h"
#include <gmlib/rng/rng.h>
#include <gmlib/sm9/sm9.h>
using u64 = std::uint64_t;
extern "C" {
// the hash object's only state; the bytes absorbed so far are a function of it
void vc_h_init(u64* h);
void vc_h_update(u64* h, const u8* p, sz n);
void vc_h_final(u64* h, u8* d);
void vc_rng_gen(u8* p, sz n);
}
#ifndef VC_VERIFY
#include "sm2_native.h"
#endif
template <sz N>
struct AH
{
    static constexpr sz DIGEST_SIZE = N;
    static constexpr sz BLOCK_SIZE  = 64;
    u64                 h;
    AH() noexcept { vc_h_init(&h); }
    void reset() noexcept { vc_h_init(&h); }
    void update(const u8* p, sz n) { vc_h_update(&h, p, n); }
    void do_final(u8* d) { vc_h_final(&h, d); }
    void do_final(u8* d, const u8* p, sz n)
    {
        vc_h_update(&h, p, n);
        vc_h_final(&h, d);
    }
};
struct VRng : rng::Rng
{
    const char* name() const override { return "scripted"; }
    void        gen(void* p, sz n) override { vc_rng_gen((u8*)p, n); }
};
using H  = AH<32>;
using MK = sm9::SM9SignMasterPrivateKey<H>;
using MP = sm9::SM9SignMasterPublicKey<H>;
using SP = sm9::SM9SignPrivateKey<H>;
static sm9::SM9EcPC pcof(int k)
{
    return k == 0 ? sm9::SM9EcPC::UNCOMPRESSED : k == 1 ? sm9::SM9EcPC::COMPRESSED : sm9::SM9EcPC::MIX;
}
extern "C" {
sz   vc_mk_size() { return sizeof(MK); }
sz   vc_mp_size() { return sizeof(MP); }
sz   vc_sp_size() { return sizeof(SP); }
void vc_mk_set(MK* k, const u8* d) { VC_TRY(k->set_priv(d)); }
void vc_mk_ctor(void* k, const u8* d) { VC_TRY(new (k) MK(d)); }
void vc_mk_gen(MK* k) { VRng g; VC_TRY(k->gen_priv(g)); }
void vc_mk_ctorg(void* k) { VRng g; VC_TRY(new (k) MK(g)); }
void vc_mk_get(const MK* k, u8* d) { VC_TRY(k->get_priv(d)); }
void vc_mk_pub(const MK* k, u8* x, u8* y) { VC_TRY(k->fetch_SignPublicKey().get_pub(x, y)); }
void vc_mk_copy(const MK* k, MP* p) { VC_TRY(new (p) MP(k->fetch_SignPublicKey())); }
void vc_mk_key(const MK* k, void* s, const u8* id, sz l, u8 hid) { VRng g; VC_TRY(new (s) SP(k->gen_SignPrivateKey(id, l, g, hid))); }
void vc_mk_key0(const MK* k, void* s, const u8* id, sz l) { VRng g; VC_TRY(new (s) SP(k->gen_SignPrivateKey(id, l, g))); }
void vc_mp_set(MP* k, const u8* x, const u8* y) { VC_TRY(k->set_pub(x, y)); }
void vc_mp_get(const MP* k, u8* x, u8* y) { VC_TRY(k->get_pub(x, y)); }
int  vc_mp_verify(const MP* k, const u8* s, sz sl, const u8* m, sz n, const u8* id, sz l, u8 hid) { int r = 0; VC_TRY(r = k->verify(s, sl, m, n, id, l, hid)); return r; }
int  vc_mp_verify0(const MP* k, const u8* s, sz sl, const u8* m, sz n, const u8* id, sz l) { int r = 0; VC_TRY(r = k->verify(s, sl, m, n, id, l)); return r; }
void vc_sp_set(SP* k, const u8* x, const u8* y, const u8* px, const u8* py) { VC_TRY(k->set_priv(x, y, px, py)); }
void vc_sp_get(const SP* k, u8* x, u8* y, u8* px, u8* py) { VC_TRY(k->get_priv(x, y, px, py)); }
void vc_sp_sign(const SP* k, u8* s, sz* sl, const u8* m, sz n, int pc) { VRng g; VC_TRY(k->sign(s, sl, m, n, g, pcof(pc))); }
void vc_sp_sign0(const SP* k, u8* s, sz* sl, const u8* m, sz n) { VRng g; VC_TRY(k->sign(s, sl, m, n, g)); }
int  vc_sp_verify(const SP* k, const u8* s, sz sl, const u8* m, sz n, const u8* id, sz l, u8 hid) { int r = 0; VC_TRY(r = k->verify(s, sl, m, n, id, l, hid)); return r; }
void vc_script(const u8* k, sz n)
{
#ifndef VC_VERIFY
    vc_flag = 0;
    vc_stream.assign(k, k + n);
    vc_pos = 0;
#endif
}
}
