// histories over the real hash classes (H02, H03, G02)
#include "vc.h"
#include <gmlib/sm3/sm3.h>
#include <gmlib/ghash/ghash.h>
#include <gmlib/hash_lib/hmac.h>
using sm3::SM3;
using ghash::GHash;
using HM = hash_lib::HMac<SM3>;
extern "C" {
sz vc_sm3_size() { return sizeof(SM3); }
void vc_sm3_new(void* o) { VC_TRY(new (o) SM3()); }
void vc_sm3_reset(SM3* o) { VC_TRY(o->reset()); }
void vc_sm3_update(SM3* o, const u8* in, sz n) { VC_TRY(o->update(in, n)); }
void vc_sm3_final(SM3* o, u8* out, const u8* in, sz n) { VC_TRY(o->do_final(out, in, n)); }
void vc_sm3_final0(SM3* o, u8* out) { VC_TRY(o->do_final(out)); }
sz vc_ghash_size() { return sizeof(GHash); }
void vc_ghash_new(void* o) { VC_TRY(new (o) GHash()); }
void vc_ghash_newk(void* o, const u8* k) { VC_TRY(new (o) GHash(k)); }
void vc_ghash_setkey(GHash* o, const u8* k) { VC_TRY(o->set_key(k)); }
void vc_ghash_reset(GHash* o) { VC_TRY(o->reset()); }
void vc_ghash_update(GHash* o, const u8* in, sz n) { VC_TRY(o->update(in, n)); }
void vc_ghash_final(GHash* o, u8* out, const u8* in, sz n) { VC_TRY(o->do_final(out, in, n)); }
sz vc_hmac_size() { return sizeof(HM); }
void vc_hmac_new(void* o) { VC_TRY(new (o) HM()); }
void vc_hmac_newk(void* o, const u8* k, sz n) { VC_TRY(new (o) HM(k, n)); }
void vc_hmac_setkey(HM* o, const u8* k, sz n) { VC_TRY(o->set_key(k, n)); }
void vc_hmac_update(HM* o, const u8* in, sz n) { VC_TRY(o->update(in, n)); }
void vc_hmac_final(HM* o, u8* out, const u8* in, sz n) { VC_TRY(o->do_final(out, in, n)); }
void vc_hmac_final0(HM* o, u8* out) { VC_TRY(o->do_final(out)); }
}
