// ASN.1 (X01, X02): results as plain integers; value pointers are reported as offsets into the input
#include "vc.h"
#include <gmlib/asn1/asn1.h>
#include <gmlib/sm2/internal/sm2_asn1.h>
using namespace asn1;
using namespace sm2::internal;
using u64 = std::uint64_t;
#define RC(E) do { VC_TRY(rc = (E)); o[0] = rc != 0; } while (0)
extern "C" {
void vc_tlv(u64* o, const u8* in, sz inl)
{
    Asn1TLV t;
    sz      rd = 0;
    int     rc = 0;
    RC(asn1_decode_tlv(&t, &rd, in, inl));
    if (rc == 0)
    {
        o[1] = (u64)t.tag_class;
        o[2] = (u64)t.tag_pc;
        o[3] = (u64)t.tag_number;
        o[4] = t.length;
        o[5] = (sz)t.value - (sz)in;
        o[6] = rd;
    }
}
void vc_dbool(u64* o, const u8* in, sz inl)
{
    bool b  = false;
    sz   rd = 0;
    int  rc = 0;
    RC(asn1_decode_boolean_value(&b, &rd, in, inl));
    if (rc == 0)
    {
        o[1] = b;
        o[2] = rd;
    }
}
#define DEC(NAME, FN)                                                  \
    void NAME(u64* o, const u8* in, sz inl)                            \
    {                                                                  \
        const u8* p = nullptr;                                         \
        sz        n = 0, rd = 0;                                       \
        int       rc = 0;                                              \
        RC(FN(&p, &n, &rd, in, inl));                                  \
        if (rc == 0)                                                   \
        {                                                              \
            o[1] = (sz)p - (sz)in;                                     \
            o[2] = n;                                                  \
            o[3] = rd;                                                 \
        }                                                              \
    }
DEC(vc_dint, asn1_decode_integer_value)
DEC(vc_doct, asn1_decode_octet_string_value)
DEC(vc_dseq, asn1_decode_sequence_value)
DEC(vc_dset, asn1_decode_set_value)
void vc_dbit(u64* o, const u8* in, sz inl)
{
    const u8* p = nullptr;
    sz        n = 0, rd = 0, bits = 0;
    int       rc = 0;
    RC(asn1_decode_bit_string_value(&p, &n, &bits, &rd, in, inl));
    if (rc == 0)
    {
        o[1] = (sz)p - (sz)in;
        o[2] = n;
        o[3] = rd;
        o[4] = bits;
    }
}
void vc_dnull(u64* o, const u8* in, sz inl)
{
    sz  rd = 0;
    int rc = 0;
    RC(asn1_decode_null_value(&rd, in, inl));
    if (rc == 0)
        o[1] = rd;
}
// encoders
u64  vc_tlv_outl(sz n) { u64 r = 0; VC_TRY(r = asn1_encode_tlv_outl(n)); return r; }
u64  vc_bool_outl() { u64 r = 0; VC_TRY(r = asn1_encode_boolean_outl()); return r; }
u64  vc_int_outl(const u8* d, sz n) { u64 r = 0; VC_TRY(r = asn1_encode_integer_outl(d, n)); return r; }
u64  vc_bit_outl(sz n) { u64 r = 0; VC_TRY(r = asn1_encode_bit_string_outl(n)); return r; }
u64  vc_oct_outl(sz n) { u64 r = 0; VC_TRY(r = asn1_encode_octet_string_outl(n)); return r; }
u64  vc_seq_outl(sz n) { u64 r = 0; VC_TRY(r = asn1_encode_sequence_outl(n)); return r; }
u64  vc_set_outl(sz n) { u64 r = 0; VC_TRY(r = asn1_encode_set_outl(n)); return r; }
void vc_bit_tl(u8* o, sz* l, sz n) { VC_TRY(asn1_encode_bit_string_tl(o, l, n)); }
void vc_oct_tl(u8* o, sz* l, sz n) { VC_TRY(asn1_encode_octet_string_tl(o, l, n)); }
void vc_seq_tl(u8* o, sz* l, sz n) { VC_TRY(asn1_encode_sequence_tl(o, l, n)); }
void vc_set_tl(u8* o, sz* l, sz n) { VC_TRY(asn1_encode_set_tl(o, l, n)); }
void vc_ebool(u8* o, sz* l, u64 b) { VC_TRY(asn1_encode_boolean_tlv(o, l, b != 0)); }
void vc_eint(u8* o, sz* l, const u8* d, sz n) { VC_TRY(asn1_encode_integer_tlv(o, l, d, n)); }
void vc_ebit(u8* o, sz* l, const u8* d, sz n, sz bits) { VC_TRY(asn1_encode_bit_string_tlv(o, l, d, n, bits)); }
void vc_eoct(u8* o, sz* l, const u8* d, sz n) { VC_TRY(asn1_encode_octet_string_tlv(o, l, d, n)); }
// SM2 structures (X02)
u64  vc_priv_outl(const u8* v) { ASN1_SM2PrivateKey k; k.value = v; u64 r = 0; VC_TRY(r = sm2_private_key_asn1_encode_outl(&k)); return r; }
void vc_epriv(u8* o, sz* l, const u8* v) { ASN1_SM2PrivateKey k; k.value = v; VC_TRY(sm2_private_key_asn1_encode_outl(o, l, &k)); }
u64  vc_pub_outl(const u8* v) { ASN1_SM2PublicKey k; k.value = v; u64 r = 0; VC_TRY(r = sm2_public_key_asn1_encode_outl(&k)); return r; }
void vc_epub(u8* o, sz* l, const u8* v) { ASN1_SM2PublicKey k; k.value = v; VC_TRY(sm2_public_key_asn1_encode(o, l, &k)); }
u64  vc_sig_outl(const u8* r, const u8* s) { ASN1_SM2Signature k; k.R = r; k.S = s; u64 x = 0; VC_TRY(x = sm2_signature_asn1_encode_outl(&k)); return x; }
void vc_esig(u8* o, sz* l, const u8* r, const u8* s) { ASN1_SM2Signature k; k.R = r; k.S = s; VC_TRY(sm2_signature_asn1_encode(o, l, &k)); }
static void mk(ASN1_SM2Cipher& k, const u8* x, const u8* y, const u8* h, sz hn, const u8* c, sz cn)
{
    k.XCoordinate = x; k.YCoordinate = y;
    k.HASH.value = h; k.HASH.length = hn;
    k.CipherText.value = c; k.CipherText.length = cn;
}
u64 vc_cip_outl(const u8* x, const u8* y, const u8* h, sz hn, const u8* c, sz cn)
{
    ASN1_SM2Cipher k; mk(k, x, y, h, hn, c, cn);
    u64 r = 0; VC_TRY(r = sm2_cipher_asn1_encode_outl(&k)); return r;
}
u64 vc_cip_max(sz hn, sz cn) { u64 r = 0; VC_TRY(r = sm2_cipher_asn1_encode_max_outl(hn, cn)); return r; }
void vc_ecip(u8* o, sz* l, const u8* x, const u8* y, const u8* h, sz hn, const u8* c, sz cn)
{
    ASN1_SM2Cipher k; mk(k, x, y, h, hn, c, cn);
    VC_TRY(sm2_cipher_asn1_encode(o, l, &k));
}
void vc_dpriv(u64* o, u8* v, const u8* in, sz inl)
{
    ASN1_SM2PrivateKey k; sz rd = 0; int rc = 0;
    RC(sm2_private_key_asn1_decode(&k, &rd, in, inl));
    if (rc == 0) { o[1] = rd; std::memcpy(v, k.value, 32); }
}
void vc_dpub(u64* o, u8* v, const u8* in, sz inl)
{
    ASN1_SM2PublicKey k; sz rd = 0; int rc = 0;
    RC(sm2_public_key_asn1_decode(&k, &rd, in, inl));
    if (rc == 0) { o[1] = rd; std::memcpy(v, k.value, 65); }
}
void vc_dsig(u64* o, u8* v, const u8* in, sz inl)
{
    ASN1_SM2Signature k; sz rd = 0; int rc = 0;
    RC(sm2_signature_asn1_decode(&k, &rd, in, inl));
    if (rc == 0) { o[1] = rd; std::memcpy(v, k.R, 32); std::memcpy(v + 32, k.S, 32); }
}
void vc_dcip(u64* o, u8* v, const u8* in, sz inl)
{
    ASN1_SM2Cipher k; sz rd = 0; int rc = 0;
    RC(sm2_cipher_asn1_decode(&k, &rd, in, inl));
    if (rc == 0)
    {
        o[1] = rd;
        std::memcpy(v, k.XCoordinate, 32);
        std::memcpy(v + 32, k.YCoordinate, 32);
        o[2] = k.HASH.length;
        o[3] = (sz)k.HASH.value - (sz)in;
        o[4] = k.CipherText.length;
        o[5] = (sz)k.CipherText.value - (sz)in;
    }
}
}
