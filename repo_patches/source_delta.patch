From b68ff8d7698179468d489a7f1d9032bef638cad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 01/30] fix: mont256_neg of zero must be zero in the portable
 implementation

---
 src/number/mont256_common.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/number/mont256_common.cpp b/src/number/mont256_common.cpp
index a9ff88d..58a8e39 100644
--- a/src/number/mont256_common.cpp
+++ b/src/number/mont256_common.cpp
@@ -143,6 +143,7 @@ void mont256_neg(const Mont256CTX*   ctx,
     if (uint256_equal_zero(num))
     {
         uint256_set_zero(ret);
+        return;
     }
     uint256_sub_borrow(ret, ctx->P, num);
 }
-- 
2.43.0


From e8a5f019f7c75db7115c5a8e7bb0ef6244c4818b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:59 +0000
Subject: [PATCH 02/30] fix: mont256_pow with exponent zero must give one in
 Montgomery form

---
 src/number/mont256_common.cpp | 8 ++++----
 src/number/mont256_x64.cpp    | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/number/mont256_common.cpp b/src/number/mont256_common.cpp
index 58a8e39..a4d2d6a 100644
--- a/src/number/mont256_common.cpp
+++ b/src/number/mont256_common.cpp
@@ -190,14 +190,14 @@ void mont256_pow(const Mont256CTX*   ctx,
                  const std::uint32_t base[8],
                  const std::uint32_t exponent[8]) noexcept
 {
-    if (uint256_equal_zero(base))
+    if (uint256_equal_zero(exponent))
     {
-        uint256_set_zero(power);
+        mont256_set_one(ctx, power);
         return;
     }
-    if (uint256_equal_zero(exponent))
+    if (uint256_equal_zero(base))
     {
-        uint256_set_one(power);
+        uint256_set_zero(power);
         return;
     }
 
diff --git a/src/number/mont256_x64.cpp b/src/number/mont256_x64.cpp
index d7a9caa..9c8c935 100644
--- a/src/number/mont256_x64.cpp
+++ b/src/number/mont256_x64.cpp
@@ -245,14 +245,14 @@ void mont256_pow(const Mont256CTX*   ctx,
                  const std::uint64_t base[4],
                  const std::uint64_t exponent[4]) noexcept
 {
-    if (uint256_equal_zero(base))
+    if (uint256_equal_zero(exponent))
     {
-        uint256_set_zero(power);
+        mont256_set_one(ctx, power);
         return;
     }
-    if (uint256_equal_zero(exponent))
+    if (uint256_equal_zero(base))
     {
-        uint256_set_one(power);
+        uint256_set_zero(power);
         return;
     }
 
-- 
2.43.0


From 35c9cefcfad5663b6548442e520b1218705d5a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:16 +0000
Subject: [PATCH 03/30] fix: sm9_fp_sqrt must return the root zero of zero

---
 src/sm9/sm9_field.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 9be388b..6614218 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -338,6 +338,12 @@ int sm9_fp_sqrt(sm9_fp_t r, const sm9_fp_t a) noexcept
     };
     number::mont256_t z;
     number::mont256_t neg1;
+    // the root of zero is zero
+    if (number::mont256_equal_zero(&FP_MONT_CTX, a))
+    {
+        number::mont256_set_zero(&FP_MONT_CTX, r);
+        return 0;
+    }
     number::mont256_set_one(&FP_MONT_CTX, neg1);
     number::mont256_neg(&FP_MONT_CTX, neg1, neg1);
     // z = a^(2u+1)
-- 
2.43.0


From c6577c174a1a05d932d0baf528811cb24c1c1a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:30 +0000
Subject: [PATCH 04/30] fix: SM3 rotation by zero must not shift by the word
 size

---
 src/sm3/sm3_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sm3/sm3_common.cpp b/src/sm3/sm3_common.cpp
index 5e2dff2..1dcee2b 100644
--- a/src/sm3/sm3_common.cpp
+++ b/src/sm3/sm3_common.cpp
@@ -28,7 +28,7 @@ namespace sm3::internal::common {
 
 static inline std::uint32_t rotl(std::uint32_t x, int n) noexcept
 {
-    return (x << n) | (x >> (32 - n));
+    return (x << n) | (x >> ((32 - n) & 31)); // n may be 0
 }
 
 static inline std::uint32_t P0(std::uint32_t x) noexcept
-- 
2.43.0


From 028f785a8c86bd39100d84b7a146bc029ebc8c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 05/30] fix: AES-192 key expansion must not read past the
 24-byte key

---
 src/aes/aes_aesni.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aes/aes_aesni.cpp b/src/aes/aes_aesni.cpp
index cc2cda0..764e276 100644
--- a/src/aes/aes_aesni.cpp
+++ b/src/aes/aes_aesni.cpp
@@ -110,7 +110,7 @@ static void AES_192_Key_Expansion(const unsigned char* userkey,
     __m128i  temp1, temp2, temp3;
     __m128i* Key_Schedule = (__m128i*)key;
     temp1                 = _mm_loadu_si128((__m128i*)userkey);
-    temp3                 = _mm_loadu_si128((__m128i*)(userkey + 16));
+    temp3                 = _mm_loadl_epi64((__m128i*)(userkey + 16));
     Key_Schedule[0]       = temp1;
     Key_Schedule[1]       = temp3;
     temp2                 = _mm_aeskeygenassist_si128(temp3, 0x1);
-- 
2.43.0


From ab495eb64099a5379c74b834e2695f6c2dfbe8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:54 +0000
Subject: [PATCH 06/30] fix: Hash::update must count blocks of BLOCK_SIZE bytes
 after completing a pending block

---
 include/gmlib/hash_lib/hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gmlib/hash_lib/hash.h b/include/gmlib/hash_lib/hash.h
index 67daf11..307ec77 100644
--- a/include/gmlib/hash_lib/hash.h
+++ b/include/gmlib/hash_lib/hash.h
@@ -64,7 +64,7 @@ public:
         }
         if (inl && buf_size_ == 0)
         {
-            std::size_t block_num = inl / 64;
+            std::size_t block_num = inl / BLOCK_SIZE;
             this->update_blocks(in, block_num);
             in += block_num * BLOCK_SIZE, inl -= block_num * BLOCK_SIZE;
             if (inl)
-- 
2.43.0


From c8c92ff7c27fa8b5d61ba375b115b99a32643046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 07/30] fix: GHash reset and set_key must discard buffered
 input

---
 include/gmlib/ghash/ghash.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gmlib/ghash/ghash.h b/include/gmlib/ghash/ghash.h
index f759cc8..8f45394 100644
--- a/include/gmlib/ghash/ghash.h
+++ b/include/gmlib/ghash/ghash.h
@@ -37,11 +37,13 @@ public:
 
     void reset() noexcept
     {
+        this->Hash<alg::GHASH_BLOCK_SIZE>::reset();
         alg::ghash_reset(&ctx_);
     }
 
     void set_key(const std::uint8_t H[16]) noexcept
     {
+        this->Hash<alg::GHASH_BLOCK_SIZE>::reset();
         alg::ghash_init(&ctx_, H);
     }
 
-- 
2.43.0


From b2a71b119daee91963e91c8620d2cbf6c54c3747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 08/30] fix: BlockCipherMode::update left *outl unset when a
 short piece only extends the buffered block

---
 include/gmlib/block_cipher_mode/block_cipher_mode.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/gmlib/block_cipher_mode/block_cipher_mode.h b/include/gmlib/block_cipher_mode/block_cipher_mode.h
index 92208c0..9a13913 100644
--- a/include/gmlib/block_cipher_mode/block_cipher_mode.h
+++ b/include/gmlib/block_cipher_mode/block_cipher_mode.h
@@ -59,6 +59,7 @@ public:
             }
             std::memcpy(buf_ + buf_size_, in, size);
             buf_size_ += size, in += size, inl -= size;
+            *outl = 0;
 
             if (buf_size_ == BLOCK_SIZE)
             {
-- 
2.43.0


From 328561d5aebe44066dbc51dfa4d3a2126f648055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 09/30] fix: init() of the block cipher modes kept buffered
 bytes of the previous message

---
 include/gmlib/block_cipher_mode/cbc_mode.h | 2 ++
 include/gmlib/block_cipher_mode/cfb_mode.h | 2 ++
 include/gmlib/block_cipher_mode/ctr_mode.h | 1 +
 include/gmlib/block_cipher_mode/ecb_mode.h | 2 ++
 include/gmlib/block_cipher_mode/gcm_mode.h | 1 +
 include/gmlib/block_cipher_mode/ofb_mode.h | 1 +
 6 files changed, 9 insertions(+)

diff --git a/include/gmlib/block_cipher_mode/cbc_mode.h b/include/gmlib/block_cipher_mode/cbc_mode.h
index cd64d4d..f2c6932 100644
--- a/include/gmlib/block_cipher_mode/cbc_mode.h
+++ b/include/gmlib/block_cipher_mode/cbc_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
@@ -98,6 +99,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::DECRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
diff --git a/include/gmlib/block_cipher_mode/cfb_mode.h b/include/gmlib/block_cipher_mode/cfb_mode.h
index a61604f..2dd5926 100644
--- a/include/gmlib/block_cipher_mode/cfb_mode.h
+++ b/include/gmlib/block_cipher_mode/cfb_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
@@ -93,6 +94,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
diff --git a/include/gmlib/block_cipher_mode/ctr_mode.h b/include/gmlib/block_cipher_mode/ctr_mode.h
index 1561526..6a8729b 100644
--- a/include/gmlib/block_cipher_mode/ctr_mode.h
+++ b/include/gmlib/block_cipher_mode/ctr_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(counter_, iv, Cipher::BLOCK_SIZE);
     }
diff --git a/include/gmlib/block_cipher_mode/ecb_mode.h b/include/gmlib/block_cipher_mode/ecb_mode.h
index 3e3514d..23e9837 100644
--- a/include/gmlib/block_cipher_mode/ecb_mode.h
+++ b/include/gmlib/block_cipher_mode/ecb_mode.h
@@ -28,6 +28,7 @@ public:
 public:
     void init(const std::uint8_t* user_key)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
     }
 
@@ -83,6 +84,7 @@ public:
 public:
     void init(const std::uint8_t* user_key)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::DECRYPTION);
     }
 
diff --git a/include/gmlib/block_cipher_mode/gcm_mode.h b/include/gmlib/block_cipher_mode/gcm_mode.h
index b69bb0b..65afe65 100644
--- a/include/gmlib/block_cipher_mode/gcm_mode.h
+++ b/include/gmlib/block_cipher_mode/gcm_mode.h
@@ -49,6 +49,7 @@ public:
         static const std::uint8_t ZERO[16] = {0};
         std::uint8_t              t[16];
 
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         cipher_.encrypt_block(t, ZERO);
         hash.set_key(t);
diff --git a/include/gmlib/block_cipher_mode/ofb_mode.h b/include/gmlib/block_cipher_mode/ofb_mode.h
index 12b3b72..c179faa 100644
--- a/include/gmlib/block_cipher_mode/ofb_mode.h
+++ b/include/gmlib/block_cipher_mode/ofb_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
-- 
2.43.0


From 9cab3f49e7c3ae59e8e91e2de639d3876aa510fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 10/30] fix: CbcDecryptor corrupted the plaintext when
 decrypting in place

---
 include/gmlib/block_cipher_mode/cbc_mode.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/gmlib/block_cipher_mode/cbc_mode.h b/include/gmlib/block_cipher_mode/cbc_mode.h
index f2c6932..2eab74f 100644
--- a/include/gmlib/block_cipher_mode/cbc_mode.h
+++ b/include/gmlib/block_cipher_mode/cbc_mode.h
@@ -126,9 +126,11 @@ private:
             std::memcpy(next_iv, in + REMAIN, BLOCK_SIZE);
 
             cipher_.decrypt_blocks(buffer, in, PARALLEL_NUM);
-            memory_utils::memxor<BLOCK_SIZE>(out, buffer, iv_);
-            std::uint8_t *ptr1 = out + BLOCK_SIZE, *ptr2 = buffer + BLOCK_SIZE;
-            memory_utils::memxor<REMAIN>(ptr1, ptr2, in);
+            // xor in the buffer first, out may be the same as in
+            std::uint8_t* ptr = buffer + BLOCK_SIZE;
+            memory_utils::memxor<BLOCK_SIZE>(buffer, buffer, iv_);
+            memory_utils::memxor<REMAIN>(ptr, ptr, in);
+            std::memcpy(out, buffer, PARALLEL_BYTES);
             in += PARALLEL_BYTES, out += PARALLEL_BYTES;
             block_num -= PARALLEL_NUM;
 
@@ -140,9 +142,10 @@ private:
             std::memcpy(next_iv, in + remain, BLOCK_SIZE);
 
             cipher_.decrypt_blocks(buffer, in, block_num);
-            memory_utils::memxor<BLOCK_SIZE>(out, buffer, iv_);
-            std::uint8_t *ptr1 = out + BLOCK_SIZE, *ptr2 = buffer + BLOCK_SIZE;
-            memory_utils::memxor_n(ptr1, ptr2, in, remain);
+            std::uint8_t* ptr = buffer + BLOCK_SIZE;
+            memory_utils::memxor<BLOCK_SIZE>(buffer, buffer, iv_);
+            memory_utils::memxor_n(ptr, ptr, in, remain);
+            std::memcpy(out, buffer, remain + BLOCK_SIZE);
 
             std::memcpy(iv_, next_iv, BLOCK_SIZE);
         }
-- 
2.43.0


From 78c279a24b1a5198030c2334a9fe05675c33ee90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 11/30] fix: GcmDecryptor::final_block padded with stale bytes
 of an earlier message (static buffer)

---
 include/gmlib/block_cipher_mode/gcm_mode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gmlib/block_cipher_mode/gcm_mode.h b/include/gmlib/block_cipher_mode/gcm_mode.h
index 65afe65..3a5e53f 100644
--- a/include/gmlib/block_cipher_mode/gcm_mode.h
+++ b/include/gmlib/block_cipher_mode/gcm_mode.h
@@ -315,7 +315,7 @@ private:
                      const std::uint8_t* in,
                      std::size_t         inl) override
     {
-        static std::uint8_t t[16] = {0}, tag[16];
+        std::uint8_t t[16] = {0}, tag[16];
         if (inl != 0)
         {
             std::size_t nxt_ct_len = ct_len_ + inl;
-- 
2.43.0


From fe4a13d436507de29fbfd91ace518290147f7108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:12 +0000
Subject: [PATCH 12/30] fix: mpz_cmp (x64) compared the least significant limbs
 first

---
 src/number/mpz_x64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/number/mpz_x64.cpp b/src/number/mpz_x64.cpp
index 551a411..f02ffaf 100644
--- a/src/number/mpz_x64.cpp
+++ b/src/number/mpz_x64.cpp
@@ -94,8 +94,8 @@ int mpz_cmp(const std::uint64_t* a,
     for (std::size_t i = 0; i < limb_size; i++)
     {
         std::size_t pos = limb_size - 1 - i;
-        if (a[i] > b[i]) return 1;
-        if (a[i] < b[i]) return -1;
+        if (a[pos] > b[pos]) return 1;
+        if (a[pos] < b[pos]) return -1;
     }
     return 0;
 }
-- 
2.43.0


From 4cfecebe9a27adfe62f6f577055805a10e3921cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:29 +0000
Subject: [PATCH 13/30] fix: asn1_decode_tlv accepted a length beyond the end
 of the input

---
 src/asn1/asn1.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 066606d..9f2a3d3 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -154,6 +154,10 @@ int asn1_decode_tlv(Asn1TLV*            tlv,
     }
     in += n, inl -= n, *read_num += n;
     // value
+    if (tlv->length > inl)
+    {
+        return -1; // the value does not fit into the input
+    }
     tlv->value = in;
     *read_num += tlv->length;
     return 0;
-- 
2.43.0


From 3d2f196b19a5b45170d80f06a7be76a63f0051c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:29 +0000
Subject: [PATCH 14/30] fix: asn1_encode_tlv_outl: length octets of 9 bytes did
 not fit the buffer

---
 src/asn1/asn1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 9f2a3d3..ce7b623 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -231,7 +231,7 @@ const char* asn1_tag_number_name(Asn1TagNumber tag_number) noexcept
 
 std::size_t asn1_encode_tlv_outl(std::size_t value_length) noexcept
 {
-    std::uint8_t l_buf[sizeof(std::size_t)];
+    std::uint8_t l_buf[1 + sizeof(std::size_t)];
     std::size_t  l_size;
     asn1_encode_length_octets(l_buf, &l_size, value_length);
     return 1 + l_size + value_length;
-- 
2.43.0


From 6b32c365105138bed97456d70cdcddd53d4c4e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:29 +0000
Subject: [PATCH 15/30] fix: asn1_encode_integer_tlv overwrote the sign byte
 and kept leading zeros

---
 src/asn1/asn1.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index ce7b623..0201849 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -242,6 +242,19 @@ std::size_t asn1_encode_boolean_outl() noexcept
     return 3; // tag(1), length(1), value(1)
 }
 
+/**
+ * @brief           skip the leading zero bytes of an integer (keep at least one
+ *                  byte): DER requires the minimal encoding
+ */
+static void asn1_integer_strip(const std::uint8_t** data,
+                               std::size_t*         data_len) noexcept
+{
+    while (*data_len > 1 && (*data)[0] == 0)
+    {
+        *data += 1, *data_len -= 1;
+    }
+}
+
 /**
  * @brief           calculate ASN.1 INTEGER value length
  * @param data      integer memory data(big endian), 'data_len' bytes
@@ -253,6 +266,7 @@ static std::size_t asn1_encode_integer_value_length(
     std::size_t         data_len) noexcept
 {
     std::size_t value_length;
+    asn1_integer_strip(&data, &data_len);
     if (data_len == 0)
     {
         value_length = 0;
@@ -352,11 +366,13 @@ void asn1_encode_integer_tlv(std::uint8_t*       out,
                    ASN1_TAG_INTEGER,         //
                    asn1_encode_integer_value_length(data, data_len));
     out += n, *outl = n;
+    asn1_integer_strip(&data, &data_len);
     if (data_len)
     {
         if (data[0] >= 0x80)
         {
             *out = 0, *outl += 1;
+            out += 1;
         }
         std::memmove(out, data, data_len);
         *outl += data_len;
-- 
2.43.0


From 19f589400227e005d396326468fa4f1c6d2a52d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:29 +0000
Subject: [PATCH 16/30] fix: asn1_decode_bit_string_value computed the bit
 length from the tag byte

---
 src/asn1/asn1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 0201849..29139f6 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -553,7 +553,7 @@ int asn1_decode_bit_string_value(const std::uint8_t** data_ptr,
     }
     *data_ptr    = tlv.value + 1;
     *data_length = tlv.length - 1;
-    *bits_length = 8 * (tlv.length - 1) - in[0];
+    *bits_length = 8 * (tlv.length - 1) - tlv.value[0];
     return 0;
 }
 
-- 
2.43.0


From 734eb71271a8648a789766e8b5b52372003673a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:29 +0000
Subject: [PATCH 17/30] fix: asn1 decoders rejected the empty OCTET STRING,
 SEQUENCE and SET the encoders produce

---
 src/asn1/asn1.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 29139f6..a7be253 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -569,7 +569,7 @@ int asn1_decode_octet_string_value(const std::uint8_t** data_ptr,
     {
         return err;
     }
-    if (tlv.tag_number != ASN1_TAG_OCTET_STRING || tlv.length == 0)
+    if (tlv.tag_number != ASN1_TAG_OCTET_STRING)
     {
         return -1;
     }
@@ -610,7 +610,7 @@ int asn1_decode_sequence_value(const std::uint8_t** value_ptr,
         return err;
     }
     if (tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
-        tlv.tag_number != ASN1_TAG_SEQUENCE || tlv.length == 0)
+        tlv.tag_number != ASN1_TAG_SEQUENCE)
     {
         return -1;
     }
@@ -633,7 +633,7 @@ int asn1_decode_set_value(const std::uint8_t** value_ptr,
         return err;
     }
     if (tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
-        tlv.tag_number != ASN1_TAG_SET || tlv.length == 0)
+        tlv.tag_number != ASN1_TAG_SET)
     {
         return -1;
     }
-- 
2.43.0


From a99c0b2fb30b3d40517c5e424606beb940b44704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:29 +0000
Subject: [PATCH 18/30] fix: sm2_public_key_asn1_decode accepted bit strings of
 the wrong size

---
 src/sm2/sm2p256v1_asn1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sm2/sm2p256v1_asn1.cpp b/src/sm2/sm2p256v1_asn1.cpp
index 6c9d04e..26d50a9 100644
--- a/src/sm2/sm2p256v1_asn1.cpp
+++ b/src/sm2/sm2p256v1_asn1.cpp
@@ -67,7 +67,7 @@ int sm2_public_key_asn1_decode(ASN1_SM2PublicKey*  pub,
     {
         return -1;
     }
-    if (data_length != 65 && data_bits != 65 * 8)
+    if (data_length != 65 || data_bits != 65 * 8)
     {
         return -1;
     }
-- 
2.43.0


From aea3c8734c32ccd330c7b4109abdae4a2888667f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:54 +0000
Subject: [PATCH 19/30] fix: SM2 DER decoders rejected integers with leading
 zero bytes

---
 include/gmlib/sm2/internal/sm2_asn1.h |  5 ++
 src/sm2/sm2p256v1_asn1.cpp            | 81 +++++++++++++++------------
 2 files changed, 49 insertions(+), 37 deletions(-)

diff --git a/include/gmlib/sm2/internal/sm2_asn1.h b/include/gmlib/sm2/internal/sm2_asn1.h
index f60fa77..538e3af 100644
--- a/include/gmlib/sm2/internal/sm2_asn1.h
+++ b/include/gmlib/sm2/internal/sm2_asn1.h
@@ -18,6 +18,7 @@ namespace sm2::internal {
 typedef struct ASN1_SM2PrivateKey
 {
     const std::uint8_t* value; // INTEGER 256-bit(32-bytes)
+    std::uint8_t value_buf[32]; // decoded value shorter than 32 bytes
 } ASN1_SM2PrivateKey;
 
 static constexpr std::size_t SM2_PRIVATE_KEY_ASN1_ENCODE_MAX_OUTL()
@@ -79,6 +80,8 @@ typedef struct ASN1_SM2Signature
 {
     const std::uint8_t* R; // INTEGER 256-bit(32-bytes)
     const std::uint8_t* S; // INTEGER 256-bit(32-bytes)
+    std::uint8_t R_buf[32]; // decoded R shorter than 32 bytes
+    std::uint8_t S_buf[32]; // decoded S shorter than 32 bytes
 } ASN1_SM2Signature;
 
 static constexpr std::size_t SM2_SIGNATURE_ASN1_ENCODE_MAX_OUTL()
@@ -125,6 +128,8 @@ typedef struct ASN1_SM2Cipher
         const std::uint8_t* value;
         std::size_t         length;
     } CipherText; // OCTET STRING
+    std::uint8_t X_buf[32]; // decoded X coordinate shorter than 32 bytes
+    std::uint8_t Y_buf[32]; // decoded Y coordinate shorter than 32 bytes
 } ASN1_SM2Cipher;
 
 std::size_t sm2_cipher_asn1_encode_max_outl(std::size_t C3_length,
diff --git a/src/sm2/sm2p256v1_asn1.cpp b/src/sm2/sm2p256v1_asn1.cpp
index 26d50a9..cfeef3e 100644
--- a/src/sm2/sm2p256v1_asn1.cpp
+++ b/src/sm2/sm2p256v1_asn1.cpp
@@ -6,6 +6,38 @@
 
 namespace sm2::internal {
 
+/**
+ * @brief           decode an INTEGER of at most 256 bits
+ * @param value     32-byte big endian value: points into the input, or to
+ *                  'buf' if the encoding is shorter than 32 bytes
+ */
+static int sm2_asn1_decode_int256(const std::uint8_t** value,
+                                  std::uint8_t         buf[32],
+                                  std::size_t*         read_num,
+                                  const std::uint8_t*  in,
+                                  std::size_t          inl)
+{
+    const std::uint8_t* data;
+    std::size_t         data_length;
+    if (asn1::asn1_decode_integer_value(&data, &data_length, read_num, in, inl))
+    {
+        return -1;
+    }
+    if (data_length > 32)
+    {
+        return -1;
+    }
+    if (data_length == 32)
+    {
+        *value = data;
+        return 0;
+    }
+    std::memset(buf, 0, 32 - data_length);
+    std::memcpy(buf + 32 - data_length, data, data_length);
+    *value = buf;
+    return 0;
+}
+
 // ****************************************
 // ********** PrivateKey ******************
 // ****************************************
@@ -27,17 +59,8 @@ int sm2_private_key_asn1_decode(ASN1_SM2PrivateKey* priv,
                                 const std::uint8_t* in,
                                 std::size_t         inl)
 {
-    std::size_t data_length;
-    if (asn1::asn1_decode_integer_value(&priv->value, &data_length, read_num,
-                                        in, inl))
-    {
-        return -1;
-    }
-    if (data_length != 32)
-    {
-        return -1;
-    }
-    return 0;
+    return sm2_asn1_decode_int256(&priv->value, priv->value_buf, read_num, in,
+                                  inl);
 }
 
 // ****************************************
@@ -111,7 +134,7 @@ int sm2_signature_asn1_decode(ASN1_SM2Signature*  sig,
     std::size_t inl_save = inl, n;
 
     const std::uint8_t* seq_value;
-    std::size_t         seq_v_len, int_1_v_len, int_2_v_len;
+    std::size_t         seq_v_len;
 
     // decode SEQUENCE
     if (asn1::asn1_decode_sequence_value(&seq_value, &seq_v_len, &n, in, inl))
@@ -120,23 +143,15 @@ int sm2_signature_asn1_decode(ASN1_SM2Signature*  sig,
     }
     in += n, inl -= n;
     // decode INTEGER
-    if (asn1::asn1_decode_integer_value(&sig->R, &int_1_v_len, &n, seq_value,
-                                        seq_v_len))
-    {
-        return -1;
-    }
-    if (int_1_v_len != 32)
+    if (sm2_asn1_decode_int256(&sig->R, sig->R_buf, &n, seq_value,
+                               seq_v_len))
     {
         return -1;
     }
     seq_value += n, seq_v_len -= n;
     // decode INTEGER
-    if (asn1::asn1_decode_integer_value(&sig->S, &int_2_v_len, &n, seq_value,
-                                        seq_v_len))
-    {
-        return -1;
-    }
-    if (int_2_v_len != 32)
+    if (sm2_asn1_decode_int256(&sig->S, sig->S_buf, &n, seq_value,
+                               seq_v_len))
     {
         return -1;
     }
@@ -202,29 +217,21 @@ int sm2_cipher_asn1_decode(ASN1_SM2Cipher*     cipher,
     std::size_t inl_save = inl, n;
 
     const std::uint8_t* seq_value;
-    std::size_t         seq_v_len, int_1_v_len, int_2_v_len;
+    std::size_t         seq_v_len;
 
     if (asn1::asn1_decode_sequence_value(&seq_value, &seq_v_len, &n, in, inl))
     {
         return -1;
     }
     in += n, inl -= n;
-    if (asn1::asn1_decode_integer_value(&cipher->XCoordinate, &int_1_v_len, &n,
-                                        seq_value, seq_v_len))
-    {
-        return -1;
-    }
-    if (int_1_v_len != 32)
+    if (sm2_asn1_decode_int256(&cipher->XCoordinate, cipher->X_buf, &n, seq_value,
+                               seq_v_len))
     {
         return -1;
     }
     seq_value += n, seq_v_len -= n;
-    if (asn1::asn1_decode_integer_value(&cipher->YCoordinate, &int_2_v_len, &n,
-                                        seq_value, seq_v_len))
-    {
-        return -1;
-    }
-    if (int_2_v_len != 32)
+    if (sm2_asn1_decode_int256(&cipher->YCoordinate, cipher->Y_buf, &n, seq_value,
+                               seq_v_len))
     {
         return -1;
     }
-- 
2.43.0


From ae5460ab5e3f255338e762cadd9142b7f1fb26d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:58 +0000
Subject: [PATCH 20/30] fix: SM2 point addition and comparison ignored the
 identity and, in mixed addition, equal and opposite points

---
 src/sm2/sm2p256v1.cpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/sm2/sm2p256v1.cpp b/src/sm2/sm2p256v1.cpp
index 8046bd8..ee9f962 100644
--- a/src/sm2/sm2p256v1.cpp
+++ b/src/sm2/sm2p256v1.cpp
@@ -514,6 +514,17 @@ void sm2_ec_j_add(sm2_ec_j R, const sm2_ec_j P, const sm2_ec_j Q) noexcept
     // http://hyperelliptic.org/EFD/g1p/auto-shortw-jacobian-3.html#addition-add-2007-bl
     // Cost: 11M + 5S + 9add + 4*2.
 
+    if (sm2_ec_j_is_inf(P))
+    {
+        sm2_ec_j_cpy(R, Q);
+        return;
+    }
+    if (sm2_ec_j_is_inf(Q))
+    {
+        sm2_ec_j_cpy(R, P);
+        return;
+    }
+
 #define X3 R[0]
 #define Y3 R[1]
 #define Z3 R[2]
@@ -587,6 +598,12 @@ void sm2_ec_j_add_a(sm2_ec_j R, const sm2_ec_j P, const sm2_ec_a Q) noexcept
 {
     // http://hyperelliptic.org/EFD/g1p/auto-shortw-jacobian-3.html#addition-madd-2007-bl
     // Cost: 7M + 4S + 9add + 3*2 + 1*4.
+    if (sm2_ec_j_is_inf(P))
+    {
+        sm2_ec_j_from_a(R, Q);
+        return;
+    }
+
 #define X3 R[0]
 #define Y3 R[1]
 #define Z3 R[2]
@@ -608,6 +625,19 @@ void sm2_ec_j_add_a(sm2_ec_j R, const sm2_ec_j P, const sm2_ec_a Q) noexcept
     sm2_fp_dbl(I, I);    // I = 4*HH
     sm2_fp_mul(J, H, I); // J = H*I
     sm2_fp_sub(r, S2, Y1);
+    if (sm2_fp_equal_zero(H))
+    {
+        // P = Q or P = -Q
+        if (sm2_fp_equal_zero(r))
+        {
+            sm2_ec_j_dbl(R, P);
+        }
+        else
+        {
+            sm2_ec_j_set_inf(R);
+        }
+        return;
+    }
     sm2_fp_dbl(r, r);     // r = 2*(S2-Y1)
     sm2_fp_mul(V, X1, I); // V = X1*I
     // X3 = r^2-J-2*V
@@ -812,6 +842,10 @@ void sm2_ec_j_normal(sm2_ec_j R, const sm2_ec_j P) noexcept
 
 bool sm2_ec_j_equal(const sm2_ec_j P, const sm2_ec_j Q) noexcept
 {
+    if (sm2_ec_j_is_inf(P) || sm2_ec_j_is_inf(Q))
+    {
+        return sm2_ec_j_is_inf(P) && sm2_ec_j_is_inf(Q);
+    }
     // Xp * Zq^2 = Xq * Zp^2
     // Yp * Zq^3 = Yq * Zp^3
     sm2_fp_t Zq2, Zq3, Zp2, Zp3, t1, t2;
-- 
2.43.0


From 3858e1c210f6214e0d43e2ccd7a67968db0506a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:58 +0000
Subject: [PATCH 21/30] fix: SM9 point addition and comparison ignored the
 identity and, in mixed addition, equal and opposite points (scalar n-2 gave a
 wrong multiple)

---
 src/sm9/sm9_field.cpp | 68 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 68 insertions(+)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 6614218..1d50418 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1125,6 +1125,17 @@ void sm9_ec_j_add(sm9_ec_j R, const sm9_ec_j P, const sm9_ec_j Q) noexcept
     // http://hyperelliptic.org/EFD/g1p/auto-shortw-jacobian-0.html#addition-add-2007-bl
     // Cost: 11M + 5S + 9add + 4*2.
     sm9_fp_t Z1Z1, Z2Z2, U1, U2, S1, S2, H, I, J, r, V;
+    if (sm9_ec_j_is_inf(P))
+    {
+        sm9_ec_j_cpy(R, Q);
+        return;
+    }
+    if (sm9_ec_j_is_inf(Q))
+    {
+        sm9_ec_j_cpy(R, P);
+        return;
+    }
+
 #define X3 R[0]
 #define Y3 R[1]
 #define Z3 R[2]
@@ -1197,6 +1208,12 @@ void sm9_ec_j_add_a(sm9_ec_j R, const sm9_ec_j P, const sm9_ec_a Q) noexcept
 {
     // http://hyperelliptic.org/EFD/g1p/auto-shortw-jacobian-0.html#addition-madd-2007-bl
     // Cost: 7M + 4S + 9add + 3*2 + 1*4.
+    if (sm9_ec_j_is_inf(P))
+    {
+        sm9_ec_j_from_a(R, Q);
+        return;
+    }
+
 #define X3 R[0]
 #define Y3 R[1]
 #define Z3 R[2]
@@ -1218,6 +1235,19 @@ void sm9_ec_j_add_a(sm9_ec_j R, const sm9_ec_j P, const sm9_ec_a Q) noexcept
     sm9_fp_dbl(I, I);    // I = 4*HH
     sm9_fp_mul(J, H, I); // J = H*I
     sm9_fp_sub(r, S2, Y1);
+    if (sm9_fp_equal_zero(H))
+    {
+        // P = Q or P = -Q
+        if (sm9_fp_equal_zero(r))
+        {
+            sm9_ec_j_dbl(R, P);
+        }
+        else
+        {
+            sm9_ec_j_set_inf(R);
+        }
+        return;
+    }
     sm9_fp_dbl(r, r);     // r = 2*(S2-Y1)
     sm9_fp_mul(V, X1, I); // V = X1*I
     // X3 = r^2-J-2*V
@@ -1391,6 +1421,10 @@ void sm9_ec_j_normal(sm9_ec_j R, const sm9_ec_j P) noexcept
 
 bool sm9_ec_j_equal(const sm9_ec_j P, const sm9_ec_j Q) noexcept
 {
+    if (sm9_ec_j_is_inf(P) || sm9_ec_j_is_inf(Q))
+    {
+        return sm9_ec_j_is_inf(P) && sm9_ec_j_is_inf(Q);
+    }
     // Xp * Zq^2 = Xq * Zp^2
     // Yp * Zq^3 = Yq * Zp^3
     sm9_fp_t Zq2, Zq3, Zp2, Zp3, t1, t2;
@@ -1532,6 +1566,17 @@ void sm9_ec2_j_add(sm9_ec2_j R, const sm9_ec2_j P, const sm9_ec2_j Q) noexcept
     // http://hyperelliptic.org/EFD/g1p/auto-shortw-jacobian-0.html#addition-add-2007-bl
     // Cost: 11M + 5S + 9add + 4*2.
     sm9_fp2_t Z1Z1, Z2Z2, U1, U2, S1, S2, H, I, J, r, V;
+    if (sm9_ec2_j_is_inf(P))
+    {
+        sm9_ec2_j_cpy(R, Q);
+        return;
+    }
+    if (sm9_ec2_j_is_inf(Q))
+    {
+        sm9_ec2_j_cpy(R, P);
+        return;
+    }
+
 #define X3 R[0]
 #define Y3 R[1]
 #define Z3 R[2]
@@ -1604,6 +1649,12 @@ void sm9_ec2_j_add_a(sm9_ec2_j R, const sm9_ec2_j P, const sm9_ec2_a Q) noexcept
 {
     // http://hyperelliptic.org/EFD/g1p/auto-shortw-jacobian-0.html#addition-madd-2007-bl
     // Cost: 7M + 4S + 9add + 3*2 + 1*4.
+    if (sm9_ec2_j_is_inf(P))
+    {
+        sm9_ec2_j_from_a(R, Q);
+        return;
+    }
+
 #define X3 R[0]
 #define Y3 R[1]
 #define Z3 R[2]
@@ -1625,6 +1676,19 @@ void sm9_ec2_j_add_a(sm9_ec2_j R, const sm9_ec2_j P, const sm9_ec2_a Q) noexcept
     sm9_fp2_dbl(I, I);    // I = 4*HH
     sm9_fp2_mul(J, H, I); // J = H*I
     sm9_fp2_sub(r, S2, Y1);
+    if (sm9_fp2_equal_zero(H))
+    {
+        // P = Q or P = -Q
+        if (sm9_fp2_equal_zero(r))
+        {
+            sm9_ec2_j_dbl(R, P);
+        }
+        else
+        {
+            sm9_ec2_j_set_inf(R);
+        }
+        return;
+    }
     sm9_fp2_dbl(r, r);     // r = 2*(S2-Y1)
     sm9_fp2_mul(V, X1, I); // V = X1*I
     // X3 = r^2-J-2*V
@@ -1798,6 +1862,10 @@ void sm9_ec2_j_normal(sm9_ec2_j R, const sm9_ec2_j P) noexcept
 
 bool sm9_ec2_j_equal(const sm9_ec2_j P, const sm9_ec2_j Q) noexcept
 {
+    if (sm9_ec2_j_is_inf(P) || sm9_ec2_j_is_inf(Q))
+    {
+        return sm9_ec2_j_is_inf(P) && sm9_ec2_j_is_inf(Q);
+    }
     // Xp * Zq^2 = Xq * Zp^2
     // Yp * Zq^3 = Yq * Zp^3
     sm9_fp2_t Zq2, Zq3, Zp2, Zp3, t1, t2;
-- 
2.43.0


From 07298575cb00a54f75d7a72ba38845f31c558f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:37 +0000
Subject: [PATCH 22/30] fix: sm9_fp12_pow read past the exponent when it is
 zero

---
 src/sm9/sm9_field.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 1d50418..bbb07c1 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -933,7 +933,12 @@ void sm9_fp12_pow(sm9_fp12_t         r,
         sm9_fp12_mul(lut_table[j], lut_table[j - 1], a);
     }
     // compute power
-    while (e_u8[i] == 0) i++;
+    while (i < 32 && e_u8[i] == 0) i++;
+    if (i == 32)
+    {
+        sm9_fp12_set_one(r);
+        return;
+    }
     if (e_u8[i] > 0xF)
     {
         int index = (e_u8[i] >> 4) & 0xF;
-- 
2.43.0


From 31ac34c2e1eea373e163fcf1ba629627511f77d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:49 +0000
Subject: [PATCH 23/30] fix: sm2_ec_a_from_bytes: check the input length, the
 coordinate range and the parity of hybrid encodings

---
 src/sm2/sm2p256v1.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/sm2/sm2p256v1.cpp b/src/sm2/sm2p256v1.cpp
index ee9f962..e1d8bd9 100644
--- a/src/sm2/sm2p256v1.cpp
+++ b/src/sm2/sm2p256v1.cpp
@@ -451,6 +451,15 @@ static int sm2_ec_recover_y(sm2_fp_t y, const sm2_fp_t x, int y_hat) noexcept
     return 0;
 }
 
+// the bytes hold a coordinate in [0, p-1]
+static bool sm2_fp_in_range(const std::uint8_t in[32]) noexcept
+{
+    sm2_bn_t a, p;
+    sm2_bn_from_bytes(a, in);
+    sm2_bn_from_bytes(p, SM2_CURVE_P);
+    return sm2_bn_cmp(a, p) < 0;
+}
+
 int sm2_ec_a_from_bytes(sm2_ec_a            R,
                         std::size_t*        read_n,
                         const std::uint8_t* in,
@@ -462,11 +471,24 @@ int sm2_ec_a_from_bytes(sm2_ec_a            R,
     }
     if (in[0] == 0x04 || in[0] == 0x06 || in[0] == 0x07)
     {
+        if (inl < 65 || !sm2_fp_in_range(in + 1) || !sm2_fp_in_range(in + 33))
+        {
+            return -1;
+        }
+        // hybrid encoding: PC carries the parity of y
+        if (in[0] != 0x04 && (in[64] & 1) != (in[0] & 1))
+        {
+            return -1;
+        }
         *read_n = 65;
         sm2_ec_a_from_bytes04(R, in + 1);
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
     {
+        if (inl < 33 || !sm2_fp_in_range(in + 1))
+        {
+            return -1;
+        }
         *read_n = 33;
         sm2_fp_from_bytes(R[0], in + 1);
         int y_hat = in[0] == 0x02 ? 0 : 1;
-- 
2.43.0


From 0a3cb164ccdf7a29b5b2acb28ac5b8349a4c3f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:49 +0000
Subject: [PATCH 24/30] fix: sm9_ec_a_from_bytes: check the input length, the
 coordinate range and the parity of hybrid encodings

---
 src/sm9/sm9_field.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index bbb07c1..ffc6e8e 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1067,6 +1067,15 @@ static int sm9_ec_recover_y(sm9_fp_t y, const sm9_fp_t x, int y_hat) noexcept
     return 0;
 }
 
+// the bytes hold a coordinate in [0, p-1]
+static bool sm9_fp_in_range(const std::uint8_t in[32]) noexcept
+{
+    sm9_bn_t a, p;
+    sm9_bn_from_bytes(a, in);
+    sm9_bn_from_bytes(p, SM9_CURVE_P);
+    return sm9_bn_cmp(a, p) < 0;
+}
+
 int sm9_ec_a_from_bytes(sm9_ec_a            R,
                         std::size_t*        read_n,
                         const std::uint8_t* in,
@@ -1078,11 +1087,24 @@ int sm9_ec_a_from_bytes(sm9_ec_a            R,
     }
     if (in[0] == 0x04 || in[0] == 0x06 || in[0] == 0x07)
     {
+        if (inl < 65 || !sm9_fp_in_range(in + 1) || !sm9_fp_in_range(in + 33))
+        {
+            return -1;
+        }
+        // hybrid encoding: PC carries the parity of y
+        if (in[0] != 0x04 && (in[64] & 1) != (in[0] & 1))
+        {
+            return -1;
+        }
         *read_n = 65;
         sm9_ec_a_from_bytes04(R, in + 1);
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
     {
+        if (inl < 33 || !sm9_fp_in_range(in + 1))
+        {
+            return -1;
+        }
         *read_n = 33;
         sm9_fp_from_bytes(R[0], in + 1);
         int y_hat = in[0] == 0x02 ? 0 : 1;
-- 
2.43.0


From ddd605a89685c213a2958de3ada24c67112d2d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:49 +0000
Subject: [PATCH 25/30] fix: SM2PublicKey::set_pub accepted coordinates not
 less than p

---
 include/gmlib/sm2/sm2.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index 12be82a..f865946 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -356,7 +356,10 @@ inline void SM2PublicKey<Hash>::set_pub(const std::uint8_t x[32],
     internal::sm2_ec_a T;
     internal::sm2_fp_from_bytes(T[0], x);
     internal::sm2_fp_from_bytes(T[1], y);
-    if (!internal::sm2_ec_a_check(T))
+    // coordinates in [0, p-1]
+    if (std::memcmp(x, internal::SM2_CURVE_P, 32) >= 0 ||
+        std::memcmp(y, internal::SM2_CURVE_P, 32) >= 0 ||
+        !internal::sm2_ec_a_check(T))
     {
         throw std::runtime_error("invalid sm2p256v1 PublicKey");
     }
-- 
2.43.0


From 21d4271761f440c451ab64e92a7b58e2f309afca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:49 +0000
Subject: [PATCH 26/30] fix: SM2PrivateKey::gen_priv could produce the private
 key n-1, which has no signature

---
 include/gmlib/sm2/sm2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index f865946..562b353 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -560,7 +560,7 @@ inline void SM2PrivateKey<Hash>::gen_priv(rng::Rng& rng)
     internal::sm2_bn_t d;
     rng.gen(priv_key, 32);
     internal::sm2_bn_from_bytes(d, priv_key);
-    internal::sm2_bn_mod_n_sub1(d);
+    internal::sm2_bn_mod_n_sub2(d);
     internal::sm2_bn_add_uint32(d, d, 1);
     internal::sm2_bn_to_bytes(priv_, d);
     // set pub
-- 
2.43.0


From 1b53720fd947e8c63691c7f6ee02fa66e512570b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:49 +0000
Subject: [PATCH 27/30] fix: SM2 verify (noexcept) terminated the program on an
 identity of 8192 bytes or more

---
 include/gmlib/sm2/sm2.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index 562b353..f207887 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -442,6 +442,11 @@ inline bool SM2PublicKey<Hash>::verify_(const std::uint8_t  sig_r[32],
     {
         return false;
     }
+    // ENTL holds 16 bits
+    if (id_len * 8 > UINT16_MAX)
+    {
+        return false;
+    }
     // H(Z || M)
     internal::sm2_compute_z<Hash>(Z, id, id_len, x_, y_);
     Hash hash;
-- 
2.43.0


From ed083bd23c354d4576c84547d7bc365e06489788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:27 +0000
Subject: [PATCH 28/30] fix: reject SM2 signatures whose verification point is
 the point at infinity

---
 include/gmlib/sm2/sm2.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index f207887..3fba148 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -468,6 +468,10 @@ inline bool SM2PublicKey<Hash>::verify_(const std::uint8_t  sig_r[32],
     internal::sm2_ec_j_mul_g(sG.j, sig_s);
     internal::sm2_ec_j_mul_a(tP.j, t, tP.a);
     internal::sm2_ec_j_add(tP.j, sG.j, tP.j);
+    if (internal::sm2_ec_j_is_inf(tP.j))
+    {
+        return false;  // the point at infinity has no x1'
+    }
     internal::sm2_ec_j_to_a(tP.a, tP.j);
     // R = e' + x1' mod n
     internal::sm2_fn_from_fp(tmp.fn, tP.a[0]);
-- 
2.43.0


From 791c2bc7b4808a0a40daaf09bdb49a0585fd7e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:27 +0000
Subject: [PATCH 29/30] fix: SM9 verification when [h1]P2 + Ppub is the point
 at infinity

---
 include/gmlib/sm9/sm9.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/gmlib/sm9/sm9.h b/include/gmlib/sm9/sm9.h
index ab69cbe..dfe16bb 100644
--- a/include/gmlib/sm9/sm9.h
+++ b/include/gmlib/sm9/sm9.h
@@ -418,10 +418,17 @@ inline bool SM9SignMasterPublicKey<Hash>::verify(
     //  P = [h1]P2 + Ppub
     internal::sm9_ec2_j_mul_g(T.j, h_);
     internal::sm9_ec2_j_add_a(T.j, T.j, P_);
-    internal::sm9_ec2_j_to_a(T.a, T.j);
     // w' = e(S', P) * t
-    internal::sm9_pairing(w, S, T.a);
-    internal::sm9_fp12_mul(w, w, t);
+    if (internal::sm9_ec2_j_is_inf(T.j))
+    {
+        internal::sm9_fp12_cpy(w, t);  // e(S', O) = 1
+    }
+    else
+    {
+        internal::sm9_ec2_j_to_a(T.a, T.j);
+        internal::sm9_pairing(w, S, T.a);
+        internal::sm9_fp12_mul(w, w, t);
+    }
     internal::sm9_fp12_to_bytes(w_buf, w);
     // h2 = H2(M || w', N)
     internal::sm9_Hn<Hash>(h_, msg, msg_len, w_buf, sizeof(w_buf), 2);
-- 
2.43.0


From 82278da0cda82272d8a16ffc37faddd9fa3ded04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:05 +0000
Subject: [PATCH 30/30] fix: SM9 twist point encodings overwrote half of x,
 took parity from the wrong byte and skipped validation

---
 src/sm9/sm9_field.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index ffc6e8e..7907d32 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1506,13 +1506,13 @@ void sm9_ec2_a_neg(sm9_ec2_a R, const sm9_ec2_a P) noexcept
 void sm9_ec2_a_to_bytes04(std::uint8_t out[128], const sm9_ec2_a P) noexcept
 {
     sm9_fp2_to_bytes(out + 0, P[0]);
-    sm9_fp2_to_bytes(out + 32, P[1]);
+    sm9_fp2_to_bytes(out + 64, P[1]);
 }
 
 void sm9_ec2_a_from_bytes04(sm9_ec2_a R, const std::uint8_t in[128]) noexcept
 {
     sm9_fp2_from_bytes(R[0], in + 0);
-    sm9_fp2_from_bytes(R[1], in + 32);
+    sm9_fp2_from_bytes(R[1], in + 64);
 }
 
 void sm9_ec2_a_to_bytes_uncompressed(std::uint8_t    out[129],
@@ -1526,14 +1526,14 @@ void sm9_ec2_a_to_bytes_compressed(std::uint8_t    out[65],
                                    const sm9_ec2_a P) noexcept
 {
     sm9_fp2_to_bytes(out + 1, P[1]);
-    out[0] = ((out[32] & 1) == 0) ? 0x02 : 0x03;
+    out[0] = ((out[64] & 1) == 0) ? 0x02 : 0x03;
     sm9_fp2_to_bytes(out + 1, P[0]);
 }
 
 void sm9_ec2_a_to_bytes_mix(std::uint8_t out[129], const sm9_ec2_a P) noexcept
 {
     sm9_ec2_a_to_bytes04(out + 1, P);
-    out[0] = ((out[64] & 1) == 0) ? 0x06 : 0x07;
+    out[0] = ((out[128] & 1) == 0) ? 0x06 : 0x07;
 }
 
 int sm9_ec2_a_from_bytes(sm9_ec2_a           R,
@@ -1547,9 +1547,20 @@ int sm9_ec2_a_from_bytes(sm9_ec2_a           R,
     }
     if (in[0] == 0x04 || in[0] == 0x06 || in[0] == 0x07)
     {
+        if (inl < 129 || !sm9_fp_in_range(in + 1) ||
+            !sm9_fp_in_range(in + 33) || !sm9_fp_in_range(in + 65) ||
+            !sm9_fp_in_range(in + 97))
+        {
+            return -1;
+        }
+        // hybrid encoding: PC carries the parity of y
+        if (in[0] != 0x04 && (in[128] & 1) != (in[0] & 1))
+        {
+            return -1;
+        }
         *read_n = 129;
         sm9_ec2_a_from_bytes04(R, in + 1);
-        return 0;
+        return sm9_ec2_a_check(R) ? 0 : -1;
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
     {
-- 
2.43.0

