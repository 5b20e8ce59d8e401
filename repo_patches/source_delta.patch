From 955f6527f215ae54325760722548941d0253b265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:09 +0000
Subject: [PATCH 01/42] fix: hash base class counts buffered blocks in units of
 BLOCK_SIZE

update() divided the remaining length by 64 whatever the block size, so a
hash with another block size (GHASH: 16) copied up to 63 bytes into its
buffer once an earlier call had left a partial block pending.
---
 include/gmlib/hash_lib/hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gmlib/hash_lib/hash.h b/include/gmlib/hash_lib/hash.h
index 67daf11..307ec77 100644
--- a/include/gmlib/hash_lib/hash.h
+++ b/include/gmlib/hash_lib/hash.h
@@ -64,7 +64,7 @@ public:
         }
         if (inl && buf_size_ == 0)
         {
-            std::size_t block_num = inl / 64;
+            std::size_t block_num = inl / BLOCK_SIZE;
             this->update_blocks(in, block_num);
             in += block_num * BLOCK_SIZE, inl -= block_num * BLOCK_SIZE;
             if (inl)
-- 
2.43.0


From ead2bda3631bf275568c6ee9efbdadafad6e0df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:09 +0000
Subject: [PATCH 02/42] fix: cipher mode update always sets *outl

When a partial block was pending and the new input did not complete it,
update() returned without writing *outl, and do_final() then used it.
---
 include/gmlib/block_cipher_mode/block_cipher_mode.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/gmlib/block_cipher_mode/block_cipher_mode.h b/include/gmlib/block_cipher_mode/block_cipher_mode.h
index 92208c0..4cdc51e 100644
--- a/include/gmlib/block_cipher_mode/block_cipher_mode.h
+++ b/include/gmlib/block_cipher_mode/block_cipher_mode.h
@@ -38,6 +38,7 @@ public:
             *outl = 0;
             return;
         }
+        *outl                  = 0;
         std::uint8_t* out_base = out;
         if (buf_size_ == 0)
         {
-- 
2.43.0


From 84316ec37adf22304c3667eb64e6fbdaa78e8307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:09 +0000
Subject: [PATCH 03/42] fix: initialising a cipher mode object starts a fresh
 message

init() on a used object kept the bytes pending from the previous message
(including those a finished message had already output), so the next
message was processed wrongly.
---
 include/gmlib/block_cipher_mode/cbc_mode.h | 2 ++
 include/gmlib/block_cipher_mode/cfb_mode.h | 2 ++
 include/gmlib/block_cipher_mode/ctr_mode.h | 1 +
 include/gmlib/block_cipher_mode/ecb_mode.h | 2 ++
 include/gmlib/block_cipher_mode/gcm_mode.h | 1 +
 include/gmlib/block_cipher_mode/ofb_mode.h | 1 +
 6 files changed, 9 insertions(+)

diff --git a/include/gmlib/block_cipher_mode/cbc_mode.h b/include/gmlib/block_cipher_mode/cbc_mode.h
index cd64d4d..f2c6932 100644
--- a/include/gmlib/block_cipher_mode/cbc_mode.h
+++ b/include/gmlib/block_cipher_mode/cbc_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
@@ -98,6 +99,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::DECRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
diff --git a/include/gmlib/block_cipher_mode/cfb_mode.h b/include/gmlib/block_cipher_mode/cfb_mode.h
index a61604f..2dd5926 100644
--- a/include/gmlib/block_cipher_mode/cfb_mode.h
+++ b/include/gmlib/block_cipher_mode/cfb_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
@@ -93,6 +94,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
diff --git a/include/gmlib/block_cipher_mode/ctr_mode.h b/include/gmlib/block_cipher_mode/ctr_mode.h
index 1561526..6a8729b 100644
--- a/include/gmlib/block_cipher_mode/ctr_mode.h
+++ b/include/gmlib/block_cipher_mode/ctr_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(counter_, iv, Cipher::BLOCK_SIZE);
     }
diff --git a/include/gmlib/block_cipher_mode/ecb_mode.h b/include/gmlib/block_cipher_mode/ecb_mode.h
index 3e3514d..23e9837 100644
--- a/include/gmlib/block_cipher_mode/ecb_mode.h
+++ b/include/gmlib/block_cipher_mode/ecb_mode.h
@@ -28,6 +28,7 @@ public:
 public:
     void init(const std::uint8_t* user_key)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
     }
 
@@ -83,6 +84,7 @@ public:
 public:
     void init(const std::uint8_t* user_key)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::DECRYPTION);
     }
 
diff --git a/include/gmlib/block_cipher_mode/gcm_mode.h b/include/gmlib/block_cipher_mode/gcm_mode.h
index b69bb0b..65afe65 100644
--- a/include/gmlib/block_cipher_mode/gcm_mode.h
+++ b/include/gmlib/block_cipher_mode/gcm_mode.h
@@ -49,6 +49,7 @@ public:
         static const std::uint8_t ZERO[16] = {0};
         std::uint8_t              t[16];
 
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         cipher_.encrypt_block(t, ZERO);
         hash.set_key(t);
diff --git a/include/gmlib/block_cipher_mode/ofb_mode.h b/include/gmlib/block_cipher_mode/ofb_mode.h
index 12b3b72..c179faa 100644
--- a/include/gmlib/block_cipher_mode/ofb_mode.h
+++ b/include/gmlib/block_cipher_mode/ofb_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
-- 
2.43.0


From f06bd2ed3f569d6a4c86b3ee5ce6bfeb2a005c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:09 +0000
Subject: [PATCH 04/42] fix: GHash reset and set_key drop the pending partial
 block

---
 include/gmlib/ghash/ghash.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gmlib/ghash/ghash.h b/include/gmlib/ghash/ghash.h
index f759cc8..5f3c41d 100644
--- a/include/gmlib/ghash/ghash.h
+++ b/include/gmlib/ghash/ghash.h
@@ -37,11 +37,13 @@ public:
 
     void reset() noexcept
     {
+        this->hash_lib::Hash<BLOCK_SIZE>::reset();
         alg::ghash_reset(&ctx_);
     }
 
     void set_key(const std::uint8_t H[16]) noexcept
     {
+        this->hash_lib::Hash<BLOCK_SIZE>::reset();
         alg::ghash_init(&ctx_, H);
     }
 
-- 
2.43.0


From f73d79454f75bb06b9cb8cfd0b663c2bed5285fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:09 +0000
Subject: [PATCH 05/42] fix: GCM decryption uses no shared mutable state in its
 final step

The padding buffer was a mutable static that kept the previous length
block: the second decryption of a process whose last block was partial
hashed stale bytes as padding and rejected a genuine message, and
independent decryptors raced on it.
---
 include/gmlib/block_cipher_mode/gcm_mode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gmlib/block_cipher_mode/gcm_mode.h b/include/gmlib/block_cipher_mode/gcm_mode.h
index 65afe65..3a5e53f 100644
--- a/include/gmlib/block_cipher_mode/gcm_mode.h
+++ b/include/gmlib/block_cipher_mode/gcm_mode.h
@@ -315,7 +315,7 @@ private:
                      const std::uint8_t* in,
                      std::size_t         inl) override
     {
-        static std::uint8_t t[16] = {0}, tag[16];
+        std::uint8_t t[16] = {0}, tag[16];
         if (inl != 0)
         {
             std::size_t nxt_ct_len = ct_len_ + inl;
-- 
2.43.0


From b6dd9af39823064fefc4b8db2dc1a973ea02680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:09 +0000
Subject: [PATCH 06/42] fix: CBC decryption works in place

With out == in the parallel path overwrote ciphertext blocks it still
needed as chaining values.
---
 include/gmlib/block_cipher_mode/cbc_mode.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/gmlib/block_cipher_mode/cbc_mode.h b/include/gmlib/block_cipher_mode/cbc_mode.h
index f2c6932..a779eb5 100644
--- a/include/gmlib/block_cipher_mode/cbc_mode.h
+++ b/include/gmlib/block_cipher_mode/cbc_mode.h
@@ -126,9 +126,10 @@ private:
             std::memcpy(next_iv, in + REMAIN, BLOCK_SIZE);
 
             cipher_.decrypt_blocks(buffer, in, PARALLEL_NUM);
-            memory_utils::memxor<BLOCK_SIZE>(out, buffer, iv_);
-            std::uint8_t *ptr1 = out + BLOCK_SIZE, *ptr2 = buffer + BLOCK_SIZE;
-            memory_utils::memxor<REMAIN>(ptr1, ptr2, in);
+            memory_utils::memxor<BLOCK_SIZE>(buffer, buffer, iv_);
+            std::uint8_t* ptr = buffer + BLOCK_SIZE;
+            memory_utils::memxor<REMAIN>(ptr, ptr, in);
+            std::memcpy(out, buffer, PARALLEL_BYTES);
             in += PARALLEL_BYTES, out += PARALLEL_BYTES;
             block_num -= PARALLEL_NUM;
 
@@ -140,9 +141,10 @@ private:
             std::memcpy(next_iv, in + remain, BLOCK_SIZE);
 
             cipher_.decrypt_blocks(buffer, in, block_num);
-            memory_utils::memxor<BLOCK_SIZE>(out, buffer, iv_);
-            std::uint8_t *ptr1 = out + BLOCK_SIZE, *ptr2 = buffer + BLOCK_SIZE;
-            memory_utils::memxor_n(ptr1, ptr2, in, remain);
+            memory_utils::memxor<BLOCK_SIZE>(buffer, buffer, iv_);
+            std::uint8_t* ptr = buffer + BLOCK_SIZE;
+            memory_utils::memxor_n(ptr, ptr, in, remain);
+            std::memcpy(out, buffer, remain + BLOCK_SIZE);
 
             std::memcpy(iv_, next_iv, BLOCK_SIZE);
         }
-- 
2.43.0


From a30739fb6782ce3c3c1fdfd27c77bd169143bf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:55 +0000
Subject: [PATCH 07/42] fix: ASN.1 TLV decoding rejects a value longer than the
 input

The length octets were trusted, so a truncated or malicious encoding made
every decoder hand out (and read) memory past the end of the input.
---
 src/asn1/asn1.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 066606d..7c431e6 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -154,6 +154,10 @@ int asn1_decode_tlv(Asn1TLV*            tlv,
     }
     in += n, inl -= n, *read_num += n;
     // value
+    if (tlv->length > inl)
+    {
+        return -1;
+    }
     tlv->value = in;
     *read_num += tlv->length;
     return 0;
-- 
2.43.0


From 059ee9c4674b8abf59b04b77f4de6d9ca94c7df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:55 +0000
Subject: [PATCH 08/42] fix: ASN.1 INTEGER encoding keeps the sign octet

For a value with its top bit set the leading zero octet was overwritten by
the data, leaving the encoding one octet short and negative.
---
 src/asn1/asn1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 7c431e6..a1489f0 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -356,7 +356,7 @@ void asn1_encode_integer_tlv(std::uint8_t*       out,
     {
         if (data[0] >= 0x80)
         {
-            *out = 0, *outl += 1;
+            *out = 0, out += 1, *outl += 1;
         }
         std::memmove(out, data, data_len);
         *outl += data_len;
-- 
2.43.0


From e33166a4440f638b90a4e786ae36898cff01307d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:55 +0000
Subject: [PATCH 09/42] fix: ASN.1 BIT STRING decoding subtracts the
 unused-bits octet

It subtracted the tag octet instead.
---
 src/asn1/asn1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index a1489f0..270d741 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -537,7 +537,7 @@ int asn1_decode_bit_string_value(const std::uint8_t** data_ptr,
     }
     *data_ptr    = tlv.value + 1;
     *data_length = tlv.length - 1;
-    *bits_length = 8 * (tlv.length - 1) - in[0];
+    *bits_length = 8 * (tlv.length - 1) - tlv.value[0];
     return 0;
 }
 
-- 
2.43.0


From c24918164b0107606b08c86e45d2db474dcff45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:55 +0000
Subject: [PATCH 10/42] fix: ASN.1 decoding accepts empty OCTET STRING,
 SEQUENCE and SET

Zero-length values are valid, and the library itself encodes them.
---
 src/asn1/asn1.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 270d741..d47cbd5 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -553,7 +553,7 @@ int asn1_decode_octet_string_value(const std::uint8_t** data_ptr,
     {
         return err;
     }
-    if (tlv.tag_number != ASN1_TAG_OCTET_STRING || tlv.length == 0)
+    if (tlv.tag_number != ASN1_TAG_OCTET_STRING)
     {
         return -1;
     }
@@ -594,7 +594,7 @@ int asn1_decode_sequence_value(const std::uint8_t** value_ptr,
         return err;
     }
     if (tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
-        tlv.tag_number != ASN1_TAG_SEQUENCE || tlv.length == 0)
+        tlv.tag_number != ASN1_TAG_SEQUENCE)
     {
         return -1;
     }
@@ -617,7 +617,7 @@ int asn1_decode_set_value(const std::uint8_t** value_ptr,
         return err;
     }
     if (tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
-        tlv.tag_number != ASN1_TAG_SET || tlv.length == 0)
+        tlv.tag_number != ASN1_TAG_SET)
     {
         return -1;
     }
-- 
2.43.0


From cf8efa91013197d7938d72b237716291cbf56e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:55 +0000
Subject: [PATCH 11/42] fix: ASN.1 typed decoders check the tag class

APPLICATION, context-specific and PRIVATE tags with the same number were
accepted as the universal type.
---
 src/asn1/asn1.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index d47cbd5..4bb079a 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -458,7 +458,8 @@ int asn1_decode_boolean_value(bool*               ret,
     {
         return err;
     }
-    if (tlv.tag_pc != ASN1_TAG_PC_PRIMITIVE ||
+    if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
+        tlv.tag_pc != ASN1_TAG_PC_PRIMITIVE ||
         tlv.tag_number != ASN1_TAG_BOOLEAN || tlv.length != 1)
     {
         return -1;
@@ -479,7 +480,8 @@ int asn1_decode_integer_value(const std::uint8_t** data_ptr,
     {
         return err;
     }
-    if (tlv.tag_pc != ASN1_TAG_PC_PRIMITIVE ||
+    if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
+        tlv.tag_pc != ASN1_TAG_PC_PRIMITIVE ||
         tlv.tag_number != ASN1_TAG_INTEGER || tlv.length == 0)
     {
         return -1;
@@ -522,7 +524,8 @@ int asn1_decode_bit_string_value(const std::uint8_t** data_ptr,
     {
         return err;
     }
-    if (tlv.tag_number != ASN1_TAG_BIT_STRING || tlv.length == 0)
+    if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
+        tlv.tag_number != ASN1_TAG_BIT_STRING || tlv.length == 0)
     {
         return -1;
     }
@@ -553,7 +556,8 @@ int asn1_decode_octet_string_value(const std::uint8_t** data_ptr,
     {
         return err;
     }
-    if (tlv.tag_number != ASN1_TAG_OCTET_STRING)
+    if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
+        tlv.tag_number != ASN1_TAG_OCTET_STRING)
     {
         return -1;
     }
@@ -573,7 +577,8 @@ int asn1_decode_null_value(std::size_t*        read_num,
     {
         return err;
     }
-    if (tlv.tag_pc != ASN1_TAG_PC_PRIMITIVE ||
+    if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
+        tlv.tag_pc != ASN1_TAG_PC_PRIMITIVE ||
         tlv.tag_number != ASN1_TAG_NULL || tlv.length != 0)
     {
         return -1;
@@ -593,7 +598,8 @@ int asn1_decode_sequence_value(const std::uint8_t** value_ptr,
     {
         return err;
     }
-    if (tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
+    if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
+        tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
         tlv.tag_number != ASN1_TAG_SEQUENCE)
     {
         return -1;
@@ -616,7 +622,8 @@ int asn1_decode_set_value(const std::uint8_t** value_ptr,
     {
         return err;
     }
-    if (tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
+    if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
+        tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
         tlv.tag_number != ASN1_TAG_SET)
     {
         return -1;
-- 
2.43.0


From 4e9f5056229f11449a50555eb64c6af2e807efa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:55 +0000
Subject: [PATCH 12/42] fix: ASN.1 length computation reserves the leading
 length octet

A value length of 2^56 or more takes nine length octets.
---
 src/asn1/asn1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 4bb079a..35c71a9 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -231,7 +231,7 @@ const char* asn1_tag_number_name(Asn1TagNumber tag_number) noexcept
 
 std::size_t asn1_encode_tlv_outl(std::size_t value_length) noexcept
 {
-    std::uint8_t l_buf[sizeof(std::size_t)];
+    std::uint8_t l_buf[1 + sizeof(std::size_t)];
     std::size_t  l_size;
     asn1_encode_length_octets(l_buf, &l_size, value_length);
     return 1 + l_size + value_length;
-- 
2.43.0


From bd1a527ade1138c37ab1f39e0458dfb9d4086e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:55 +0000
Subject: [PATCH 13/42] fix: ASN.1 INTEGER encoding is minimal

Leading zero octets were kept and zero-length data gave an INTEGER without
contents; the library's own decoder rejects both.
---
 src/asn1/asn1.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 35c71a9..b6d8031 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -253,9 +253,13 @@ static std::size_t asn1_encode_integer_value_length(
     std::size_t         data_len) noexcept
 {
     std::size_t value_length;
+    while (data_len && data[0] == 0)
+    {
+        data++, data_len--;
+    }
     if (data_len == 0)
     {
-        value_length = 0;
+        value_length = 1;
     }
     else
     {
@@ -352,7 +356,15 @@ void asn1_encode_integer_tlv(std::uint8_t*       out,
                    ASN1_TAG_INTEGER,         //
                    asn1_encode_integer_value_length(data, data_len));
     out += n, *outl = n;
-    if (data_len)
+    while (data_len && data[0] == 0)
+    {
+        data++, data_len--;
+    }
+    if (data_len == 0)
+    {
+        *out = 0, *outl += 1;
+    }
+    else
     {
         if (data[0] >= 0x80)
         {
-- 
2.43.0


From d31e7a91ba688569160d2b888cc725c271205580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:55 +0000
Subject: [PATCH 14/42] fix: asn1_dump reports errors in nested values

---
 src/asn1/asn1_dump.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/asn1/asn1_dump.cpp b/src/asn1/asn1_dump.cpp
index 2489002..3911682 100644
--- a/src/asn1/asn1_dump.cpp
+++ b/src/asn1/asn1_dump.cpp
@@ -36,7 +36,11 @@ static int r_asn1_dump(const std::uint8_t* in,
         printf(",%s)\n", asn1_tag_pc_name(tlv.tag_pc));
         if (tlv.tag_pc == ASN1_TAG_PC_CONSTRUCTED)
         {
-            r_asn1_dump(tlv.value, tlv.length, depth + 1);
+            err = r_asn1_dump(tlv.value, tlv.length, depth + 1);
+            if (err)
+            {
+                return err;
+            }
         }
         else
         {
-- 
2.43.0


From 896c4610e7bae709cd9152919c82e5995340f872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:55 +0000
Subject: [PATCH 15/42] fix: SM2 public key ASN.1 decoding requires exactly 65
 octets

---
 src/sm2/sm2p256v1_asn1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sm2/sm2p256v1_asn1.cpp b/src/sm2/sm2p256v1_asn1.cpp
index 6c9d04e..26d50a9 100644
--- a/src/sm2/sm2p256v1_asn1.cpp
+++ b/src/sm2/sm2p256v1_asn1.cpp
@@ -67,7 +67,7 @@ int sm2_public_key_asn1_decode(ASN1_SM2PublicKey*  pub,
     {
         return -1;
     }
-    if (data_length != 65 && data_bits != 65 * 8)
+    if (data_length != 65 || data_bits != 65 * 8)
     {
         return -1;
     }
-- 
2.43.0


From 0e1fc5764084f96fcc4ddddd4007444f7dae528a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:55 +0000
Subject: [PATCH 16/42] fix: SM2 key generation never yields n-1

n-1 is not a valid private key: set_priv() rejects it and signing with it
never terminates, because 1+d has no inverse.
---
 include/gmlib/sm2/sm2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index 12be82a..ab1d326 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -557,7 +557,7 @@ inline void SM2PrivateKey<Hash>::gen_priv(rng::Rng& rng)
     internal::sm2_bn_t d;
     rng.gen(priv_key, 32);
     internal::sm2_bn_from_bytes(d, priv_key);
-    internal::sm2_bn_mod_n_sub1(d);
+    internal::sm2_bn_mod_n_sub2(d);
     internal::sm2_bn_add_uint32(d, d, 1);
     internal::sm2_bn_to_bytes(priv_, d);
     // set pub
-- 
2.43.0


From 643f8ec162bd8ae91514f3da37690d703ea7833c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:55 +0000
Subject: [PATCH 17/42] fix: SM2 verify returns false for an over-long id

verify() is noexcept, so the exception thrown while hashing the id
terminated the process.
---
 include/gmlib/sm2/sm2.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index ab1d326..eff4af9 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -428,6 +428,11 @@ inline bool SM2PublicKey<Hash>::verify_(const std::uint8_t  sig_r[32],
     internal::sm2_num_t e, r, s, tmp;
     internal::sm2_ec_t  sG, tP;
 
+    // id is too long to have been signed
+    if (id_len > UINT16_MAX / 8)
+    {
+        return false;
+    }
     // r' in [1,n-1]?, s' in [1,n-1]?
     internal::sm2_bn_from_bytes(r.bn, sig_r);
     internal::sm2_bn_from_bytes(s.bn, sig_s);
-- 
2.43.0


From 63d07557d5818fb0512dd1fb404868a34f8cc8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:55 +0000
Subject: [PATCH 18/42] fix: SM2 verify rejects a signature whose point is at
 infinity

The point at infinity was treated as x = 0.
---
 include/gmlib/sm2/sm2.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index eff4af9..d461ef9 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -465,6 +465,10 @@ inline bool SM2PublicKey<Hash>::verify_(const std::uint8_t  sig_r[32],
     internal::sm2_ec_j_mul_g(sG.j, sig_s);
     internal::sm2_ec_j_mul_a(tP.j, t, tP.a);
     internal::sm2_ec_j_add(tP.j, sG.j, tP.j);
+    if (internal::sm2_ec_j_is_inf(tP.j))
+    {
+        return false;
+    }
     internal::sm2_ec_j_to_a(tP.a, tP.j);
     // R = e' + x1' mod n
     internal::sm2_fn_from_fp(tmp.fn, tP.a[0]);
-- 
2.43.0


From 1b675c16f08c80bb9965864f9b06cbc64ec05fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:55 +0000
Subject: [PATCH 19/42] fix: SM2 set_pub rejects coordinates that are not field
 elements

Coordinates of p or more were silently reduced for the curve check but kept
as given for the signer hash.
---
 include/gmlib/sm2/sm2.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index d461ef9..cbbcae7 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -354,6 +354,15 @@ inline void SM2PublicKey<Hash>::set_pub(const std::uint8_t x[32],
                                         const std::uint8_t y[32])
 {
     internal::sm2_ec_a T;
+    internal::sm2_bn_t x_bn, y_bn, p_bn;
+    internal::sm2_bn_from_bytes(x_bn, x);
+    internal::sm2_bn_from_bytes(y_bn, y);
+    internal::sm2_bn_from_bytes(p_bn, internal::SM2_CURVE_P);
+    if (internal::sm2_bn_cmp(x_bn, p_bn) >= 0 ||
+        internal::sm2_bn_cmp(y_bn, p_bn) >= 0)
+    {
+        throw std::runtime_error("invalid sm2p256v1 PublicKey");
+    }
     internal::sm2_fp_from_bytes(T[0], x);
     internal::sm2_fp_from_bytes(T[1], y);
     if (!internal::sm2_ec_a_check(T))
-- 
2.43.0


From e4d2bba58ba4279f6faf085aecbecbacffcc878e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:55 +0000
Subject: [PATCH 20/42] fix: SM2 point decoding checks the input length

---
 src/sm2/sm2p256v1.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sm2/sm2p256v1.cpp b/src/sm2/sm2p256v1.cpp
index 8046bd8..61b6b74 100644
--- a/src/sm2/sm2p256v1.cpp
+++ b/src/sm2/sm2p256v1.cpp
@@ -462,11 +462,19 @@ int sm2_ec_a_from_bytes(sm2_ec_a            R,
     }
     if (in[0] == 0x04 || in[0] == 0x06 || in[0] == 0x07)
     {
+        if (inl < 65)
+        {
+            return -1;
+        }
         *read_n = 65;
         sm2_ec_a_from_bytes04(R, in + 1);
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
     {
+        if (inl < 33)
+        {
+            return -1;
+        }
         *read_n = 33;
         sm2_fp_from_bytes(R[0], in + 1);
         int y_hat = in[0] == 0x02 ? 0 : 1;
-- 
2.43.0


From 7afd3cb8e47f9db02b70ab04ad69aa07af9de4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:55 +0000
Subject: [PATCH 21/42] fix: SM2 point decoding rejects non-canonical encodings

Coordinates of p or more and hybrid encodings whose parity does not match y
were accepted, so one point had several accepted encodings.
---
 src/sm2/sm2p256v1.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/sm2/sm2p256v1.cpp b/src/sm2/sm2p256v1.cpp
index 61b6b74..06578c4 100644
--- a/src/sm2/sm2p256v1.cpp
+++ b/src/sm2/sm2p256v1.cpp
@@ -426,6 +426,13 @@ void sm2_ec_a_to_bytes_mix(std::uint8_t out[65], const sm2_ec_a P) noexcept
     out[0] = ((out[64] & 1) == 0) ? 0x06 : 0x07;
 }
 
+static bool sm2_fp_bytes_check(const std::uint8_t in[32]) noexcept
+{
+    sm2_bn_t t;
+    sm2_bn_from_bytes(t, in);
+    return sm2_bn_cmp(t, P.v) < 0;
+}
+
 static int sm2_ec_recover_y(sm2_fp_t y, const sm2_fp_t x, int y_hat) noexcept
 {
     // y^2 = x^3 + ax + b
@@ -466,6 +473,14 @@ int sm2_ec_a_from_bytes(sm2_ec_a            R,
         {
             return -1;
         }
+        if (!sm2_fp_bytes_check(in + 1) || !sm2_fp_bytes_check(in + 33))
+        {
+            return -1;
+        }
+        if (in[0] != 0x04 && (in[0] & 1) != (in[64] & 1))
+        {
+            return -1;
+        }
         *read_n = 65;
         sm2_ec_a_from_bytes04(R, in + 1);
     }
@@ -475,6 +490,10 @@ int sm2_ec_a_from_bytes(sm2_ec_a            R,
         {
             return -1;
         }
+        if (!sm2_fp_bytes_check(in + 1))
+        {
+            return -1;
+        }
         *read_n = 33;
         sm2_fp_from_bytes(R[0], in + 1);
         int y_hat = in[0] == 0x02 ? 0 : 1;
-- 
2.43.0


From 91a5dbea8015a64fbc34b5172c00a578bde02bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:10 +0000
Subject: [PATCH 22/42] fix: mpz_cmp (x64) compares the most significant limb
 first

---
 src/number/mpz_x64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/number/mpz_x64.cpp b/src/number/mpz_x64.cpp
index 551a411..f02ffaf 100644
--- a/src/number/mpz_x64.cpp
+++ b/src/number/mpz_x64.cpp
@@ -94,8 +94,8 @@ int mpz_cmp(const std::uint64_t* a,
     for (std::size_t i = 0; i < limb_size; i++)
     {
         std::size_t pos = limb_size - 1 - i;
-        if (a[i] > b[i]) return 1;
-        if (a[i] < b[i]) return -1;
+        if (a[pos] > b[pos]) return 1;
+        if (a[pos] < b[pos]) return -1;
     }
     return 0;
 }
-- 
2.43.0


From 1eef86d494a75e391c22f41a74ff8df24787751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:10 +0000
Subject: [PATCH 23/42] fix: mont256_neg (common) of zero is zero, not p

---
 src/number/mont256_common.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/number/mont256_common.cpp b/src/number/mont256_common.cpp
index a9ff88d..58a8e39 100644
--- a/src/number/mont256_common.cpp
+++ b/src/number/mont256_common.cpp
@@ -143,6 +143,7 @@ void mont256_neg(const Mont256CTX*   ctx,
     if (uint256_equal_zero(num))
     {
         uint256_set_zero(ret);
+        return;
     }
     uint256_sub_borrow(ret, ctx->P, num);
 }
-- 
2.43.0


From 1f6a443b82ec90cea4008d825ddc576e916c0994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:10 +0000
Subject: [PATCH 24/42] fix: mont256_pow with exponent zero is one in
 Montgomery form

---
 src/number/mont256_common.cpp | 2 +-
 src/number/mont256_x64.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/number/mont256_common.cpp b/src/number/mont256_common.cpp
index 58a8e39..e801fcc 100644
--- a/src/number/mont256_common.cpp
+++ b/src/number/mont256_common.cpp
@@ -197,7 +197,7 @@ void mont256_pow(const Mont256CTX*   ctx,
     }
     if (uint256_equal_zero(exponent))
     {
-        uint256_set_one(power);
+        mont256_set_one(ctx, power);
         return;
     }
 
diff --git a/src/number/mont256_x64.cpp b/src/number/mont256_x64.cpp
index d7a9caa..3d58aa8 100644
--- a/src/number/mont256_x64.cpp
+++ b/src/number/mont256_x64.cpp
@@ -252,7 +252,7 @@ void mont256_pow(const Mont256CTX*   ctx,
     }
     if (uint256_equal_zero(exponent))
     {
-        uint256_set_one(power);
+        mont256_set_one(ctx, power);
         return;
     }
 
-- 
2.43.0


From 0c738a032f87bd0b86ef55713474541d1d565203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:09 +0000
Subject: [PATCH 25/42] fix: sm9_fp12_pow with exponent zero is one

The search for the first non-zero octet ran past the end of the exponent.
---
 src/sm9/sm9_field.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 9be388b..ef3055f 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -920,6 +920,13 @@ void sm9_fp12_pow(sm9_fp12_t         r,
     sm9_fp12_t t, lut_table[16 - 2]; // j: base^(j+2)
     int        i = 0;
 
+    while (i < 32 && e_u8[i] == 0) i++;
+    if (i == 32)
+    {
+        sm9_fp12_set_one(r);
+        return;
+    }
+
     // init lut table
     sm9_fp12_sqr(lut_table[0], a);
     for (int j = 1; j < 14; j++)
@@ -927,7 +934,6 @@ void sm9_fp12_pow(sm9_fp12_t         r,
         sm9_fp12_mul(lut_table[j], lut_table[j - 1], a);
     }
     // compute power
-    while (e_u8[i] == 0) i++;
     if (e_u8[i] > 0xF)
     {
         int index = (e_u8[i] >> 4) & 0xF;
-- 
2.43.0


From 35eecae50a7526e50066077b96261ce8f84fa445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:09 +0000
Subject: [PATCH 26/42] fix: SM9 verify rejects h outside [1, N-1]

The standard requires the check before h is used as an exponent.
---
 include/gmlib/sm9/sm9.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/gmlib/sm9/sm9.h b/include/gmlib/sm9/sm9.h
index ab69cbe..adb5def 100644
--- a/include/gmlib/sm9/sm9.h
+++ b/include/gmlib/sm9/sm9.h
@@ -411,6 +411,15 @@ inline bool SM9SignMasterPublicKey<Hash>::verify(
     {
         return false;
     }
+    // check h in [1, N-1]
+    internal::sm9_bn_t h_bn, N;
+    internal::sm9_bn_from_bytes(h_bn, h);
+    internal::sm9_bn_from_bytes(N, internal::SM9_CURVE_N);
+    if (internal::sm9_bn_equal_zero(h_bn) ||
+        internal::sm9_bn_cmp(h_bn, N) >= 0)
+    {
+        return false;
+    }
     // t = e(P1, Ppubs)^h
     internal::sm9_fp12_pow(t, e_P1_Ppubs_, h);
     // h1 = H1(id||HID)
-- 
2.43.0


From 28cdc974a44d5655136d91c38d21786e63aee14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:09 +0000
Subject: [PATCH 27/42] fix: SM9 point decoding checks the input length

Verifying a short signature read past its end.
---
 src/sm9/sm9_field.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index ef3055f..939a0b5 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1073,11 +1073,19 @@ int sm9_ec_a_from_bytes(sm9_ec_a            R,
     }
     if (in[0] == 0x04 || in[0] == 0x06 || in[0] == 0x07)
     {
+        if (inl < 65)
+        {
+            return -1;
+        }
         *read_n = 65;
         sm9_ec_a_from_bytes04(R, in + 1);
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
     {
+        if (inl < 33)
+        {
+            return -1;
+        }
         *read_n = 33;
         sm9_fp_from_bytes(R[0], in + 1);
         int y_hat = in[0] == 0x02 ? 0 : 1;
-- 
2.43.0


From 9b78b9b137a6643d9b8dc25f1934485ddfeb449e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:09 +0000
Subject: [PATCH 28/42] fix: SM9 point decoding rejects non-canonical encodings

Coordinates of p or more and hybrid encodings whose parity does not match y
were accepted, so a valid signature could be rewritten into another one.
---
 src/sm9/sm9_field.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 939a0b5..131f7cc 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1040,6 +1040,14 @@ void sm9_ec_a_to_bytes_mix(std::uint8_t out[65], const sm9_ec_a P) noexcept
     out[0] = ((out[64] & 1) == 0) ? 0x06 : 0x07;
 }
 
+static bool sm9_fp_bytes_check(const std::uint8_t in[32]) noexcept
+{
+    sm9_bn_t t, p;
+    sm9_bn_from_bytes(t, in);
+    sm9_bn_from_bytes(p, SM9_CURVE_P);
+    return sm9_bn_cmp(t, p) < 0;
+}
+
 static int sm9_ec_recover_y(sm9_fp_t y, const sm9_fp_t x, int y_hat) noexcept
 {
     // y^2 = x^3  + b
@@ -1077,6 +1085,14 @@ int sm9_ec_a_from_bytes(sm9_ec_a            R,
         {
             return -1;
         }
+        if (!sm9_fp_bytes_check(in + 1) || !sm9_fp_bytes_check(in + 33))
+        {
+            return -1;
+        }
+        if (in[0] != 0x04 && (in[0] & 1) != (in[64] & 1))
+        {
+            return -1;
+        }
         *read_n = 65;
         sm9_ec_a_from_bytes04(R, in + 1);
     }
@@ -1086,6 +1102,10 @@ int sm9_ec_a_from_bytes(sm9_ec_a            R,
         {
             return -1;
         }
+        if (!sm9_fp_bytes_check(in + 1))
+        {
+            return -1;
+        }
         *read_n = 33;
         sm9_fp_from_bytes(R[0], in + 1);
         int y_hat = in[0] == 0x02 ? 0 : 1;
-- 
2.43.0


From f9fb3411d2edc2bed5252fe63cdb2453e028d0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:09 +0000
Subject: [PATCH 29/42] fix: SM9 verify handles [h1]P2 equal to plus or minus
 Ppub

The mixed addition does not cover doubling and the point at infinity, so a
genuine signature was rejected when h1 equals the master key.
---
 include/gmlib/sm9/sm9.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/gmlib/sm9/sm9.h b/include/gmlib/sm9/sm9.h
index adb5def..35d2520 100644
--- a/include/gmlib/sm9/sm9.h
+++ b/include/gmlib/sm9/sm9.h
@@ -425,8 +425,14 @@ inline bool SM9SignMasterPublicKey<Hash>::verify(
     // h1 = H1(id||HID)
     internal::sm9_Hn<Hash>(h_, id, id_len, &hid, 1, 1);
     //  P = [h1]P2 + Ppub
+    internal::sm9_ec2_j Ppub;
     internal::sm9_ec2_j_mul_g(T.j, h_);
-    internal::sm9_ec2_j_add_a(T.j, T.j, P_);
+    internal::sm9_ec2_j_from_a(Ppub, P_);
+    internal::sm9_ec2_j_add(T.j, T.j, Ppub);
+    if (internal::sm9_ec2_j_is_inf(T.j))
+    {
+        return false;
+    }
     internal::sm9_ec2_j_to_a(T.a, T.j);
     // w' = e(S', P) * t
     internal::sm9_pairing(w, S, T.a);
-- 
2.43.0


From c0b99dddb32f2612a50cb77b4a210f57be7bea95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:09 +0000
Subject: [PATCH 30/42] fix: SM9 G2 point encoding stores 64-octet coordinates

The y coordinate was written over, and read from, the second half of x.
---
 src/sm9/sm9_field.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 131f7cc..69a19e9 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1473,13 +1473,13 @@ void sm9_ec2_a_neg(sm9_ec2_a R, const sm9_ec2_a P) noexcept
 void sm9_ec2_a_to_bytes04(std::uint8_t out[128], const sm9_ec2_a P) noexcept
 {
     sm9_fp2_to_bytes(out + 0, P[0]);
-    sm9_fp2_to_bytes(out + 32, P[1]);
+    sm9_fp2_to_bytes(out + 64, P[1]);
 }
 
 void sm9_ec2_a_from_bytes04(sm9_ec2_a R, const std::uint8_t in[128]) noexcept
 {
     sm9_fp2_from_bytes(R[0], in + 0);
-    sm9_fp2_from_bytes(R[1], in + 32);
+    sm9_fp2_from_bytes(R[1], in + 64);
 }
 
 void sm9_ec2_a_to_bytes_uncompressed(std::uint8_t    out[129],
@@ -1500,7 +1500,7 @@ void sm9_ec2_a_to_bytes_compressed(std::uint8_t    out[65],
 void sm9_ec2_a_to_bytes_mix(std::uint8_t out[129], const sm9_ec2_a P) noexcept
 {
     sm9_ec2_a_to_bytes04(out + 1, P);
-    out[0] = ((out[64] & 1) == 0) ? 0x06 : 0x07;
+    out[0] = ((out[128] & 1) == 0) ? 0x06 : 0x07;
 }
 
 int sm9_ec2_a_from_bytes(sm9_ec2_a           R,
-- 
2.43.0


From d3f69afb69f61b17d889673b0486e1bfdebeaaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:09 +0000
Subject: [PATCH 31/42] fix: SM9 G2 point decoding checks the length and the
 curve equation

---
 src/sm9/sm9_field.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 69a19e9..bc97f03 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1514,9 +1514,13 @@ int sm9_ec2_a_from_bytes(sm9_ec2_a           R,
     }
     if (in[0] == 0x04 || in[0] == 0x06 || in[0] == 0x07)
     {
+        if (inl < 129)
+        {
+            return -1;
+        }
         *read_n = 129;
         sm9_ec2_a_from_bytes04(R, in + 1);
-        return 0;
+        return sm9_ec2_a_check(R) ? 0 : -1;
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
     {
-- 
2.43.0


From b53706fa8a67337d6a8f2dc8a7a8f19daa0a5127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 32/42] fix: AES-192 key expansion (AES-NI) reads only the
 24-octet key

---
 src/aes/aes_aesni.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aes/aes_aesni.cpp b/src/aes/aes_aesni.cpp
index cc2cda0..764e276 100644
--- a/src/aes/aes_aesni.cpp
+++ b/src/aes/aes_aesni.cpp
@@ -110,7 +110,7 @@ static void AES_192_Key_Expansion(const unsigned char* userkey,
     __m128i  temp1, temp2, temp3;
     __m128i* Key_Schedule = (__m128i*)key;
     temp1                 = _mm_loadu_si128((__m128i*)userkey);
-    temp3                 = _mm_loadu_si128((__m128i*)(userkey + 16));
+    temp3                 = _mm_loadl_epi64((__m128i*)(userkey + 16));
     Key_Schedule[0]       = temp1;
     Key_Schedule[1]       = temp3;
     temp2                 = _mm_aeskeygenassist_si128(temp3, 0x1);
-- 
2.43.0


From 35d2411a7b9a79181693c84666715972bd121aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 33/42] fix: SM2 point addition handles the point at infinity

---
 src/sm2/sm2p256v1.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sm2/sm2p256v1.cpp b/src/sm2/sm2p256v1.cpp
index 06578c4..72b6231 100644
--- a/src/sm2/sm2p256v1.cpp
+++ b/src/sm2/sm2p256v1.cpp
@@ -541,6 +541,18 @@ void sm2_ec_j_add(sm2_ec_j R, const sm2_ec_j P, const sm2_ec_j Q) noexcept
     // http://hyperelliptic.org/EFD/g1p/auto-shortw-jacobian-3.html#addition-add-2007-bl
     // Cost: 11M + 5S + 9add + 4*2.
 
+    // the formulas below do not cover the point at infinity
+    if (sm2_ec_j_is_inf(P))
+    {
+        sm2_ec_j_cpy(R, Q);
+        return;
+    }
+    if (sm2_ec_j_is_inf(Q))
+    {
+        sm2_ec_j_cpy(R, P);
+        return;
+    }
+
 #define X3 R[0]
 #define Y3 R[1]
 #define Z3 R[2]
-- 
2.43.0


From 944f8dca7c2b7f59c2d150b60b41cf1431202bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 34/42] fix: asn1_dump limits the nesting depth it follows

---
 src/asn1/asn1_dump.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/asn1/asn1_dump.cpp b/src/asn1/asn1_dump.cpp
index 3911682..26b17a2 100644
--- a/src/asn1/asn1_dump.cpp
+++ b/src/asn1/asn1_dump.cpp
@@ -5,6 +5,9 @@
 
 namespace asn1 {
 
+/// @brief deepest nesting that asn1_dump follows
+static const std::size_t ASN1_DUMP_MAX_DEPTH = 128;
+
 static int r_asn1_dump(const std::uint8_t* in,
                        std::size_t         inl,
                        std::size_t         depth) noexcept
@@ -12,6 +15,10 @@ static int r_asn1_dump(const std::uint8_t* in,
     Asn1TLV     tlv;
     std::size_t read_num;
     int         err;
+    if (depth > ASN1_DUMP_MAX_DEPTH)
+    {
+        return -2; // unsupport
+    }
     while (inl)
     {
         err = asn1_decode_tlv(&tlv, &read_num, in, inl);
-- 
2.43.0


From 7e67734c2247c3dec3253841a5b0b85f537e6776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:14 +0000
Subject: [PATCH 35/42] fix: SM9 G2 point decoding rejects non-canonical
 encodings

---
 src/sm9/sm9_field.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index bc97f03..c9586d0 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1518,6 +1518,17 @@ int sm9_ec2_a_from_bytes(sm9_ec2_a           R,
         {
             return -1;
         }
+        for (int i = 0; i < 4; i++)
+        {
+            if (!sm9_fp_bytes_check(in + 1 + 32 * i))
+            {
+                return -1;
+            }
+        }
+        if (in[0] != 0x04 && (in[0] & 1) != (in[128] & 1))
+        {
+            return -1;
+        }
         *read_n = 129;
         sm9_ec2_a_from_bytes04(R, in + 1);
         return sm9_ec2_a_check(R) ? 0 : -1;
-- 
2.43.0


From 633a832cab6a37601954919717d433765fd5deaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 36/42] fix: SM9 key import rejects coordinates not below p

---
 include/gmlib/sm9/sm9.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/gmlib/sm9/sm9.h b/include/gmlib/sm9/sm9.h
index 35d2520..e3bdf2e 100644
--- a/include/gmlib/sm9/sm9.h
+++ b/include/gmlib/sm9/sm9.h
@@ -360,9 +360,14 @@ inline void SM9SignMasterPublicKey<Hash>::set_pub(const std::uint8_t x[64],
                                                   const std::uint8_t y[64])
 {
     internal::sm9_ec2_a T;
+    std::uint8_t        buf[64 + 64];
     internal::sm9_fp2_from_bytes(T[0], x);
     internal::sm9_fp2_from_bytes(T[1], y);
-    if (!internal::sm9_ec2_a_check(T))
+    // check coordinates in [0, p-1]
+    internal::sm9_fp2_to_bytes(buf + 0, T[0]);
+    internal::sm9_fp2_to_bytes(buf + 64, T[1]);
+    if (std::memcmp(buf + 0, x, 64) || std::memcmp(buf + 64, y, 64) ||
+        !internal::sm9_ec2_a_check(T))
     {
         throw std::runtime_error("invalid sm9 SignPublicKey");
     }
@@ -451,9 +456,14 @@ inline void SM9SignPrivateKey<Hash>::set_priv(const std::uint8_t priv_x[32],
                                               const std::uint8_t pub_y[64])
 {
     internal::sm9_ec_a T;
+    std::uint8_t       buf[32 + 32];
     internal::sm9_fp_from_bytes(T[0], priv_x);
     internal::sm9_fp_from_bytes(T[1], priv_y);
-    if (!internal::sm9_ec_a_check(T))
+    // check coordinates in [0, p-1]
+    internal::sm9_fp_to_bytes(buf + 0, T[0]);
+    internal::sm9_fp_to_bytes(buf + 32, T[1]);
+    if (std::memcmp(buf + 0, priv_x, 32) || std::memcmp(buf + 32, priv_y, 32) ||
+        !internal::sm9_ec_a_check(T))
     {
         throw std::runtime_error("invalid sm9 SignPrivateKey");
     }
-- 
2.43.0


From 84be7e436677939b7b871010f16eaa38af131b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:17 +0000
Subject: [PATCH 37/42] fix: refused SM9 user key leaves the object unchanged

---
 include/gmlib/sm9/sm9.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/gmlib/sm9/sm9.h b/include/gmlib/sm9/sm9.h
index e3bdf2e..8d7b7a2 100644
--- a/include/gmlib/sm9/sm9.h
+++ b/include/gmlib/sm9/sm9.h
@@ -467,9 +467,8 @@ inline void SM9SignPrivateKey<Hash>::set_priv(const std::uint8_t priv_x[32],
     {
         throw std::runtime_error("invalid sm9 SignPrivateKey");
     }
-    internal::sm9_ec_a_cpy(priv_, T);
-
     pub_.set_pub(pub_x, pub_y);
+    internal::sm9_ec_a_cpy(priv_, T);
 }
 
 template <class Hash>
-- 
2.43.0


From ffa4beb6454e9bffecf5c93444431d6acb81facc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 38/42] fix: SM9 field square root of zero is zero

---
 src/sm9/sm9_field.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index c9586d0..3a79742 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -338,6 +338,11 @@ int sm9_fp_sqrt(sm9_fp_t r, const sm9_fp_t a) noexcept
     };
     number::mont256_t z;
     number::mont256_t neg1;
+    if (number::mont256_equal_zero(&FP_MONT_CTX, a)) // sqrt(0) = 0
+    {
+        number::mont256_cpy(&FP_MONT_CTX, r, a);
+        return 0;
+    }
     number::mont256_set_one(&FP_MONT_CTX, neg1);
     number::mont256_neg(&FP_MONT_CTX, neg1, neg1);
     // z = a^(2u+1)
-- 
2.43.0


From ba77dde38798e322aafa3ae3f2483b382f3f779d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 39/42] fix: SM9 point addition handles the point at infinity

---
 src/sm9/sm9_field.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 3a79742..ad7a6fd 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1158,6 +1158,19 @@ void sm9_ec_j_add(sm9_ec_j R, const sm9_ec_j P, const sm9_ec_j Q) noexcept
     // http://hyperelliptic.org/EFD/g1p/auto-shortw-jacobian-0.html#addition-add-2007-bl
     // Cost: 11M + 5S + 9add + 4*2.
     sm9_fp_t Z1Z1, Z2Z2, U1, U2, S1, S2, H, I, J, r, V;
+
+    // the formulas below do not cover the point at infinity
+    if (sm9_ec_j_is_inf(P))
+    {
+        sm9_ec_j_cpy(R, Q);
+        return;
+    }
+    if (sm9_ec_j_is_inf(Q))
+    {
+        sm9_ec_j_cpy(R, P);
+        return;
+    }
+
 #define X3 R[0]
 #define Y3 R[1]
 #define Z3 R[2]
@@ -1580,6 +1593,19 @@ void sm9_ec2_j_add(sm9_ec2_j R, const sm9_ec2_j P, const sm9_ec2_j Q) noexcept
     // http://hyperelliptic.org/EFD/g1p/auto-shortw-jacobian-0.html#addition-add-2007-bl
     // Cost: 11M + 5S + 9add + 4*2.
     sm9_fp2_t Z1Z1, Z2Z2, U1, U2, S1, S2, H, I, J, r, V;
+
+    // the formulas below do not cover the point at infinity
+    if (sm9_ec2_j_is_inf(P))
+    {
+        sm9_ec2_j_cpy(R, Q);
+        return;
+    }
+    if (sm9_ec2_j_is_inf(Q))
+    {
+        sm9_ec2_j_cpy(R, P);
+        return;
+    }
+
 #define X3 R[0]
 #define Y3 R[1]
 #define Z3 R[2]
-- 
2.43.0


From 234b45c9db1c314545565f10aa8b33f84b472f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 40/42] fix: SM9 mixed point addition handles equal and
 opposite operands

---
 src/sm9/sm9_field.cpp | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index ad7a6fd..11e0c7d 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1258,6 +1258,22 @@ void sm9_ec_j_add_a(sm9_ec_j R, const sm9_ec_j P, const sm9_ec_a Q) noexcept
     sm9_fp_mul(U2, X2, Z1Z1); //  U2 = X2*Z1Z1
     sm9_fp_mul(S2, Y2, Z1);
     sm9_fp_mul(S2, S2, Z1Z1); //  S2 = Y2*Z1*Z1Z1
+
+    // the formulas below do not cover P = +-Q, e.g. -P + (-P), the last step
+    // of (N-2)P
+    if (sm9_fp_equal(U2, X1))
+    {
+        if (sm9_fp_equal(S2, Y1))
+        {
+            sm9_ec_j_dbl(R, P);
+        }
+        else
+        {
+            sm9_ec_j_set_inf(R);
+        }
+        return;
+    }
+
     sm9_fp_sub(H, U2, X1);    // H = U2-X1
     sm9_fp_sqr(HH, H);        // HH = H^2
     sm9_fp_dbl(I, HH);
@@ -1693,6 +1709,22 @@ void sm9_ec2_j_add_a(sm9_ec2_j R, const sm9_ec2_j P, const sm9_ec2_a Q) noexcept
     sm9_fp2_mul(U2, X2, Z1Z1); //  U2 = X2*Z1Z1
     sm9_fp2_mul(S2, Y2, Z1);
     sm9_fp2_mul(S2, S2, Z1Z1); //  S2 = Y2*Z1*Z1Z1
+
+    // the formulas below do not cover P = +-Q, e.g. -P + (-P), the last step
+    // of (N-2)P
+    if (sm9_fp2_equal(U2, X1))
+    {
+        if (sm9_fp2_equal(S2, Y1))
+        {
+            sm9_ec2_j_dbl(R, P);
+        }
+        else
+        {
+            sm9_ec2_j_set_inf(R);
+        }
+        return;
+    }
+
     sm9_fp2_sub(H, U2, X1);    // H = U2-X1
     sm9_fp2_sqr(HH, H);        // HH = H^2
     sm9_fp2_dbl(I, HH);
-- 
2.43.0


From 5aa3e0d07d5ddd4e297a7ff5e0fa618772481937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:54 +0000
Subject: [PATCH 41/42] fix: SM2 mixed point addition handles infinity, equal
 and opposite operands

---
 src/sm2/sm2p256v1.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/sm2/sm2p256v1.cpp b/src/sm2/sm2p256v1.cpp
index 72b6231..67f73e6 100644
--- a/src/sm2/sm2p256v1.cpp
+++ b/src/sm2/sm2p256v1.cpp
@@ -635,12 +635,34 @@ void sm2_ec_j_add_a(sm2_ec_j R, const sm2_ec_j P, const sm2_ec_a Q) noexcept
 #define X2 Q[0]
 #define Y2 Q[1]
 
+    // the formulas below do not cover the point at infinity
+    if (sm2_ec_j_is_inf(P))
+    {
+        sm2_ec_j_from_a(R, Q);
+        return;
+    }
+
     sm2_fp_t Z1Z1, U2, S2, H, HH, I, J, r, V;
 
     sm2_fp_sqr(Z1Z1, Z1);     // Z1Z1 = Z1^2
     sm2_fp_mul(U2, X2, Z1Z1); //  U2 = X2*Z1Z1
     sm2_fp_mul(S2, Y2, Z1);
     sm2_fp_mul(S2, S2, Z1Z1); //  S2 = Y2*Z1*Z1Z1
+
+    // the formulas below do not cover P = +-Q
+    if (sm2_fp_equal(U2, X1))
+    {
+        if (sm2_fp_equal(S2, Y1))
+        {
+            sm2_ec_j_dbl(R, P);
+        }
+        else
+        {
+            sm2_ec_j_set_inf(R);
+        }
+        return;
+    }
+
     sm2_fp_sub(H, U2, X1);    // H = U2-X1
     sm2_fp_sqr(HH, H);        // HH = H^2
     sm2_fp_dbl(I, HH);
-- 
2.43.0


From 44f5b0398979124473697497bf8e1d804bdc93a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:54 +0000
Subject: [PATCH 42/42] fix: SM9 mixed point addition handles the point at
 infinity

---
 src/sm9/sm9_field.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 11e0c7d..2d618f5 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1252,6 +1252,13 @@ void sm9_ec_j_add_a(sm9_ec_j R, const sm9_ec_j P, const sm9_ec_a Q) noexcept
 #define X2 Q[0]
 #define Y2 Q[1]
 
+    // the formulas below do not cover the point at infinity
+    if (sm9_ec_j_is_inf(P))
+    {
+        sm9_ec_j_from_a(R, Q);
+        return;
+    }
+
     sm9_fp_t Z1Z1, U2, S2, H, HH, I, J, r, V;
 
     sm9_fp_sqr(Z1Z1, Z1);     // Z1Z1 = Z1^2
@@ -1703,6 +1710,13 @@ void sm9_ec2_j_add_a(sm9_ec2_j R, const sm9_ec2_j P, const sm9_ec2_a Q) noexcept
 #define X2 Q[0]
 #define Y2 Q[1]
 
+    // the formulas below do not cover the point at infinity
+    if (sm9_ec2_j_is_inf(P))
+    {
+        sm9_ec2_j_from_a(R, Q);
+        return;
+    }
+
     sm9_fp2_t Z1Z1, U2, S2, H, HH, I, J, r, V;
 
     sm9_fp2_sqr(Z1Z1, Z1);     // Z1Z1 = Z1^2
-- 
2.43.0

