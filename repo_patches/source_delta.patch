From 6a6b5866ecca0501702ff628910e49798cae5e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 01/37] fix: HMAC keys longer than the block are hashed, not
 truncated

---
 src/hmac/hmac.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hmac/hmac.c b/src/hmac/hmac.c
index 3474c27..9a16e48 100644
--- a/src/hmac/hmac.c
+++ b/src/hmac/hmac.c
@@ -21,6 +21,13 @@
     void pgfe_hmac_##name##_set_key(                                                                                   \
         struct pgfe_hmac_##name##_ctx *ctx, const pgfe_encode_t key[], size_t key_length                               \
     ) {                                                                                                                \
+        pgfe_encode_t key_hash[PGFE_##upper##_DIGEST_SIZE];                                                            \
+        /* RFC 2104: a key longer than the block is replaced by its hash */                                            \
+        if (key_length > PGFE_##upper##_BLOCK_SIZE) {                                                                  \
+            pgfe_##name##_encode(key, key_length, key_hash);                                                           \
+            key = key_hash;                                                                                            \
+            key_length = PGFE_##upper##_DIGEST_SIZE;                                                                   \
+        }                                                                                                              \
         arrcpy(ctx->k_i_pad, PGFE_##upper##_BLOCK_SIZE, key, key_length);                                              \
         arrcpy(ctx->k_o_pad, PGFE_##upper##_BLOCK_SIZE, key, key_length);                                              \
         for (size_t i = 0; i < PGFE_##upper##_BLOCK_SIZE; i++) {                                                       \
-- 
2.43.0


From e249dbd21fbdb3c2c7d845e536a3c5bf25bc54ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 02/37] fix: base encodings pad by input length, not by
 trailing zero characters

---
 src/base_encoding/base-encoding-internal.c | 13 ++++---------
 src/base_encoding/base-encoding-internal.h |  2 +-
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/base_encoding/base-encoding-internal.c b/src/base_encoding/base-encoding-internal.c
index 9d21d79..ad828db 100644
--- a/src/base_encoding/base-encoding-internal.c
+++ b/src/base_encoding/base-encoding-internal.c
@@ -49,7 +49,7 @@ size_t transform(const pgfe_encode_t input[], size_t length, uint8_t chunk_size,
 
 size_t unittostr(
     size_t chunk_count, size_t unit_size, size_t bit_size, size_t alphabet_size, const char alphabet[],
-    const pgfe_encode_t unit[], char out[], bool padding
+    const pgfe_encode_t unit[], char out[], size_t missing
 ) {
     char unit_s[chunk_count];
     pgfe_encode_t unit_split[chunk_count];
@@ -60,14 +60,9 @@ size_t unittostr(
         unit_s[i] = alphabet[unit_split[i]];
     }
 
-    if (padding) {
-        for (i = chunk_count - 1; i >= 0; i--) {
-            if (unit_s[i] != alphabet[0]) {
-                break;
-            }
-
-            unit_s[i] = alphabet[alphabet_size];
-        }
+    // Only the characters that carry no bit of the input are padding
+    for (i = (to_bit(unit_size - missing) + bit_size - 1) / bit_size; i < chunk_count; i++) {
+        unit_s[i] = alphabet[alphabet_size];
     }
 
     memcpy(out, unit_s, chunk_count);
diff --git a/src/base_encoding/base-encoding-internal.h b/src/base_encoding/base-encoding-internal.h
index 2f9ff7d..b4cd9d1 100644
--- a/src/base_encoding/base-encoding-internal.h
+++ b/src/base_encoding/base-encoding-internal.h
@@ -36,7 +36,7 @@ pgfe_encode_t decode_base16_char(char base16_c);
 
 size_t transform(const pgfe_encode_t input[], size_t length, uint8_t chunk_size, pgfe_encode_t out[]);
 
-size_t unittostr(PGFE_BASE_PARAMS_DEF, const char alphabet[], const pgfe_encode_t unit[], char out[], bool padding);
+size_t unittostr(PGFE_BASE_PARAMS_DEF, const char alphabet[], const pgfe_encode_t unit[], char out[], size_t missing);
 
 size_t encode_base_generic(
     PGFE_BASE_PARAMS_DEF, const char alphabet[], const pgfe_encode_t input[], size_t input_length, char cs_out[]
-- 
2.43.0


From cdbd208d4ed0efc9e7a23a6fbc0c329e553de519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 03/37] fix: base encodings no longer read and write past their
 unit buffers

---
 src/base_encoding/base-encoding-internal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base_encoding/base-encoding-internal.c b/src/base_encoding/base-encoding-internal.c
index ad828db..579a2c3 100644
--- a/src/base_encoding/base-encoding-internal.c
+++ b/src/base_encoding/base-encoding-internal.c
@@ -23,7 +23,7 @@ size_t transform(const pgfe_encode_t input[], size_t length, uint8_t chunk_size,
 
     const uint8_t chunk_mask = __mkmask(chunk_size);
 
-    for (low = 0, high = chunk_size % __bitsz; inp - input <= length; inp++, op++) {
+    for (low = 0, high = chunk_size % __bitsz; inp - input < length; inp++, op++) {
         if (low < high) {
             *op = ((*inp) >> (__bitsz - high)) & chunk_mask;
             inp--;
-- 
2.43.0


From 1ebf9991f949649dc18dea2e582c7acb9102ec2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 04/37] fix: base decodings keep zero bytes, accept empty input
 and ignore trailing noise

---
 src/base_encoding/base-encoding-internal.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/base_encoding/base-encoding-internal.c b/src/base_encoding/base-encoding-internal.c
index 579a2c3..e28f941 100644
--- a/src/base_encoding/base-encoding-internal.c
+++ b/src/base_encoding/base-encoding-internal.c
@@ -100,14 +100,14 @@ size_t
 decode_base_generic(PGFE_BASE_PARAMS_DEF, pgfe_encode_t (*func)(char), const char basexx_cs[], pgfe_encode_t output[]) {
     pgfe_encode_t *op, ch, sig, o_unit[unit_size];
     const char *sp = basexx_cs;
-    size_t i, j;
+    size_t i, j, pad;
     uint64_t u;
     const uint8_t mask = __mkmask(bit_size);
 
     u = 0;
     op = output;
     while (*sp) {
-        for (i = 0; *sp && i < chunk_count; sp++) {
+        for (i = pad = 0; *sp && i < chunk_count; sp++) {
             ch = func(*sp);
             sig = ch & 0xC0;
 
@@ -115,6 +115,10 @@ decode_base_generic(PGFE_BASE_PARAMS_DEF, pgfe_encode_t (*func)(char), const cha
                 continue;
             }
 
+            if (*sp == '=') {
+                pad++;
+            }
+
             u = (u << bit_size) | (ch & mask);
 
             i++;
@@ -128,16 +132,12 @@ decode_base_generic(PGFE_BASE_PARAMS_DEF, pgfe_encode_t (*func)(char), const cha
             o_unit[j] = (pgfe_encode_t)((u >> (__bitsz * (unit_size - j - 1))) & 0xFF);
         }
 
-        memcpy(op, o_unit, unit_size);
-        op += unit_size;
+        // The characters that are not padding determine the bytes of the unit
+        j = (i - pad) * bit_size / __bitsz;
+        memcpy(op, o_unit, j);
+        op += j;
     }
 
-    // Determine end of the output
-    op -= unit_size;
-    for (i = 0; i < unit_size && op[i] == o_unit[i] && op[i]; i++)
-        ;
-
-    op += i;
     *op = 0;
     return op - output;
 }
\ No newline at end of file
-- 
2.43.0


From 6696f6b6617823f69f23007760a80e324412b755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 05/37] fix: an empty MD5 update leaves the context alone

---
 src/hashes/md5.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashes/md5.c b/src/hashes/md5.c
index f6ceaf8..4a90d52 100644
--- a/src/hashes/md5.c
+++ b/src/hashes/md5.c
@@ -30,7 +30,7 @@ void pgfe_md5_init(struct pgfe_md5_ctx *ctx) {
 }
 
 void pgfe_md5_update(struct pgfe_md5_ctx *ctx, const pgfe_encode_t input[], size_t length) {
-    if (!ctx || !input) return;
+    if (!ctx || !input || !length) return;
 
     size_t read_len, written_len, remainder, offset;
     const pgfe_encode_t *p;
-- 
2.43.0


From 7ab7cd0ec642afdd653d7f0a037a9710dddc6f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 06/37] fix: SHA-1 and SHA-2 updates of 2 GiB and more

---
 src/hashes/sha2-backend.c | 2 +-
 src/hashes/templates.h    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hashes/sha2-backend.c b/src/hashes/sha2-backend.c
index 57677c0..ead5014 100644
--- a/src/hashes/sha2-backend.c
+++ b/src/hashes/sha2-backend.c
@@ -195,7 +195,7 @@ void sha384n512_update(struct pgfe_sha512_ctx *ctx, const pgfe_encode_t input[],
     const pgfe_encode_t *inp = input;
     int corrupt_flag = 0, tmpflag;
     uint64_t tmp_low;
-    for (int i = 0; i < length && !corrupt_flag; i++) {
+    for (size_t i = 0; i < length && !corrupt_flag; i++) {
         ctx->block[ctx->index++] = *inp;
 
         tmp_low = ctx->len_low;
diff --git a/src/hashes/templates.h b/src/hashes/templates.h
index 88a9a2c..d7e2533 100644
--- a/src/hashes/templates.h
+++ b/src/hashes/templates.h
@@ -139,7 +139,7 @@ extern "C" {
         const pgfe_encode_t *inp = input;                                                                              \
         int corrupt_flag = 0;                                                                                          \
         uint32_t tmp_low;                                                                                              \
-        for (int i = 0; i < length && !corrupt_flag; i++) {                                                            \
+        for (size_t i = 0; i < length && !corrupt_flag; i++) {                                                           \
             ctx->block[ctx->index++] = *inp;                                                                           \
                                                                                                                        \
             tmp_low = ctx->len_low;                                                                                    \
-- 
2.43.0


From 6fa3774a6bc00273ea18a60ea1735e96e029ba30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 07/37] fix: SHA-3 and SHAKE updates of 512 MiB and more on a
 partly filled queue

---
 src/hashes/keccak-backend.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hashes/keccak-backend.c b/src/hashes/keccak-backend.c
index de66566..979fac0 100644
--- a/src/hashes/keccak-backend.c
+++ b/src/hashes/keccak-backend.c
@@ -182,9 +182,9 @@ int keccak_absorb_b1600(struct pgfe_keccak_sponge_ctx *ctx, const pgfe_encode_t
             i += whole_blocks * ctx->rate;
         }
         else {
-            partial_block = (uint32_t)(bit_len - i);
-            if (partial_block + ctx->inqueue_bits > ctx->rate) {
-                partial_block = ctx->rate - ctx->inqueue_bits;
+            partial_block = ctx->rate - ctx->inqueue_bits;
+            if (partial_block > bit_len - i) {
+                partial_block = (uint32_t)(bit_len - i);
             }
 
             partial_byte = bit_rem(partial_block);
-- 
2.43.0


From 903f116241e2a6f76c6e9d964c3a0da11a2100e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 08/37] fix: SHAKE outputs of 512 MiB and more

---
 include/libpgfe/hashes/sha3.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libpgfe/hashes/sha3.h b/include/libpgfe/hashes/sha3.h
index d35468a..70eef4a 100644
--- a/include/libpgfe/hashes/sha3.h
+++ b/include/libpgfe/hashes/sha3.h
@@ -27,7 +27,8 @@ struct pgfe_keccak_sponge_ctx
 {
     pgfe_keccak_bitcube_t state;                                    // Keccak sponge state array
     pgfe_encode_t data_queue[pgfe_to_byte(__PGFE_KECCAK_MAX_RATE)]; // Data queue
-    uint32_t rate, capacity, inqueue_bits, out_length;              // Rate, capacity, bits in queue, output bit length
+    uint32_t rate, capacity, inqueue_bits;                          // Rate, capacity, bits in queue
+    uint64_t out_length;                                            // Output bit length
     uint16_t nr;                                                    // Number of rounds (Usually 24)
     int squeezing;                                                  // Is squeezing
     unsigned int squeezable;                                        // Size of squeezable bits
-- 
2.43.0


From ac59918424469e74e8c27dcd70290eaf71b0095e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 09/37] fix: SHAKE writes the last partial byte of an output

---
 src/hashes/keccak-backend.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hashes/keccak-backend.c b/src/hashes/keccak-backend.c
index 979fac0..403fec2 100644
--- a/src/hashes/keccak-backend.c
+++ b/src/hashes/keccak-backend.c
@@ -233,7 +233,10 @@ int keccak_squeeze_b1600(struct pgfe_keccak_sponge_ctx *ctx, pgfe_encode_t outpu
             partial_block = (uint32_t)(bit_len - i);
         }
 
-        memcpy(output + to_byte(i), ctx->data_queue + to_byte(ctx->rate - ctx->squeezable), to_byte(partial_block));
+        memcpy(output + to_byte(i), ctx->data_queue + to_byte(ctx->rate - ctx->squeezable), to_byte(partial_block + 7));
+        if (bit_rem(partial_block)) {
+            output[to_byte(i + partial_block)] &= (1 << bit_rem(partial_block)) - 1;
+        }
         ctx->squeezable -= partial_block;
         i += partial_block;
     }
-- 
2.43.0


From 95867075c467aa0481fcd6846ecc4267c36c610c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 10/37] fix: HashEncoder::get_digest sizes its buffer for the
 digest it asks for

---
 src/hashes/hash_encoder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hashes/hash_encoder.cpp b/src/hashes/hash_encoder.cpp
index e4c64a4..d31feef 100644
--- a/src/hashes/hash_encoder.cpp
+++ b/src/hashes/hash_encoder.cpp
@@ -100,7 +100,6 @@ inline void HashEncoder::update(SequentialData &sd) {
 const SequentialData *HashEncoder::get_digest(uint64_t bitlength) {
     bool shake_flag = this->cur_alg == SHAKE128 || this->cur_alg == RawSHAKE128 || this->cur_alg == SHAKE256 ||
                       this->cur_alg == RawSHAKE256;
-    uint64_t in_len = to_byte(bitlength) + bit_rem(bitlength);
 
     if (!bitlength) {
         if (this->cur_alg == SHAKE128 || this->cur_alg == RawSHAKE128) {
@@ -111,8 +110,11 @@ const SequentialData *HashEncoder::get_digest(uint64_t bitlength) {
         }
     }
 
+    uint64_t in_len = to_byte(bitlength) + (bit_rem(bitlength) ? 1 : 0);
     size_t length = shake_flag ? in_len : in_len < digsz && bitlength ? in_len : digsz;
-    pgfe_encode_t seq[length];
+    // A digest function always writes the whole digest
+    std::unique_ptr<pgfe_encode_t[]> buffer = std::make_unique<pgfe_encode_t[]>(length < digsz ? digsz : length);
+    pgfe_encode_t *seq = buffer.get();
 
     if (shake_flag) {
         __PGFE_BATCH_SHAKE_CASES(DIGEST_FUNC_CALL_LIMIT)
-- 
2.43.0


From 6e87a8151e78e229eb3bcec2715cc7da46adcaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 11/37] fix: no use of a length before the call that sets it

---
 include/libpgfe/abstract_encoder.hpp | 3 +--
 src/hmac/hmac_encoder.cpp            | 3 +--
 src/otp/abstract_otp.cpp             | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/libpgfe/abstract_encoder.hpp b/include/libpgfe/abstract_encoder.hpp
index 766b137..d7cdd22 100644
--- a/include/libpgfe/abstract_encoder.hpp
+++ b/include/libpgfe/abstract_encoder.hpp
@@ -34,8 +34,7 @@ public:
         return update((const pgfe_encode_t *)cpp_s.c_str(), cpp_s.length());
     }
     virtual void update(SequentialData &sd) {
-        size_t sz;
-        update(sd.to_pgfe_seq(sz), sz);
+        update(sd.to_pgfe_seq(), sd.length());
     }
 
     virtual const SequentialData *get_digest() {
diff --git a/src/hmac/hmac_encoder.cpp b/src/hmac/hmac_encoder.cpp
index 5276ecd..2cc62a8 100644
--- a/src/hmac/hmac_encoder.cpp
+++ b/src/hmac/hmac_encoder.cpp
@@ -73,8 +73,7 @@ void HMACEncoder::set_key(std::string &cpp_s) {
 }
 
 void HMACEncoder::set_key(SequentialData &sd) {
-    size_t sz;
-    set_key(sd.to_pgfe_seq(sz), sz);
+    set_key(sd.to_pgfe_seq(), sd.length());
 }
 
 void HMACEncoder::update(const pgfe_encode_t sequence[], size_t length) {
diff --git a/src/otp/abstract_otp.cpp b/src/otp/abstract_otp.cpp
index 036d298..72be17d 100644
--- a/src/otp/abstract_otp.cpp
+++ b/src/otp/abstract_otp.cpp
@@ -20,8 +20,7 @@ void AbstractOTP::set_secret(const std::string &cpp_s) {
 }
 
 void AbstractOTP::set_secret(const SequentialData &sd) {
-    size_t sz;
-    set_secret(sd.to_pgfe_seq(sz), sz);
+    set_secret(sd.to_pgfe_seq(), sd.length());
 }
 
 std::string AbstractOTP::generate_str(uint8_t digit_count) const {
-- 
2.43.0


From 2b29d9acb261e49bea708a38cc8b51d4e93a5ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 12/37] fix: the first selection of an algorithm does not
 depend on uninitialised memory

---
 include/libpgfe/algorithm_selectable.hpp | 1 +
 src/core/algorithm_selectable.cpp        | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libpgfe/algorithm_selectable.hpp b/include/libpgfe/algorithm_selectable.hpp
index ad450c0..f8d34cf 100644
--- a/include/libpgfe/algorithm_selectable.hpp
+++ b/include/libpgfe/algorithm_selectable.hpp
@@ -20,6 +20,7 @@ class AlgorithmSelectable
 {
 protected:
     pgfe_algorithm_choice cur_alg;
+    bool selected = false;
 
     virtual void before_change_alg() {}
     virtual void after_change_alg() {}
diff --git a/src/core/algorithm_selectable.cpp b/src/core/algorithm_selectable.cpp
index e0783d8..086748c 100644
--- a/src/core/algorithm_selectable.cpp
+++ b/src/core/algorithm_selectable.cpp
@@ -10,10 +10,11 @@
 using namespace libpgfe;
 
 void AlgorithmSelectable::select_algorithm(pgfe_algorithm_choice choice) {
-    if (choice == cur_alg) return;
+    if (selected && choice == cur_alg) return;
 
     before_change_alg();
     cur_alg = choice;
+    selected = true;
     after_change_alg();
 }
 
-- 
2.43.0


From bf9f2c07dd37e01909bc449f2cd6d39100436656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 13/37] fix: TOTP objects follow changes of the interval, the
 initial time and the clock

---
 src/otp/totp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/otp/totp.cpp b/src/otp/totp.cpp
index 3d23e64..2ca0f81 100644
--- a/src/otp/totp.cpp
+++ b/src/otp/totp.cpp
@@ -70,11 +70,11 @@ time_t TOTP::remaining_time() const {
 }
 
 pgfe_otp_t TOTP::generate(uint8_t digit_count) {
-    if (remaining_time() <= 0) update_counter();
+    update_counter();
     return this->HOTP::generate(digit_count);
 }
 
 std::string TOTP::generate_str(uint8_t digit_count) {
-    if (remaining_time() <= 0) update_counter();
+    update_counter();
     return this->HOTP::generate_str(digit_count);
 }
-- 
2.43.0


From 3c20d56ab6a19cd01b68af5580f8a35964f3942c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 14/37] fix: hexadecimal strings that are empty or hold other
 characters

---
 src/core/utils.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/core/utils.c b/src/core/utils.c
index 7fa55f6..1bded3c 100644
--- a/src/core/utils.c
+++ b/src/core/utils.c
@@ -28,22 +28,20 @@ size_t pgfe_hash_to_hex_string(const pgfe_encode_t hash[], size_t hash_length, c
 
 size_t pgfe_hex_string_to_hash(const char hash_s[], pgfe_encode_t hash_out[]) {
     short pos;
-    size_t hash_str_len = strlen(hash_s);
+    size_t digit_count = 0;
     pgfe_encode_t hexu = 0, tmp_o, *op;
-    char *sp = (char *)hash_s, tpc;
+    const char *sp = hash_s, *dp;
 
-    tpc = hash_s[1];
-    if (hash_str_len >= 2 && (tpc == 'x' || tpc == 'X')) {
+    if (hash_s[0] && (hash_s[1] == 'x' || hash_s[1] == 'X')) {
         sp += 2;
-        hash_str_len -= 2;
     }
 
-    tpc = sp[hash_str_len - 1];
-    if (tpc == 'h' || tpc == 'H') {
-        hash_str_len--;
+    for (dp = sp; *dp; dp++) {
+        ch2hex(*dp, &tmp_o);
+        digit_count += tmp_o != PGFE_HEX_UNKNOWN_CHAR;
     }
 
-    for (op = hash_out, pos = hash_str_len % 2; *sp; sp++) {
+    for (op = hash_out, pos = digit_count % 2; *sp; sp++) {
         ch2hex(*sp, &tmp_o);
 
         if (tmp_o == PGFE_HEX_UNKNOWN_CHAR) {
-- 
2.43.0


From a4b54f0a5f183fe54a2eed127db6ddc3db798d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 15/37] fix: SequentialData trims the zero bytes, with every
 trim function exported

---
 src/core/sequential_data.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/sequential_data.cpp b/src/core/sequential_data.cpp
index 69d8c60..339d2fc 100644
--- a/src/core/sequential_data.cpp
+++ b/src/core/sequential_data.cpp
@@ -66,15 +66,15 @@ SequentialData SequentialData::trim_right() {
     return sd;
 }
 
-inline void SequentialData::trim_() {
+void SequentialData::trim_() {
     trim_left_();
     trim_right_();
 }
 
-inline void SequentialData::trim_left_() {
-    erase(0, find_first_not_of(ws));
+void SequentialData::trim_left_() {
+    erase(0, find_first_not_of(ws, 0, sizeof(ws)));
 }
 
-inline void SequentialData::trim_right_() {
-    erase(find_last_not_of(ws) + 1, length());
+void SequentialData::trim_right_() {
+    erase(find_last_not_of(ws, npos, sizeof(ws)) + 1, npos);
 }
\ No newline at end of file
-- 
2.43.0


From d0aa2264dfb09c64e6266d25987fd486f158c5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 16/37] fix: the Blowfish object allocates room for the padded
 last block

---
 src/fishes/blowfish.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fishes/blowfish.cpp b/src/fishes/blowfish.cpp
index a28e84b..7b738c8 100644
--- a/src/fishes/blowfish.cpp
+++ b/src/fishes/blowfish.cpp
@@ -25,7 +25,7 @@ Blowfish::Blowfish(const std::string &key) : Blowfish(key.c_str()) {}
 Blowfish::~Blowfish() {}
 
 SequentialData Blowfish::encrypt(const pgfe_encode_t *seq, size_t length) {
-    size_t sz = length + length % 8;
+    size_t sz = (length + 7) / 8 * 8;
     std::unique_ptr<pgfe_encode_t[]> output = std::make_unique<pgfe_encode_t[]>(sz);
 
     sz = pgfe_blowfish_encrypt(&ctx, seq, length, output.get());
@@ -33,7 +33,7 @@ SequentialData Blowfish::encrypt(const pgfe_encode_t *seq, size_t length) {
 }
 
 SequentialData Blowfish::decrypt(const pgfe_encode_t *seq, size_t length) {
-    size_t sz = length + length % 8;
+    size_t sz = (length + 7) / 8 * 8;
     std::unique_ptr<pgfe_encode_t[]> output = std::make_unique<pgfe_encode_t[]>(sz);
 
     sz = pgfe_blowfish_decrypt(&ctx, seq, length, output.get());
-- 
2.43.0


From 3c321b7965dbc23ef6e8b3d393de6405f9c81583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 17/37] fix: Blowfish keys given as a string may hold zero
 bytes

---
 src/fishes/blowfish.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fishes/blowfish.cpp b/src/fishes/blowfish.cpp
index 7b738c8..dd59299 100644
--- a/src/fishes/blowfish.cpp
+++ b/src/fishes/blowfish.cpp
@@ -20,7 +20,7 @@ Blowfish::Blowfish(const pgfe_encode_t *key, size_t length) {
     pgfe_blowfish_init(&ctx, key, length);
 }
 
-Blowfish::Blowfish(const std::string &key) : Blowfish(key.c_str()) {}
+Blowfish::Blowfish(const std::string &key) : Blowfish((const pgfe_encode_t *)key.c_str(), key.length()) {}
 
 Blowfish::~Blowfish() {}
 
-- 
2.43.0


From 74f05e59f8177e488003ef47d262ab83031c6e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 18/37] fix: hexadecimal conversions keep long data off the
 stack

---
 src/core/sequential_data.cpp |  6 +++---
 src/core/utils.c             | 10 ++++++----
 src/core/utils.cpp           |  7 ++++---
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/core/sequential_data.cpp b/src/core/sequential_data.cpp
index 339d2fc..29737ad 100644
--- a/src/core/sequential_data.cpp
+++ b/src/core/sequential_data.cpp
@@ -33,9 +33,9 @@ std::string SequentialData::to_str(bool auto_hex) const {
 
 std::string SequentialData::hex_str() const {
     size_t sz = this->length();
-    char hex_str[sz * 2 + 1];
-    pgfe_hash_to_hex_string(this->c_str(), sz, hex_str);
-    std::string s(hex_str);
+    std::string s(sz * 2 + 1, 0);
+    pgfe_hash_to_hex_string(this->c_str(), sz, &s[0]);
+    s.resize(sz * 2);
     return s;
 }
 
diff --git a/src/core/utils.c b/src/core/utils.c
index 1bded3c..aca1231 100644
--- a/src/core/utils.c
+++ b/src/core/utils.c
@@ -8,6 +8,7 @@
 #include "libpgfe/utils.h"
 
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include "./generic-internal.h"
@@ -99,11 +100,12 @@ inline size_t pgfe_hash_string_clean_(char hash_s[]) {
 }
 
 size_t pgfe_hash_length(const char hash_s[]) {
-    size_t len = strlen(hash_s);
-    char s[len + 1];
+    size_t len;
+    char *s = malloc(strlen(hash_s) + 1);
+    if (!s) return 0;
 
-    pgfe_hash_string_clean(hash_s, s);
-    len = strlen(s);
+    len = pgfe_hash_string_clean(hash_s, s);
+    free(s);
 
     return len / 2 + len % 2;
 }
diff --git a/src/core/utils.cpp b/src/core/utils.cpp
index 9d24d9e..277b721 100644
--- a/src/core/utils.cpp
+++ b/src/core/utils.cpp
@@ -8,6 +8,7 @@
 #include "libpgfe/utils.hpp"
 
 #include <cstring>
+#include <memory>
 
 #include "libpgfe/utils.h"
 
@@ -28,12 +29,12 @@ SequentialData *to_sequential_data(std::string &cpp_s) {
 
 SequentialData *sequential_data::from_hex_string(const char *hex_cs) {
     size_t s_sz = strlen(hex_cs), sz = s_sz / 2 + s_sz % 2;
-    pgfe_encode_t h_out[sz + 1];
+    std::unique_ptr<pgfe_encode_t[]> h_out = std::make_unique<pgfe_encode_t[]>(sz + 1);
 
-    sz = pgfe_hex_string_to_hash(hex_cs, h_out);
+    sz = pgfe_hex_string_to_hash(hex_cs, h_out.get());
     h_out[sz] = 0;
 
-    return to_sequential_data(h_out, sz);
+    return to_sequential_data(h_out.get(), sz);
 }
 
 SequentialData *sequential_data::from_hex_string(std::string &hex_cpps) {
-- 
2.43.0


From fcf484ea5f2cf9a7d520290866de421b5bcac53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 19/37] fix: HashEncoder gives its digest through the encoder
 interface too

---
 include/libpgfe/hashes/hash_encoder.hpp | 3 ++-
 src/hashes/hash_encoder.cpp             | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/libpgfe/hashes/hash_encoder.hpp b/include/libpgfe/hashes/hash_encoder.hpp
index da9c6a4..10f86ed 100644
--- a/include/libpgfe/hashes/hash_encoder.hpp
+++ b/include/libpgfe/hashes/hash_encoder.hpp
@@ -49,7 +49,8 @@ public:
     void update(std::string &cpp_s);
     void update(SequentialData &sd);
 
-    const SequentialData *get_digest(uint64_t bitlength = 0);
+    const SequentialData *get_digest();
+    const SequentialData *get_digest(uint64_t bitlength);
 };
 
 } // namespace libpgfe
diff --git a/src/hashes/hash_encoder.cpp b/src/hashes/hash_encoder.cpp
index d31feef..fe1d0b8 100644
--- a/src/hashes/hash_encoder.cpp
+++ b/src/hashes/hash_encoder.cpp
@@ -97,6 +97,10 @@ inline void HashEncoder::update(SequentialData &sd) {
     return this->AbstractHashEncoder::update(sd);
 }
 
+const SequentialData *HashEncoder::get_digest() {
+    return get_digest(0);
+}
+
 const SequentialData *HashEncoder::get_digest(uint64_t bitlength) {
     bool shake_flag = this->cur_alg == SHAKE128 || this->cur_alg == RawSHAKE128 || this->cur_alg == SHAKE256 ||
                       this->cur_alg == RawSHAKE256;
-- 
2.43.0


From 3f4ea94c28c9ef6306152a189384b7e552cddfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 20/37] fix: the counter of a HOTP object starts at zero

---
 include/libpgfe/otp/hotp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libpgfe/otp/hotp.hpp b/include/libpgfe/otp/hotp.hpp
index b27b1f1..eaf047f 100644
--- a/include/libpgfe/otp/hotp.hpp
+++ b/include/libpgfe/otp/hotp.hpp
@@ -24,7 +24,7 @@ private:
     std::unique_ptr<SequentialData> secret;
     size_t digsz, blocksz;
 
-    pgfe_otp_counter_t co;
+    pgfe_otp_counter_t co = 0;
 
     Base32 base32;
 
-- 
2.43.0


From a3dfbd765d2a7cfb8c3ae542e784af582aa17b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 21/37] fix: a base codec stays usable after an allocation
 failure

---
 src/base_encoding/abstract_base_encoding.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/base_encoding/abstract_base_encoding.cpp b/src/base_encoding/abstract_base_encoding.cpp
index a03a2dc..95e586e 100644
--- a/src/base_encoding/abstract_base_encoding.cpp
+++ b/src/base_encoding/abstract_base_encoding.cpp
@@ -23,7 +23,7 @@ void AbstractBaseEncoding::init() {
 std::string AbstractBaseEncoding::encode(const pgfe_encode_t *pgfe_c_seq, size_t length) {
     size_t sz = (size_t)ceil(length * ((double)to_bit(sizeof(pgfe_encode_t)) / (double)bitsz) * PGFE_SPACE_MULTIPLE);
 
-    enc_mutex.lock();
+    std::lock_guard<std::mutex> lock(enc_mutex);
     if (encsz <= sz) {
         en_cache = std::make_unique<char[]>(sz + 1);
         encsz = sz;
@@ -34,7 +34,6 @@ std::string AbstractBaseEncoding::encode(const pgfe_encode_t *pgfe_c_seq, size_t
     en_cache[sz] = 0;
 
     std::string str(p);
-    enc_mutex.unlock();
     return str;
 }
 
@@ -54,7 +53,7 @@ SequentialData AbstractBaseEncoding::decode(const char *base_cs) {
     size_t sz =
         (size_t)ceil(strlen(base_cs) * ((double)bitsz / (double)to_bit(sizeof(pgfe_encode_t))) * PGFE_SPACE_MULTIPLE);
 
-    dec_mutex.lock();
+    std::lock_guard<std::mutex> lock(dec_mutex);
     if (decsz <= sz) {
         de_cache = std::make_unique<pgfe_encode_t[]>(sz);
         decsz = sz;
@@ -65,7 +64,6 @@ SequentialData AbstractBaseEncoding::decode(const char *base_cs) {
     de_cache[sz] = 0;
 
     SequentialData sd(p, sz);
-    dec_mutex.unlock();
     return sd;
 }
 
-- 
2.43.0


From 6c85c2b4f047ce49608a55a00c008bc734dbfd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 22/37] fix: HashEncoder keeps no freed context when a reset
 fails

---
 src/hashes/hash_encoder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hashes/hash_encoder.cpp b/src/hashes/hash_encoder.cpp
index fe1d0b8..bc94800 100644
--- a/src/hashes/hash_encoder.cpp
+++ b/src/hashes/hash_encoder.cpp
@@ -51,6 +51,7 @@ void HashEncoder::destroy_context() {
     if (!ctx) return;
 
     __PGFE_BATCH_CASES(cur_alg, CTX_DELETE)
+    ctx = nullptr;
 }
 
 void HashEncoder::before_change_alg() {
-- 
2.43.0


From 9480db0b0f1e5d8f1a1f6873ee174c06c42374a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 23/37] fix: resetting an HMACEncoder starts a new message
 under the same key

---
 include/libpgfe/hmac/hmac_encoder.hpp |  2 ++
 src/hmac/hmac_encoder.cpp             | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/include/libpgfe/hmac/hmac_encoder.hpp b/include/libpgfe/hmac/hmac_encoder.hpp
index 40ceaf1..65cb5c6 100644
--- a/include/libpgfe/hmac/hmac_encoder.hpp
+++ b/include/libpgfe/hmac/hmac_encoder.hpp
@@ -56,6 +56,8 @@ public:
     HMACEncoder(pgfe_algorithm_choice algorithm, std::string &cpp_s);
     HMACEncoder(pgfe_algorithm_choice algorithm, SequentialData &sd);
 
+    void reset();
+
     void update(const pgfe_encode_t sequence[], size_t length);
     void update(const char cs[]);
     void update(std::string &cpp_s);
diff --git a/src/hmac/hmac_encoder.cpp b/src/hmac/hmac_encoder.cpp
index 2cc62a8..a3833ea 100644
--- a/src/hmac/hmac_encoder.cpp
+++ b/src/hmac/hmac_encoder.cpp
@@ -33,6 +33,13 @@
         pgfe_hmac_##name##_update(&ctx.name, sequence, length);                                                        \
         break
 
+// The key is kept in its padded form
+#define __PGFE_HMAC_RESET_CASE(alg, name)                                                                              \
+    case alg:                                                                                                          \
+        pgfe_##name##_init(&ctx.name.hash_ctx);                                                                        \
+        pgfe_##name##_update(&ctx.name.hash_ctx, ctx.name.k_i_pad, PGFE_##alg##_BLOCK_SIZE);                           \
+        break
+
 using namespace libpgfe;
 
 HMACEncoder::HMACEncoder(pgfe_algorithm_choice algorithm, const pgfe_encode_t sequence[], size_t length) {
@@ -60,6 +67,10 @@ void HMACEncoder::after_change_alg() {
     __PGFE_BATCH_CASES_SP(cur_alg, INIT_SIZE)
 }
 
+void HMACEncoder::reset() {
+    __PGFE_BATCH_CASES_SP(cur_alg, HMAC_RESET)
+}
+
 void HMACEncoder::set_key(const pgfe_encode_t sequence[], size_t length) {
     __PGFE_BATCH_CASES_SP(cur_alg, HMAC_SET_KEY)
 }
-- 
2.43.0


From cda852bd064a4b2bdcb0adf7e4d39367edc85d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 24/37] fix: SHA-1 and SHA-2 padding that needs a second block

The second block kept bytes of the first one, so digests of messages whose
length modulo the block is among its last 8 (16) bytes were wrong.
---
 src/hashes/sha1.c         | 1 +
 src/hashes/sha2-backend.c | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/hashes/sha1.c b/src/hashes/sha1.c
index bdb7758..a1abcb3 100644
--- a/src/hashes/sha1.c
+++ b/src/hashes/sha1.c
@@ -95,6 +95,7 @@ static void sha1_padding(struct pgfe_sha1_ctx *ctx) {
         memset(ctx->block + ctx->index, 0, PGFE_SHA1_BLOCK_SIZE - ctx->index);
         ctx->index = PGFE_SHA1_BLOCK_SIZE;
         sha1_process_block(ctx);
+        memset(ctx->block, 0, 56);
     }
     else if (ctx->index < 56) {
         memset(ctx->block + ctx->index, 0, 56 - ctx->index);
diff --git a/src/hashes/sha2-backend.c b/src/hashes/sha2-backend.c
index ead5014..a0aa1f7 100644
--- a/src/hashes/sha2-backend.c
+++ b/src/hashes/sha2-backend.c
@@ -82,6 +82,7 @@ void sha224n256_padding(struct pgfe_sha256_ctx *ctx) {
         memset(ctx->block + ctx->index, 0, PGFE_SHA256_BLOCK_SIZE - ctx->index);
         ctx->index = PGFE_SHA256_BLOCK_SIZE;
         sha256_process_block(ctx);
+        memset(ctx->block, 0, 56);
     }
     else if (ctx->index < 56) {
         memset(ctx->block + ctx->index, 0, 56 - ctx->index);
@@ -222,6 +223,7 @@ void sha384n512_padding(struct pgfe_sha512_ctx *ctx, pgfe_encode_t padding_byte)
         memset(&ctx->block[ctx->index], 0, PGFE_SHA512_BLOCK_SIZE - ctx->index);
         ctx->index = PGFE_SHA512_BLOCK_SIZE;
         sha384n512_process_block(ctx);
+        memset(ctx->block, 0, 112);
     }
     else if (ctx->index < 112) {
         memset(&ctx->block[ctx->index], 0, 112 - ctx->index);
-- 
2.43.0


From b0b945d2e4073f362341e18239b4ec4cac910858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:24 +0000
Subject: [PATCH 25/37] fix: an algorithm name given as a literal counts in
 full

---
 include/libpgfe/generic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libpgfe/generic.hpp b/include/libpgfe/generic.hpp
index a85ed74..d492fcb 100644
--- a/include/libpgfe/generic.hpp
+++ b/include/libpgfe/generic.hpp
@@ -99,7 +99,7 @@ pgfe_algorithm_choice _algstr(const char *cs);
 pgfe_algorithm_choice _algstr(std::string cpp_s);
 
 inline pgfe_algorithm_choice operator"" _pgfe_alg(const char *str, size_t size) {
-    return _algstr(str);
+    return _algstr(std::string(str, size));
 }
 
 } // namespace libpgfe
-- 
2.43.0


From e980241ed3847698e04bed9c5de6f1dc53a9517a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:37:06 +0000
Subject: [PATCH 26/37] fix: the header of the OTP types can be included on its
 own

---
 include/libpgfe/otp/types.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/libpgfe/otp/types.h b/include/libpgfe/otp/types.h
index 8c9dabf..4e38c72 100644
--- a/include/libpgfe/otp/types.h
+++ b/include/libpgfe/otp/types.h
@@ -1,6 +1,8 @@
 #ifndef LIBPGFE_OTP_TYPES_H
 #define LIBPGFE_OTP_TYPES_H
 
+#include "libpgfe/generic.h"
+
 #ifdef __cplusplus
 extern "C" {
 #endif
-- 
2.43.0


From 300f4ccdd49aac7ab3ab318f64e9c92c310b9d7d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:37:06 +0000
Subject: [PATCH 27/37] fix: make uninstall removes the headers of the library,
 not everything beside them

---
 Makefile | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Makefile b/Makefile
index c8bd181..7cb9dcd 100644
--- a/Makefile
+++ b/Makefile
@@ -32,7 +32,7 @@ install: all
 
 uninstall:
 	@echo 'Removing headers...'
-	@rm -vrf $(HEADER_DIR)
+	@rm -vrf $(HEADER_DIR)/$(PROJECT)
 	@echo done
 	@echo 'Removing shared library...'
 	@rm -vrf $(LIB_DIR)/$(TARGET_FILE)
-- 
2.43.0


From 7f31b3b5e7632a8dc2219714d15ac3e13797325e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:37:06 +0000
Subject: [PATCH 28/37] fix: make install copies the directory of headers, and
 creates that of the library

---
 Makefile | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Makefile b/Makefile
index 7cb9dcd..944fa61 100644
--- a/Makefile
+++ b/Makefile
@@ -24,9 +24,10 @@ test: all
 install: all
 	@echo 'Installing headers...'
 	@mkdir -vp $(HEADER_DIR) 
-	@cp -v $(INCLUDE_DIR)/* $(HEADER_DIR) 
+	@cp -rv $(INCLUDE_DIR)/* $(HEADER_DIR) 
 	@echo done
 	@echo 'Installing shared library...'
+	@mkdir -vp $(LIB_DIR)
 	@cp -v $(TARGET) $(LIB_DIR)
 	@echo 'done'
 
-- 
2.43.0


From a71b92c09077c5c2d6a36cf376a97638c1729d7e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:37:06 +0000
Subject: [PATCH 29/37] fix: deploy.py accepts its -h option

---
 scripts/deploy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/deploy.py b/scripts/deploy.py
index 60f1097..409014d 100755
--- a/scripts/deploy.py
+++ b/scripts/deploy.py
@@ -48,7 +48,7 @@ def main(args):
 
 
 if __name__ == '__main__':
-    ap = ArgumentParser()
+    ap = ArgumentParser(conflict_handler='resolve')
     ap.add_argument("-h", "--header-dir", required=True,
                     nargs='*', action='extend', default=[])
     ap.add_argument("-l", "--lib-dir", required=True,
-- 
2.43.0


From 6a93b4a5936c8f5053b6c40a0c28f96c8f38a321 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:37:06 +0000
Subject: [PATCH 30/37] fix: deploy.py installs the headers where they are now,
 with their directories

---
 scripts/deploy.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/scripts/deploy.py b/scripts/deploy.py
index 409014d..7486af5 100755
--- a/scripts/deploy.py
+++ b/scripts/deploy.py
@@ -2,13 +2,13 @@
 
 from argparse import ArgumentParser
 import os
-from glob import glob
 import shutil
 from pathlib import Path
 
 HEADER_ROOT = "libpgfe"
 SHARED_LIB = "libpgfe.so"
 LIB_DIR = "./build"
+INCLUDE_DIR = "./include"
 
 
 def main(args):
@@ -30,14 +30,8 @@ def main(args):
     else:
         for ds in args.header_dir:
             _dir = Path(ds) / HEADER_ROOT
-            if not _dir.exists():
-                _dir.mkdir(parents=True)
-
-            for f in glob(r'./*.h'):
-                shutil.copy(f, _dir)
-
-            for f in glob(r'./*.hpp'):
-                shutil.copy(f, _dir)
+            shutil.copytree(Path(INCLUDE_DIR, HEADER_ROOT), _dir,
+                            dirs_exist_ok=True)
 
         for ss in args.lib_dir:
             _dir = Path(ss)
-- 
2.43.0


From d9f52df36a425d091e0d5eebbf4db018cd9e7a55 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:37:06 +0000
Subject: [PATCH 31/37] fix: deploy.py --uninstall goes on where the library is
 not installed

---
 scripts/deploy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/deploy.py b/scripts/deploy.py
index 7486af5..933ff89 100755
--- a/scripts/deploy.py
+++ b/scripts/deploy.py
@@ -25,7 +25,8 @@ def main(args):
             if not _dir.exists():
                 continue
 
-            os.remove(_dir / SHARED_LIB)
+            if (_dir / SHARED_LIB).exists():
+                os.remove(_dir / SHARED_LIB)
 
     else:
         for ds in args.header_dir:
-- 
2.43.0


From c3bac07edf89d86f4f2c8e12312e69ca3d67c2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:26:52 +0000
Subject: [PATCH 32/37] fix: objects can be destroyed through their abstract
 classes

---
 include/libpgfe/abstract_encoder.hpp                     | 2 ++
 include/libpgfe/abstract_symmetric_crypter.hpp           | 2 ++
 include/libpgfe/algorithm_selectable.hpp                 | 2 ++
 include/libpgfe/base_encoding/abstract_base_encoding.hpp | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/include/libpgfe/abstract_encoder.hpp b/include/libpgfe/abstract_encoder.hpp
index d7cdd22..9b8bb1b 100644
--- a/include/libpgfe/abstract_encoder.hpp
+++ b/include/libpgfe/abstract_encoder.hpp
@@ -23,6 +23,8 @@ namespace libpgfe {
 class AbstractEncoder
 {
 public:
+    virtual ~AbstractEncoder() = default;
+
     virtual void reset() {}
 
     virtual void update(const pgfe_encode_t sequence[], size_t length) {}
diff --git a/include/libpgfe/abstract_symmetric_crypter.hpp b/include/libpgfe/abstract_symmetric_crypter.hpp
index 7de5e7d..535e5fd 100644
--- a/include/libpgfe/abstract_symmetric_crypter.hpp
+++ b/include/libpgfe/abstract_symmetric_crypter.hpp
@@ -20,6 +20,8 @@ namespace libpgfe {
 class AbstractSymmetricCrypter
 {
 public:
+    virtual ~AbstractSymmetricCrypter() = default;
+
     SequentialData encrypt(const std::string &);
     virtual SequentialData encrypt(const pgfe_encode_t *, size_t) {
         return SequentialData();
diff --git a/include/libpgfe/algorithm_selectable.hpp b/include/libpgfe/algorithm_selectable.hpp
index f8d34cf..e49cdba 100644
--- a/include/libpgfe/algorithm_selectable.hpp
+++ b/include/libpgfe/algorithm_selectable.hpp
@@ -28,6 +28,8 @@ protected:
     void select_algorithm(pgfe_algorithm_choice choice);
 
 public:
+    virtual ~AlgorithmSelectable() = default;
+
     pgfe_algorithm_choice algorithm() const;
 };
 } // namespace libpgfe
diff --git a/include/libpgfe/base_encoding/abstract_base_encoding.hpp b/include/libpgfe/base_encoding/abstract_base_encoding.hpp
index 4aef6a6..34ec753 100644
--- a/include/libpgfe/base_encoding/abstract_base_encoding.hpp
+++ b/include/libpgfe/base_encoding/abstract_base_encoding.hpp
@@ -49,6 +49,8 @@ protected:
     void init();
 
 public:
+    virtual ~AbstractBaseEncoding() = default;
+
     std::string encode(const pgfe_encode_t *, size_t);
     std::string encode(const char *);
     std::string encode(const std::string &);
-- 
2.43.0


From 54d3318b67f88e1f9e7b8f4db4a28853b5c90b88 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:27:04 +0000
Subject: [PATCH 33/37] fix: a TOTP object shows the present code through the
 interface of OTP objects too

---
 include/libpgfe/otp/hotp.hpp |  5 +++--
 include/libpgfe/otp/totp.hpp | 11 ++++++-----
 src/otp/totp.cpp             |  9 ++++-----
 3 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/include/libpgfe/otp/hotp.hpp b/include/libpgfe/otp/hotp.hpp
index eaf047f..3604b55 100644
--- a/include/libpgfe/otp/hotp.hpp
+++ b/include/libpgfe/otp/hotp.hpp
@@ -24,11 +24,12 @@ private:
     std::unique_ptr<SequentialData> secret;
     size_t digsz, blocksz;
 
-    pgfe_otp_counter_t co = 0;
-
     Base32 base32;
 
 protected:
+    // That of a TOTP object follows the clock
+    mutable pgfe_otp_counter_t co = 0;
+
     void after_change_alg() override;
 
 public:
diff --git a/include/libpgfe/otp/totp.hpp b/include/libpgfe/otp/totp.hpp
index 93d6c31..37044e0 100644
--- a/include/libpgfe/otp/totp.hpp
+++ b/include/libpgfe/otp/totp.hpp
@@ -20,11 +20,12 @@ class TOTP : public HOTP
 {
 private:
     pgfe_totp_interval_t _interval;
-    time_t _initial_time = 0, _update_time = 0;
+    time_t _initial_time = 0;
+    mutable time_t _update_time = 0;
 
-    pgfe_totp_delta_t delta = 0;
+    mutable pgfe_totp_delta_t delta = 0;
 
-    void update_counter();
+    void update_counter() const;
 
 public:
     TOTP(pgfe_totp_interval_t = 30, pgfe_algorithm_choice = SHA1);
@@ -44,9 +45,9 @@ public:
 
     time_t remaining_time() const;
 
-    pgfe_otp_t generate(uint8_t digit_count = 6);
+    pgfe_otp_t generate(uint8_t digit_count = 6) const override;
 
-    std::string generate_str(uint8_t digit_count = 6);
+    std::string generate_str(uint8_t digit_count = 6) const override;
 };
 
 } // namespace libpgfe
diff --git a/src/otp/totp.cpp b/src/otp/totp.cpp
index 2ca0f81..ec0b84f 100644
--- a/src/otp/totp.cpp
+++ b/src/otp/totp.cpp
@@ -60,21 +60,20 @@ time_t TOTP::update_time() const {
     return _update_time;
 }
 
-void TOTP::update_counter() {
+void TOTP::update_counter() const {
     _update_time = curtime();
-    set_counter(calc_periodic_counter(_update_time, _interval, _initial_time, &delta));
+    co = calc_periodic_counter(_update_time, _interval, _initial_time, &delta);
 }
 
 time_t TOTP::remaining_time() const {
     return delta - (curtime() - _update_time);
 }
 
-pgfe_otp_t TOTP::generate(uint8_t digit_count) {
+pgfe_otp_t TOTP::generate(uint8_t digit_count) const {
     update_counter();
     return this->HOTP::generate(digit_count);
 }
 
-std::string TOTP::generate_str(uint8_t digit_count) {
-    update_counter();
+std::string TOTP::generate_str(uint8_t digit_count) const {
     return this->HOTP::generate_str(digit_count);
 }
-- 
2.43.0


From 23713bae668179b347fd52258c875324a384a139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:56 +0000
Subject: [PATCH 34/37] fix: comment_header.py keeps the line ends and bytes of
 the files it completes

---
 scripts/comment_header.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scripts/comment_header.py b/scripts/comment_header.py
index 898f3f5..da28872 100755
--- a/scripts/comment_header.py
+++ b/scripts/comment_header.py
@@ -18,11 +18,15 @@ EXTS = ['c', 'h', 'cpp', 'hpp']
 
 
 def add_comment_header(file: Path):
-    file_content = file.read_text()
+    # Keep the line ends and the bytes that are no UTF-8
+    text = {'encoding': 'utf-8', 'errors': 'surrogateescape', 'newline': ''}
+    with file.open(**text) as f:
+        file_content = f.read()
     if file_content[:2] == '/*':
         return
 
-    file.write_text('\n'.join([HEADER_STR.format(file.name), file_content]))
+    with file.open('w', **text) as f:
+        f.write('\n'.join([HEADER_STR.format(file.name), file_content]))
     print(f"Updated {file}")
 
 
-- 
2.43.0


From 7deef6d416167a88814b4d8222bb1ba112af8493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:12 +0000
Subject: [PATCH 35/37] fix: comment_header.py passes over directories that are
 named like source files

---
 scripts/comment_header.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/comment_header.py b/scripts/comment_header.py
index da28872..28e603f 100755
--- a/scripts/comment_header.py
+++ b/scripts/comment_header.py
@@ -42,6 +42,9 @@ def iter_dir(path_item: Path, inside_subdir=False):
                 iter_dir(item, inside_subdir=True)
                 continue
 
+            if not item.is_file():
+                continue
+
             if item.name.split('.')[-1] in EXTS:
                 add_comment_header(item)
 
-- 
2.43.0


From 3007f1d30730bf444382118107e76770dc91301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:08 +0000
Subject: [PATCH 36/37] fix: the library's internal functions and tables stay
 clear of a program's own names

They were exported, so that a program's own function (reverse, transform,
ch2hex, curtime, ...) or table took the place of the library's.
---
 src/base_encoding/base-encoding-internal.h |  5 +++++
 src/base_encoding/base16.c                 |  4 ++--
 src/base_encoding/base32.c                 | 16 +++++++--------
 src/base_encoding/base64.c                 | 24 +++++++++++-----------
 src/core/generic-internal.h                |  5 +++++
 src/hashes/keccak-backend.h                |  5 +++++
 src/hashes/md5-backend.h                   |  5 +++++
 src/hashes/sha2-backend.h                  |  5 +++++
 src/otp/otp-generic.h                      |  5 +++++
 src/otp/totp-internal.h                    |  5 +++++
 10 files changed, 57 insertions(+), 22 deletions(-)

diff --git a/src/base_encoding/base-encoding-internal.h b/src/base_encoding/base-encoding-internal.h
index b4cd9d1..3a0db9f 100644
--- a/src/base_encoding/base-encoding-internal.h
+++ b/src/base_encoding/base-encoding-internal.h
@@ -18,6 +18,9 @@
 extern "C" {
 #endif
 
+// Not exported, as programs may have names of their own like these
+#pragma GCC visibility push(hidden)
+
 #define PADDING_CODE (0x00)
 #define UNKNOWN_CODE (0xC0)
 
@@ -45,6 +48,8 @@ size_t encode_base_generic(
 size_t
 decode_base_generic(PGFE_BASE_PARAMS_DEF, pgfe_encode_t (*func)(char), const char basexx_cs[], pgfe_encode_t output[]);
 
+#pragma GCC visibility pop
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/src/base_encoding/base16.c b/src/base_encoding/base16.c
index 6519621..e007ec2 100644
--- a/src/base_encoding/base16.c
+++ b/src/base_encoding/base16.c
@@ -10,8 +10,8 @@
 #include "./base-encoding-internal.h"
 
 // Base 16 alphabet
-const char BASE16_ALPHABET[] = "0123456789ABCDEF"
-                               "0"; // Compatibility addition
+static const char BASE16_ALPHABET[] = "0123456789ABCDEF"
+                                      "0"; // Compatibility addition
 
 inline pgfe_encode_t decode_base16_char(char base16_c) {
     pgfe_encode_t o;
diff --git a/src/base_encoding/base32.c b/src/base_encoding/base32.c
index 5d52b46..fa29e5f 100644
--- a/src/base_encoding/base32.c
+++ b/src/base_encoding/base32.c
@@ -13,17 +13,17 @@
 #include "./base-encoding-internal.h"
 
 // Base 32 alphabet
-//                              0123456789ABCDEF
-const char BASE32_ALPHABET[] = "ABCDEFGHIJKLMNOP" // 0X
-                               "QRSTUVWXYZ234567" // 1X
-                               "=";               // Padding
-
-// Base 32 alphabet (Extended Hex)
 //                                     0123456789ABCDEF
-const char BASE32_ALPHABET_EXTHEX[] = "0123456789ABCDEF" // 0X
-                                      "GHIJKLMNOPQRSTUV" // 1X
+static const char BASE32_ALPHABET[] = "ABCDEFGHIJKLMNOP" // 0X
+                                      "QRSTUVWXYZ234567" // 1X
                                       "=";               // Padding
 
+// Base 32 alphabet (Extended Hex)
+//                                            0123456789ABCDEF
+static const char BASE32_ALPHABET_EXTHEX[] = "0123456789ABCDEF" // 0X
+                                             "GHIJKLMNOPQRSTUV" // 1X
+                                             "=";               // Padding
+
 inline pgfe_encode_t decode_base32_char(char base32_c) {
     pgfe_encode_t o;
 
diff --git a/src/base_encoding/base64.c b/src/base_encoding/base64.c
index cd83c32..8019643 100644
--- a/src/base_encoding/base64.c
+++ b/src/base_encoding/base64.c
@@ -12,20 +12,20 @@
 #include "./base-encoding-internal.h"
 
 // Base 64 alphabet
-//                              0123456789ABCDEF
-const char BASE64_ALPHABET[] = "ABCDEFGHIJKLMNOP" // 0X
-                               "QRSTUVWXYZabcdef" // 1X
-                               "ghijklmnopqrstuv" // 2X
-                               "wxyz0123456789+/" // 3X
-                               "=";               // Padding
+//                                     0123456789ABCDEF
+static const char BASE64_ALPHABET[] = "ABCDEFGHIJKLMNOP" // 0X
+                                      "QRSTUVWXYZabcdef" // 1X
+                                      "ghijklmnopqrstuv" // 2X
+                                      "wxyz0123456789+/" // 3X
+                                      "=";               // Padding
 
 // Base 64 alphabet (URL and filename safe)
-//                                 0123456789ABCDEF
-const char BASE64_ALPHABET_FS[] = "ABCDEFGHIJKLMNOP" // 0X
-                                  "QRSTUVWXYZabcdef" // 1X
-                                  "ghijklmnopqrstuv" // 2X
-                                  "wxyz0123456789-_" // 3X
-                                  "=";               // Padding
+//                                        0123456789ABCDEF
+static const char BASE64_ALPHABET_FS[] = "ABCDEFGHIJKLMNOP" // 0X
+                                         "QRSTUVWXYZabcdef" // 1X
+                                         "ghijklmnopqrstuv" // 2X
+                                         "wxyz0123456789-_" // 3X
+                                         "=";               // Padding
 
 inline pgfe_encode_t decode_base64_char(char base64_c) {
     pgfe_encode_t o;
diff --git a/src/core/generic-internal.h b/src/core/generic-internal.h
index 7d60f02..d64a50a 100644
--- a/src/core/generic-internal.h
+++ b/src/core/generic-internal.h
@@ -16,6 +16,9 @@
 extern "C" {
 #endif
 
+// Not exported, as programs may have names of their own like these
+#pragma GCC visibility push(hidden)
+
 #define PGFE_HEX_UNKNOWN_CHAR 0xF1
 
 #define PGFE_ENCODER_DEF_SIG pgfe_encode_multi_func *func, size_t block_size, size_t digest_size
@@ -129,6 +132,8 @@ void reverse(pgfe_encode_t *low, pgfe_encode_t *high);
         delete (pgfe_##name##_ctx *)ctx;                                                                               \
         break
 
+#pragma GCC visibility pop
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/src/hashes/keccak-backend.h b/src/hashes/keccak-backend.h
index 4bfbdbd..2367eb5 100644
--- a/src/hashes/keccak-backend.h
+++ b/src/hashes/keccak-backend.h
@@ -22,12 +22,17 @@
 extern "C" {
 #endif
 
+// Not exported, as programs may have names of their own like these
+#pragma GCC visibility push(hidden)
+
 int keccak_init(struct pgfe_keccak_sponge_ctx *ctx, uint32_t capacity);
 
 int keccak_absorb_b1600(struct pgfe_keccak_sponge_ctx *ctx, const pgfe_encode_t input[], uint64_t bit_len);
 
 int keccak_squeeze_b1600(struct pgfe_keccak_sponge_ctx *ctx, pgfe_encode_t output[]);
 
+#pragma GCC visibility pop
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/src/hashes/md5-backend.h b/src/hashes/md5-backend.h
index a7c0440..b2754e3 100644
--- a/src/hashes/md5-backend.h
+++ b/src/hashes/md5-backend.h
@@ -16,12 +16,17 @@
 extern "C" {
 #endif
 
+// Not exported, as programs may have names of their own like these
+#pragma GCC visibility push(hidden)
+
 void md5_transform(pgfe_word_t state[4], const pgfe_encode_t block[64]);
 
 void md5_encode(pgfe_word_t input[], size_t length, pgfe_encode_t output[]);
 
 void md5_decode(const pgfe_encode_t input[], size_t length, pgfe_word_t output[]);
 
+#pragma GCC visibility pop
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/src/hashes/sha2-backend.h b/src/hashes/sha2-backend.h
index 055733b..bfd4f45 100644
--- a/src/hashes/sha2-backend.h
+++ b/src/hashes/sha2-backend.h
@@ -18,6 +18,9 @@
 extern "C" {
 #endif
 
+// Not exported, as programs may have names of their own like these
+#pragma GCC visibility push(hidden)
+
 #define sha256_SIGMA0(word) (crshift((word), 2) ^ crshift((word), 13) ^ crshift((word), 22))
 #define sha256_SIGMA1(word) (crshift((word), 6) ^ crshift((word), 11) ^ crshift((word), 25))
 #define sha256_sigma0(word) (crshift((word), 7) ^ crshift((word), 18) ^ ((word) >> 3))
@@ -48,6 +51,8 @@ void sha384n512_padding(struct pgfe_sha512_ctx *ctx, pgfe_encode_t padding_byte)
 
 void sha384n512_digest(struct pgfe_sha512_ctx *ctx, pgfe_encode_t output[], uint8_t digest_size);
 
+#pragma GCC visibility pop
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/src/otp/otp-generic.h b/src/otp/otp-generic.h
index c69896f..ebb68a3 100644
--- a/src/otp/otp-generic.h
+++ b/src/otp/otp-generic.h
@@ -20,6 +20,9 @@
 extern "C" {
 #endif
 
+// Not exported, as programs may have names of their own like these
+#pragma GCC visibility push(hidden)
+
 #define PGFE_OTP_MAX_LIMIT 2147483647L
 
 #define PGFE_OTP_DIGIT_MAX_LIMIT 10
@@ -29,6 +32,8 @@ pgfe_otp_t dynamically_truncate(const pgfe_encode_t hash[], size_t length);
 
 void otp_to_string(pgfe_otp_t otp, char *cs_out, size_t digit_c);
 
+#pragma GCC visibility pop
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/src/otp/totp-internal.h b/src/otp/totp-internal.h
index c2761d6..bcac095 100644
--- a/src/otp/totp-internal.h
+++ b/src/otp/totp-internal.h
@@ -9,6 +9,9 @@
 extern "C" {
 #endif
 
+// Not exported, as programs may have names of their own like these
+#pragma GCC visibility push(hidden)
+
 // Get current UNIX time
 time_t curtime();
 
@@ -16,6 +19,8 @@ pgfe_otp_counter_t calc_periodic_counter(
     time_t realtime, pgfe_totp_interval_t interval, time_t initial_time, pgfe_totp_delta_t *delta_out
 );
 
+#pragma GCC visibility pop
+
 #ifdef __cplusplus
 }
 #endif
-- 
2.43.0


From 0f22c0b0f56f8c918e7823f2476108ab4897d2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:11 +0000
Subject: [PATCH 37/37] fix: templates.h includes stdarg.h, so that the library
 can be built without further options

---
 src/hashes/templates.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hashes/templates.h b/src/hashes/templates.h
index d7e2533..7884373 100644
--- a/src/hashes/templates.h
+++ b/src/hashes/templates.h
@@ -10,6 +10,8 @@
 #ifndef LIBPGFE_TEMPLATES_H
 #define LIBPGFE_TEMPLATES_H
 
+#include <stdarg.h>
+
 #ifdef __cplusplus
 extern "C" {
 #endif
-- 
2.43.0

