From 3a1a48d2efd4a546dc048a7ec207c582cd0b4a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:03 +0000
Subject: [PATCH 01/58] fix: report varint_overflow for oversized PUSH_PROMISE
 header blocks

The payload size of a PUSH_PROMISE frame wrapped around for header block sizes
close to the maximum of uint64_t and a bogus frame length was encoded.
---
 bnl/http3/src/codec/frame/encode.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bnl/http3/src/codec/frame/encode.cpp b/bnl/http3/src/codec/frame/encode.cpp
index 3ed034c..e173ec3 100644
--- a/bnl/http3/src/codec/frame/encode.cpp
+++ b/bnl/http3/src/codec/frame/encode.cpp
@@ -53,6 +53,8 @@ payload_size(const frame &frame) noexcept
     case frame::type::push_promise: {
       uint64_t push_id = frame.push_promise.push_id;
       payload_size += BNL_TRY(varint::encoded_size(push_id));
+      // Make sure the sum below cannot wrap around.
+      BNL_TRY(varint::encoded_size(frame.push_promise.size));
       payload_size += frame.push_promise.size;
       break;
     }
-- 
2.43.0


From 873628fb68abc93b37d86e4171c3f447633c2ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:22 +0000
Subject: [PATCH 02/58] fix: skip the payload of unknown frames when peeking

frame::peek() only skipped the type of an unknown frame and took its length and
payload for frame types.
---
 bnl/http3/src/codec/frame/decode.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/frame/decode.cpp b/bnl/http3/src/codec/frame/decode.cpp
index 7283b88..3b68546 100644
--- a/bnl/http3/src/codec/frame/decode.cpp
+++ b/bnl/http3/src/codec/frame/decode.cpp
@@ -26,8 +26,17 @@ frame::peek(const Sequence &encoded) noexcept
       case frame::type::duplicate_push:
         return static_cast<frame::type>(type);
       default:
-        continue;
+        break;
     }
+
+    // Unknown frame => skip its payload as well (just like `decode` does).
+    uint64_t payload_encoded_size = BNL_TRY(varint::decode(lookahead));
+
+    if (payload_encoded_size > lookahead.size()) {
+      return error::incomplete;
+    }
+
+    lookahead.consume(static_cast<size_t>(payload_encoded_size));
   }
 
   assert(false);
-- 
2.43.0


From 235853a78bfc27946121e56fdcbc7eda282740f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:58 +0000
Subject: [PATCH 03/58] fix: decode QPACK prefix integers up to 64 bits without
 overflow

Continuation bytes were shifted as 32-bit integers, which is undefined for large
offsets and gave wrong values from 2^32 on, and values that do not fit in 64 bits
were accepted. Bytes were also consumed when the integer was incomplete.
---
 bnl/http3/src/codec/qpack/prefix_int/decode.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/bnl/http3/src/codec/qpack/prefix_int/decode.cpp b/bnl/http3/src/codec/qpack/prefix_int/decode.cpp
index 9fa5498..e2bf033 100644
--- a/bnl/http3/src/codec/qpack/prefix_int/decode.cpp
+++ b/bnl/http3/src/codec/qpack/prefix_int/decode.cpp
@@ -26,7 +26,7 @@ decode(Sequence &encoded, uint8_t prefix) noexcept
 {
   typename Sequence::lookahead_type lookahead(encoded);
 
-  uint64_t result = BNL_TRY(uint8_decode(encoded));
+  uint64_t result = BNL_TRY(uint8_decode(lookahead));
 
   uint8_t prefix_max = static_cast<uint8_t>((1U << prefix) - 1);
   result &= prefix_max;
@@ -34,9 +34,20 @@ decode(Sequence &encoded, uint8_t prefix) noexcept
   if (result >= prefix_max) {
     uint64_t offset = 0;
     uint8_t byte = 0;
+
     do {
-      byte = BNL_TRY(uint8_decode(encoded));
-      result += (byte & 127U) * (1U << offset);
+      byte = BNL_TRY(uint8_decode(lookahead));
+      uint64_t bits = byte & 127U;
+
+      if (bits != 0) {
+        if (offset >= 64 || bits > (UINT64_MAX >> offset) ||
+            (bits << offset) > UINT64_MAX - result) {
+          return error::qpack_decompression_failed;
+        }
+
+        result += bits << offset;
+      }
+
       offset += 7;
     } while ((byte & 128U) == 128);
   }
-- 
2.43.0


From 2514faf30ce6a352538fbd9b015935794d5b0163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 04/58] fix: encode Huffman codes that leave a whole number of
 bytes

When 16 or 24 bits of a Huffman code remained after filling the current byte,
the code was shifted by 8 bits too many and the wrong bytes were written.
---
 bnl/http3/src/codec/qpack/huffman/encode.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/qpack/huffman/encode.cpp b/bnl/http3/src/codec/qpack/huffman/encode.cpp
index 332aecb..ebb43f5 100644
--- a/bnl/http3/src/codec/qpack/huffman/encode.cpp
+++ b/bnl/http3/src/codec/qpack/huffman/encode.cpp
@@ -76,7 +76,8 @@ symbol_encode(uint8_t *dest, size_t *rem_bits, const encoding::symbol &symbol)
     }
 
     while (num_bits > 8) {
-      *dest = static_cast<uint8_t>(code >> (num_bits - (num_bits % 8)));
+      // Number of (aligned) bits that follow the next byte of the code.
+      *dest = static_cast<uint8_t>(code >> ((num_bits - 1) / 8 * 8));
 
       dest++;
       num_bits -= 8;
-- 
2.43.0


From 9d0e5f8472ae01ec96cd5100a48cba5a3f39997f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:06 +0000
Subject: [PATCH 05/58] fix: accept empty Huffman encoded strings

An empty Huffman encoded string literal was rejected with
qpack_decompression_failed.
---
 bnl/http3/src/codec/qpack/huffman/decode.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/qpack/huffman/decode.cpp b/bnl/http3/src/codec/qpack/huffman/decode.cpp
index b7b5d32..dd3f6b6 100644
--- a/bnl/http3/src/codec/qpack/huffman/decode.cpp
+++ b/bnl/http3/src/codec/qpack/huffman/decode.cpp
@@ -43,7 +43,8 @@ decoded_size(const Lookahead &encoded, size_t encoded_size) noexcept
 
   size_t decoded_size = 0;
   uint8_t state = 0;
-  bool accept = false;
+  // An empty encoding is the (valid) encoding of the empty string.
+  bool accept = true;
 
   for (size_t i = 0; i < encoded_size; i++) {
     const decoding::node &first = decoding::table[state][encoded[i] >> 4U];
-- 
2.43.0


From 57e91665b10808fbdc9bd5b4f7c4525c269ef3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 06/58] fix: define all bits written when encoding QPACK
 literals

The bits in front of a prefix integer or string literal encoded into a new buffer
were uninitialized memory, and the Huffman bit of a literal that is not Huffman
encoded was only correct if it was already clear.
---
 bnl/http3/src/codec/qpack/literal/encode.cpp    | 3 +++
 bnl/http3/src/codec/qpack/prefix_int/encode.cpp | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/bnl/http3/src/codec/qpack/literal/encode.cpp b/bnl/http3/src/codec/qpack/literal/encode.cpp
index e2fbc2f..dac2271 100644
--- a/bnl/http3/src/codec/qpack/literal/encode.cpp
+++ b/bnl/http3/src/codec/qpack/literal/encode.cpp
@@ -34,6 +34,7 @@ encode(uint8_t *dest, base::string_view literal, uint8_t prefix) noexcept
     dest += prefix_int::encode(dest, literal_encoded_size, prefix);
     dest += huffman::encode(dest, literal);
   } else {
+    *dest = static_cast<uint8_t>(*dest & ~static_cast<uint8_t>(1U << prefix));
     dest += prefix_int::encode(dest, literal_encoded_size, prefix);
     std::copy_n(literal.data(), literal.size(), dest);
     dest += literal.size();
@@ -48,6 +49,8 @@ encode(base::string_view literal, uint8_t prefix)
   size_t encoded_size = literal::encoded_size(literal, prefix);
   base::buffer encoded(encoded_size);
 
+  // `encode` preserves the bits in front of the literal.
+  *encoded = 0;
   encode(encoded.data(), literal, prefix);
 
   return encoded;
diff --git a/bnl/http3/src/codec/qpack/prefix_int/encode.cpp b/bnl/http3/src/codec/qpack/prefix_int/encode.cpp
index 25c0b68..6cdfd63 100644
--- a/bnl/http3/src/codec/qpack/prefix_int/encode.cpp
+++ b/bnl/http3/src/codec/qpack/prefix_int/encode.cpp
@@ -61,6 +61,8 @@ encode(uint64_t value, uint8_t prefix)
   size_t encoded_size = prefix_int::encoded_size(value, prefix);
   base::buffer encoded(encoded_size);
 
+  // `encode` preserves the bits in front of the prefix.
+  *encoded = 0;
   encode(encoded.data(), value, prefix);
 
   return encoded;
-- 
2.43.0


From 19515cd551b86b8482191e8321170f1f0831e016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:06 +0000
Subject: [PATCH 07/58] fix: reject QPACK static table indices that do not fit
 a byte

---
 bnl/http3/src/codec/qpack/decode.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/bnl/http3/src/codec/qpack/decode.cpp b/bnl/http3/src/codec/qpack/decode.cpp
index c01bf84..672cedd 100644
--- a/bnl/http3/src/codec/qpack/decode.cpp
+++ b/bnl/http3/src/codec/qpack/decode.cpp
@@ -47,11 +47,14 @@ decoder::decode(Sequence &encoded)
         return error::qpack_decompression_failed;
       }
 
-      uint8_t index =
-        static_cast<uint8_t>(BNL_TRY(prefix_int::decode(lookahead, 6)));
+      uint64_t index = BNL_TRY(prefix_int::decode(lookahead, 6));
 
       bool found = false;
-      std::tie(found, header) = table::fixed::find_header_value(index);
+
+      if (index <= UINT8_MAX) {
+        std::tie(found, header) =
+          table::fixed::find_header_value(static_cast<uint8_t>(index));
+      }
 
       if (!found) {
         BNL_LOG_E("Indexed header field ({}) not found in static table", index);
@@ -68,12 +71,15 @@ decoder::decode(Sequence &encoded)
         return error::qpack_decompression_failed;
       }
 
-      uint8_t index =
-        static_cast<uint8_t>(BNL_TRY(prefix_int::decode(lookahead, 4)));
+      uint64_t index = BNL_TRY(prefix_int::decode(lookahead, 4));
 
       bool found = false;
       base::string name;
-      std::tie(found, name) = table::fixed::find_header_only(index);
+
+      if (index <= UINT8_MAX) {
+        std::tie(found, name) =
+          table::fixed::find_header_only(static_cast<uint8_t>(index));
+      }
 
       if (!found) {
         BNL_LOG_E("Header name reference ({}) not found in static table",
-- 
2.43.0


From 98fd35acc0f6473fd1aaea6ae718a939d50eba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:06 +0000
Subject: [PATCH 08/58] fix: decode indexed QPACK static table entries without
 a value

---
 bnl/http3/src/codec/qpack/decode.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bnl/http3/src/codec/qpack/decode.cpp b/bnl/http3/src/codec/qpack/decode.cpp
index 672cedd..77fa2d8 100644
--- a/bnl/http3/src/codec/qpack/decode.cpp
+++ b/bnl/http3/src/codec/qpack/decode.cpp
@@ -54,6 +54,14 @@ decoder::decode(Sequence &encoded)
       if (index <= UINT8_MAX) {
         std::tie(found, header) =
           table::fixed::find_header_value(static_cast<uint8_t>(index));
+
+        // Static table entries without a value have the empty value.
+        if (!found) {
+          base::string name;
+          std::tie(found, name) =
+            table::fixed::find_header_only(static_cast<uint8_t>(index));
+          header = http3::header(std::move(name), base::string());
+        }
       }
 
       if (!found) {
-- 
2.43.0


From 847006fff1594e46e65b49db69b0aa0150123339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:24 +0000
Subject: [PATCH 09/58] fix: verify QPACK static table matches found by hash

---
 bnl/http3/src/codec/qpack/encode.cpp | 42 ++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/bnl/http3/src/codec/qpack/encode.cpp b/bnl/http3/src/codec/qpack/encode.cpp
index a3dbd33..abac7b6 100644
--- a/bnl/http3/src/codec/qpack/encode.cpp
+++ b/bnl/http3/src/codec/qpack/encode.cpp
@@ -12,6 +12,44 @@ namespace bnl {
 namespace http3 {
 namespace qpack {
 
+namespace table {
+namespace fixed {
+
+// Defined in decode_generated.cpp.
+std::pair<bool, header>
+find_header_value(uint8_t index);
+std::pair<bool, base::string>
+find_header_only(uint8_t index);
+
+// `find_index` only compares hashes. A header whose name or value merely has
+// the same hash as a static table entry must not be encoded as that entry.
+static std::pair<type, uint8_t>
+find_verified_index(header_view header)
+{
+  std::pair<type, uint8_t> found = find_index(header);
+
+  if (found.first == type::header_value) {
+    http3::header entry = find_header_value(found.second).second;
+
+    if (header_view(entry).value() != header.value()) {
+      found.first = type::header_only;
+    }
+  }
+
+  if (found.first != type::missing) {
+    base::string name = find_header_only(found.second).second;
+
+    if (header.name() != base::string_view(name)) {
+      found = { type::missing, uint8_t(0) };
+    }
+  }
+
+  return found;
+}
+
+}
+}
+
 uint64_t
 encoder::count() const noexcept
 {
@@ -34,7 +72,7 @@ encoder::encoded_size(header_view header) const noexcept
 
   table::fixed::type type;
   uint8_t index = 0;
-  std::tie(type, index) = table::fixed::find_index(header);
+  std::tie(type, index) = table::fixed::find_verified_index(header);
 
   switch (type) {
 
@@ -87,7 +125,7 @@ encoder::encode(uint8_t *dest, header_view header) noexcept
 
   table::fixed::type type;
   uint8_t index = 0;
-  std::tie(type, index) = table::fixed::find_index(header);
+  std::tie(type, index) = table::fixed::find_verified_index(header);
 
   switch (type) {
 
-- 
2.43.0


From dff5c7dc8f1d1258f4663ad1ee2f1414ef094dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:24 +0000
Subject: [PATCH 10/58] fix: refuse uppercase header names when encoding in
 place

---
 bnl/http3/src/codec/qpack/encode.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bnl/http3/src/codec/qpack/encode.cpp b/bnl/http3/src/codec/qpack/encode.cpp
index abac7b6..ca15d52 100644
--- a/bnl/http3/src/codec/qpack/encode.cpp
+++ b/bnl/http3/src/codec/qpack/encode.cpp
@@ -115,6 +115,11 @@ encoder::encode(uint8_t *dest, header_view header) noexcept
 {
   assert(dest != nullptr);
 
+  if (!header_is_lowercase(header)) {
+    BNL_LOG_E("Header ({}) is not lowercase", header);
+    return error::malformed_header;
+  }
+
   uint8_t *begin = dest;
 
   if (state_ == state::prefix) {
-- 
2.43.0


From 7d1f9a8745c6ce4f5bb0b4ee6a087fba80471bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:57 +0000
Subject: [PATCH 11/58] fix: refuse to end a header section without headers

---
 bnl/http3/src/codec/headers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/headers.cpp b/bnl/http3/src/codec/headers.cpp
index 4176342..cdabca4 100644
--- a/bnl/http3/src/codec/headers.cpp
+++ b/bnl/http3/src/codec/headers.cpp
@@ -20,7 +20,7 @@ encoder::add(header_view header)
 result<void>
 encoder::fin() noexcept
 {
-  if (state_ != state::idle) {
+  if (state_ != state::idle || buffers_.empty()) {
     return error::internal;
   }
 
-- 
2.43.0


From b3ffb5e149ca3f45c6b5fd12510147545d48e6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:57 +0000
Subject: [PATCH 12/58] fix: report header blocks that end before their last
 header

---
 bnl/http3/src/codec/headers.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/headers.cpp b/bnl/http3/src/codec/headers.cpp
index cdabca4..1fd1cbc 100644
--- a/bnl/http3/src/codec/headers.cpp
+++ b/bnl/http3/src/codec/headers.cpp
@@ -103,7 +103,21 @@ decoder::decode(Sequence &encoded)
     }
     /* FALLTHRU */
     case state::qpack: {
-      header header = BNL_TRY(qpack_.decode(encoded));
+      result<header> r = qpack_.decode(encoded);
+
+      if (!r) {
+        // If the whole header block is available but its last header is still
+        // incomplete, the header crosses the end of the frame.
+        if (r.error() == error::incomplete &&
+            (qpack_.count() >= headers_size_ ||
+             encoded.size() >= headers_size_ - qpack_.count())) {
+          return error::malformed_frame;
+        }
+
+        return r.error();
+      }
+
+      header header = std::move(r).value();
 
       if (qpack_.count() > headers_size_) {
         return error::malformed_frame;
-- 
2.43.0


From 7552a3f2a9c3584794a7645cc648819ff48c5ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:57 +0000
Subject: [PATCH 13/58] fix: decode empty DATA frames without waiting for more
 data

---
 bnl/http3/src/codec/body.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bnl/http3/src/codec/body.cpp b/bnl/http3/src/codec/body.cpp
index 347b1df..ed6b3e1 100644
--- a/bnl/http3/src/codec/body.cpp
+++ b/bnl/http3/src/codec/body.cpp
@@ -93,6 +93,10 @@ decoder::decode(Sequence &encoded)
 
       frame frame = BNL_TRY(frame::decode(encoded));
 
+      if (frame.data.size == 0) {
+        return base::buffer();
+      }
+
       state_ = state::data;
       remaining_ = frame.data.size;
     }
-- 
2.43.0


From 3a62bf1395cb866555629b8a92ebfbad26f5baab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:57 +0000
Subject: [PATCH 14/58] fix: refuse to end a body twice

---
 bnl/http3/src/codec/body.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/body.cpp b/bnl/http3/src/codec/body.cpp
index ed6b3e1..9b81cbc 100644
--- a/bnl/http3/src/codec/body.cpp
+++ b/bnl/http3/src/codec/body.cpp
@@ -19,7 +19,7 @@ encoder::add(base::buffer body)
 result<void>
 encoder::fin() noexcept
 {
-  if (state_ == state::fin) {
+  if (fin_) {
     return error::internal;
   }
 
-- 
2.43.0


From b629daf84652d3b3e09a7650e3a12c62bef92818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:57 +0000
Subject: [PATCH 15/58] fix: send the end of a message that ends after all its
 data was sent

---
 bnl/http3/src/endpoint/stream/request.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index 48e1b74..aaa8d54 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -77,6 +77,12 @@ sender::send() noexcept
     }
 
     case state::body: {
+      // The body was ended after all of it had already been sent.
+      if (body_.finished()) {
+        state_ = state::fin;
+        return quic::data{ id_, true, base::buffer() };
+      }
+
       base::buffer encoded = BNL_TRY(body_.encode());
 
       if (body_.finished()) {
-- 
2.43.0


From 6add9e57310727028de0c91721a6086e32bee556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:57 +0000
Subject: [PATCH 16/58] fix: deliver body data received before the stream was
 truncated

---
 bnl/http3/src/endpoint/stream/request.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index aaa8d54..972e254 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -293,13 +293,11 @@ receiver::process() noexcept
 
       bool fin = buffers_.empty() && fin_received_;
 
-      if (fin) {
-        // We've processed all stream data but there still frame data left to be
-        // received.
-        if (body_.in_progress()) {
-          return (error::malformed_frame);
-        }
+      // If there's still frame data left to be received, the error is returned
+      // on the next call, after the data that was received.
+      fin = fin && !body_.in_progress();
 
+      if (fin) {
         state_ = state::fin;
       }
 
-- 
2.43.0


From 3523ebe3a78bee63f4118c71dd713bdd1786c9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:57 +0000
Subject: [PATCH 17/58] fix: accept an end of stream that arrives after the
 last frame

---
 bnl/http3/src/endpoint/stream/request.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index 972e254..04bee0d 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -285,6 +285,12 @@ receiver::process() noexcept
     }
 
     case state::body: {
+      // The stream was ended after the last frame had already been processed.
+      if (buffers_.empty() && fin_received_ && !body_.in_progress()) {
+        state_ = state::fin;
+        return event::payload::body{ id_, true, base::buffer() };
+      }
+
       result<base::buffer> r = body_.decode(buffers_);
       if (!r) {
         error = r.error();
-- 
2.43.0


From f71df1664755b7504764e66494da09a616f935e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:57 +0000
Subject: [PATCH 18/58] fix: report frames truncated by the end of the stream

---
 bnl/http3/src/endpoint/stream/request.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index 04bee0d..143ef40 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -319,7 +319,13 @@ receiver::process() noexcept
   }
 
   if (error == error::delegate) {
-    frame frame = BNL_TRY(frame::decode(buffers_));
+    result<frame> r = frame::decode(buffers_);
+    if (!r) {
+      bool truncated = r.error() == error::incomplete && fin_received_;
+      return truncated ? error::malformed_frame : r.error();
+    }
+
+    frame frame = std::move(r).value();
 
     switch (frame) {
       case frame::type::headers:
-- 
2.43.0


From 39c852bf570e3270eff6dea6930a8e72ac58a091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:29 +0000
Subject: [PATCH 19/58] fix: skip unknown frames at the end of a stream

---
 bnl/http3/src/endpoint/stream/request.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index 143ef40..6f4722e 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -285,12 +285,6 @@ receiver::process() noexcept
     }
 
     case state::body: {
-      // The stream was ended after the last frame had already been processed.
-      if (buffers_.empty() && fin_received_ && !body_.in_progress()) {
-        state_ = state::fin;
-        return event::payload::body{ id_, true, base::buffer() };
-      }
-
       result<base::buffer> r = body_.decode(buffers_);
       if (!r) {
         error = r.error();
@@ -315,6 +309,17 @@ receiver::process() noexcept
   };
 
   if (error == error::incomplete && fin_received_) {
+    // The stream can be ended after the last DATA frame was processed, possibly
+    // with unknown frames in between. Decoding skips those.
+    if (state_ == state::body && !body_.in_progress()) {
+      result<frame> r = frame::decode(buffers_);
+
+      if (!r && r.error() == error::incomplete && buffers_.empty()) {
+        state_ = state::fin;
+        return event::payload::body{ id_, true, base::buffer() };
+      }
+    }
+
     return error::malformed_frame;
   }
 
-- 
2.43.0


From bebb3e4f171b149c4e0d3e6fbbf2a0658608b012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:29 +0000
Subject: [PATCH 20/58] fix: finish messages with trailing headers at the end
 of the stream

---
 .../bnl/http3/endpoint/stream/request.hpp     |  3 ++-
 bnl/http3/src/endpoint/stream/request.cpp     | 25 ++++++++++++++++---
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp b/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
index d0b8a32..b6fcb81 100644
--- a/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
+++ b/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
@@ -99,10 +99,11 @@ protected:
   const headers::decoder &headers() const noexcept;
 
 private:
-  enum class state : uint8_t { closed, headers, body, fin };
+  enum class state : uint8_t { closed, headers, body, trailers, fin };
 
   state state_ = state::closed;
   base::buffers buffers_;
+  uint64_t trailers_remaining_ = 0;
   bool fin_received_ = false;
 
   headers::decoder headers_;
diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index 6f4722e..af5cb5b 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -2,6 +2,8 @@
 
 #include <bnl/base/log.hpp>
 
+#include <algorithm>
+
 namespace bnl {
 namespace http3 {
 namespace endpoint {
@@ -304,6 +306,23 @@ receiver::process() noexcept
       return event::payload::body{ id_, fin, std::move(r).value() };
     }
 
+    case state::trailers: {
+      size_t size = buffers_.size();
+      buffers_.consume(size);
+      trailers_remaining_ -= std::min<uint64_t>(size, trailers_remaining_);
+
+      if (!fin_received_) {
+        return error::incomplete;
+      }
+
+      if (trailers_remaining_ != 0) {
+        return error::malformed_frame;
+      }
+
+      state_ = state::fin;
+      return event::payload::body{ id_, true, base::buffer() };
+    }
+
     case state::fin:
       return event::payload::finished{ id_ };
   };
@@ -337,9 +356,9 @@ receiver::process() noexcept
         // TODO: Implement trailing HEADERS
         if (state_ == receiver::state::body) {
           BNL_LOG_W("Ignoring trailing headers");
-          buffers_.consume(buffers_.size());
-          state_ = state::fin;
-          return event::payload::body{ id_, true, base::buffer() };
+          state_ = state::trailers;
+          trailers_remaining_ = frame.headers.size;
+          return process();
         }
         break;
       case frame::type::data:
-- 
2.43.0


From c030b9b598caa2689554fcc1ec610c9eec3e72db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:19 +0000
Subject: [PATCH 21/58] fix: report the end of a message only once

---
 bnl/http3/include/bnl/http3/endpoint/stream/request.hpp | 9 ++++++++-
 bnl/http3/src/endpoint/stream/request.cpp               | 7 ++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp b/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
index b6fcb81..ff82f72 100644
--- a/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
+++ b/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
@@ -99,7 +99,14 @@ protected:
   const headers::decoder &headers() const noexcept;
 
 private:
-  enum class state : uint8_t { closed, headers, body, trailers, fin };
+  enum class state : uint8_t {
+    closed,
+    headers,
+    body,
+    trailers,
+    fin,
+    finished
+  };
 
   state state_ = state::closed;
   base::buffers buffers_;
diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index af5cb5b..eee8e6c 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -224,7 +224,7 @@ receiver::closed() const noexcept
 bool
 receiver::finished() const noexcept
 {
-  return state_ == state::fin;
+  return state_ == state::finished;
 }
 
 result<void>
@@ -324,7 +324,12 @@ receiver::process() noexcept
     }
 
     case state::fin:
+      state_ = state::finished;
       return event::payload::finished{ id_ };
+
+    case state::finished:
+      // The finished event is returned only once.
+      return error::incomplete;
   };
 
   if (error == error::incomplete && fin_received_) {
-- 
2.43.0


From 6e0caf057e016406712fbf43b2a4f69dcab22f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:19 +0000
Subject: [PATCH 22/58] fix: keep server requests until both request and
 response are finished

---
 .../include/bnl/http3/server/connection.hpp   | 10 +++++
 bnl/http3/src/server/connection.cpp           | 44 ++++++++++++++++---
 2 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/bnl/http3/include/bnl/http3/server/connection.hpp b/bnl/http3/include/bnl/http3/server/connection.hpp
index 78b8897..90c86c8 100644
--- a/bnl/http3/include/bnl/http3/server/connection.hpp
+++ b/bnl/http3/include/bnl/http3/server/connection.hpp
@@ -8,6 +8,7 @@
 #include <bnl/quic/event.hpp>
 
 #include <map>
+#include <set>
 
 namespace bnl {
 namespace http3 {
@@ -42,6 +43,10 @@ private:
 
   result<event> process(uint64_t id);
 
+  void complete(uint64_t id);
+
+  bool completed(uint64_t id) const;
+
 private:
   using control = std::pair<server::stream::control::sender,
                             server::stream::control::receiver>;
@@ -55,6 +60,11 @@ private:
 
   control control_;
   std::map<uint64_t, request> requests_;
+
+  // Streams that were completed: those (of request streams) below
+  // `completed_end_` and those in `completed_`.
+  uint64_t completed_end_ = 0;
+  std::set<uint64_t> completed_;
 };
 
 }
diff --git a/bnl/http3/src/server/connection.cpp b/bnl/http3/src/server/connection.cpp
index d25cf9d..92596e7 100644
--- a/bnl/http3/src/server/connection.cpp
+++ b/bnl/http3/src/server/connection.cpp
@@ -30,8 +30,9 @@ connection::send() noexcept
 
     result<quic::event> r = request.send();
     if (r) {
-      if (request.finished()) {
-        requests_.erase(id);
+      // A response can be finished before its request is.
+      if (request.finished() && entry.second.second.finished()) {
+        complete(id);
       }
 
       return r;
@@ -70,6 +71,10 @@ connection::recv(quic::data data)
     return control.recv(std::move(data));
   };
 
+  if (completed(data.id)) {
+    return error::stream_closed;
+  }
+
   auto match = requests_.find(data.id);
   if (match == requests_.end()) {
     server::stream::request::sender sender(data.id);
@@ -105,16 +110,45 @@ connection::process(uint64_t id)
     return event;
   }
 
-  server::stream::request::receiver &request = requests_.at(id).second;
+  auto match = requests_.find(id);
+  if (match == requests_.end()) {
+    return error::incomplete;
+  }
+
+  server::stream::request::sender &sender = match->second.first;
+  server::stream::request::receiver &receiver = match->second.second;
+
+  event event = BNL_TRY(receiver.process());
+
+  if (receiver.finished() && sender.finished()) {
+    complete(id);
+  }
 
-  return request.process();
+  return event;
+}
+
+void
+connection::complete(uint64_t id)
+{
+  requests_.erase(id);
+  completed_.insert(id);
+
+  while (completed_.erase(completed_end_) != 0) {
+    completed_end_ += 4;
+  }
+}
+
+bool
+connection::completed(uint64_t id) const
+{
+  return (id % 4 == 0 && id < completed_end_) || completed_.count(id) != 0;
 }
 
 result<response::handle>
 connection::response(uint64_t id)
 {
   auto match = requests_.find(id);
-  if (match == requests_.end()) {
+  if (match == requests_.end() || match->second.first.finished()) {
     return error::stream_closed;
   }
 
-- 
2.43.0


From b3a8654bd485a92762a6832dafcead6e8a5c800a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:19 +0000
Subject: [PATCH 23/58] fix: send all of a request even if its response is
 finished first

---
 bnl/http3/src/client/connection.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/bnl/http3/src/client/connection.cpp b/bnl/http3/src/client/connection.cpp
index 8979b03..89ae221 100644
--- a/bnl/http3/src/client/connection.cpp
+++ b/bnl/http3/src/client/connection.cpp
@@ -37,6 +37,10 @@ connection::send() noexcept
         BNL_TRY(receiver.start());
       }
 
+      if (sender.finished() && receiver.finished()) {
+        requests_.erase(entry.first);
+      }
+
       return r;
     }
 
@@ -117,16 +121,17 @@ connection::process(uint64_t id)
   }
 
   auto match = requests_.find(id);
-  // TODO: Better error
   if (match == requests_.end()) {
-    return error::internal;
+    return error::incomplete;
   }
 
-  client::stream::request::receiver &request = match->second.second;
+  client::stream::request::sender &sender = match->second.first;
+  client::stream::request::receiver &receiver = match->second.second;
 
-  event event = BNL_TRY(request.process());
+  event event = BNL_TRY(receiver.process());
 
-  if (event == event::type::finished) {
+  // A response can be finished before its request is.
+  if (receiver.finished() && sender.finished()) {
     requests_.erase(id);
   }
 
-- 
2.43.0


From ac006b002dba6256a263eb90d3f3ec0cd69d9b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:19 +0000
Subject: [PATCH 24/58] fix: detach message handles that are replaced

---
 bnl/http3/src/endpoint/stream/request.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index eee8e6c..382b492 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -32,6 +32,10 @@ sender &
 sender::operator=(sender &&other) noexcept
 {
   if (&other != this) {
+    if (handle_ != nullptr) {
+      handle_->sender_ = nullptr;
+    }
+
     handle_ = other.handle_;
     state_ = other.state_;
     headers_ = std::move(other.headers_);
@@ -130,6 +134,11 @@ sender::handle::handle(sender *sender)
   : id_(sender->id_)
   , sender_(sender)
 {
+  // Only the last handle of a sender is valid.
+  if (sender_->handle_ != nullptr) {
+    sender_->handle_->sender_ = nullptr;
+  }
+
   sender_->handle_ = this;
 }
 
@@ -143,6 +152,10 @@ sender::handle &
 sender::handle::operator=(sender::handle &&other) noexcept
 {
   if (&other != this) {
+    if (sender_ != nullptr) {
+      sender_->handle_ = nullptr;
+    }
+
     id_ = other.id_;
     sender_ = other.sender_;
     other.id_ = UINT64_MAX;
-- 
2.43.0


From dd8a1258a20efa55ccdfbff549cd417d2a4ca53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:19 +0000
Subject: [PATCH 25/58] fix: return an error if a control stream has another
 type

---
 bnl/http3/src/endpoint/stream/control.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bnl/http3/src/endpoint/stream/control.cpp b/bnl/http3/src/endpoint/stream/control.cpp
index c204910..4e40396 100644
--- a/bnl/http3/src/endpoint/stream/control.cpp
+++ b/bnl/http3/src/endpoint/stream/control.cpp
@@ -68,9 +68,15 @@ receiver::process() noexcept
     // TODO: Move this out of control stream since we technically won't know its
     // the control stream until we've decoded the type.
     case state::type: {
-      uint64_t type = BNL_TRY(varint::decode(buffers_));
-      (void) type; // Silence GCC 9 Wunused-variable warning
-      assert(type == control::type);
+      base::buffers::lookahead lookahead(buffers_);
+      uint64_t type = BNL_TRY(varint::decode(lookahead));
+
+      if (type != control::type) {
+        BNL_LOG_E("Control stream has unexpected type ({})", type);
+        return error::wrong_stream;
+      }
+
+      buffers_.consume(lookahead.consumed());
       state_ = state::settings;
     }
     /* FALLTHRU */
-- 
2.43.0


From e27d4381a615c4fd1bae0e185bb1c8a8153e64b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:19 +0000
Subject: [PATCH 26/58] fix: don't treat every stream as a request in the
 server

---
 bnl/http3/src/server/connection.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/server/connection.cpp b/bnl/http3/src/server/connection.cpp
index 92596e7..11fb495 100644
--- a/bnl/http3/src/server/connection.cpp
+++ b/bnl/http3/src/server/connection.cpp
@@ -71,6 +71,16 @@ connection::recv(quic::data data)
     return control.recv(std::move(data));
   };
 
+  // TODO: Actually handle unidirectional streams.
+  if ((data.id & 0x2U) != 0) {
+    return base::success();
+  }
+
+  // Only clients open request streams.
+  if ((data.id & 0x1U) != 0) {
+    return error::internal;
+  }
+
   if (completed(data.id)) {
     return error::stream_closed;
   }
@@ -141,7 +151,7 @@ connection::complete(uint64_t id)
 bool
 connection::completed(uint64_t id) const
 {
-  return (id % 4 == 0 && id < completed_end_) || completed_.count(id) != 0;
+  return id < completed_end_ || completed_.count(id) != 0;
 }
 
 result<response::handle>
-- 
2.43.0


From 474297574938b52c743ebbe41dd6e119024cd34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:23 +0000
Subject: [PATCH 27/58] fix: don't let data after a header block influence its
 error

---
 bnl/http3/src/codec/headers.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/bnl/http3/src/codec/headers.cpp b/bnl/http3/src/codec/headers.cpp
index 1fd1cbc..5bfe080 100644
--- a/bnl/http3/src/codec/headers.cpp
+++ b/bnl/http3/src/codec/headers.cpp
@@ -106,14 +106,27 @@ decoder::decode(Sequence &encoded)
       result<header> r = qpack_.decode(encoded);
 
       if (!r) {
-        // If the whole header block is available but its last header is still
-        // incomplete, the header crosses the end of the frame.
-        if (r.error() == error::incomplete &&
-            (qpack_.count() >= headers_size_ ||
-             encoded.size() >= headers_size_ - qpack_.count())) {
+        // If the whole header block is available but doesn't contain a complete
+        // header, the header crosses the end of the frame. Data after the frame
+        // must not influence which error is returned.
+        if (qpack_.count() >= headers_size_) {
           return error::malformed_frame;
         }
 
+        uint64_t remaining = headers_size_ - qpack_.count();
+
+        if (encoded.size() >= remaining) {
+          base::buffer block(static_cast<size_t>(remaining));
+          for (size_t i = 0; i < block.size(); i++) {
+            block[i] = encoded[i];
+          }
+
+          r = qpack_.decode(block);
+          if (!r && r.error() == error::incomplete) {
+            return error::malformed_frame;
+          }
+        }
+
         return r.error();
       }
 
-- 
2.43.0


From b4724a78f29b17e1b30adcadb3162bbf70fd13c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:40 +0000
Subject: [PATCH 28/58] fix: allow slicing zero bytes from an empty list of
 buffers

---
 bnl/base/src/base/buffers.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bnl/base/src/base/buffers.cpp b/bnl/base/src/base/buffers.cpp
index fc1d2f4..b7527f5 100644
--- a/bnl/base/src/base/buffers.cpp
+++ b/bnl/base/src/base/buffers.cpp
@@ -59,6 +59,10 @@ buffers::slice(size_t size)
 {
   assert(size <= this->size());
 
+  if (size == 0) {
+    return base::buffer();
+  }
+
   auto begin = find_first_not_empty(buffers_);
   assert(begin != buffers_.end());
 
-- 
2.43.0


From 9c1cf2deda8b8a8e5d62a78ccc7f290b1d2acf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:55 +0000
Subject: [PATCH 29/58] fix: keep error codes distinct when converting to
 std::error_code

---
 bnl/base/src/base/system_error.cpp | 35 +++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/bnl/base/src/base/system_error.cpp b/bnl/base/src/base/system_error.cpp
index 8ea89a2..173251b 100644
--- a/bnl/base/src/base/system_error.cpp
+++ b/bnl/base/src/base/system_error.cpp
@@ -1,5 +1,30 @@
 #include <bnl/base/system_error.hpp>
 
+#include <bnl/base/enum.hpp>
+
+#include <cstdint>
+
+// Error codes that never appear on the wire start at 2^62 which does not fit an
+// `int`. Folding the upper half of the code into the lower half maps these to
+// codes starting at 2^30 which none of the other error codes use.
+
+static constexpr int INTERNAL_CODE_BIT = 1 << 30;
+
+static int
+fold(uint64_t value) noexcept
+{
+  return static_cast<int>((value >> 32U) | (value & 0x7fffffffU));
+}
+
+static uint64_t
+unfold(int code) noexcept
+{
+  uint64_t upper = static_cast<uint64_t>(code & INTERNAL_CODE_BIT) << 32U;
+  uint64_t lower = static_cast<uint64_t>(code & ~INTERNAL_CODE_BIT);
+
+  return upper | lower;
+}
+
 namespace bnl {
 
 namespace http3 {
@@ -20,7 +45,7 @@ error_category_impl::name() const noexcept
 std::string
 error_category_impl::message(int code) const noexcept
 {
-  switch (static_cast<error>(code)) {
+  switch (static_cast<error>(unfold(code))) {
     case error::no_error:
       return "no error";
     case error::internal:
@@ -68,7 +93,7 @@ error_category() noexcept
 std::error_code
 make_error_code(error error) noexcept
 {
-  return { static_cast<int>(error), error_category() };
+  return { fold(enumeration::value(error)), error_category() };
 }
 
 }
@@ -85,13 +110,13 @@ public:
 const char *
 error_category_impl::name() const noexcept
 {
-  return "bnl-http3";
+  return "bnl-quic";
 }
 
 std::string
 error_category_impl::message(int code) const noexcept
 {
-  switch (static_cast<error>(code)) {
+  switch (static_cast<error>(unfold(code))) {
     case error::no_error:
       return "no error";
     case error::internal:
@@ -135,7 +160,7 @@ error_category() noexcept
 std::error_code
 make_error_code(error error) noexcept
 {
-  return { static_cast<int>(error), error_category() };
+  return { fold(enumeration::value(error)), error_category() };
 }
 
 }
-- 
2.43.0


From 5ec61b11ced921f84d2dcc47a8842abd11031abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:42 +0000
Subject: [PATCH 30/58] fix: don't convert a timeout of the example client to
 success

---
 bnl/http3/app/endpoint/os/result.cpp | 2 +-
 bnl/http3/app/endpoint/os/result.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bnl/http3/app/endpoint/os/result.cpp b/bnl/http3/app/endpoint/os/result.cpp
index c05cfbb..2bba4d2 100644
--- a/bnl/http3/app/endpoint/os/result.cpp
+++ b/bnl/http3/app/endpoint/os/result.cpp
@@ -10,7 +10,7 @@ public:
 const char *
 error_category_impl::name() const noexcept
 {
-  return "bnl-http3";
+  return "bnl-http3-client";
 }
 
 std::string
diff --git a/bnl/http3/app/endpoint/os/result.hpp b/bnl/http3/app/endpoint/os/result.hpp
index c03e5d5..8c059a3 100644
--- a/bnl/http3/app/endpoint/os/result.hpp
+++ b/bnl/http3/app/endpoint/os/result.hpp
@@ -6,7 +6,7 @@
 #include <system_error>
 
 enum class error {
-  timeout,
+  timeout = 1,
   resolve,
   invalid_argument,
   idle,
-- 
2.43.0


From 03ca1c2dd7263e3a8c01a832c51807917ccc42cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:43 +0000
Subject: [PATCH 31/58] fix: write the newline of a log record to the stream of
 the record

---
 bnl/log/src/console.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/log/src/console.cpp b/bnl/log/src/console.cpp
index b46f9f1..77c392c 100644
--- a/bnl/log/src/console.cpp
+++ b/bnl/log/src/console.cpp
@@ -63,7 +63,7 @@ console::log(base::log::level level,
   color = fmt::fg(fmt::color::white);
   fmt::vprint(output, color, format, args);
 
-  fmt::print("\n");
+  fmt::print(output, "\n");
 
   fflush(output);
 }
-- 
2.43.0


From 4d7cc77c4e092e3d7ed438e5aaecb4fae5388b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:20 +0000
Subject: [PATCH 32/58] fix: don't throw from the console logger if its record
 can't be written

---
 bnl/log/src/console.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bnl/log/src/console.cpp b/bnl/log/src/console.cpp
index 77c392c..5e4f772 100644
--- a/bnl/log/src/console.cpp
+++ b/bnl/log/src/console.cpp
@@ -4,6 +4,7 @@
 #include <fmt/color.h>
 
 #include <array>
+#include <system_error>
 
 static constexpr std::array<const char *, 6> level_names = { "TRACE", "DEBUG",
                                                              "INFO ", "WARN ",
@@ -28,7 +29,7 @@ console::log(base::log::level level,
              int line,
              const char *format,
              const fmt::format_args &args) const
-{
+try {
   (void) function;
 
   if (level < level_) {
@@ -66,6 +67,8 @@ console::log(base::log::level level,
   fmt::print(output, "\n");
 
   fflush(output);
+} catch (const std::system_error &) {
+  // A program should not fail because its log can't be written.
 }
 
 }
-- 
2.43.0


From 07d8f279f86b525beadee24f5cb1f0059ff7bee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 33/58] fix: compare all of two IP addresses with operator!=

---
 bnl/base/include/bnl/ip/address.hpp | 2 ++
 bnl/base/src/ip/address.cpp         | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/bnl/base/include/bnl/ip/address.hpp b/bnl/base/include/bnl/ip/address.hpp
index 58df93a..847d6b4 100644
--- a/bnl/base/include/bnl/ip/address.hpp
+++ b/bnl/base/include/bnl/ip/address.hpp
@@ -30,6 +30,8 @@ public:
 
   BNL_BASE_EXPORT friend bool operator==(const address &lhs,
                                          const address &rhs);
+  BNL_BASE_EXPORT friend bool operator!=(const address &lhs,
+                                         const address &rhs);
 
 private:
   type type_;
diff --git a/bnl/base/src/ip/address.cpp b/bnl/base/src/ip/address.cpp
index 5ccd0f6..1618219 100644
--- a/bnl/base/src/ip/address.cpp
+++ b/bnl/base/src/ip/address.cpp
@@ -82,5 +82,11 @@ operator==(const address &lhs, const address &rhs)
   return lhs.bytes() == rhs.bytes();
 }
 
+bool
+operator!=(const address &lhs, const address &rhs)
+{
+  return !(lhs == rhs);
+}
+
 }
 }
-- 
2.43.0


From b9760642c2bddce0b3cdbdb3297b5e9125eb48e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:32 +0000
Subject: [PATCH 34/58] fix: encode a last header list that isn't followed by
 an empty line

---
 bnl/http3/app/qpack/qpack-interop-encode.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bnl/http3/app/qpack/qpack-interop-encode.cpp b/bnl/http3/app/qpack/qpack-interop-encode.cpp
index b22c71c..13cdf48 100644
--- a/bnl/http3/app/qpack/qpack-interop-encode.cpp
+++ b/bnl/http3/app/qpack/qpack-interop-encode.cpp
@@ -149,5 +149,14 @@ main(int argc, char *argv[])
     headers.emplace_back(std::move(header));
   }
 
+  // The last list isn't necessarily followed by an empty line.
+  if (!headers.empty()) {
+    http3::result<void> r = encode(id, headers, output);
+    if (!r) {
+      BNL_LOG_E("Error encoding headers");
+      return 1;
+    }
+  }
+
   return 0;
 }
-- 
2.43.0


From b8a40f49b7d61cc1be130164559a45e46e4c2868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:35 +0000
Subject: [PATCH 35/58] fix: report that the output of the QPACK interop tools
 can't be written

---
 bnl/http3/app/qpack/qpack-interop-decode.cpp | 7 +++++++
 bnl/http3/app/qpack/qpack-interop-encode.cpp | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/bnl/http3/app/qpack/qpack-interop-decode.cpp b/bnl/http3/app/qpack/qpack-interop-decode.cpp
index f919f3b..98f4978 100644
--- a/bnl/http3/app/qpack/qpack-interop-decode.cpp
+++ b/bnl/http3/app/qpack/qpack-interop-decode.cpp
@@ -130,5 +130,12 @@ main(int argc, char *argv[])
     }
   }
 
+  try {
+    output.close();
+  } catch (const std::ios_base::failure &e) {
+    BNL_LOG_E("Error writing output: {}", e.what());
+    return 1;
+  }
+
   return 0;
 }
diff --git a/bnl/http3/app/qpack/qpack-interop-encode.cpp b/bnl/http3/app/qpack/qpack-interop-encode.cpp
index 13cdf48..ef6d789 100644
--- a/bnl/http3/app/qpack/qpack-interop-encode.cpp
+++ b/bnl/http3/app/qpack/qpack-interop-encode.cpp
@@ -158,5 +158,12 @@ main(int argc, char *argv[])
     }
   }
 
+  try {
+    output.close();
+  } catch (const std::ios_base::failure &e) {
+    BNL_LOG_E("Error writing output: {}", e.what());
+    return 1;
+  }
+
   return 0;
 }
-- 
2.43.0


From e35871d7595bedee5d5a1dfe54a4688258c9992b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 36/58] fix: The ChaCha20 header protection mask is the
 keystream, not the encrypted sample

---
 bnl/quic/src/crypto/boringssl.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bnl/quic/src/crypto/boringssl.cpp b/bnl/quic/src/crypto/boringssl.cpp
index 0531ec5..c2f1060 100644
--- a/bnl/quic/src/crypto/boringssl.cpp
+++ b/bnl/quic/src/crypto/boringssl.cpp
@@ -196,9 +196,11 @@ crypto::hp_mask(base::buffer_view_mut dest,
       nonce[1] = uint32_LE(sample.data() + 8);
       nonce[2] = uint32_LE(sample.data() + 12);
 
+      static const uint8_t ZEROS[5] = {};
+
       CRYPTO_chacha_20(dest.data(),
-                       sample.data(),
-                       sample.size(),
+                       ZEROS,
+                       sizeof(ZEROS),
                        key.data(),
                        reinterpret_cast<uint8_t *>(nonce),
                        counter);
-- 
2.43.0


From 2a8c109fd5fff3d0d11b75a21102435430a28ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 37/58] fix: HKDF labels state the length of outputs of 255
 bytes and more

---
 bnl/quic/src/crypto.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bnl/quic/src/crypto.cpp b/bnl/quic/src/crypto.cpp
index 6cf924a..2f48135 100644
--- a/bnl/quic/src/crypto.cpp
+++ b/bnl/quic/src/crypto.cpp
@@ -155,8 +155,8 @@ crypto::hkdf_expand_label(base::buffer_view secret,
   // HkdfLabel
 
   // length (uint16_t)
-  *it++ = static_cast<uint8_t>(size / UINT8_MAX); // MSB
-  *it++ = static_cast<uint8_t>(size % UINT8_MAX); // LSB
+  *it++ = static_cast<uint8_t>(size >> 8U); // MSB
+  *it++ = static_cast<uint8_t>(size & 0xffU); // LSB
 
   // "tls 13 " + Label
   static const base::buffer_view LABEL = "tls13 ";
-- 
2.43.0


From 9a2db2dfb4b6c6cc88350728aa6afc22a06642d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 38/58] fix: Sealing a packet never writes past the end of its
 destination

---
 bnl/quic/src/crypto/boringssl.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bnl/quic/src/crypto/boringssl.cpp b/bnl/quic/src/crypto/boringssl.cpp
index c2f1060..53526f0 100644
--- a/bnl/quic/src/crypto/boringssl.cpp
+++ b/bnl/quic/src/crypto/boringssl.cpp
@@ -94,7 +94,7 @@ crypto::encrypt(base::buffer_view_mut dest,
     return error::crypto;
   }
 
-  size_t max_size = plaintext.size() + EVP_AEAD_max_overhead(evp_aead(aead_));
+  size_t max_size = dest.size();
   size_t out_size = dest.size();
 
   int rv = EVP_AEAD_CTX_seal(context,
@@ -114,7 +114,8 @@ crypto::encrypt(base::buffer_view_mut dest,
     return error::crypto;
   }
 
-  assert(out_size == max_size);
+  assert(out_size ==
+         plaintext.size() + EVP_AEAD_max_overhead(evp_aead(aead_)));
 
   return base::success();
 }
-- 
2.43.0


From 60ebee2294343b50cc733d616b8ef3d427840abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 39/58] fix: A descriptor that is overwritten by another one is
 closed

---
 bnl/http3/app/endpoint/os/fd.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bnl/http3/app/endpoint/os/fd.cpp b/bnl/http3/app/endpoint/os/fd.cpp
index c8ac408..32017b3 100644
--- a/bnl/http3/app/endpoint/os/fd.cpp
+++ b/bnl/http3/app/endpoint/os/fd.cpp
@@ -16,6 +16,10 @@ fd &
 fd::operator=(fd &&other) noexcept
 {
   if (&other != this) {
+    if (fd_ != -1) {
+      close(fd_);
+    }
+
     fd_ = other.fd_;
     other.fd_ = -1;
   }
-- 
2.43.0


From 4e6bdc997f0b05fadb1bf85e7267ff1d41167dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 40/58] fix: udp::error() returns the socket's pending error

---
 bnl/http3/app/endpoint/os/socket/udp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/app/endpoint/os/socket/udp.cpp b/bnl/http3/app/endpoint/os/socket/udp.cpp
index 5f0e718..954b348 100644
--- a/bnl/http3/app/endpoint/os/socket/udp.cpp
+++ b/bnl/http3/app/endpoint/os/socket/udp.cpp
@@ -159,7 +159,7 @@ udp::error() const noexcept
     THROW_SYSTEM(getsockopt, errno);
   }
 
-  return {};
+  return { error, std::system_category() };
 }
 
 result<void>
-- 
2.43.0


From 6a596adf997b9edce6a6ab458b161d7f7d05ec6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 41/58] fix: A datagram that arrives while udp::recv() runs
 isn't truncated

---
 bnl/http3/app/endpoint/os/socket/udp.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bnl/http3/app/endpoint/os/socket/udp.cpp b/bnl/http3/app/endpoint/os/socket/udp.cpp
index 954b348..d770272 100644
--- a/bnl/http3/app/endpoint/os/socket/udp.cpp
+++ b/bnl/http3/app/endpoint/os/socket/udp.cpp
@@ -5,7 +5,6 @@
 #include <arpa/inet.h>
 #include <cassert>
 #include <sys/epoll.h>
-#include <sys/ioctl.h>
 
 static sockaddr_storage
 make_sockaddr(ip::endpoint endpoint)
@@ -196,10 +195,13 @@ udp::add(base::buffer buffer)
 result<base::buffer>
 udp::recv()
 {
-  int size = 0;
+  ssize_t size = ::recv(socket_, nullptr, 0, MSG_PEEK | MSG_TRUNC);
+  if (size == -1) {
+    if (errno == EAGAIN) {
+      return { errno, std::system_category() };
+    }
 
-  if ((ioctl(socket_, FIONREAD, &size)) == -1) { // NOLINT
-    THROW_SYSTEM(ioctl, errno);
+    THROW_SYSTEM(read, errno);
   }
 
   base::buffer datagram(static_cast<size_t>(size));
-- 
2.43.0


From a0907229c98f0f8bda3f55cd089346af69ec69d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 42/58] fix: Creating a UDP socket that can't be opened or
 connected throws

---
 bnl/http3/app/endpoint/os/socket/udp.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/app/endpoint/os/socket/udp.cpp b/bnl/http3/app/endpoint/os/socket/udp.cpp
index d770272..ec1a828 100644
--- a/bnl/http3/app/endpoint/os/socket/udp.cpp
+++ b/bnl/http3/app/endpoint/os/socket/udp.cpp
@@ -104,11 +104,22 @@ make_socket(ip::endpoint peer)
   return fd;
 }
 
+static os::fd
+make_socket_or_throw(ip::endpoint peer)
+{
+  result<os::fd> fd = make_socket(peer);
+  if (!fd) {
+    throw std::system_error(fd.error());
+  }
+
+  return std::move(fd).value();
+}
+
 namespace os {
 namespace socket {
 
 udp::udp(ip::endpoint peer)
-  : socket_(make_socket(peer).assume_value())
+  : socket_(make_socket_or_throw(peer))
 {}
 
 ip::endpoint
-- 
2.43.0


From 176f73567b099102bba43300475cad4fb07cb6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 43/58] fix: Text that is no address is an invalid argument,
 not a stale errno

---
 bnl/http3/app/endpoint/os/ip/address.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bnl/http3/app/endpoint/os/ip/address.cpp b/bnl/http3/app/endpoint/os/ip/address.cpp
index 87a0b0e..8ee529f 100644
--- a/bnl/http3/app/endpoint/os/ip/address.cpp
+++ b/bnl/http3/app/endpoint/os/ip/address.cpp
@@ -21,6 +21,10 @@ make_address(base::string_view address)
 
   std::array<uint8_t, ipv6::address::size> ipv6 = {};
   rv = inet_pton(AF_INET6, string.c_str(), ipv6.data());
+  if (rv == 0) {
+    return error::invalid_argument;
+  }
+
   if (rv != 1) {
     THROW_SYSTEM(inet_pton, errno);
   }
-- 
2.43.0


From a2bb78d699586c80d6a44dc70012ff9b29accf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 44/58] fix: Errors of the resolver aren't reported as
 unrelated system errors

---
 bnl/http3/app/endpoint/os/dns.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/app/endpoint/os/dns.cpp b/bnl/http3/app/endpoint/os/dns.cpp
index 1977721..fa7a794 100644
--- a/bnl/http3/app/endpoint/os/dns.cpp
+++ b/bnl/http3/app/endpoint/os/dns.cpp
@@ -40,8 +40,13 @@ resolve(const ip::host &host)
   addrinfo *results = nullptr;
 
   int rv = getaddrinfo(name.c_str(), nullptr, &hints, &results);
+  if (rv == EAI_SYSTEM) {
+    THROW_SYSTEM(getaddrinfo, errno);
+  }
+
   if (rv != 0) {
-    THROW_SYSTEM(getaddrinfo, rv == EAI_SYSTEM ? errno : rv);
+    BNL_LOG_E("getaddrinfo: {}", gai_strerror(rv));
+    return error::resolve;
   }
 
   addrinfo *info = nullptr;
-- 
2.43.0


From ba3fc196fc5206e728c9956646e9cd8a3067458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 45/58] fix: An event source tests as true when there is one

---
 bnl/http3/app/endpoint/sd/event/source.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/app/endpoint/sd/event/source.cpp b/bnl/http3/app/endpoint/sd/event/source.cpp
index 47ad266..a232780 100644
--- a/bnl/http3/app/endpoint/sd/event/source.cpp
+++ b/bnl/http3/app/endpoint/sd/event/source.cpp
@@ -37,7 +37,7 @@ source::sd() const noexcept
 
 source::operator bool() const noexcept
 {
-  return source_ == nullptr;
+  return source_ != nullptr;
 }
 
 io::io(sd_event_source *source) noexcept
-- 
2.43.0


From d9f008aff45e400906d8dcfeb808a15a2e6b9fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 46/58] fix: The end of a stream is sent with its last buffer,
 not with one like it

---
 bnl/quic/src/client/stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/quic/src/client/stream.cpp b/bnl/quic/src/client/stream.cpp
index 81d424f..e9fbfbc 100644
--- a/bnl/quic/src/client/stream.cpp
+++ b/bnl/quic/src/client/stream.cpp
@@ -31,7 +31,7 @@ stream::send()
   }
 
   const base::buffer &first = buffers_.front();
-  bool fin = fin_ && (first == buffers_.back());
+  bool fin = fin_ && (first.size() == buffers_.size());
 
   base::buffer packet;
   size_t stream_bytes_written = 0;
-- 
2.43.0


From d0bfe1e6fce0bf506d80e8e3c96b87886c52b462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 47/58] fix: Stream data stays in place until it is
 acknowledged

---
 bnl/quic/include/bnl/quic/client/stream.hpp | 11 +++++--
 bnl/quic/src/client/stream.cpp              | 36 +++++++++++++++------
 2 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/bnl/quic/include/bnl/quic/client/stream.hpp b/bnl/quic/include/bnl/quic/client/stream.hpp
index c5ef5e8..c0d01e3 100644
--- a/bnl/quic/include/bnl/quic/client/stream.hpp
+++ b/bnl/quic/include/bnl/quic/client/stream.hpp
@@ -1,9 +1,11 @@
 #pragma once
 
-#include <bnl/base/buffers.hpp>
+#include <bnl/base/buffer.hpp>
 #include <bnl/quic/export.hpp>
 #include <bnl/quic/result.hpp>
 
+#include <list>
+
 namespace bnl {
 namespace quic {
 namespace client {
@@ -27,8 +29,11 @@ public:
   bool opened() const noexcept;
 
 private:
-  base::buffers buffers_;
-  base::buffers keepalive_;
+  // Data that isn't sent or isn't acknowledged yet.
+  std::list<base::buffer> buffers_;
+  // How much of the data in `buffers_` is sent and how much is acknowledged.
+  size_t sent_ = 0;
+  size_t acked_ = 0;
   bool fin_ = false;
   bool opened_ = false;
 
diff --git a/bnl/quic/src/client/stream.cpp b/bnl/quic/src/client/stream.cpp
index e9fbfbc..8f8250d 100644
--- a/bnl/quic/src/client/stream.cpp
+++ b/bnl/quic/src/client/stream.cpp
@@ -16,7 +16,15 @@ stream::stream(uint64_t id, ngtcp2::connection *ngtcp2)
 result<base::buffer>
 stream::send()
 {
-  if (buffers_.empty()) {
+  size_t offset = sent_;
+  auto it = buffers_.begin();
+
+  while (it != buffers_.end() && offset >= it->size()) {
+    offset -= it->size();
+    ++it;
+  }
+
+  if (it == buffers_.end()) {
     return error::idle;
   }
 
@@ -30,8 +38,9 @@ stream::send()
     opened_ = true;
   }
 
-  const base::buffer &first = buffers_.front();
-  bool fin = fin_ && (first.size() == buffers_.size());
+  // ngtcp2 doesn't copy the data so it isn't moved until it's acknowledged.
+  base::buffer_view first(it->data() + offset, it->size() - offset);
+  bool fin = fin_ && (std::next(it) == buffers_.end());
 
   base::buffer packet;
   size_t stream_bytes_written = 0;
@@ -50,8 +59,7 @@ stream::send()
 
   std::tie(packet, stream_bytes_written) = std::move(r).value();
 
-  base::buffer sent = buffers_.slice(stream_bytes_written);
-  keepalive_.push(std::move(sent));
+  sent_ += stream_bytes_written;
 
   return packet;
 }
@@ -61,7 +69,9 @@ stream::add(base::buffer buffer)
 {
   assert(!fin_);
 
-  buffers_.push(std::move(buffer));
+  if (!buffer.empty()) {
+    buffers_.emplace_back(std::move(buffer));
+  }
 
   return base::success();
 }
@@ -79,16 +89,22 @@ stream::fin()
 result<void>
 stream::ack(size_t size)
 {
-  if (size > keepalive_.size()) {
+  if (size > sent_ - acked_) {
     BNL_LOG_E(
       "ngtcp2's acked stream ({}) data ({}) exceeds remaining data ({})",
       id_,
       size,
-      keepalive_.size());
+      sent_ - acked_);
     return error::internal;
   }
 
-  keepalive_.consume(size);
+  acked_ += size;
+
+  while (!buffers_.empty() && acked_ >= buffers_.front().size()) {
+    acked_ -= buffers_.front().size();
+    sent_ -= buffers_.front().size();
+    buffers_.pop_front();
+  }
 
   return base::success();
 }
@@ -96,7 +112,7 @@ stream::ack(size_t size)
 bool
 stream::finished() const noexcept
 {
-  return fin_ && buffers_.empty() && keepalive_.empty();
+  return fin_ && buffers_.empty();
 }
 
 bool
-- 
2.43.0


From 398d2f97dc0241131887cb40c71a54d09ef535cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 48/58] fix: The end of a stream is sent when all of its data
 is already sent

---
 .../bnl/quic/client/ngtcp2/connection.hpp     |  6 ++---
 bnl/quic/include/bnl/quic/client/stream.hpp   |  1 +
 bnl/quic/src/client/connection.cpp            |  5 ++++
 bnl/quic/src/client/ngtcp2/connection.cpp     |  7 ++----
 bnl/quic/src/client/stream.cpp                | 25 +++++++++++++------
 5 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp b/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp
index b1905a4..8abecc4 100644
--- a/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp
+++ b/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp
@@ -70,9 +70,9 @@ public:
 
   result<base::buffer> write_pkt();
 
-  result<std::pair<base::buffer, size_t>> write_stream(uint64_t id,
-                                                       base::buffer_view data,
-                                                       bool fin);
+  result<std::pair<base::buffer, ssize_t>> write_stream(uint64_t id,
+                                                        base::buffer_view data,
+                                                        bool fin);
 
   result<void> read_pkt(base::buffer_view packet);
 
diff --git a/bnl/quic/include/bnl/quic/client/stream.hpp b/bnl/quic/include/bnl/quic/client/stream.hpp
index c0d01e3..d2ab130 100644
--- a/bnl/quic/include/bnl/quic/client/stream.hpp
+++ b/bnl/quic/include/bnl/quic/client/stream.hpp
@@ -35,6 +35,7 @@ private:
   size_t sent_ = 0;
   size_t acked_ = 0;
   bool fin_ = false;
+  bool fin_sent_ = false;
   bool opened_ = false;
 
   uint64_t id_;
diff --git a/bnl/quic/src/client/connection.cpp b/bnl/quic/src/client/connection.cpp
index b5bae26..424eb84 100644
--- a/bnl/quic/src/client/connection.cpp
+++ b/bnl/quic/src/client/connection.cpp
@@ -82,6 +82,11 @@ connection::acked_stream_data_offset(uint64_t id, size_t size)
 {
   auto match = streams_.find(id);
   if (match == streams_.end()) {
+    // The end of a stream can be acknowledged after all of its data.
+    if (size == 0) {
+      return base::success();
+    }
+
     BNL_LOG_E("ngtcp2 acked data for stream {} which does not exist", id);
     return error::internal;
   }
diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index 8661b7b..da02419 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -1000,7 +1000,7 @@ connection::write_pkt()
   return base::buffer(storage.data(), static_cast<size_t>(rv));
 }
 
-result<std::pair<base::buffer, size_t>>
+result<std::pair<base::buffer, ssize_t>>
 connection::write_stream(uint64_t id, base::buffer_view data, bool fin)
 {
   std::array<uint8_t, NGTCP2_MAX_PKTLEN_IPV4> storage = {};
@@ -1028,12 +1028,9 @@ connection::write_stream(uint64_t id, base::buffer_view data, bool fin)
     THROW_NGTCP2(ngtcp2_conn_write_stream, static_cast<int>(rv));
   }
 
-  stream_data_written = stream_data_written == -1 ? 0 : stream_data_written;
-
   base::buffer packet(storage.data(), static_cast<size_t>(rv));
 
-  return std::make_pair(std::move(packet),
-                        static_cast<size_t>(stream_data_written));
+  return std::make_pair(std::move(packet), stream_data_written);
 }
 
 result<void>
diff --git a/bnl/quic/src/client/stream.cpp b/bnl/quic/src/client/stream.cpp
index 8f8250d..33e844e 100644
--- a/bnl/quic/src/client/stream.cpp
+++ b/bnl/quic/src/client/stream.cpp
@@ -24,7 +24,7 @@ stream::send()
     ++it;
   }
 
-  if (it == buffers_.end()) {
+  if (it == buffers_.end() && (!fin_ || fin_sent_)) {
     return error::idle;
   }
 
@@ -39,13 +39,18 @@ stream::send()
   }
 
   // ngtcp2 doesn't copy the data so it isn't moved until it's acknowledged.
-  base::buffer_view first(it->data() + offset, it->size() - offset);
-  bool fin = fin_ && (std::next(it) == buffers_.end());
+  base::buffer_view first;
+  bool fin = fin_;
+
+  if (it != buffers_.end()) {
+    first = base::buffer_view(it->data() + offset, it->size() - offset);
+    fin = fin_ && (std::next(it) == buffers_.end());
+  }
 
   base::buffer packet;
-  size_t stream_bytes_written = 0;
+  ssize_t stream_bytes_written = 0;
 
-  result<std::pair<base::buffer, size_t>> r =
+  result<std::pair<base::buffer, ssize_t>> r =
     ngtcp2_->write_stream(id_, first, fin);
 
   if (!r) {
@@ -59,7 +64,13 @@ stream::send()
 
   std::tie(packet, stream_bytes_written) = std::move(r).value();
 
-  sent_ += stream_bytes_written;
+  // -1 means the packet doesn't contain any part of the stream.
+  if (stream_bytes_written >= 0) {
+    size_t size = static_cast<size_t>(stream_bytes_written);
+
+    sent_ += size;
+    fin_sent_ = fin && size == first.size();
+  }
 
   return packet;
 }
@@ -112,7 +123,7 @@ stream::ack(size_t size)
 bool
 stream::finished() const noexcept
 {
-  return fin_ && buffers_.empty();
+  return fin_sent_ && buffers_.empty();
 }
 
 bool
-- 
2.43.0


From 96d9fe28eed3c58e77322c83990f071bb9df80a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 49/58] fix: A congested connection is idle instead of sending
 an empty packet

---
 bnl/quic/src/client/ngtcp2/connection.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index da02419..1adbf9d 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -1024,6 +1024,10 @@ connection::write_stream(uint64_t id, base::buffer_view data, bool fin)
     return error::stream_data_blocked;
   }
 
+  if (rv == 0) {
+    return error::idle;
+  }
+
   if (rv < 0) {
     THROW_NGTCP2(ngtcp2_conn_write_stream, static_cast<int>(rv));
   }
-- 
2.43.0


From 2b52a8feb97fdbe24705c5dbf54e162bca3ca2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 50/58] fix: The peer's address of a path is the peer's, not
 our own

---
 bnl/quic/src/client/ngtcp2/connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index 1adbf9d..8bc4f94 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -61,7 +61,7 @@ static ngtcp2_path_storage
 make_path(const path &path)
 {
   base::buffer_view local = path.local().address().bytes();
-  base::buffer_view peer = path.local().address().bytes();
+  base::buffer_view peer = path.peer().address().bytes();
 
   ngtcp2_path_storage storage = {};
   ngtcp2_path_storage_init(&storage,
-- 
2.43.0


From a1b1f06bb6cd6c21b0a8d25e924ce7eca743560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 51/58] fix: Messages of ngtcp2 and BoringSSL aren't used as
 format strings

---
 bnl/quic/src/client/handshake/boringssl.cpp | 2 +-
 bnl/quic/src/client/ngtcp2/connection.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bnl/quic/src/client/handshake/boringssl.cpp b/bnl/quic/src/client/handshake/boringssl.cpp
index ee7904e..9225200 100644
--- a/bnl/quic/src/client/handshake/boringssl.cpp
+++ b/bnl/quic/src/client/handshake/boringssl.cpp
@@ -336,7 +336,7 @@ handshake::impl::log_errors()
     std::array<char, 100> string = {};
     ERR_error_string_n(error, string.data(), string.size());
 
-    BNL_LOG_E(string.data());
+    BNL_LOG_E("{}", string.data());
   }
 }
 
diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index 8bc4f94..c1113f7 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -644,7 +644,7 @@ connection::log(void *context, const char *format, ...) // NOLINT
 
   va_end(args); // NOLINT
 
-  BNL_LOG_T(formatted.data());
+  BNL_LOG_T("{}", formatted.data());
 }
 
 static ngtcp2_cid
-- 
2.43.0


From d720a49c2c907b845b1a5908eef3fc02f97063f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:23 +0000
Subject: [PATCH 52/58] fix: The client waits until the transport expires and
 not that long again

quic::client::connection::expiry() is a point in time, not a duration, so lost
packets were sent again much too late.
---
 bnl/http3/app/endpoint/client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/app/endpoint/client.cpp b/bnl/http3/app/endpoint/client.cpp
index 76706fe..ee94c11 100644
--- a/bnl/http3/app/endpoint/client.cpp
+++ b/bnl/http3/app/endpoint/client.cpp
@@ -125,7 +125,7 @@ client::send()
     r = send_once();
   } while (r);
 
-  retransmit_.update(sd_.now() + quic_.expiry());
+  retransmit_.update(quic_.expiry());
   timeout_.update(sd_.now() + quic_.timeout());
 
   if (r.error() == std::errc::resource_unavailable_try_again ||
-- 
2.43.0


From 1964124547347dd4f457f5fa33f2d58665cc0770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:07 +0000
Subject: [PATCH 53/58] fix: The client refuses ports that are not numbers up
 to 65535

Other numbers were cut off to 16 bits, so that datagrams went to another port,
and texts that are no number ended the program with an uncaught exception.
---
 bnl/http3/app/endpoint/client.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/app/endpoint/client.cpp b/bnl/http3/app/endpoint/client.cpp
index ee94c11..5ffcfcb 100644
--- a/bnl/http3/app/endpoint/client.cpp
+++ b/bnl/http3/app/endpoint/client.cpp
@@ -7,6 +7,7 @@
 #include <bnl/log/console.hpp>
 
 #include <csignal>
+#include <cstdlib>
 #include <iostream>
 #include <memory>
 
@@ -250,6 +251,20 @@ client::timeout(sd::event::duration usec)
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Waddress"
 
+static result<ip::port>
+parse_port(const char *text)
+{
+  char *end = nullptr;
+  unsigned long port = std::strtoul(text, &end, 10);
+
+  if (*text < '0' || *text > '9' || *end != '\0' || port > UINT16_MAX) {
+    BNL_LOG_E("{} is not a port", text);
+    return error::invalid_argument;
+  }
+
+  return static_cast<ip::port>(port);
+}
+
 static result<void>
 run(int argc, char *argv[])
 {
@@ -276,7 +291,7 @@ run(int argc, char *argv[])
   }
 
   ip::address address = resolved[0];
-  ip::port port = static_cast<uint16_t>(std::stoul(argv[2]));
+  ip::port port = BNL_TRY(parse_port(argv[2]));
   ip::endpoint peer(address, port);
 
   client client(host, peer);
-- 
2.43.0


From b97a7660a97e7db0c6f75369a9106616a6a41531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:39 +0000
Subject: [PATCH 54/58] fix: The interop decoder fails when its input cannot be
 read to the end

---
 bnl/http3/app/qpack/qpack-interop-decode.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bnl/http3/app/qpack/qpack-interop-decode.cpp b/bnl/http3/app/qpack/qpack-interop-decode.cpp
index 98f4978..27a4435 100644
--- a/bnl/http3/app/qpack/qpack-interop-decode.cpp
+++ b/bnl/http3/app/qpack/qpack-interop-decode.cpp
@@ -1,7 +1,10 @@
+#include <bnl/base/string.hpp>
 #include <bnl/http3/codec/qpack.hpp>
 #include <bnl/log/console.hpp>
 
+#include <algorithm>
 #include <fstream>
+#include <iterator>
 #include <vector>
 
 using namespace bnl;
@@ -97,12 +100,10 @@ main(int argc, char *argv[])
   base::buffer encoded;
 
   try {
-    input.seekg(0, std::ios::end);
-    std::streamsize size = input.tellg();
-    input.seekg(0, std::ios::beg);
+    base::string content{ std::istreambuf_iterator<char>(input), {} };
 
-    encoded = base::buffer(static_cast<size_t>(size));
-    input.read(reinterpret_cast<char *>(encoded.data()), size);
+    encoded = base::buffer(content.size());
+    std::copy(content.begin(), content.end(), encoded.data());
   } catch (const std::ios_base::failure &e) {
     BNL_LOG_E("Error reading input: {}", e.what());
     return 1;
-- 
2.43.0


From 44bcbd6f60357c8ac9da0c41976f59796ac4ffe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:39 +0000
Subject: [PATCH 55/58] fix: The interop encoder fails when its input cannot be
 read to the end

---
 bnl/http3/app/qpack/qpack-interop-encode.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/app/qpack/qpack-interop-encode.cpp b/bnl/http3/app/qpack/qpack-interop-encode.cpp
index ef6d789..922ce2c 100644
--- a/bnl/http3/app/qpack/qpack-interop-encode.cpp
+++ b/bnl/http3/app/qpack/qpack-interop-encode.cpp
@@ -97,7 +97,7 @@ main(int argc, char *argv[])
   }
 
   // `std::getline` sets `failbit` when it doesn't read any characters.
-  input.exceptions(std::ifstream::badbit);
+  input.exceptions(std::ifstream::goodbit);
 
   std::ofstream output;
   output.exceptions(std::ofstream::failbit | std::ofstream::badbit);
@@ -149,6 +149,11 @@ main(int argc, char *argv[])
     headers.emplace_back(std::move(header));
   }
 
+  if (input.bad()) {
+    BNL_LOG_E("Error reading input");
+    return 1;
+  }
+
   // The last list isn't necessarily followed by an empty line.
   if (!headers.empty()) {
     http3::result<void> r = encode(id, headers, output);
-- 
2.43.0


From 432b0c7cb8de87108079f2bb14510b4d9fdc0ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:17 +0000
Subject: [PATCH 56/58] fix: fail if a header list's block doesn't fit the
 interop format

qpack-interop-encode only logged an error when the encoded size exceeds 32
bits, wrote the size truncated and exited with success.
---
 bnl/http3/app/qpack/qpack-interop-encode.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bnl/http3/app/qpack/qpack-interop-encode.cpp b/bnl/http3/app/qpack/qpack-interop-encode.cpp
index 922ce2c..ae17696 100644
--- a/bnl/http3/app/qpack/qpack-interop-encode.cpp
+++ b/bnl/http3/app/qpack/qpack-interop-encode.cpp
@@ -63,6 +63,7 @@ encode(uint64_t id,
   if (qpack.count() > UINT32_MAX) {
     BNL_LOG_E(
       "Headers encoded size does not fit in an unsigned 32-bit integer");
+    return http3::error::internal;
   }
 
   write(output, id_encode(id));
-- 
2.43.0


From cc5851807edba23acca65de1a1f2a1a6b25bb9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 57/58] fix: write encoded headers of 2 GiB or more in the
 interop encoder

---
 bnl/http3/app/qpack/qpack-interop-encode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/app/qpack/qpack-interop-encode.cpp b/bnl/http3/app/qpack/qpack-interop-encode.cpp
index ae17696..c79a3fe 100644
--- a/bnl/http3/app/qpack/qpack-interop-encode.cpp
+++ b/bnl/http3/app/qpack/qpack-interop-encode.cpp
@@ -43,7 +43,7 @@ void
 write(std::ostream &dest, const base::buffer &encoded)
 {
   dest.write(reinterpret_cast<const char *>(encoded.data()),
-             static_cast<int32_t>(encoded.size()));
+             static_cast<std::streamsize>(encoded.size()));
 }
 
 static http3::result<void>
-- 
2.43.0


From f7c0ac6ada04462851361c87173560fdb910b0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:28 +0000
Subject: [PATCH 58/58] fix: make room for all transport parameters

Twelve parameters of up to twelve bytes don't fit in 64 bytes.
---
 bnl/quic/src/client/ngtcp2/connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index c1113f7..21fbe02 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -781,7 +781,7 @@ connection::get_local_transport_parameters() noexcept
   ngtcp2_transport_params params;
   ngtcp2_conn_get_local_transport_params(connection_.get(), &params);
 
-  std::array<uint8_t, 64> tp = {};
+  std::array<uint8_t, 256> tp = {};
 
   ssize_t nwrite = ngtcp2_encode_transport_params(
     tp.data(), tp.size(), NGTCP2_TRANSPORT_PARAMS_TYPE_CLIENT_HELLO, &params);
-- 
2.43.0

