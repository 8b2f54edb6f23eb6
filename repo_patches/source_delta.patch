From c3e3a7e93e6e2e1f514db975b345de1d01e4eb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:32 +0000
Subject: [PATCH 01/74] fix: accept a request line that ends after the space
 following the URI

PARSE_HTTP_VERSION_H handled CR and LF (no version given) but then always
overwrote the state with PARSE_HTTP_VERSION_T_1, so the request was refused.
---
 src/http_parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 9a796b5..33ff032 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -364,8 +364,9 @@ boost::tribool parser::parse_headers(http::message& http_msg,
             } else if (*m_read_ptr != 'H') {
                 set_error(ec, ERROR_VERSION_CHAR);
                 return false;
+            } else {
+                m_headers_parse_state = PARSE_HTTP_VERSION_T_1;
             }
-            m_headers_parse_state = PARSE_HTTP_VERSION_T_1;
             break;
 
         case PARSE_HTTP_VERSION_T_1:
-- 
2.43.0


From 2232e2ea365a36cf0f0362ddd965e0b9d10dfbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:32 +0000
Subject: [PATCH 02/74] fix: count chunk bytes beyond the maximum content
 length

Once the chunk cache reached the limit the position within the chunk was no
longer advanced, so the end of the chunk was never found and every following
byte was swallowed.
---
 src/http_parser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 33ff032..001a0e6 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1446,8 +1446,9 @@ boost::tribool parser::parse_chunks(http::message::chunk_cache_t& chunks,
                     m_payload_handler(m_read_ptr, len);
                     m_bytes_read_in_current_chunk += len;
                     if (len > 1) m_read_ptr += (len - 1);
-                } else if (chunks.size() < m_max_content_length) {
-                    chunks.push_back(*m_read_ptr);
+                } else {
+                    if (chunks.size() < m_max_content_length)
+                        chunks.push_back(*m_read_ptr);
                     m_bytes_read_in_current_chunk++;
                 }
             }
-- 
2.43.0


From 4ac6c2219e4482fdadf732299ae21426d3b493ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:32 +0000
Subject: [PATCH 03/74] fix: parse chunk trailers when a payload handler is
 installed

With a payload handler the message was declared complete before its trailers,
which were then left in the stream as if they were the next message.
---
 src/http_parser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 001a0e6..0eea723 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -89,8 +89,9 @@ boost::tribool parser::parse(http::message& http_msg,
                 rc = parse_chunks(http_msg.get_chunk_cache(), ec);
                 total_bytes_parsed += m_bytes_last_read;
                 // check if we have finished parsing all chunks
-                if (rc == true && !m_payload_handler) {
-                    http_msg.concatenate_chunks();
+                if (rc == true) {
+                    if (!m_payload_handler)
+                        http_msg.concatenate_chunks();
                     
                     // Handle footers if present
                     rc = ((m_message_parse_state == PARSE_FOOTERS) ?
-- 
2.43.0


From ac44d71dbaf6a7f7fa133398680b7fc9fe7b91ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:32 +0000
Subject: [PATCH 04/74] fix: fill lost content up to the maximum content length

A loss reaching beyond the maximum content length left the part of the buffer
below the limit uninitialised, and a loss seen by a payload handler was not
counted as content read.
---
 src/http_parser.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 0eea723..4a12a71 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -197,14 +197,13 @@ boost::tribool parser::parse_missing_data(http::message& http_msg,
                 if (m_payload_handler) {
                     for (std::size_t n = 0; n < len; ++n)
                         m_payload_handler(&MISSING_DATA_CHAR, 1);
-                } else if ( (m_bytes_content_read+len) <= m_max_content_length) {
-                    // use dummy content for missing data
-                    for (std::size_t n = 0; n < len; ++n)
-                        http_msg.get_content()[m_bytes_content_read++] = MISSING_DATA_CHAR;
                 } else {
-                    m_bytes_content_read += len;
+                    // use dummy content for missing data (as much as fits into the content buffer)
+                    for (std::size_t n = 0; n < len && (m_bytes_content_read+n) < m_max_content_length; ++n)
+                        http_msg.get_content()[m_bytes_content_read+n] = MISSING_DATA_CHAR;
                 }
 
+                m_bytes_content_read += len;
                 m_bytes_content_remaining -= len;
                 m_bytes_total_read += len;
                 m_bytes_last_read = len;
-- 
2.43.0


From fceeadcc86150fe16c09238babae1b48c536441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:32 +0000
Subject: [PATCH 05/74] fix: responses without a body end after their headers
 even if chunked

HEAD, 1xx, 204, 205 and 304 responses never have a body (RFC 2616 4.4), also
when they carry Transfer-Encoding: chunked; the parser waited for chunks and
swallowed the next response.
---
 src/http_parser.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 4a12a71..cca766e 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -760,7 +760,13 @@ boost::tribool parser::finish_header_parsing(http::message& http_msg,
     http_msg.update_transfer_encoding_using_header();
     update_message_with_header_data(http_msg);
 
-    if (http_msg.is_chunked()) {
+    if (http_msg.is_content_length_implied()) {
+
+        // content length is implied to be zero
+        m_message_parse_state = PARSE_END;
+        rc = true;
+
+    } else if (http_msg.is_chunked()) {
 
         // content is encoded using chunks
         m_message_parse_state = PARSE_CHUNKS;
@@ -769,12 +775,6 @@ boost::tribool parser::finish_header_parsing(http::message& http_msg,
         if (m_parse_headers_only)
             rc = true;
 
-    } else if (http_msg.is_content_length_implied()) {
-
-        // content length is implied to be zero
-        m_message_parse_state = PARSE_END;
-        rc = true;
-
     } else {
         // content length should be specified in the headers
 
-- 
2.43.0


From fed7681f9475758f887b6b61292c38cff86e1820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:32 +0000
Subject: [PATCH 06/74] fix: refuse HTTP versions and status codes that do not
 fit 16 bits

They wrapped around silently, so that for example status 65740 was reported
as 204.
---
 src/http_parser.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index cca766e..ee14a35 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -419,7 +419,8 @@ boost::tribool parser::parse_headers(http::message& http_msg,
             // parsing the major version number (not first digit)
             if (*m_read_ptr == '.') {
                 m_headers_parse_state = PARSE_HTTP_VERSION_MINOR_START;
-            } else if (is_digit(*m_read_ptr)) {
+            } else if (is_digit(*m_read_ptr)
+                       && http_msg.get_version_major() * 10 + (*m_read_ptr - '0') <= 0xFFFF) {
                 http_msg.set_version_major( (http_msg.get_version_major() * 10)
                                           + (*m_read_ptr - '0') );
             } else {
@@ -459,7 +460,8 @@ boost::tribool parser::parse_headers(http::message& http_msg,
                     return false;
                 }
                 m_headers_parse_state = PARSE_EXPECTING_CR;
-            } else if (is_digit(*m_read_ptr)) {
+            } else if (is_digit(*m_read_ptr)
+                       && http_msg.get_version_minor() * 10 + (*m_read_ptr - '0') <= 0xFFFF) {
                 http_msg.set_version_minor( (http_msg.get_version_minor() * 10)
                                           + (*m_read_ptr - '0') );
             } else {
@@ -483,7 +485,8 @@ boost::tribool parser::parse_headers(http::message& http_msg,
             if (*m_read_ptr == ' ') {
                 m_status_message.erase();
                 m_headers_parse_state = PARSE_STATUS_MESSAGE;
-            } else if (is_digit(*m_read_ptr)) {
+            } else if (is_digit(*m_read_ptr)
+                       && m_status_code * 10 + (*m_read_ptr - '0') <= 0xFFFF) {
                 m_status_code = ( (m_status_code * 10) + (*m_read_ptr - '0') );
             } else if (*m_read_ptr == '\r') {
                 // recover from status message not sent
-- 
2.43.0


From 312e336438aa3ee3a7007ff63b82f3bf48989a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:43 +0000
Subject: [PATCH 07/74] fix: refuse Content-Length values with a sign

lexical_cast<size_t> accepts "-1" (as SIZE_MAX) and "+5"; the message then
never ended or was framed by a malformed header.
---
 include/pion/http/message.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pion/http/message.hpp b/include/pion/http/message.hpp
index 0df5977..cde22d8 100644
--- a/include/pion/http/message.hpp
+++ b/include/pion/http/message.hpp
@@ -321,6 +321,9 @@ public:
         } else {
             std::string trimmed_length(i->second);
             boost::algorithm::trim(trimmed_length);
+            // note: lexical_cast would accept a sign (and wrap negative numbers)
+            if (trimmed_length.find_first_not_of("0123456789") != std::string::npos)
+                throw boost::bad_lexical_cast();
             m_content_length = boost::lexical_cast<size_t>(trimmed_length);
         }
     }
-- 
2.43.0


From dde7c6aae2f11b5602b5c64d705dfad7cf0898c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:16 +0000
Subject: [PATCH 08/74] fix: base64_decode reads outside its table and accepts
 malformed text

Bytes >= 0x80 indexed the decoding table with a negative number; incomplete
groups and text following the padding were accepted.
---
 src/algorithm.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/algorithm.cpp b/src/algorithm.cpp
index 00ea0b6..11ec4f1 100644
--- a/src/algorithm.cpp
+++ b/src/algorithm.cpp
@@ -51,6 +51,10 @@ bool algorithm::base64_decode(const std::string &input, std::string &output)
     output.clear();
     output.reserve(((input_length+2)/3)*4);
 
+    // padded base64 text always consists of complete groups of 4 characters
+    if (input_length % 4 != 0)
+        return false;
+
     // for each 4-bytes sequence from the input, extract 4 6-bits sequences by droping first two bits
     // and regenerate into 3 8-bits sequence
 
@@ -60,12 +64,12 @@ bool algorithm::base64_decode(const std::string &input, std::string &output)
         char base64code2 = 0;   // initialized to 0 to suppress warnings
         char base64code3;
 
-        base64code0 = decoding_data[static_cast<int>(input_ptr[i])];
+        base64code0 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
         if(base64code0==nop)            // non base64 character
             return false;
         if(!(++i<input_length)) // we need at least two input bytes for first byte output
             return false;
-        base64code1 = decoding_data[static_cast<int>(input_ptr[i])];
+        base64code1 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
         if(base64code1==nop)            // non base64 character
             return false;
 
@@ -75,9 +79,10 @@ bool algorithm::base64_decode(const std::string &input, std::string &output)
             char c = input_ptr[i];
             if(c =='=') { // padding , end of input
                 BOOST_ASSERT( (base64code1 & 0x0f)==0);
-                return true;
+                // only the last group may be padded
+                return (i+2 == input_length && input_ptr[i+1] == '=');
             }
-            base64code2 = decoding_data[static_cast<int>(input_ptr[i])];
+            base64code2 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
             if(base64code2==nop)            // non base64 character
                 return false;
 
@@ -88,9 +93,10 @@ bool algorithm::base64_decode(const std::string &input, std::string &output)
             char c = input_ptr[i];
             if(c =='=') { // padding , end of input
                 BOOST_ASSERT( (base64code2 & 0x03)==0);
-                return true;
+                // only the last group may be padded
+                return (i+1 == input_length);
             }
-            base64code3 = decoding_data[static_cast<int>(input_ptr[i])];
+            base64code3 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
             if(base64code3==nop)            // non base64 character
                 return false;
 
-- 
2.43.0


From dc3afbad30e9044b5c77600c1d138b5165c1993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:16 +0000
Subject: [PATCH 09/74] fix: url_decode only decodes escapes with two
 hexadecimal digits

strtol() skips blanks and signs and stops at the first other character, so
that for example "%1g" lost the 'g' and "% 5" and "%+5" became control characters.
---
 src/algorithm.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/algorithm.cpp b/src/algorithm.cpp
index 11ec4f1..094ad12 100644
--- a/src/algorithm.cpp
+++ b/src/algorithm.cpp
@@ -7,6 +7,7 @@
 // See http://www.boost.org/LICENSE_1_0.txt
 //
 
+#include <cctype>
 #include <cmath>
 #include <cstdlib>
 #include <cstdio>
@@ -171,15 +172,16 @@ std::string algorithm::url_decode(const std::string& str)
             break;
         case '%':
             // decode hexadecimal value
-            if (pos + 2 < str.size()) {
+            if (pos + 2 < str.size()
+                && isxdigit(static_cast<unsigned char>(str[pos+1]))
+                && isxdigit(static_cast<unsigned char>(str[pos+2]))) {
                 decode_buf[0] = str[++pos];
                 decode_buf[1] = str[++pos];
                 decode_buf[2] = '\0';
 
                 char decoded_char = static_cast<char>( strtol(decode_buf, 0, 16) );
 
-                // decoded_char will be '\0' if strtol can't parse decode_buf as hex
-                // (or if decode_buf == "00", which is also not valid).
+                // decoded_char will be '\0' if decode_buf == "00", which is not valid.
                 // In this case, recover from error by not decoding.
                 if (decoded_char == '\0') {
                     result += '%';
-- 
2.43.0


From 23e21c87f4cd7ad126c091ce6c882c5d440f3fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:16 +0000
Subject: [PATCH 10/74] fix: xml_encode passes overlong forms, surrogates and
 non-characters

---
 src/algorithm.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/algorithm.cpp b/src/algorithm.cpp
index 094ad12..9040f76 100644
--- a/src/algorithm.cpp
+++ b/src/algorithm.cpp
@@ -284,9 +284,9 @@ std::string algorithm::xml_encode(const std::string& str)
                 result += UTF8_REPLACEMENT_CHAR;
             }
         } else if (*ptr >= 0xE0 && *ptr <= 0xEF) {
-            // three-byte sequence
-            if (*(ptr+1) >= 0x80 && *(ptr+1) <= 0xBF
-                && *(ptr+2) >= 0x80 && *(ptr+2) <= 0xBF) {
+            // three-byte sequence (no overlong forms, surrogates, U+FFFE or U+FFFF)
+            if (*(ptr+1) >= (*ptr == 0xE0 ? 0xA0 : 0x80) && *(ptr+1) <= (*ptr == 0xED ? 0x9F : 0xBF)
+                && *(ptr+2) >= 0x80 && *(ptr+2) <= (*ptr == 0xEF && *(ptr+1) == 0xBF ? 0xBD : 0xBF)) {
                 result += *ptr;
                 result += *(++ptr);
                 result += *(++ptr);
@@ -295,8 +295,8 @@ std::string algorithm::xml_encode(const std::string& str)
                 result += UTF8_REPLACEMENT_CHAR;
             }
         } else if (*ptr >= 0xF0 && *ptr <= 0xF4) {
-            // four-byte sequence
-            if (*(ptr+1) >= 0x80 && *(ptr+1) <= 0xBF
+            // four-byte sequence (no overlong forms, nothing beyond U+10FFFF)
+            if (*(ptr+1) >= (*ptr == 0xF0 ? 0x90 : 0x80) && *(ptr+1) <= (*ptr == 0xF4 ? 0x8F : 0xBF)
                 && *(ptr+2) >= 0x80 && *(ptr+2) <= 0xBF
                 && *(ptr+3) >= 0x80 && *(ptr+3) <= 0xBF) {
                 result += *ptr;
-- 
2.43.0


From e17b9a7dea78d295b624ee8584a805edcc7d429d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:16 +0000
Subject: [PATCH 11/74] fix: float conversions of infinities, NaN, negative
 zero and subnormals

Writing an infinity or NaN never returned, the sign of -0.0 was lost and
subnormal numbers were written and read wrongly.
---
 src/algorithm.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/algorithm.cpp b/src/algorithm.cpp
index 9040f76..21c5928 100644
--- a/src/algorithm.cpp
+++ b/src/algorithm.cpp
@@ -12,6 +12,7 @@
 #include <cstdlib>
 #include <cstdio>
 #include <cstring>
+#include <limits>
 #include <pion/algorithm.hpp>
 #include <boost/assert.hpp>
 
@@ -344,7 +345,16 @@ void algorithm::float_from_bytes(long double& value, const unsigned char *ptr, s
     }
     
     // calculate final value
-    exponent -= (boost::int16_t)(::pow((long double)2, (int)(num_exp_bits - 1)) - 1);
+    const boost::int32_t exponent_bias = (boost::int32_t)(::pow((long double)2, (int)(num_exp_bits - 1)) - 1);
+    if (exponent == exponent_bias * 2 + 1) {
+        // infinity or not a number
+        value = (significand == 1.0) ? value_sign * std::numeric_limits<long double>::infinity()
+            : std::numeric_limits<long double>::quiet_NaN();
+        return;
+    }
+    if (exponent == 0)
+        exponent = 1;   // zero and subnormal numbers
+    exponent -= (boost::int16_t)exponent_bias;
     value = value_sign * significand * ::pow((long double)2, exponent);
 }
 
@@ -355,13 +365,17 @@ void algorithm::float_to_bytes(long double value, unsigned char *buf, size_t num
     memset(ptr, 0x00, (size_t)(::ceil(static_cast<float>(num_exp_bits + num_fraction_bits + 1) / 8)));
     
     // initialize first byte starting with sign of number
-    if (value < 0) {
+    if (std::signbit(value)) {
         *ptr = 0x80;
         value *= -1;
     }
     
     // break down numbers >= 1.0 by incrementing the exponent & dividing by 2
     boost::int16_t exponent = 0;
+    boost::int32_t high_bit = (boost::int32_t)(::pow((long double)2, (int)(num_exp_bits - 1)));
+    const bool is_finite = std::isfinite(value);
+    if (! is_finite)    // only the first fraction bit tells infinity from not a number
+        value = std::isnan(value) ? 1.5 : 1.0;
     while (value >= 1) {
         value /= 2;
         ++exponent;
@@ -395,14 +409,19 @@ void algorithm::float_to_bytes(long double value, unsigned char *buf, size_t num
             if (value >= 1.0) {
                 value -= 1.0;
                 got_exponent = true;
+            } else if (exponent == 2 - high_bit) {
+                // subnormal number: exponent bits are all zero
+                --exponent;
+                got_exponent = true;
             }
         }
     }
     
     // normalize exponent.
     // note: we should have a zero exponent if value == 0
-    boost::int32_t high_bit = (boost::int32_t)(::pow((long double)2, (int)(num_exp_bits - 1)));
-    if (got_exponent)
+    if (! is_finite)
+        exponent = (boost::int16_t)(high_bit * 2 - 1);
+    else if (got_exponent)
         exponent += (high_bit - 1);
     else
         exponent = 0;
-- 
2.43.0


From ba2052069ad203864952ab14623c94aee2ef924b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:48 +0000
Subject: [PATCH 12/74] fix: read quadruple precision numbers beyond the range
 of double

::pow() computes in double precision, so that long double values with large
or small exponents were read as infinity or zero.
---
 src/algorithm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm.cpp b/src/algorithm.cpp
index 21c5928..3ab56e0 100644
--- a/src/algorithm.cpp
+++ b/src/algorithm.cpp
@@ -355,7 +355,7 @@ void algorithm::float_from_bytes(long double& value, const unsigned char *ptr, s
     if (exponent == 0)
         exponent = 1;   // zero and subnormal numbers
     exponent -= (boost::int16_t)exponent_bias;
-    value = value_sign * significand * ::pow((long double)2, exponent);
+    value = value_sign * std::ldexp(significand, exponent);
 }
 
 void algorithm::float_to_bytes(long double value, unsigned char *buf, size_t num_exp_bits, size_t num_fraction_bits)
-- 
2.43.0


From 1ea8ee7543178f27d2fbdafb99be98a8626f55ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:54 +0000
Subject: [PATCH 13/74] fix: multipart field without data directly before the
 next boundary

The CRLF that ends the headers was taken for the end of the field, which made
its length negative and threw std::length_error out of the parser.
---
 src/http_parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index ee14a35..12f14a7 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1211,8 +1211,9 @@ bool parser::parse_multipart_form_data(ihash_multimap& dict,
                 const char *next_ptr = std::search(ptr, end_ptr, boundary.begin(), boundary.end());
                 if (next_ptr) {
                     // don't include CRLF before next boundary
+                    // (the one which terminates the headers is not part of the field)
                     const char *temp_ptr = next_ptr - 2;
-                    if (temp_ptr[0] == '\r' && temp_ptr[1] == '\n')
+                    if (temp_ptr >= ptr && temp_ptr[0] == '\r' && temp_ptr[1] == '\n')
                         field_end_ptr = temp_ptr;
                     else field_end_ptr = next_ptr;
                 }
-- 
2.43.0


From a582964104060a2d98068a6efc770134fe04138d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:54 +0000
Subject: [PATCH 14/74] fix: multipart header without a value swallows the
 lines that follow

The name of the ignored header was kept and the name of the next header
appended to it, so that the end of the part's headers was never recognized.
---
 src/http_parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 12f14a7..5bdafe8 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1140,6 +1140,7 @@ bool parser::parse_multipart_form_data(ihash_multimap& dict,
                         parse_state = (*ptr == '\r' ? MP_PARSE_HEADER_LAST_LF : MP_PARSE_FIELD_DATA);
                     } else {
                         // premature CR or LF -> just ignore and start parsing next header
+                        header_name.clear();
                         parse_state = (*ptr == '\r' ? MP_PARSE_HEADER_LF : MP_PARSE_HEADER_NAME);
                     }
                 } else if (*ptr == ':') {
@@ -1154,9 +1155,11 @@ bool parser::parse_multipart_form_data(ihash_multimap& dict,
                 // expecting a space before header value
                 if (*ptr == '\r') {
                     // premature CR -> just ignore and start parsing next header
+                    header_name.clear();
                     parse_state = MP_PARSE_HEADER_LF;
                 } else if (*ptr == '\n') {
                     // premature LF -> just ignore and start parsing next header
+                    header_name.clear();
                     parse_state = MP_PARSE_HEADER_NAME;
                 } else if (*ptr != ' ') {
                     // not a space -> assume it's a value char
-- 
2.43.0


From 4d248aa21721da85b312d862f72827113c1ff2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:54 +0000
Subject: [PATCH 15/74] fix: skip unnamed multipart fields whose headers end
 with a bare linefeed

---
 src/http_parser.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 5bdafe8..e5c7cb7 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1137,7 +1137,15 @@ bool parser::parse_multipart_form_data(ihash_multimap& dict,
                 if (*ptr == '\r' || *ptr == '\n') {
                     if (header_name.empty()) {
                         // got CR or LF at beginning; skip to data
-                        parse_state = (*ptr == '\r' ? MP_PARSE_HEADER_LAST_LF : MP_PARSE_FIELD_DATA);
+                        if (*ptr == '\r') {
+                            parse_state = MP_PARSE_HEADER_LAST_LF;
+                        } else if (!field_name.empty()) {
+                            parse_state = MP_PARSE_FIELD_DATA;
+                        } else {
+                            // skip ahead to next field
+                            parse_state = MP_PARSE_START;
+                            ptr = std::search(ptr, end_ptr, boundary.begin(), boundary.end());
+                        }
                     } else {
                         // premature CR or LF -> just ignore and start parsing next header
                         header_name.clear();
-- 
2.43.0


From 197d1731decf91a020f7c4839f25cba8edad835f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:54 +0000
Subject: [PATCH 16/74] fix: multipart field name is not taken from its
 filename parameter

---
 src/http_parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index e5c7cb7..109df95 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1187,6 +1187,12 @@ bool parser::parse_multipart_form_data(ihash_multimap& dict,
                     } else if (boost::algorithm::iequals(header_name, types::HEADER_CONTENT_DISPOSITION)) {
                         // get current field from content-disposition header
                         std::size_t name_pos = header_value.find("name=\"");
+                        // do not confuse it with the end of another parameter (i.e. filename)
+                        while (name_pos != std::string::npos && name_pos != 0
+                            && header_value[name_pos-1] != ' ' && header_value[name_pos-1] != ';' && header_value[name_pos-1] != '\t')
+                        {
+                            name_pos = header_value.find("name=\"", name_pos + 1);
+                        }
                         if (name_pos != std::string::npos) {
                             for (name_pos += 6; name_pos < header_value.size() && header_value[name_pos] != '\"'; ++name_pos) {
                                 field_name += header_value[name_pos];
-- 
2.43.0


From d5c457dab2c6c17c4c9be2d8b6548ce2897cd2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:54 +0000
Subject: [PATCH 17/74] fix: quoted multipart boundaries and boundaries
 followed by other parameters

---
 src/http_parser.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 109df95..34f20eb 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1077,7 +1077,17 @@ bool parser::parse_multipart_form_data(ihash_multimap& dict,
     std::size_t pos = content_type.find("boundary=");
     if (pos == std::string::npos)
         return false;
-    const std::string boundary = std::string("--") + content_type.substr(pos+9);
+    pos += 9;
+    std::size_t boundary_end;
+    if (pos < content_type.size() && content_type[pos] == '"')
+        boundary_end = content_type.find('"', ++pos);       // quoted string
+    else
+        boundary_end = content_type.find_first_of("; \t", pos);
+    if (boundary_end == std::string::npos)
+        boundary_end = content_type.size();
+    if (boundary_end == pos)
+        return false;
+    const std::string boundary = std::string("--") + content_type.substr(pos, boundary_end - pos);
     
     // used to track what we are parsing
     enum MultiPartParseState {
-- 
2.43.0


From 0beeab3f8c2c162b70c92b3b116cfafa869f30c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:54 +0000
Subject: [PATCH 18/74] fix: base64_2binary runs past its buffers if there is
 nothing but padding

---
 src/http_parser.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 34f20eb..201e919 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1042,11 +1042,21 @@ bool parser::base64_2binary(char *out_buf, const std::size_t buf_size, std::size
         return false;
     out_stream_type.assign(base64.substr(5, pos-5));
     const std::size_t prefix_end_pos = pos + 10;
+    if (size <= prefix_end_pos) {
+        // no encoded data
+        if (buf_size == 0 || out_buf == NULL)
+            return false;
+        *out_buf = '\0';
+        out_size = 1;
+        return true;
+    }
 
     if (size && base64[size - 1] == '=') {
         --size;
-        if (size && base64[size - 1] == '=')
+        if (size > prefix_end_pos && base64[size - 1] == '=')
             --size;
+        if (size == prefix_end_pos)
+            return false;   // nothing but padding
     }
 
     out_size = (size - prefix_end_pos)*6/8+1;
-- 
2.43.0


From 75fd493ec001cd115fc76747b1d55b9aa6fc5087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:54 +0000
Subject: [PATCH 19/74] fix: parse_uri keeps a stale query string and wraps
 port numbers

---
 src/http_parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 201e919..3d6518c 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -860,6 +860,7 @@ bool parser::parse_uri(const std::string& uri, std::string& proto,
     if (server_port_end == std::string::npos) {
         // no path -> use just /
         path = "/";
+        query.clear();
         server_port_end = uri.size();
     }
     
@@ -878,7 +879,10 @@ bool parser::parse_uri(const std::string& uri, std::string& proto,
     // parse the port, if it's not empty
     if(port_pos != std::string::npos) {
         try {
-            port = boost::lexical_cast<int>(t.substr(port_pos+1));
+            const int port_number = boost::lexical_cast<int>(t.substr(port_pos+1));
+            if (port_number < 0 || port_number > 65535)
+                return false;
+            port = static_cast<boost::uint16_t>(port_number);
         } catch (boost::bad_lexical_cast &) {
             return false;
         }
-- 
2.43.0


From f0bc4e5592275178249d872f1703e6ebd8ddc4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:06 +0000
Subject: [PATCH 20/74] fix: never send both a content length and a chunked
 transfer encoding

A message that was received in chunks and is written again kept its
Transfer-Encoding header although the content is written as it is.
---
 include/pion/http/message.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/pion/http/message.hpp b/include/pion/http/message.hpp
index cde22d8..a75d889 100644
--- a/include/pion/http/message.hpp
+++ b/include/pion/http/message.hpp
@@ -576,8 +576,17 @@ protected:
     {
         change_header(HEADER_CONNECTION, (keep_alive ? "Keep-Alive" : "close") );
         if (using_chunks) {
-            if (get_chunks_supported())
-                change_header(HEADER_TRANSFER_ENCODING, "chunked");
+            // the length of the content is not known in advance
+            delete_header(HEADER_CONTENT_LENGTH);
+        }
+        if (using_chunks && get_chunks_supported()) {
+            change_header(HEADER_TRANSFER_ENCODING, "chunked");
+        } else {
+            // the content is sent as it is (it may have been received in chunks)
+            delete_header(HEADER_TRANSFER_ENCODING);
+        }
+        if (using_chunks) {
+            // either chunked, or the end of the content is the end of the connection
         } else if (! m_do_not_send_content_length) {
             change_header(HEADER_CONTENT_LENGTH, boost::lexical_cast<std::string>(get_content_length()));
         }
-- 
2.43.0


From 52e1ba3cc2ce6887c549db571cca2cb76ccc07d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:06 +0000
Subject: [PATCH 21/74] fix: assigning a message to itself loses its content

---
 include/pion/http/message.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/pion/http/message.hpp b/include/pion/http/message.hpp
index a75d889..5a207b0 100644
--- a/include/pion/http/message.hpp
+++ b/include/pion/http/message.hpp
@@ -521,6 +521,8 @@ protected:
 
         /// assignment operator
         content_buffer_t& operator=(const content_buffer_t& buf) {
+            if (this == &buf)
+                return *this;
             if (buf.size()) {
                 resize(buf.size());
                 memcpy(get(), buf.get(), buf.size());
-- 
2.43.0


From afcfd5865fddffcd1afe215c21c194e675dc19ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:06 +0000
Subject: [PATCH 22/74] fix: first line of a request is stale after
 change_resource()

---
 include/pion/http/request.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pion/http/request.hpp b/include/pion/http/request.hpp
index 65b67cd..df0e106 100644
--- a/include/pion/http/request.hpp
+++ b/include/pion/http/request.hpp
@@ -96,7 +96,10 @@ public:
     }
 
     /// changes the resource or uri-stem to be delivered (called as the result of a redirect)
-    inline void change_resource(const std::string& str) { m_resource = str; }
+    inline void change_resource(const std::string& str) {
+        m_resource = str;
+        clear_first_line();
+    }
 
     /// sets the uri-query or query string requested
     inline void set_query_string(const std::string& str) {
-- 
2.43.0


From 8203eefdcf947f590ec6f353869918d30875508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:06 +0000
Subject: [PATCH 23/74] fix: the connection option "close" is not case
 sensitive

---
 include/pion/http/message.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pion/http/message.hpp b/include/pion/http/message.hpp
index 5a207b0..23762a2 100644
--- a/include/pion/http/message.hpp
+++ b/include/pion/http/message.hpp
@@ -18,6 +18,7 @@
 #include <boost/scoped_array.hpp>
 #include <boost/lexical_cast.hpp>
 #include <boost/algorithm/string/trim.hpp>
+#include <boost/algorithm/string/predicate.hpp>
 #include <boost/regex.hpp>
 #include <pion/config.hpp>
 #include <pion/http/types.hpp>
@@ -382,7 +383,7 @@ public:
 
     /// returns true if the HTTP connection may be kept alive
     inline bool check_keep_alive(void) const {
-        return (get_header(HEADER_CONNECTION) != "close"
+        return (! boost::algorithm::iequals(get_header(HEADER_CONNECTION), "close")
                 && (get_version_major() > 1
                     || (get_version_major() >= 1 && get_version_minor() >= 1)) );
     }
-- 
2.43.0


From eb02df834c9c86ed5b287350e1e280d40ab2bfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:26 +0000
Subject: [PATCH 24/74] fix: writers drop message content that begins with a
 null byte

The content length was still sent, so that the peer waited for the content.
---
 include/pion/http/request_writer.hpp  | 3 +--
 include/pion/http/response_writer.hpp | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/pion/http/request_writer.hpp b/include/pion/http/request_writer.hpp
index a8a06e1..e589355 100644
--- a/include/pion/http/request_writer.hpp
+++ b/include/pion/http/request_writer.hpp
@@ -101,8 +101,7 @@ protected:
         // check if we should initialize the payload content using
         // the request's content buffer
         if (m_http_request->get_content_length() > 0
-            && m_http_request->get_content() != NULL
-            && m_http_request->get_content()[0] != '\0')
+            && m_http_request->get_content() != NULL)
         {
             write_no_copy(m_http_request->get_content(),
                         m_http_request->get_content_length());
diff --git a/include/pion/http/response_writer.hpp b/include/pion/http/response_writer.hpp
index d24af9d..fab370e 100644
--- a/include/pion/http/response_writer.hpp
+++ b/include/pion/http/response_writer.hpp
@@ -94,8 +94,7 @@ protected:
         // check if we should initialize the payload content using
         // the response's content buffer
         if (m_http_response->get_content_length() > 0
-            && m_http_response->get_content() != NULL
-            && m_http_response->get_content()[0] != '\0')
+            && m_http_response->get_content() != NULL)
         {
             write_no_copy(m_http_response->get_content(), m_http_response->get_content_length());
         }
-- 
2.43.0


From ecd5537ea109cfa02981f715dd3162da9ea9ba45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:26 +0000
Subject: [PATCH 25/74] fix: close the connection after send_final_chunk() if
 the client does not support chunks

Without a preceding send_chunk() the response had neither a content length nor
a chunked encoding, but the connection was kept alive.
---
 include/pion/http/writer.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/pion/http/writer.hpp b/include/pion/http/writer.hpp
index e245ff3..3a78f77 100644
--- a/include/pion/http/writer.hpp
+++ b/include/pion/http/writer.hpp
@@ -193,12 +193,7 @@ public:
      */
     template <typename SendHandler>
     inline void send_chunk(SendHandler send_handler) {
-        m_sending_chunks = true;
-        if (!supports_chunked_messages()) {
-            // sending data in chunks, but the client does not support chunking;
-            // make sure that the connection will be closed when we are all done
-            m_tcp_conn->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE);
-        }
+        start_sending_chunks();
         // send more data
         send_more_data(false, send_handler);
     }
@@ -216,7 +211,7 @@ public:
      */ 
     template <typename SendHandler>
     inline void send_final_chunk(SendHandler send_handler) {
-        m_sending_chunks = true;
+        start_sending_chunks();
         send_more_data(true, send_handler);
     }
     
@@ -228,7 +223,7 @@ public:
      * reference to the writer object.
      */ 
     inline void send_final_chunk(void) {
-        m_sending_chunks = true;
+        start_sending_chunks();
         send_more_data(true, bind_to_write_handler());
     }
     
@@ -257,6 +252,16 @@ public:
     
 private:
 
+    /// called before any data is sent in chunks
+    inline void start_sending_chunks(void) {
+        m_sending_chunks = true;
+        if (!supports_chunked_messages()) {
+            // sending data in chunks, but the client does not support chunking;
+            // make sure that the connection will be closed when we are all done
+            m_tcp_conn->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE);
+        }
+    }
+
     /**
      * sends all of the buffered data to the client
      *
-- 
2.43.0


From 21c1c89abbb9a11ac923f01a2b453e5a71ef9267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:26 +0000
Subject: [PATCH 26/74] fix: chunked requests are sent without a transfer
 encoding

The writer sends chunks unless told otherwise, but the headers depended on a
separate flag of the message.
---
 include/pion/http/request_writer.hpp  | 2 ++
 include/pion/http/response_writer.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/pion/http/request_writer.hpp b/include/pion/http/request_writer.hpp
index e589355..803bedb 100644
--- a/include/pion/http/request_writer.hpp
+++ b/include/pion/http/request_writer.hpp
@@ -117,6 +117,8 @@ protected:
     virtual void prepare_buffers_for_send(http::message::write_buffers_t& write_buffers) {
         if (get_content_length() > 0)
             m_http_request->set_content_length(get_content_length());
+        // the headers must tell if the content is going to be sent in chunks
+        m_http_request->set_chunks_supported(supports_chunked_messages());
         m_http_request->prepare_buffers_for_send(write_buffers,
                                               get_connection()->get_keep_alive(),
                                               sending_chunked_message());
diff --git a/include/pion/http/response_writer.hpp b/include/pion/http/response_writer.hpp
index fab370e..bb9fc66 100644
--- a/include/pion/http/response_writer.hpp
+++ b/include/pion/http/response_writer.hpp
@@ -125,6 +125,8 @@ protected:
     virtual void prepare_buffers_for_send(http::message::write_buffers_t& write_buffers) {
         if (get_content_length() > 0)
             m_http_response->set_content_length(get_content_length());
+        // the headers must tell if the content is going to be sent in chunks
+        m_http_response->set_chunks_supported(supports_chunked_messages());
         m_http_response->prepare_buffers_for_send(write_buffers,
                                                get_connection()->get_keep_alive(),
                                                sending_chunked_message());
-- 
2.43.0


From a0528045d6ac1dcffc596a7315b7c0b0cdb088b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:44 +0000
Subject: [PATCH 27/74] fix: a response that is read or received forgets the
 request it answers

response::clear() dropped the request method, so a response to a HEAD
request that was read with message::read() or receive() waited for content
that never comes.
---
 include/pion/http/response.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pion/http/response.hpp b/include/pion/http/response.hpp
index f1d0bcf..9d818c6 100644
--- a/include/pion/http/response.hpp
+++ b/include/pion/http/response.hpp
@@ -74,7 +74,8 @@ public:
         http::message::clear();
         m_status_code = RESPONSE_CODE_OK;
         m_status_message = RESPONSE_MESSAGE_OK;
-        m_request_method.clear();
+        // m_request_method is kept: it belongs to the request being answered
+        // and still decides whether this response may have content
     }
 
     /// the content length may be implied for certain types of responses
-- 
2.43.0


From 382963b5735ed6c0360e0dec946318744ce00b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:44 +0000
Subject: [PATCH 28/74] fix: refuse password digests that are not hex strings

set_password_hash() took any 40 or 64 characters and installed whatever
strtoul made of them.
---
 include/pion/user.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/pion/user.hpp b/include/pion/user.hpp
index 761b4de..cb87481 100644
--- a/include/pion/user.hpp
+++ b/include/pion/user.hpp
@@ -14,6 +14,7 @@
 #include <string>
 #include <cstdio>
 #include <cstring>
+#include <cctype>
 #include <boost/shared_ptr.hpp>
 #include <boost/noncopyable.hpp>
 #include <boost/thread/mutex.hpp>
@@ -112,6 +113,12 @@ public:
 #ifdef PION_HAVE_SSL
     /// sets encrypted password credentials for given user
     virtual void set_password_hash(const std::string& password_hash) {
+        // refuse anything that is not a hex string
+        for (std::string::const_iterator it = password_hash.begin(); it != password_hash.end(); ++it) {
+            if (! isxdigit(static_cast<unsigned char>(*it)))
+                BOOST_THROW_EXCEPTION( error::bad_password_hash() );
+        }
+
         // update password string representation
         if (password_hash.size() == SHA256_DIGEST_LENGTH * 2) {
             m_password_hash_type = SHA_256;
-- 
2.43.0


From e18a93cd8d48eed37bd3a0f803b58438c1934397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:44 +0000
Subject: [PATCH 29/74] fix: take the new plug-in reference before giving up
 the old one

open() released the old reference while holding the plug-in mutex and hung;
a failing open_file() lost the library that was open; opening the library
that is already open or assigning a reference to itself unloaded it.
---
 src/plugin.cpp | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/plugin.cpp b/src/plugin.cpp
index ab18041..f4f5864 100644
--- a/src/plugin.cpp
+++ b/src/plugin.cpp
@@ -85,17 +85,21 @@ void plugin::reset_plugin_directories(void)
 void plugin::open(const std::string& plugin_name)
 {
     // check first if name matches an existing plugin name
+    data_type *existing_data = NULL;
     {
         config_type& cfg = get_plugin_config();
         boost::mutex::scoped_lock plugin_lock(cfg.m_plugin_mutex);
         map_type::iterator itr = cfg.m_plugin_map.find(plugin_name);
         if (itr != cfg.m_plugin_map.end()) {
-            release_data();  // make sure we're not already pointing to something
-            m_plugin_data = itr->second;
-            ++ m_plugin_data->m_references;
-            return;
+            existing_data = itr->second;
+            ++ existing_data->m_references;
         }
     }
+    if (existing_data != NULL) {
+        release_data();  // make sure we're not already pointing to something
+        m_plugin_data = existing_data;
+        return;
+    }
     
     // nope, look for shared library file
     std::string plugin_file;
@@ -108,12 +112,11 @@ void plugin::open(const std::string& plugin_name)
 
 void plugin::open_file(const std::string& plugin_file)
 {
-    release_data();  // make sure we're not already pointing to something
-    
     // use a temporary object first since open_plugin() may throw
     data_type plugin_data(get_plugin_name(plugin_file));
     
     // check to see if we already have a matching shared library
+    data_type *new_data = NULL;
     config_type& cfg = get_plugin_config();
     boost::mutex::scoped_lock plugin_lock(cfg.m_plugin_mutex);
     map_type::iterator itr = cfg.m_plugin_map.find(plugin_data.m_plugin_name);
@@ -124,16 +127,20 @@ void plugin::open_file(const std::string& plugin_file)
         open_plugin(plugin_file, plugin_data);   // may throw
         
         // all is good -> insert it into the plug-in map
-        m_plugin_data = new data_type(plugin_data);
-        cfg.m_plugin_map.insert( std::make_pair(m_plugin_data->m_plugin_name,
-                                            m_plugin_data) );
+        new_data = new data_type(plugin_data);
+        cfg.m_plugin_map.insert( std::make_pair(new_data->m_plugin_name,
+                                            new_data) );
     } else {
         // found an existing plug-in with the same name
-        m_plugin_data = itr->second;
+        new_data = itr->second;
     }
     
     // increment the number of references
-    ++ m_plugin_data->m_references;
+    ++ new_data->m_references;
+    plugin_lock.unlock();
+
+    release_data();  // make sure we're not already pointing to something
+    m_plugin_data = new_data;
 }
 
 void plugin::release_data(void)
@@ -167,13 +174,16 @@ void plugin::release_data(void)
 
 void plugin::grab_data(const plugin& p)
 {
-    release_data();  // make sure we're not already pointing to something
     config_type& cfg = get_plugin_config();
     boost::mutex::scoped_lock plugin_lock(cfg.m_plugin_mutex);
-    m_plugin_data = const_cast<data_type*>(p.m_plugin_data);
-    if (m_plugin_data != NULL) {
-        ++ m_plugin_data->m_references;
+    data_type *new_data = const_cast<data_type*>(p.m_plugin_data);
+    if (new_data != NULL) {
+        ++ new_data->m_references;
     }
+    plugin_lock.unlock();
+
+    release_data();  // make sure we're not already pointing to something
+    m_plugin_data = new_data;
 }
 
 bool plugin::find_file(std::string& path_to_file, const std::string& name,
-- 
2.43.0


From 66090bf20c043e52781f22c618bc69953d6dfa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:44 +0000
Subject: [PATCH 30/74] fix: plugin_instance_ptr::reset() leaves a dangling
 pointer

The instance was destroyed again by the next reset(), create() or by the
destructor.
---
 include/pion/plugin.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pion/plugin.hpp b/include/pion/plugin.hpp
index 8efd424..c1a0b50 100644
--- a/include/pion/plugin.hpp
+++ b/include/pion/plugin.hpp
@@ -367,6 +367,7 @@ public:
     inline void reset(void) { 
         if (m_instance_ptr) {
             m_plugin_ptr.destroy(m_instance_ptr);
+            m_instance_ptr = NULL;
         }
     }
     
-- 
2.43.0


From f7f19f968f903cab866a3e0a003d3c9a64dc063b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:08 +0000
Subject: [PATCH 31/74] fix: refuse plug-in directories that are not
 directories

A regular file was accepted, after which listing the plug-ins threw.
---
 src/plugin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugin.cpp b/src/plugin.cpp
index f4f5864..57b72c2 100644
--- a/src/plugin.cpp
+++ b/src/plugin.cpp
@@ -63,7 +63,7 @@ void plugin::add_plugin_directory(const std::string& dir)
 {
     boost::filesystem::path plugin_path = boost::filesystem::system_complete(dir);
     check_cygwin_path(plugin_path, dir);
-    if (! boost::filesystem::exists(plugin_path) )
+    if (! boost::filesystem::is_directory(plugin_path) )
         BOOST_THROW_EXCEPTION( error::directory_not_found() << error::errinfo_dir_name(dir) );
     config_type& cfg = get_plugin_config();
     boost::mutex::scoped_lock plugin_lock(cfg.m_plugin_mutex);
-- 
2.43.0


From 1fc10ca130d017d5e3b75c8c2ba727ec23d8c8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:08 +0000
Subject: [PATCH 32/74] fix: list each plug-in only once

A plug-in that is in several directories, or is both linked statically and
in a directory, was listed repeatedly.
---
 src/plugin.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/plugin.cpp b/src/plugin.cpp
index 57b72c2..f341d7f 100644
--- a/src/plugin.cpp
+++ b/src/plugin.cpp
@@ -7,6 +7,7 @@
 // See http://www.boost.org/LICENSE_1_0.txt
 //
 
+#include <set>
 #include <boost/filesystem.hpp>
 #include <boost/filesystem/operations.hpp>
 #include <boost/thread/mutex.hpp>
@@ -317,6 +318,9 @@ std::string plugin::get_plugin_name(const std::string& plugin_file)
 
 void plugin::get_all_plugin_names(std::vector<std::string>& plugin_names)
 {
+    // used to list plug-ins that can be found in more than one place only once
+    std::set<std::string> known_names;
+
     // Iterate through all the Plugin directories.
     std::vector<std::string>::iterator it;
     config_type& cfg = get_plugin_config();
@@ -328,10 +332,12 @@ void plugin::get_all_plugin_names(std::vector<std::string>& plugin_names)
             if (boost::filesystem::is_regular(*it2)) {
                 if (boost::filesystem::extension(it2->path()) == plugin::PION_PLUGIN_EXTENSION) {
 # if defined(BOOST_FILESYSTEM_VERSION) && BOOST_FILESYSTEM_VERSION >= 3
-                    plugin_names.push_back(plugin::get_plugin_name(it2->path().filename().string()));
+                    const std::string plugin_name(plugin::get_plugin_name(it2->path().filename().string()));
 #else
-                    plugin_names.push_back(plugin::get_plugin_name(it2->path().leaf()));
+                    const std::string plugin_name(plugin::get_plugin_name(it2->path().leaf()));
 #endif 
+                    if (known_names.insert(plugin_name).second)
+                        plugin_names.push_back(plugin_name);
                 }
             }
         }
@@ -340,7 +346,7 @@ void plugin::get_all_plugin_names(std::vector<std::string>& plugin_names)
     // Append static-linked libraries
     for (map_type::const_iterator itr = cfg.m_plugin_map.begin(); itr != cfg.m_plugin_map.end(); ++itr) {
         const data_type& plugin_data = *(itr->second);
-        if (plugin_data.m_lib_handle == NULL) {
+        if (plugin_data.m_lib_handle == NULL && known_names.insert(plugin_data.m_plugin_name).second) {
             plugin_names.push_back(plugin_data.m_plugin_name);
         }
     }
-- 
2.43.0


From 770ec3e480cce3d5e69be111199396d2359fa946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:08 +0000
Subject: [PATCH 33/74] fix: registering a plug-in identifier twice fails

add() silently dropped (and leaked) the second object, and concurrent calls
of load() could do the same.
---
 include/pion/plugin_manager.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/pion/plugin_manager.hpp b/include/pion/plugin_manager.hpp
index 80ee545..a1293ca 100644
--- a/include/pion/plugin_manager.hpp
+++ b/include/pion/plugin_manager.hpp
@@ -62,6 +62,7 @@ public:
      *
      * @param plugin_id unique identifier associated with the plug-in
      * @param plugin_object_ptr pointer to the plug-in object to add
+     *                          (not taken over if the identifier is already in use)
      */
     inline void add(const std::string& plugin_id, PluginType *plugin_object_ptr);
     
@@ -190,8 +191,9 @@ inline void plugin_manager<PluginType>::add(const std::string& plugin_id,
 {
     plugin_ptr<PluginType> plugin_ptr;
     boost::mutex::scoped_lock plugins_lock(m_plugin_mutex);
-    m_plugin_map.insert(std::make_pair(plugin_id,
-                                       std::make_pair(plugin_object_ptr, plugin_ptr)));
+    if (! m_plugin_map.insert(std::make_pair(plugin_id,
+                                             std::make_pair(plugin_object_ptr, plugin_ptr))).second)
+        BOOST_THROW_EXCEPTION( error::duplicate_plugin() << error::errinfo_plugin_name(plugin_id) );
 }
 
 template <typename PluginType>
@@ -239,8 +241,8 @@ template <typename PluginType>
 inline PluginType *plugin_manager<PluginType>::load(const std::string& plugin_id,
                                                      const std::string& plugin_type)
 {
-    // search for the plug-in file using the configured paths
-    if (m_plugin_map.find(plugin_id) != m_plugin_map.end())
+    // check for duplicates before opening the library
+    if (get(plugin_id) != NULL)
         BOOST_THROW_EXCEPTION( error::duplicate_plugin() << error::errinfo_plugin_name(plugin_id) );
     
     // open up the plug-in's shared object library
@@ -252,8 +254,13 @@ inline PluginType *plugin_manager<PluginType>::load(const std::string& plugin_id
     
     // add the new plug-in object to our map
     boost::mutex::scoped_lock plugins_lock(m_plugin_mutex);
-    m_plugin_map.insert(std::make_pair(plugin_id,
-                                       std::make_pair(plugin_object_ptr, plugin_ptr)));
+    if (! m_plugin_map.insert(std::make_pair(plugin_id,
+                                             std::make_pair(plugin_object_ptr, plugin_ptr))).second)
+    {
+        // someone else has added it in the meantime
+        plugin_ptr.destroy(plugin_object_ptr);
+        BOOST_THROW_EXCEPTION( error::duplicate_plugin() << error::errinfo_plugin_name(plugin_id) );
+    }
 
     return plugin_object_ptr;
 }
-- 
2.43.0


From 3a3da45879d3eb2eddd5b29f81bdb286b4c154e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:08 +0000
Subject: [PATCH 34/74] fix: find the plug-in with the longest matching
 identifier

The search stopped early when an unrelated identifier sorts between the
resource and the identifier that matches it.
---
 include/pion/plugin_manager.hpp | 36 ++++++++++-----------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/include/pion/plugin_manager.hpp b/include/pion/plugin_manager.hpp
index a1293ca..c31d6cc 100644
--- a/include/pion/plugin_manager.hpp
+++ b/include/pion/plugin_manager.hpp
@@ -307,34 +307,20 @@ inline PluginType *plugin_manager<PluginType>::find(const std::string& resource)
     // lock mutex for thread safety (this should probably use ref counters)
     boost::mutex::scoped_lock plugins_lock(m_plugin_mutex);
     
-    // check if no plug-ins are being managed
-    if (m_plugin_map.empty()) return plugin_object_ptr;
-    
-    // iterate through each plug-in whose identifier may match the resource
-    typename pion::plugin_manager<PluginType>::map_type::iterator i = m_plugin_map.upper_bound(resource);
-    while (i != m_plugin_map.begin()) {
-        --i;
-        
-        // keep checking while the first part of the strings match
-        if (resource.compare(0, i->first.size(), i->first) != 0) {
-            // the first part no longer matches
-            if (i != m_plugin_map.begin()) {
-                // continue to next plug-in in list if its size is < this one
-                typename pion::plugin_manager<PluginType>::map_type::iterator j=i;
-                --j;
-                if (j->first.size() < i->first.size())
-                    continue;
-            }
-            // otherwise we've reached the end; stop looking for a match
-            break;
-        }
-        
-        // only if the resource matches the plug-in's identifier
-        // or if resource is followed first with a '/' character
-        if (resource.size() == i->first.size() || resource[i->first.size()]=='/') {
+    // try the resource itself, and then each shorter part of it
+    // that is followed by a '/' character
+    std::string::size_type length = resource.size();
+    while (true) {
+        typename pion::plugin_manager<PluginType>::map_type::iterator i = m_plugin_map.find(resource.substr(0, length));
+        if (i != m_plugin_map.end()) {
             plugin_object_ptr = i->second.first;
             break;
         }
+        if (length == 0)
+            break;
+        length = resource.rfind('/', length - 1);
+        if (length == std::string::npos)
+            break;
     }
     
     return plugin_object_ptr;
-- 
2.43.0


From 41ae7191a8a08d261518a96a53fdaad9f0a2691b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:57 +0000
Subject: [PATCH 35/74] fix: scheduler shutdown must not hold its mutex while
 it joins the worker threads

---
 include/pion/scheduler.hpp |  5 ++++-
 src/scheduler.cpp          | 33 ++++++++++++++++++++++++++-------
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/include/pion/scheduler.hpp b/include/pion/scheduler.hpp
index bc2369b..98d16cb 100644
--- a/include/pion/scheduler.hpp
+++ b/include/pion/scheduler.hpp
@@ -39,7 +39,7 @@ public:
     /// constructs a new scheduler
     scheduler(void)
         : m_logger(PION_GET_LOGGER("pion.scheduler")),
-        m_num_threads(DEFAULT_NUM_THREADS), m_active_users(0), m_is_running(false)
+        m_num_threads(DEFAULT_NUM_THREADS), m_active_users(0), m_is_running(false), m_is_stopping(false)
     {}
     
     /// virtual destructor
@@ -190,6 +190,9 @@ protected:
 
     /// true if the thread scheduler is running
     bool                            m_is_running;
+
+    /// true while shutdown() waits for the worker threads to finish
+    bool                            m_is_stopping;
 };
 
     
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index ee35f84..48b3e23 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -29,22 +29,33 @@ void scheduler::shutdown(void)
     // lock mutex for thread safety
     boost::mutex::scoped_lock scheduler_lock(m_mutex);
     
-    if (m_is_running) {
-        
-        PION_LOG_INFO(m_logger, "Shutting down the thread scheduler");
-        
-        while (m_active_users > 0) {
-            // first, wait for any active users to exit
+    // wait for any active users to exit, and for any other shutdown to finish
+    while (m_is_stopping || (m_is_running && m_active_users > 0)) {
+        if (m_is_stopping) {
+            m_scheduler_has_stopped.wait(scheduler_lock);
+        } else {
             PION_LOG_INFO(m_logger, "Waiting for " << m_active_users << " scheduler users to finish");
             m_no_more_active_users.wait(scheduler_lock);
         }
+    }
 
+    if (m_is_running) {
+        
+        PION_LOG_INFO(m_logger, "Shutting down the thread scheduler");
+        
         // shut everything down
         m_is_running = false;
+        m_is_stopping = true;
         stop_services();
+
+        // work that is still executing may need the mutex before it can finish
+        scheduler_lock.unlock();
         stop_threads();
+        scheduler_lock.lock();
+
         finish_services();
         finish_threads();
+        m_is_stopping = false;
         
         PION_LOG_INFO(m_logger, "The thread scheduler has shutdown");
 
@@ -68,7 +79,7 @@ void scheduler::shutdown(void)
 void scheduler::join(void)
 {
     boost::mutex::scoped_lock scheduler_lock(m_mutex);
-    while (m_is_running) {
+    while (m_is_running || m_is_stopping) {
         // sleep until scheduler_has_stopped condition is signaled
         m_scheduler_has_stopped.wait(scheduler_lock);
     }
@@ -125,6 +136,10 @@ void single_service_scheduler::startup(void)
     // lock mutex for thread safety
     boost::mutex::scoped_lock scheduler_lock(m_mutex);
     
+    // wait for any shutdown to finish
+    while (m_is_stopping)
+        m_scheduler_has_stopped.wait(scheduler_lock);
+
     if (! m_is_running) {
         PION_LOG_INFO(m_logger, "Starting thread scheduler");
         m_is_running = true;
@@ -150,6 +165,10 @@ void one_to_one_scheduler::startup(void)
     // lock mutex for thread safety
     boost::mutex::scoped_lock scheduler_lock(m_mutex);
     
+    // wait for any shutdown to finish
+    while (m_is_stopping)
+        m_scheduler_has_stopped.wait(scheduler_lock);
+
     if (! m_is_running) {
         PION_LOG_INFO(m_logger, "Starting thread scheduler");
         m_is_running = true;
-- 
2.43.0


From 1c24720bf315774399f44c11566136d8fc5da943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:57 +0000
Subject: [PATCH 36/74] fix: a new scheduler user must not be registered with a
 scheduler that has been shut down

---
 src/scheduler.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 48b3e23..51701b4 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -98,9 +98,13 @@ void scheduler::keep_running(boost::asio::io_service& my_service,
 
 void scheduler::add_active_user(void)
 {
-    if (!m_is_running) startup();
-    boost::mutex::scoped_lock scheduler_lock(m_mutex);
-    ++m_active_users;
+    {
+        // register before starting, so that a concurrent shutdown() has to wait
+        boost::mutex::scoped_lock scheduler_lock(m_mutex);
+        ++m_active_users;
+        if (m_is_running) return;
+    }
+    startup();
 }
 
 void scheduler::remove_active_user(void)
-- 
2.43.0


From 53b2aa2b550bd7eff047f3b0cba696d906a3264a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:57 +0000
Subject: [PATCH 37/74] fix: a restarted scheduler must not spin on its keep
 running timer

---
 include/pion/scheduler.hpp |  5 +++++
 src/scheduler.cpp          | 13 ++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/pion/scheduler.hpp b/include/pion/scheduler.hpp
index 98d16cb..d148b73 100644
--- a/include/pion/scheduler.hpp
+++ b/include/pion/scheduler.hpp
@@ -144,6 +144,11 @@ protected:
     static boost::system_time get_wakeup_time(boost::uint32_t sleep_sec,
         boost::uint32_t sleep_nsec);
 
+    /// called when the timer set by keep_running() has expired or was cancelled
+    void handle_keep_running(const boost::system::error_code& error,
+                             boost::asio::io_service& my_service,
+                             boost::asio::deadline_timer& my_timer);
+
     /// stops all services used to schedule work
     virtual void stop_services(void) {}
     
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 51701b4..8c68051 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -91,11 +91,22 @@ void scheduler::keep_running(boost::asio::io_service& my_service,
     if (m_is_running) {
         // schedule this again to make sure the service doesn't complete
         my_timer.expires_from_now(boost::posix_time::seconds(KEEP_RUNNING_TIMER_SECONDS));
-        my_timer.async_wait(boost::bind(&scheduler::keep_running, this,
+        my_timer.async_wait(boost::bind(&scheduler::handle_keep_running, this,
+                                        boost::asio::placeholders::error,
                                         boost::ref(my_service), boost::ref(my_timer)));
     }
 }
 
+void scheduler::handle_keep_running(const boost::system::error_code& error,
+                                    boost::asio::io_service& my_service,
+                                    boost::asio::deadline_timer& my_timer)
+{
+    // a wait left over from before a restart is cancelled when the timer is set
+    // again; setting it once more here would in turn cancel the new one, forever
+    if (error != boost::asio::error::operation_aborted)
+        keep_running(my_service, my_timer);
+}
+
 void scheduler::add_active_user(void)
 {
     {
-- 
2.43.0


From ac675add03f90cc8da466d1975a261ebd1f871a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:57 +0000
Subject: [PATCH 38/74] fix: one_to_one_scheduler must not give work to a
 service that has no thread

---
 include/pion/scheduler.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/pion/scheduler.hpp b/include/pion/scheduler.hpp
index d148b73..8819f82 100644
--- a/include/pion/scheduler.hpp
+++ b/include/pion/scheduler.hpp
@@ -307,13 +307,18 @@ public:
     /// returns an async I/O service used to schedule work
     virtual boost::asio::io_service& get_io_service(void) {
         boost::mutex::scoped_lock scheduler_lock(m_mutex);
-        while (m_service_pool.size() < m_num_threads) {
-            boost::shared_ptr<service_pair_type>  service_ptr(new service_pair_type());
-            m_service_pool.push_back(service_ptr);
+        // while running, only the services that have a thread can be used
+        boost::uint32_t num_services = m_num_threads;
+        if (m_is_running) {
+            num_services = m_thread_pool.size();
+        } else {
+            while (m_service_pool.size() < m_num_threads) {
+                boost::shared_ptr<service_pair_type>  service_ptr(new service_pair_type());
+                m_service_pool.push_back(service_ptr);
+            }
         }
-        if (++m_next_service >= m_num_threads)
+        if (++m_next_service >= num_services)
             m_next_service = 0;
-        BOOST_ASSERT(m_next_service < m_num_threads);
         return m_service_pool[m_next_service]->first;
     }
     
-- 
2.43.0


From 71d99aae4107e0b7b9ad3286f6e34262b01a44ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:36 +0000
Subject: [PATCH 39/74] fix: the termination signal handler must not take the
 shutdown mutex

---
 src/process.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/process.cpp b/src/process.cpp
index 7b976e1..59d3003 100644
--- a/src/process.cpp
+++ b/src/process.cpp
@@ -28,6 +28,11 @@ namespace pion {    // begin namespace pion
 boost::once_flag                process::m_instance_flag = BOOST_ONCE_INIT;
 process::config_type *process::m_config_ptr = NULL;
 
+#ifndef PION_WIN32
+/// set when a signal asks to shut down (the only thing a signal handler may safely do)
+static volatile sig_atomic_t    shutdown_signal_caught = 0;
+#endif
+
     
 // process member functions
     
@@ -45,8 +50,19 @@ void process::wait_for_shutdown(void)
 {
     config_type& cfg = get_config();
     boost::mutex::scoped_lock shutdown_lock(cfg.shutdown_mutex);
-    while (! cfg.shutdown_now)
+    while (! cfg.shutdown_now) {
+#ifdef PION_WIN32
         cfg.shutdown_cond.wait(shutdown_lock);
+#else
+        // a signal handler cannot trigger the condition
+        if (shutdown_signal_caught) {
+            cfg.shutdown_now = true;
+            cfg.shutdown_cond.notify_all();
+        } else {
+            cfg.shutdown_cond.timed_wait(shutdown_lock, boost::posix_time::milliseconds(250));
+        }
+#endif
+    }
 }
 
 void process::create_config(void)
@@ -221,7 +237,9 @@ void process::daemonize(void)
 
 void handle_signal(int /* sig */)
 {
-    process::shutdown();
+    // process::shutdown() must not be called from here: the interrupted
+    // thread may hold the mutex that it needs
+    shutdown_signal_caught = 1;
 }
 
 void process::initialize(void)
-- 
2.43.0


From b178c44555e6fbb9871fac94494140c51a30b56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:49 +0000
Subject: [PATCH 40/74] fix: admin_rights truncated the saved user id to 16
 bits

---
 include/pion/admin_rights.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pion/admin_rights.hpp b/include/pion/admin_rights.hpp
index 52a7260..eefe62d 100644
--- a/include/pion/admin_rights.hpp
+++ b/include/pion/admin_rights.hpp
@@ -72,7 +72,7 @@ private:
     boost::unique_lock<boost::mutex>    m_lock;
 
     /// saved user identifier before upgrading to administrator
-    boost::int16_t                      m_user_id;
+    long                                m_user_id;
 
     /// true if the class currently holds administrative rights
     bool                                m_has_rights;
-- 
2.43.0


From 20adaa218892b545f93bc5d49d0e933a54c3b5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:49 +0000
Subject: [PATCH 41/74] fix: admin_rights misread entries with empty fields and
 ids above 2^31

---
 src/admin_rights.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/admin_rights.cpp b/src/admin_rights.cpp
index 5d28618..bee4458 100644
--- a/src/admin_rights.cpp
+++ b/src/admin_rights.cpp
@@ -115,13 +115,23 @@ long admin_rights::run_as_group(const std::string& group_name)
     return group_id;
 }
 
+/// converts a string of digits to an identifier, or -1 if there is no such identifier
+static long parse_system_id(const std::string& digits)
+{
+    try {
+        return boost::lexical_cast<boost::uint32_t>(digits);
+    } catch (boost::bad_lexical_cast&) {
+        return -1;
+    }
+}
+
 long admin_rights::find_system_id(const std::string& name,
     const std::string& file)
 {
     // check if name is the system id
     const boost::regex just_numbers("\\d+");
     if (boost::regex_match(name, just_numbers)) {
-        return boost::lexical_cast<boost::int32_t>(name);
+        return parse_system_id(name);
     }
 
     // open system file
@@ -132,9 +142,9 @@ long admin_rights::find_system_id(const std::string& name,
 
     // find id in system file
     typedef boost::tokenizer<boost::char_separator<char> > Tok;
-    boost::char_separator<char> sep(":");
+    boost::char_separator<char> sep(":", "", boost::keep_empty_tokens);
     std::string line;
-    boost::int32_t system_id = -1;
+    long system_id = -1;
 
     while (std::getline(system_file, line, '\n')) {
         Tok tokens(line, sep);
@@ -145,7 +155,7 @@ long admin_rights::find_system_id(const std::string& name,
                 && boost::regex_match(*token_it, just_numbers))
             {
                 // found id as third parameter
-                system_id = boost::lexical_cast<boost::int32_t>(*token_it);
+                system_id = parse_system_id(*token_it);
             }
             break;
         }
-- 
2.43.0


From b34cfd457ce68e793c0a87e8361cfd1f283fc519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:47 +0000
Subject: [PATCH 42/74] fix: SPDY parser reads beyond packets that end within a
 frame

The lengths of the packet and of the frame were never compared before the
frame header, the header block prefix and the payloads of control frames
were read, and the remaining length wrapped around below zero.  A packet that
ends within a frame header is now incomplete (indeterminate, nothing
consumed), a header frame that is not all there is an error, and the payload
of other control frames is only looked at when present.  The stream id is
data from the peer (and SETTINGS or PING have none): it cannot be asserted.
---
 include/pion/spdy/parser.hpp |  5 ++-
 src/spdy_parser.cpp          | 60 +++++++++++++++++++++++++++---------
 2 files changed, 50 insertions(+), 15 deletions(-)

diff --git a/include/pion/spdy/parser.hpp b/include/pion/spdy/parser.hpp
index ce38e67..b9af0f8 100644
--- a/include/pion/spdy/parser.hpp
+++ b/include/pion/spdy/parser.hpp
@@ -85,7 +85,10 @@ public:
      * @return boost::tribool result of parsing:
      *                        false = SPDY frame has an error,
      *                        true = finished parsing SPDY frame,
-     *                        indeterminate = not yet finished parsing SPDY frame
+     *                        indeterminate = not yet finished parsing SPDY frame:
+     *                            more frames follow at get_spdy_read_pointer(), or
+     *                            the packet ends within the frame header (in which
+     *                            case nothing is consumed)
      */
     boost::tribool parse(http_protocol_info& http_headers,
                          boost::system::error_code& ec,
diff --git a/src/spdy_parser.cpp b/src/spdy_parser.cpp
index 172c83c..1d72504 100644
--- a/src/spdy_parser.cpp
+++ b/src/spdy_parser.cpp
@@ -150,6 +150,11 @@ boost::tribool parser::parse_spdy_frame(boost::system::error_code& ec,
     // Verify that this is a spdy frame
     
     BOOST_ASSERT(m_read_ptr);
+    ec.clear();
+    if (length_packet == 0) {
+        // Nothing to parse yet
+        return boost::indeterminate;
+    }
     boost::uint8_t first_byte = (boost::uint8_t)*m_read_ptr;
     if (first_byte != 0x80 && first_byte != 0x0) {
         // This is not a SPDY frame, throw an error
@@ -162,20 +167,31 @@ boost::tribool parser::parse_spdy_frame(boost::system::error_code& ec,
     spdy_control_frame_info     frame;
     boost::uint32_t             stream_id = 0;
     
-    ec.clear();
-
     // Populate the frame
     bool populate_frame_result = populate_frame(ec, frame, length_packet, stream_id, http_info);
     
     if(!populate_frame_result){
         /// There was an error; No need to further parse.
-        return false;
+        if (ec)
+            return false;
+        /// The packet ends within the frame header; nothing was consumed
+        return boost::indeterminate;
     }
     
-    BOOST_ASSERT(stream_id != 0);
-    
     control_bit = (boost::uint8_t)frame.control_bit;
-    
+
+    // A header block can only be parsed when the packet has all of it
+    if ((frame.type == SPDY_SYN_STREAM || frame.type == SPDY_SYN_REPLY || frame.type == SPDY_HEADERS)
+        && (length_packet < frame.length || frame.length < (frame.type == SPDY_SYN_STREAM ? 10U : 6U)))
+    {
+        PION_LOG_ERROR(m_logger, "Incomplete SPDY Header Frame");
+        set_error(ec, ERROR_MISSING_HEADER_DATA);
+        return false;
+    }
+
+    // Other control frames are looked into only if the packet has all of them
+    const bool complete = (length_packet >= frame.length);
+
     // There is a possibility that there are more than one SPDY frames in one TCP frame
     if(length_packet > frame.length){
         m_current_data_chunk_ptr = m_read_ptr + frame.length;
@@ -213,27 +229,32 @@ boost::tribool parser::parse_spdy_frame(boost::system::error_code& ec,
             break;
             
         case SPDY_RST_STREAM:
-            parse_spdy_rst_stream(ec, frame);
+            if (complete)
+                parse_spdy_rst_stream(ec, frame);
             http_info.http_type = SPDY_CONTROL;
             break;
             
         case SPDY_SETTINGS:
-            parse_spdy_settings_frame(ec, frame);
+            if (complete)
+                parse_spdy_settings_frame(ec, frame);
             http_info.http_type = SPDY_CONTROL;
             break;
             
         case SPDY_PING:
-            parse_spdy_ping_frame(ec, frame);
+            if (complete)
+                parse_spdy_ping_frame(ec, frame);
             http_info.http_type = SPDY_CONTROL;
             break;
             
         case SPDY_GOAWAY:
-            parse_spdy_goaway_frame(ec, frame);
+            if (complete)
+                parse_spdy_goaway_frame(ec, frame);
             http_info.http_type = SPDY_CONTROL;
             break;
             
         case SPDY_WINDOW_UPDATE:
-            parse_spdy_window_update_frame(ec, frame);
+            if (complete)
+                parse_spdy_window_update_frame(ec, frame);
             http_info.http_type = SPDY_CONTROL;
             break;
             
@@ -269,11 +290,22 @@ bool parser::populate_frame(boost::system::error_code& ec,
 {
     // Get the control bit
     boost::uint8_t control_bit;
-    boost::uint16_t byte_value = algorithm::to_uint16(m_read_ptr);
-    control_bit = byte_value >> (sizeof(short) * CHAR_BIT - 1);
+    control_bit = (boost::uint8_t)*m_read_ptr >> (CHAR_BIT - 1);
     
     frame.control_bit = (control_bit != 0);
     
+    // All frames start with a header of 8 bytes. If the packet ends within
+    // it then the most we can tell is that the type of the frame is invalid.
+    if (length_packet < 8) {
+        if (control_bit && length_packet >= 4
+            && algorithm::to_uint16(m_read_ptr + 2) >= SPDY_INVALID)
+        {
+            PION_LOG_ERROR(m_logger, "Invalid SPDY Frame");
+            set_error(ec, ERROR_INVALID_SPDY_FRAME);
+        }
+        return false;
+    }
+    
     if(control_bit){
         
         // Control bit is set; This is a control frame
@@ -337,7 +369,7 @@ bool parser::populate_frame(boost::system::error_code& ec,
     
     http_info.data_size = frame.length;
     
-    if(control_bit){
+    if(control_bit && frame.length >= 4 && length_packet >= 4){
         four_bytes = algorithm::to_uint32(m_read_ptr);
         stream_id = four_bytes & 0x7FFFFFFF;
     }
-- 
2.43.0


From 375bdb5719aeac375c4faed96ca9fa9ec0dce9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:47 +0000
Subject: [PATCH 43/74] fix: SPDY header parsing reads beyond the decompressed
 block

The number of pairs and the lengths of names and values come from the peer;
they were followed beyond the end of the decompressed block, into what
earlier blocks left in the buffer or beyond the buffer.
---
 include/pion/spdy/decompressor.hpp |  6 ++++++
 src/spdy_decompressor.cpp          |  5 ++++-
 src/spdy_parser.cpp                | 21 +++++++++++++++++++++
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/include/pion/spdy/decompressor.hpp b/include/pion/spdy/decompressor.hpp
index eb88a6d..d6327e6 100644
--- a/include/pion/spdy/decompressor.hpp
+++ b/include/pion/spdy/decompressor.hpp
@@ -52,6 +52,9 @@ public:
                      const spdy_control_frame_info& frame,
                      boost::uint32_t header_block_length);
 
+    /// returns the size of the last uncompressed string, in bytes
+    boost::uint32_t get_uncompressed_length() const { return m_uncompressed_length; }
+
     
 protected:
 
@@ -77,6 +80,9 @@ private:
     /// dictionary identifier
     boost::uint32_t                     m_dictionary_id;
     
+    /// size of the last uncompressed header
+    boost::uint32_t                     m_uncompressed_length;
+    
     /// Used for decompressing spdy headers
     boost::uint8_t                      m_uncompressed_header[MAX_UNCOMPRESSED_DATA_BUF_SIZE];
 
diff --git a/src/spdy_decompressor.cpp b/src/spdy_decompressor.cpp
index d1b4152..0ef860b 100644
--- a/src/spdy_decompressor.cpp
+++ b/src/spdy_decompressor.cpp
@@ -40,7 +40,8 @@ const char decompressor::SPDY_ZLIB_DICTIONARY[] =
 // decompressor member functions
 
 decompressor::decompressor()
-    : m_request_zstream(NULL), m_response_zstream(NULL)
+    : m_request_zstream(NULL), m_response_zstream(NULL),
+    m_uncompressed_length(0)
 {
     m_request_zstream = (z_streamp)malloc(sizeof(z_stream));
     BOOST_ASSERT(m_request_zstream);
@@ -123,8 +124,10 @@ char* decompressor::decompress(const char *compressed_data_ptr,
         // This error is not catastrophic as many times we might get inconsistent
         // spdy header frames and we should just log error and continue.
         // No need to call SetError()
+        m_uncompressed_length = 0;
         return NULL;
     }
+    m_uncompressed_length = uncomp_length;
     return reinterpret_cast<char*>(m_uncompressed_header);
 }
 
diff --git a/src/spdy_parser.cpp b/src/spdy_parser.cpp
index 1d72504..1ce9f79 100644
--- a/src/spdy_parser.cpp
+++ b/src/spdy_parser.cpp
@@ -449,6 +449,11 @@ void parser::parse_header_payload(boost::system::error_code &ec,
     // and it is 32 bit in SPDYv3
     
     // TBD : Add support for SPDYv3
+    const char * const uncompressed_end = m_uncompressed_ptr + decompressor->get_uncompressed_length();
+    if (uncompressed_end - m_uncompressed_ptr < 2) {
+        set_error(ec, ERROR_MISSING_HEADER_DATA);
+        return;
+    }
     boost::uint16_t num_name_val_pairs = algorithm::to_uint16(m_uncompressed_ptr);
     
     m_uncompressed_ptr += 2;
@@ -460,11 +465,19 @@ void parser::parse_header_payload(boost::system::error_code &ec,
         
         
         // Get the length of the name
+        if (uncompressed_end - m_uncompressed_ptr < 2) {
+            set_error(ec, ERROR_MISSING_HEADER_DATA);
+            return;
+        }
         boost::uint16_t length_name = algorithm::to_uint16(m_uncompressed_ptr);
         std::string name = "";
         
         m_uncompressed_ptr += 2;
         
+        if (uncompressed_end - m_uncompressed_ptr < length_name) {
+            set_error(ec, ERROR_MISSING_HEADER_DATA);
+            return;
+        }
         {
             for(boost::uint16_t count = 0; count < length_name; ++count){
                 name.push_back(*(m_uncompressed_ptr+count));
@@ -473,11 +486,19 @@ void parser::parse_header_payload(boost::system::error_code &ec,
         }
         
         // Get the length of the value
+        if (uncompressed_end - m_uncompressed_ptr < 2) {
+            set_error(ec, ERROR_MISSING_HEADER_DATA);
+            return;
+        }
         boost::uint16_t length_value = algorithm::to_uint16(m_uncompressed_ptr);
         std::string value = "";
         
         m_uncompressed_ptr += 2;
         
+        if (uncompressed_end - m_uncompressed_ptr < length_value) {
+            set_error(ec, ERROR_MISSING_HEADER_DATA);
+            return;
+        }
         {
             for(boost::uint16_t count = 0; count < length_value; ++count){
                 value.push_back(*(m_uncompressed_ptr+count));
-- 
2.43.0


From efc3993cab08fe933b35307d3691cc66fe51353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:47 +0000
Subject: [PATCH 44/74] fix: SPDY decompressor accepts header blocks larger
 than its buffer

When a block inflates to more than the buffer holds, zlib may have consumed
all of the input with output still pending: the truncated block was accepted
and the rest of it appeared at the start of the next block.
---
 src/spdy_decompressor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spdy_decompressor.cpp b/src/spdy_decompressor.cpp
index 0ef860b..739ee54 100644
--- a/src/spdy_decompressor.cpp
+++ b/src/spdy_decompressor.cpp
@@ -168,7 +168,7 @@ bool decompressor::spdy_decompress_header(const char *compressed_data_ptr,
     
     // Handle successful inflation. 
     uncomp_length = MAX_UNCOMPRESSED_DATA_BUF_SIZE - decomp->avail_out;
-    if (decomp->avail_in != 0) {
+    if (decomp->avail_in != 0 || decomp->avail_out == 0) {
         // Error condition
         // This error is not catastrophic as many times we might get inconsistent
         // spdy header frames and we should just log error and continue.
-- 
2.43.0


From 28be47ee52dd2949cf1c8b6f3911338d562675ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:47 +0000
Subject: [PATCH 45/74] fix: SPDY GOAWAY status is read from beyond the frame

A GOAWAY frame of 4 bytes (SPDYv2) has no status code; whatever followed the
frame was taken for one, and could make the parser report an error.  The
frames that have a status code (8 bytes, SPDYv3) were ignored.
---
 src/spdy_parser.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/spdy_parser.cpp b/src/spdy_parser.cpp
index 1ce9f79..8212853 100644
--- a/src/spdy_parser.cpp
+++ b/src/spdy_parser.cpp
@@ -579,8 +579,8 @@ void parser::parse_spdy_goaway_frame(boost::system::error_code &ec,
                                      const spdy_control_frame_info& frame)
 {
     // First complete the check for size
-    // The length should be 4 always
-    if(frame.length != 4){
+    // The length should be 4 for SPDYv2 and 8 for SPDYv3
+    if(frame.length != 4 && frame.length != 8){
         return;
     }
     
@@ -589,6 +589,11 @@ void parser::parse_spdy_goaway_frame(boost::system::error_code &ec,
     // Ignore the 31 bit stream id
     m_read_ptr += 4;
     
+    // There is no status code in SPDYv2
+    if(frame.length == 4){
+        return;
+    }
+    
     // Get the status code
     
     status_code = algorithm::to_uint32(m_read_ptr);
-- 
2.43.0


From 4bb8f0c853059f4aaf0c2af56cef2656b3137c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:48 +0000
Subject: [PATCH 46/74] fix: SPDY control frames of type 0 are taken for data
 frames

---
 src/spdy_parser.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/spdy_parser.cpp b/src/spdy_parser.cpp
index 8212853..b19b276 100644
--- a/src/spdy_parser.cpp
+++ b/src/spdy_parser.cpp
@@ -41,6 +41,12 @@ static char const* rst_stream_status(boost::uint32_t rst_stream_status_code)
     }
 }
 
+/// true if a control frame may have the type (type 0 is used for data frames)
+static bool is_control_frame_type(boost::uint16_t type)
+{
+    return type > SPDY_DATA && type < SPDY_INVALID;
+}
+
 parser::error_category_t *  parser::m_error_category_ptr = NULL;
 boost::once_flag            parser::m_instance_flag = BOOST_ONCE_INIT;
 
@@ -96,7 +102,7 @@ bool parser::is_spdy_control_frame(const char *ptr)
     
     type = algorithm::to_uint16(ptr);
     
-    if (type >= SPDY_INVALID) {
+    if (!is_control_frame_type(type)) {
         // Not among the recognized SPDY types
         return false;
     }
@@ -298,7 +304,7 @@ bool parser::populate_frame(boost::system::error_code& ec,
     // it then the most we can tell is that the type of the frame is invalid.
     if (length_packet < 8) {
         if (control_bit && length_packet >= 4
-            && algorithm::to_uint16(m_read_ptr + 2) >= SPDY_INVALID)
+            && !is_control_frame_type(algorithm::to_uint16(m_read_ptr + 2)))
         {
             PION_LOG_ERROR(m_logger, "Invalid SPDY Frame");
             set_error(ec, ERROR_INVALID_SPDY_FRAME);
@@ -322,7 +328,7 @@ bool parser::populate_frame(boost::system::error_code& ec,
         // Get the type
         frame.type = algorithm::to_uint16(m_read_ptr);
         
-        if (frame.type >= SPDY_INVALID) {
+        if (!is_control_frame_type(frame.type)) {
             // SPDY Frame is invalid
             
             // This is not a SPDY frame, throw an error
-- 
2.43.0


From 5deabe3822c2c2769556d731fe6ff93cea970e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:37 +0000
Subject: [PATCH 47/74] fix: pipelined requests must not be handled while the
 server's mutex is held

---
 src/tcp_server.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tcp_server.cpp b/src/tcp_server.cpp
index 483b629..ad9635f 100644
--- a/src/tcp_server.cpp
+++ b/src/tcp_server.cpp
@@ -250,6 +250,8 @@ void server::finish_connection(const tcp::connection_ptr& tcp_conn)
     if (m_is_listening && tcp_conn->get_keep_alive()) {
         
         // keep the connection alive
+        // (unlock the mutex, since handling a pipelined request may need it)
+        server_lock.unlock();
         handle_connection(tcp_conn);
 
     } else {
-- 
2.43.0


From eb31dd775895865dc78c89b72f0d9964f0a07a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:37 +0000
Subject: [PATCH 48/74] fix: a server that could not bind to its port can never
 be started

---
 src/tcp_server.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tcp_server.cpp b/src/tcp_server.cpp
index ad9635f..36f525c 100644
--- a/src/tcp_server.cpp
+++ b/src/tcp_server.cpp
@@ -96,6 +96,9 @@ void server::start(void)
             m_tcp_acceptor.listen();
         } catch (std::exception& e) {
             PION_LOG_ERROR(m_logger, "Unable to bind to port " << get_port() << ": " << e.what());
+            // close the acceptor so that the server can be started later
+            boost::system::error_code ec;
+            m_tcp_acceptor.close(ec);
             throw;
         }
 
-- 
2.43.0


From f0076b5938add0fd0e8bbb3b7e9398f7d5212947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:37 +0000
Subject: [PATCH 49/74] fix: basic_auth accepts cached credentials of users
 that were removed or changed

---
 include/pion/http/basic_auth.hpp | 13 -----------
 src/http_basic_auth.cpp          | 38 +-------------------------------
 2 files changed, 1 insertion(+), 50 deletions(-)

diff --git a/include/pion/http/basic_auth.hpp b/include/pion/http/basic_auth.hpp
index 9eacecd..ef82bfa 100644
--- a/include/pion/http/basic_auth.hpp
+++ b/include/pion/http/basic_auth.hpp
@@ -84,21 +84,8 @@ protected:
     
 private:
     
-    /// number of seconds after which entires in the user cache will be expired
-    static const unsigned int   CACHE_EXPIRATION;
-
-
     /// authentication realm ( "PION" by default)
     std::string                 m_realm; 
-
-    /// time of the last cache clean up
-    boost::posix_time::ptime    m_cache_cleanup_time;
-        
-    /// cache of users that are currently active
-    user_cache_type             m_user_cache;
-    
-    /// mutex used to protect access to the user cache
-    mutable boost::mutex        m_cache_mutex;
 };
 
     
diff --git a/src/http_basic_auth.cpp b/src/http_basic_auth.cpp
index cb26648..da7c546 100644
--- a/src/http_basic_auth.cpp
+++ b/src/http_basic_auth.cpp
@@ -18,16 +18,10 @@ namespace pion {    // begin namespace pion
 namespace http {    // begin namespace http
     
     
-// static members of basic_auth
-
-const unsigned int  basic_auth::CACHE_EXPIRATION = 300;  // 5 minutes
-
-
 // basic_auth member functions
 
 basic_auth::basic_auth(user_manager_ptr userManager, const std::string& realm)
-    : http::auth(userManager), m_realm(realm),
-    m_cache_cleanup_time(boost::posix_time::second_clock::universal_time())
+    : http::auth(userManager), m_realm(realm)
 {
     set_logger(PION_GET_LOGGER("pion.http.basic_auth"));
 }
@@ -38,39 +32,11 @@ bool basic_auth::handle_request(const http::request_ptr& http_request_ptr, const
         return true; // this request does not require authentication
     }
     
-    boost::posix_time::ptime time_now(boost::posix_time::second_clock::universal_time());
-    if (time_now > m_cache_cleanup_time + boost::posix_time::seconds(CACHE_EXPIRATION)) {
-        // expire cache
-        boost::mutex::scoped_lock cache_lock(m_cache_mutex);
-        user_cache_type::iterator i;
-        user_cache_type::iterator next=m_user_cache.begin();
-        while (next!=m_user_cache.end()) {
-            i=next;
-            ++next;
-            if (time_now > i->second.first + boost::posix_time::seconds(CACHE_EXPIRATION)) {
-                // ok - this is an old record.. expire it now
-                m_user_cache.erase(i);
-            }
-        }
-        m_cache_cleanup_time = time_now;
-    }
-    
     // if we are here, we need to check if access authorized...
     std::string authorization = http_request_ptr->get_header(http::types::HEADER_AUTHORIZATION);
     if (!authorization.empty()) {
         std::string credentials;
         if (parse_authorization(authorization, credentials)) {
-            // to do - use fast cache to match with active credentials
-            boost::mutex::scoped_lock cache_lock(m_cache_mutex);
-            user_cache_type::iterator user_cache_ptr=m_user_cache.find(credentials);
-            if (user_cache_ptr!=m_user_cache.end()) {
-                // we found the credentials in our cache...
-                // we can approve authorization now!
-                http_request_ptr->set_user(user_cache_ptr->second.second);
-                user_cache_ptr->second.first = time_now;
-                return true;
-            }
-    
             std::string username;
             std::string password;
     
@@ -78,8 +44,6 @@ bool basic_auth::handle_request(const http::request_ptr& http_request_ptr, const
                 // match username/password
                 user_ptr user=m_user_manager->get_user(username, password);
                 if (user) {
-                    // add user to the cache
-                    m_user_cache.insert(std::make_pair(credentials, std::make_pair(time_now, user)));
                     // add user credentials to the request object
                     http_request_ptr->set_user(user);
                     return true;
-- 
2.43.0


From 7eee037b34199959203c51ad2a052864f4be564c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:13 +0000
Subject: [PATCH 50/74] fix: redirects are read without the lock that protects
 them

---
 src/http_server.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http_server.cpp b/src/http_server.cpp
index ccfac53..661111e 100644
--- a/src/http_server.cpp
+++ b/src/http_server.cpp
@@ -67,10 +67,12 @@ void server::handle_request(const http::request_ptr& http_request_ptr,
     std::string resource_requested(strip_trailing_slash(http_request_ptr->get_resource()));
 
     // apply any redirection
+    boost::mutex::scoped_lock resource_lock(m_resource_mutex);
     redirect_map_t::const_iterator it = m_redirects.find(resource_requested);
     unsigned int num_redirects = 0;
     while (it != m_redirects.end()) {
         if (++num_redirects > MAX_REDIRECTS) {
+            resource_lock.unlock();
             PION_LOG_ERROR(m_logger, "Maximum number of redirects (server::MAX_REDIRECTS) exceeded for requested resource: " << http_request_ptr->get_original_resource());
             m_server_error_handler(http_request_ptr, tcp_conn, "Maximum number of redirects (server::MAX_REDIRECTS) exceeded for requested resource");
             return;
@@ -79,6 +81,7 @@ void server::handle_request(const http::request_ptr& http_request_ptr,
         http_request_ptr->change_resource(resource_requested);
         it = m_redirects.find(resource_requested);
     }
+    resource_lock.unlock();
 
     // if authentication activated, check current request
     if (m_auth_ptr) {
-- 
2.43.0


From c3d935699e022103cb71eb262b8c7dabae4530b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:13 +0000
Subject: [PATCH 51/74] fix: session cookies are generated without
 synchronization

---
 src/http_cookie_auth.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http_cookie_auth.cpp b/src/http_cookie_auth.cpp
index 06f3b38..0b2aeb4 100644
--- a/src/http_cookie_auth.cpp
+++ b/src/http_cookie_auth.cpp
@@ -132,6 +132,8 @@ bool cookie_auth::process_login(const http::request_ptr& http_request_ptr, const
         // create random cookie
         std::string rand_binary;
         rand_binary.reserve(RANDOM_COOKIE_BYTES);
+        // (the generator is shared by all threads, like the cache)
+        boost::mutex::scoped_lock cache_lock(m_cache_mutex);
         for (unsigned int i=0; i<RANDOM_COOKIE_BYTES ; i++) {
             rand_binary += static_cast<unsigned char>(m_random_die());
         }
@@ -139,7 +141,6 @@ bool cookie_auth::process_login(const http::request_ptr& http_request_ptr, const
 
         // add new session to cache
         boost::posix_time::ptime time_now(boost::posix_time::second_clock::universal_time());
-        boost::mutex::scoped_lock cache_lock(m_cache_mutex);
         m_user_cache.insert(std::make_pair(new_cookie,std::make_pair(time_now,user)));
     } else {
         // process logout sequence
-- 
2.43.0


From 8cc331b2194744b26676525422e87eaeffede53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:13 +0000
Subject: [PATCH 52/74] fix: login and logout redirections allow HTTP response
 splitting

---
 src/http_cookie_auth.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http_cookie_auth.cpp b/src/http_cookie_auth.cpp
index 0b2aeb4..4a8b10e 100644
--- a/src/http_cookie_auth.cpp
+++ b/src/http_cookie_auth.cpp
@@ -112,6 +112,9 @@ bool cookie_auth::process_login(const http::request_ptr& http_request_ptr, const
     }
 
     std::string redirect_url = http_request_ptr->get_query("url");
+    // ignore the redirection if it would add lines to the response headers
+    if (redirect_url.find_first_of("\r\n") != std::string::npos)
+        redirect_url.clear();
     std::string new_cookie;
     bool delete_cookie = false;
 
-- 
2.43.0


From 532eb3998035453d7afc91f94a7f1d26ae27e5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:13 +0000
Subject: [PATCH 53/74] fix: responses to HEAD requests are sent with content

---
 include/pion/http/response_writer.hpp | 5 +++++
 include/pion/http/writer.hpp          | 3 +++
 src/http_writer.cpp                   | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/include/pion/http/response_writer.hpp b/include/pion/http/response_writer.hpp
index bb9fc66..cf777a2 100644
--- a/include/pion/http/response_writer.hpp
+++ b/include/pion/http/response_writer.hpp
@@ -132,6 +132,11 @@ protected:
                                                sending_chunked_message());
     }   
 
+    /// some responses must not include payload content (i.e. if the request was HEAD)
+    virtual bool is_content_implied(void) const {
+        return m_http_response->is_content_length_implied();
+    }
+
     /// returns a function bound to http::writer::handle_write()
     virtual write_handler_t bind_to_write_handler(void) {
         return boost::bind(&response_writer::handle_write, shared_from_this(),
diff --git a/include/pion/http/writer.hpp b/include/pion/http/writer.hpp
index 3a78f77..582ced3 100644
--- a/include/pion/http/writer.hpp
+++ b/include/pion/http/writer.hpp
@@ -72,6 +72,9 @@ protected:
      * @param write_buffers vector of write buffers to initialize
      */
     virtual void prepare_buffers_for_send(http::message::write_buffers_t& write_buffers) = 0;
+
+    /// returns true if the message is not allowed to have any payload content
+    virtual bool is_content_implied(void) const { return false; }
                                       
     /// returns a function bound to writer::handle_write()
     virtual write_handler_t bind_to_write_handler(void) = 0;
diff --git a/src/http_writer.cpp b/src/http_writer.cpp
index 690b033..609fbfa 100644
--- a/src/http_writer.cpp
+++ b/src/http_writer.cpp
@@ -30,6 +30,10 @@ void writer::prepare_write_buffers(http::message::write_buffers_t& write_buffers
         m_sent_headers = true;
     }
 
+    // don't send anything else if the message cannot have any content
+    if (is_content_implied())
+        return;
+
     // combine I/O write buffers (headers and content) so that everything
     // can be sent together; otherwise, we would have to send headers
     // and content separately, which would not be as efficient
-- 
2.43.0


From 39c3b775e0f55472bc23d6359393e964d2076f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:13 +0000
Subject: [PATCH 54/74] fix: stopping a server misses connections that were
 just accepted

A connection that was accepted but not yet handled when stop(false) closed the
connections was handled afterwards, and the server waited for it to finish.
---
 src/tcp_server.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/tcp_server.cpp b/src/tcp_server.cpp
index 36f525c..a1d3b10 100644
--- a/src/tcp_server.cpp
+++ b/src/tcp_server.cpp
@@ -215,9 +215,19 @@ void server::handle_accept(const tcp::connection_ptr& tcp_conn,
         PION_LOG_DEBUG(m_logger, "New" << (tcp_conn->get_ssl_flag() ? " SSL " : " ")
                        << "connection on port " << get_port());
 
+        // don't handle the connection if the server is being stopped: stop()
+        // may have been too early to close it
+        boost::mutex::scoped_lock server_lock(m_mutex);
+        const bool is_listening = m_is_listening;
+        server_lock.unlock();
+        if (! is_listening) {
+            finish_connection(tcp_conn);
+            return;
+        }
+
         // schedule the acceptance of another new connection
         // (this returns immediately since it schedules it as an event)
-        if (m_is_listening) listen();
+        listen();
         
         // handle the new connection
 #ifdef PION_HAVE_SSL
-- 
2.43.0


From 357f7a6e8cfe98c80798ca3334bd8f9c3ffae788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:13 +0000
Subject: [PATCH 55/74] fix: stopping a server closes sockets that other
 threads use

close() is not safe while another thread starts an operation on the socket
(this crashes inside asio); shut the connections down instead.
---
 include/pion/tcp/connection.hpp | 7 +++++++
 src/tcp_server.cpp              | 3 ++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/pion/tcp/connection.hpp b/include/pion/tcp/connection.hpp
index b4f70a8..034d949 100644
--- a/include/pion/tcp/connection.hpp
+++ b/include/pion/tcp/connection.hpp
@@ -168,6 +168,13 @@ public:
         }
     }
 
+    /// shuts down the tcp socket so that any pending operations complete; unlike
+    /// close(), this may be called while other threads are using the connection
+    inline void shutdown(void) {
+        boost::system::error_code ec;
+        m_ssl_socket.next_layer().shutdown(boost::asio::ip::tcp::socket::shutdown_both, ec);
+    }
+
     /// cancels any asynchronous operations pending on the socket.
     /// there is no good way to do this on windows until vista or later (0x0600)
     /// see http://www.boost.org/doc/libs/1_53_0/doc/html/boost_asio/reference/basic_stream_socket/cancel/overload2.html
diff --git a/src/tcp_server.cpp b/src/tcp_server.cpp
index a1d3b10..42081d6 100644
--- a/src/tcp_server.cpp
+++ b/src/tcp_server.cpp
@@ -128,8 +128,9 @@ void server::stop(bool wait_until_finished)
         
         if (! wait_until_finished) {
             // this terminates any other open connections
+            // (they are closed when they finish; other threads may be using them)
             std::for_each(m_conn_pool.begin(), m_conn_pool.end(),
-                          boost::bind(&connection::close, _1));
+                          boost::bind(&connection::shutdown, _1));
         }
     
         // wait for all pending connections to complete
-- 
2.43.0


From 2d38aa433f558b0fa41a4c04110baa8da23ef6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:13 +0000
Subject: [PATCH 56/74] fix: get_connections() wraps around while a server
 starts

---
 src/tcp_server.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tcp_server.cpp b/src/tcp_server.cpp
index 42081d6..373d27f 100644
--- a/src/tcp_server.cpp
+++ b/src/tcp_server.cpp
@@ -305,7 +305,8 @@ std::size_t server::prune_connections(void)
 std::size_t server::get_connections(void) const
 {
     boost::mutex::scoped_lock server_lock(m_mutex);
-    return (m_is_listening ? (m_conn_pool.size() - 1) : m_conn_pool.size());
+    // (the pool includes a connection that waits to be accepted, once listen() has been called)
+    return (m_is_listening && ! m_conn_pool.empty() ? (m_conn_pool.size() - 1) : m_conn_pool.size());
 }
 
 }   // end namespace tcp
-- 
2.43.0


From c22c0d7f07b35e3879551d8f1675e636d657245c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:03 +0000
Subject: [PATCH 57/74] fix: FileService serves files of directories whose
 names start like its own

---
 services/FileService.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index 342bc87..d5e3809 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -28,6 +28,22 @@ namespace pion {        // begin namespace pion
 namespace plugins {     // begin namespace plugins
 
 
+/// returns true if the (normalized) path is inside of the (normalized) directory
+static bool is_inside_directory(const boost::filesystem::path& dir_path,
+                                const boost::filesystem::path& file_path)
+{
+    boost::filesystem::path::iterator file_itr = file_path.begin();
+    for (boost::filesystem::path::iterator dir_itr = dir_path.begin(); dir_itr != dir_path.end(); ++dir_itr) {
+        if (*dir_itr == ".")
+            continue;   // a trailing slash becomes "." when it is normalized
+        if (file_itr == file_path.end() || *file_itr != *dir_itr)
+            return false;
+        ++file_itr;
+    }
+    return (file_itr == file_path.end() || *file_itr != "..");
+}
+
+
 // static members of FileService
 
 const std::string           FileService::DEFAULT_MIME_TYPE("application/octet-stream");
@@ -148,14 +164,9 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
     }
 
     // make sure that the requested file is within the configured directory
+    // (this does not apply to the file that is configured itself)
     file_path.normalize();
-# if defined(BOOST_FILESYSTEM_VERSION) && BOOST_FILESYSTEM_VERSION >= 3
-    std::string file_string = file_path.string();
-    if (file_string.find(m_directory.string()) != 0) {
-#else
-    std::string file_string = file_path.file_string();
-    if (file_string.find(m_directory.directory_string()) != 0) {
-#endif
+    if (! relative_path.empty() && ! is_inside_directory(m_directory, file_path)) {
         PION_LOG_WARN(m_logger, "Request for file outside of directory ("
                       << get_resource() << "): " << relative_path);
         static const std::string FORBIDDEN_HTML_START =
-- 
2.43.0


From cfccb0fb9f29efba3a42f1d9554d132feea0c037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:03 +0000
Subject: [PATCH 58/74] fix: FileService fails for cached files that were
 removed

---
 services/FileService.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index d5e3809..bed20ac 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -264,7 +264,13 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
                 PION_LOG_DEBUG(m_logger, "Found cache entry for request ("
                                << get_resource() << "): " << relative_path);
 
-                if (m_cache_setting == 0) {
+                if ((m_cache_setting < 2 || cache_itr->second.getLastModified() == 0)
+                    && ! boost::filesystem::exists(cache_itr->second.getFilePath()))
+                {
+                    // the file was removed
+                    response_type = RESPONSE_NOT_FOUND;
+
+                } else if (m_cache_setting == 0) {
                     // cache is disabled
 
                     // copy & re-use file_path and mime_type
-- 
2.43.0


From e53636d4414acec1cca63814be539868c7a74e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:03 +0000
Subject: [PATCH 59/74] fix: FileService serves uninitialized memory after a
 file could not be read

---
 services/FileService.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index bed20ac..ba8ce1e 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -783,15 +783,19 @@ void DiskFile::update(void)
 
 void DiskFile::read(void)
 {
-    // re-allocate storage buffer for the file's content
-    m_file_content.reset(new char[m_file_size]);
+    // allocate storage buffer for the file's content
+    // (don't keep content or timestamps if it cannot be read)
+    boost::shared_array<char> file_content(new char[m_file_size]);
+    const std::time_t last_modified = m_last_modified;
+    m_file_content.reset();
+    m_last_modified = 0;
 
     // open the file for reading
     boost::filesystem::ifstream file_stream;
     file_stream.open(m_file_path, std::ios::in | std::ios::binary);
 
     // read the file into memory
-    if (!file_stream.is_open() || !file_stream.read(m_file_content.get(), m_file_size)) {
+    if (!file_stream.is_open() || !file_stream.read(file_content.get(), m_file_size)) {
 # if defined(BOOST_FILESYSTEM_VERSION) && BOOST_FILESYSTEM_VERSION >= 3
         const std::string file_name = m_file_path.string();
 #else
@@ -799,6 +803,9 @@ void DiskFile::read(void)
 #endif
         BOOST_THROW_EXCEPTION( error::read_file() << error::errinfo_file_name(file_name) );
     }
+
+    m_file_content = file_content;
+    m_last_modified = last_modified;
 }
 
 bool DiskFile::checkUpdated(void)
-- 
2.43.0


From 301c3f4995f4828645e149780c9773cec24e7f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:03 +0000
Subject: [PATCH 60/74] fix: FileService reports success when it cannot write
 to a file

---
 services/FileService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index ba8ce1e..c7bdc5d 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -506,7 +506,7 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
                 boost::filesystem::ofstream file_stream(file_path, mode);
                 file_stream.write(http_request_ptr->get_content(), http_request_ptr->get_content_length());
                 file_stream.close();
-                if (!boost::filesystem::exists(file_path)) {
+                if (!file_stream || !boost::filesystem::exists(file_path)) {
                     static const std::string PUT_FAILED_HTML_START =
                         "<html><head>\n"
                         "<title>500 Server Error</title>\n"
-- 
2.43.0


From 0c0967883e51dd0bcdd59c7ac6915befea8702f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:03 +0000
Subject: [PATCH 61/74] fix: FileService does not finish responses when a file
 cannot be read

---
 services/FileService.cpp | 27 +++++++++++++++++++++++++++
 services/FileService.hpp |  3 +++
 2 files changed, 30 insertions(+)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index c7bdc5d..71e3370 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -899,6 +899,7 @@ void DiskFileSender::send(void)
                 PION_LOG_ERROR(m_logger, "Unable to open file: "
                                << m_disk_file.getFilePath().file_string());
 #endif
+                sendError();
                 return;
             }
         }
@@ -929,6 +930,7 @@ void DiskFileSender::send(void)
                                << m_disk_file.getFilePath().file_string());
 #endif
             }
+            sendError();
             return;
         }
     }
@@ -960,6 +962,31 @@ void DiskFileSender::send(void)
     }
 }
 
+void DiskFileSender::sendError(void)
+{
+    // make sure that the connection will get closed
+    m_writer->get_connection()->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE);
+
+    if (m_bytes_sent > 0) {
+        // it is too late to send another response
+        m_writer->get_connection()->finish();
+    } else {
+        static const std::string READ_FAILED_HTML =
+            "<html><head>\n"
+            "<title>500 Server Error</title>\n"
+            "</head><body>\n"
+            "<h1>Server Error</h1>\n"
+            "<p>The requested file cannot be read.</p>\n"
+            "</body></html>\n";
+        m_writer->get_response().delete_header(http::types::HEADER_LAST_MODIFIED);
+        m_writer->get_response().set_content_type(http::types::CONTENT_TYPE_HTML);
+        m_writer->get_response().set_status_code(http::types::RESPONSE_CODE_SERVER_ERROR);
+        m_writer->get_response().set_status_message(http::types::RESPONSE_MESSAGE_SERVER_ERROR);
+        m_writer->write_no_copy(READ_FAILED_HTML);
+        m_writer->send();
+    }
+}
+
 void DiskFileSender::handle_write(const boost::system::error_code& write_error,
                                  std::size_t /* bytes_written */)
 {
diff --git a/services/FileService.hpp b/services/FileService.hpp
index a93dbfa..42444a5 100644
--- a/services/FileService.hpp
+++ b/services/FileService.hpp
@@ -183,6 +183,9 @@ protected:
                    const pion::tcp::connection_ptr& tcp_conn,
                    unsigned long max_chunk_size);
 
+    /// finishes the response if the file's content cannot be read
+    void sendError(void);
+
     /**
      * handler called after a send operation has completed
      *
-- 
2.43.0


From bf888cb843fb0530c2fa54ebce46b5e0fc91b617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:03 +0000
Subject: [PATCH 62/74] fix: FileService misses updates that happen right after
 a file was cached

---
 services/FileService.cpp | 5 ++++-
 services/FileService.hpp | 9 ++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index 71e3370..45193f7 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -787,6 +787,7 @@ void DiskFile::read(void)
     // (don't keep content or timestamps if it cannot be read)
     boost::shared_array<char> file_content(new char[m_file_size]);
     const std::time_t last_modified = m_last_modified;
+    const std::time_t now = time(NULL);
     m_file_content.reset();
     m_last_modified = 0;
 
@@ -805,6 +806,7 @@ void DiskFile::read(void)
     }
 
     m_file_content = file_content;
+    m_last_read = now;
     m_last_modified = last_modified;
 }
 
@@ -815,7 +817,8 @@ bool DiskFile::checkUpdated(void)
     time_t cur_modified = boost::filesystem::last_write_time( m_file_path );
 
     // check if file has not been updated
-    if (cur_modified == m_last_modified && cur_size == m_file_size)
+    // (another update may have the same timestamp if it was read when it was just modified)
+    if (cur_modified == m_last_modified && cur_size == m_file_size && cur_modified + 1 < m_last_read)
         return false;
 
     // file has been updated
diff --git a/services/FileService.hpp b/services/FileService.hpp
index 42444a5..0872306 100644
--- a/services/FileService.hpp
+++ b/services/FileService.hpp
@@ -38,21 +38,21 @@ class DiskFile {
 public:
     /// default constructor
     DiskFile(void)
-        : m_file_size(0), m_last_modified(0) {}
+        : m_file_size(0), m_last_modified(0), m_last_read(0) {}
 
     /// used to construct new disk file objects
     DiskFile(const boost::filesystem::path& path,
              char *content, unsigned long size,
              std::time_t modified, const std::string& mime)
         : m_file_path(path), m_file_content(content), m_file_size(size),
-        m_last_modified(modified), m_mime_type(mime)
+        m_last_modified(modified), m_last_read(0), m_mime_type(mime)
     {}
 
     /// copy constructor
     DiskFile(const DiskFile& f)
         : m_file_path(f.m_file_path), m_file_content(f.m_file_content),
         m_file_size(f.m_file_size), m_last_modified(f.m_last_modified),
-        m_last_modified_string(f.m_last_modified_string), m_mime_type(f.m_mime_type)
+        m_last_modified_string(f.m_last_modified_string), m_last_read(f.m_last_read), m_mime_type(f.m_mime_type)
     {}
 
     /// updates the file_size and last_modified timestamp to disk
@@ -122,6 +122,9 @@ protected:
     /// timestamp that the cached file was last modified (string format)
     std::string                 m_last_modified_string;
 
+    /// time when the content was read into the cache
+    std::time_t                 m_last_read;
+
     /// mime type for the cached file
     std::string                 m_mime_type;
 };
-- 
2.43.0


From b28730db8d65a8d291841a8685a84bb371bc1690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:11 +0000
Subject: [PATCH 63/74] fix: FileService cannot create files in the current
 directory

If the directory option is ".", the path of a new file has no parent path,
which was taken for a directory that does not exist.
---
 services/FileService.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index 45193f7..15ef32c 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -467,7 +467,8 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
                 } else {
                     // The file doesn't exist yet, so it will be created below, unless the
                     // directory of the requested file also doesn't exist.
-                    if (!boost::filesystem::exists(file_path.branch_path())) {
+                    // (there is none in the path of a file in the current directory)
+                    if (file_path.has_branch_path() && !boost::filesystem::exists(file_path.branch_path())) {
                         static const std::string NOT_FOUND_HTML_START =
                             "<html><head>\n"
                             "<title>404 Not Found</title>\n"
-- 
2.43.0


From 01bdddf8f53f874afaff5f1593fe8db305624afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:51 +0000
Subject: [PATCH 64/74] fix: tcp::stream loses and corrupts data when its
 condition wakes up early

---
 include/pion/tcp/stream.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/pion/tcp/stream.hpp b/include/pion/tcp/stream.hpp
index 606600d..bcb436f 100644
--- a/include/pion/tcp/stream.hpp
+++ b/include/pion/tcp/stream.hpp
@@ -54,7 +54,7 @@ public:
      * @param conn_ptr pointer to the TCP connection to use for reading & writing
      */
     explicit stream_buffer(const tcp::connection_ptr& conn_ptr)
-        : m_conn_ptr(conn_ptr), m_bytes_transferred(0), m_read_buf(m_conn_ptr->get_read_buffer().c_array())
+        : m_conn_ptr(conn_ptr), m_bytes_transferred(0), m_async_pending(false), m_read_buf(m_conn_ptr->get_read_buffer().c_array())
     {
         setup_buffers();
     }
@@ -68,6 +68,7 @@ public:
     explicit stream_buffer(boost::asio::io_service& io_service,
                              const bool ssl_flag = false)
         : m_conn_ptr(new connection(io_service, ssl_flag)),
+        m_async_pending(false),
         m_read_buf(m_conn_ptr->get_read_buffer().c_array())
     {
         setup_buffers();
@@ -82,6 +83,7 @@ public:
     stream_buffer(boost::asio::io_service& io_service,
                     connection::ssl_context_type& ssl_context)
         : m_conn_ptr(new connection(io_service, ssl_context)),
+        m_async_pending(false),
         m_read_buf(m_conn_ptr->get_read_buffer().c_array())
     {
         setup_buffers();
@@ -118,11 +120,12 @@ protected:
         if (bytes_to_send > 0) {
             boost::mutex::scoped_lock async_lock(m_async_mutex);
             m_bytes_transferred = 0;
+            m_async_pending = true;
             m_conn_ptr->async_write(boost::asio::buffer(pbase(), bytes_to_send),
                                     boost::bind(&stream_buffer::operation_finished, this,
                                                 boost::asio::placeholders::error,
                                                 boost::asio::placeholders::bytes_transferred));
-            m_async_done.wait(async_lock);
+            wait_for_operation(async_lock);
             bytes_sent = m_bytes_transferred;
             pbump(-bytes_sent);
             if (m_async_error)
@@ -155,12 +158,13 @@ protected:
         // be cancelled by other threads and will block forever (such as during shutdown)
         boost::mutex::scoped_lock async_lock(m_async_mutex);
         m_bytes_transferred = 0;
+        m_async_pending = true;
         m_conn_ptr->async_read_some(boost::asio::buffer(m_read_buf+PUT_BACK_MAX,
                                                         connection::READ_BUFFER_SIZE-PUT_BACK_MAX),
                                     boost::bind(&stream_buffer::operation_finished, this,
                                                 boost::asio::placeholders::error,
                                                 boost::asio::placeholders::bytes_transferred));
-        m_async_done.wait(async_lock);
+        wait_for_operation(async_lock);
         if (m_async_error)
             return traits_type::eof();
         
@@ -223,12 +227,13 @@ protected:
                 // send it all now rather than buffering
                 boost::mutex::scoped_lock async_lock(m_async_mutex);
                 m_bytes_transferred = 0;
+                m_async_pending = true;
                 m_conn_ptr->async_write(boost::asio::buffer(s+bytes_available,
                                                             n-bytes_available),
                                         boost::bind(&stream_buffer::operation_finished, this,
                                                     boost::asio::placeholders::error,
                                                     boost::asio::placeholders::bytes_transferred));
-                m_async_done.wait(async_lock);
+                wait_for_operation(async_lock);
                 bytes_sent = bytes_available + m_bytes_transferred;
             } else {
                 // the buffer is larger than the remaining data
@@ -283,6 +288,13 @@ protected:
     
 private:
     
+    /// waits until the current asynchronous operation has completed (and not
+    /// only until the condition wakes up, which it may do at any time)
+    inline void wait_for_operation(boost::mutex::scoped_lock& async_lock) {
+        while (m_async_pending)
+            m_async_done.wait(async_lock);
+    }
+    
     /// function called after an asynchronous operation has completed
     inline void operation_finished(const boost::system::error_code& error_code,
                                   std::size_t bytes_transferred)
@@ -290,6 +302,7 @@ private:
         boost::mutex::scoped_lock async_lock(m_async_mutex);
         m_async_error = error_code;
         m_bytes_transferred = bytes_transferred;
+        m_async_pending = false;
         m_async_done.notify_one();
     }
     
@@ -309,6 +322,9 @@ private:
     /// the number of bytes transferred by the last asynchronous operation
     std::size_t                 m_bytes_transferred;
     
+    /// true while an asynchronous operation is in progress
+    bool                        m_async_pending;
+    
     /// pointer to the start of the TCP connection's read buffer
     char_type *                 m_read_buf;
              
-- 
2.43.0


From 383b35860f77131f3a59bcb4e2110ed6c9e76609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:12 +0000
Subject: [PATCH 65/74] fix: tcp::stream hangs or writes past its buffer after
 it could not send

---
 include/pion/tcp/stream.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/pion/tcp/stream.hpp b/include/pion/tcp/stream.hpp
index bcb436f..e402cc9 100644
--- a/include/pion/tcp/stream.hpp
+++ b/include/pion/tcp/stream.hpp
@@ -127,7 +127,11 @@ protected:
                                                 boost::asio::placeholders::bytes_transferred));
             wait_for_operation(async_lock);
             bytes_sent = m_bytes_transferred;
-            pbump(-bytes_sent);
+            // the buffer is empty now: if there was an error, then what has not
+            // been sent cannot be sent anymore (and must not be kept because no
+            // space is left for further characters, and because the destructor
+            // would otherwise try to send it again)
+            setp(m_write_buf, m_write_buf+(WRITE_BUFFER_SIZE-1));
             if (m_async_error)
                 bytes_sent = traits_type::eof();
         }
-- 
2.43.0


From 911c39252bced2322f3ab23ef70727f4a6702f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:12 +0000
Subject: [PATCH 66/74] fix: tcp::stream puts back wrong characters after the
 end of the stream

---
 include/pion/tcp/stream.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/pion/tcp/stream.hpp b/include/pion/tcp/stream.hpp
index e402cc9..48243b6 100644
--- a/include/pion/tcp/stream.hpp
+++ b/include/pion/tcp/stream.hpp
@@ -157,6 +157,11 @@ protected:
         if (put_back_num > 0)
             memmove(m_read_buf+(PUT_BACK_MAX-put_back_num), gptr()-put_back_num, put_back_num);
         
+        // the buffer pointers have to refer to the bytes that were moved even
+        // if no more data can be read
+        setg(m_read_buf+(PUT_BACK_MAX-put_back_num),
+             m_read_buf+PUT_BACK_MAX, m_read_buf+PUT_BACK_MAX);
+        
         // read data from the TCP connection
         // note that this has to be an ansynchronous call; otherwise, it cannot
         // be cancelled by other threads and will block forever (such as during shutdown)
-- 
2.43.0


From 099317d28ccde603891dd2e3c2adcbe4166ce2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:06 +0000
Subject: [PATCH 67/74] fix: an HTTP response of unknown length is complete
 when its read times out

---
 src/http_reader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http_reader.cpp b/src/http_reader.cpp
index ad5433f..98b7079 100644
--- a/src/http_reader.cpp
+++ b/src/http_reader.cpp
@@ -141,7 +141,8 @@ void reader::handle_read_error(const boost::system::error_code& read_error)
     m_tcp_conn->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE);   // make sure it will get closed
 
     // check if this is just a message with unknown content length
-    if (! check_premature_eof(get_message())) {
+    // (it is not complete if reading was aborted, e.g. because of a timeout)
+    if (read_error != boost::asio::error::operation_aborted && ! check_premature_eof(get_message())) {
         boost::system::error_code ec;   // clear error code
         finished_reading(ec);
         return;
-- 
2.43.0


From 8625b0031056a4ee707569149056edd575ea7bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:38 +0000
Subject: [PATCH 68/74] fix: the last line of a service configuration is
 ignored if it does not end with a newline

---
 src/http_plugin_server.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/http_plugin_server.cpp b/src/http_plugin_server.cpp
index be729b0..9b2e9f4 100644
--- a/src/http_plugin_server.cpp
+++ b/src/http_plugin_server.cpp
@@ -76,7 +76,10 @@ void plugin_server::load_service_config(const std::string& config_name)
     std::string option_value_string;
     int c = config_stream.get();    // read the first character
     
-    while (config_stream) {
+    while (config_stream || parse_state != PARSE_NEWLINE) {
+        // the end of the file ends the last line
+        if (! config_stream)
+            c = '\n';
         switch(parse_state) {
         case PARSE_NEWLINE:
             // parsing command portion (or beginning of line)
-- 
2.43.0


From 76a1377f70e29b22db0aac81c4e1bc7f99b6fa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:38 +0000
Subject: [PATCH 69/74] fix: loading a service configuration without
 authentication removes the server's authentication

---
 src/http_plugin_server.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/http_plugin_server.cpp b/src/http_plugin_server.cpp
index 9b2e9f4..7489203 100644
--- a/src/http_plugin_server.cpp
+++ b/src/http_plugin_server.cpp
@@ -238,7 +238,9 @@ void plugin_server::load_service_config(const std::string& config_name)
     }
     
     // update authentication configuration for the server
-    set_authentication(my_auth_ptr);
+    // (keep it if the file does not define any)
+    if (my_auth_ptr)
+        set_authentication(my_auth_ptr);
 }
 
 }   // end namespace http
-- 
2.43.0


From 237dc71ac4a5299119b9bcf77aaf54b67fbe472e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:38 +0000
Subject: [PATCH 70/74] fix: a second auth command drops the restrictions and
 users defined before it

---
 src/http_plugin_server.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http_plugin_server.cpp b/src/http_plugin_server.cpp
index 7489203..8159bcc 100644
--- a/src/http_plugin_server.cpp
+++ b/src/http_plugin_server.cpp
@@ -172,6 +172,9 @@ void plugin_server::load_service_config(const std::string& config_name)
                     }
                 } else if (command_string == "auth") {
                     // finished auth command
+                    if (my_auth_ptr)
+                        // Authentication type can be defined only once
+                        BOOST_THROW_EXCEPTION( error::bad_config() << error::errinfo_file_name(config_name) );
                     user_manager_ptr user_mgr(new user_manager);
                     if (value_string == "basic"){
                         my_auth_ptr.reset(new http::basic_auth(user_mgr));
-- 
2.43.0


From 5e3a87236d3f9441290ca418787c01d14311793b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:15 +0000
Subject: [PATCH 71/74] fix: a service whose resource ends with two slashes is
 bound to another resource than it was told

---
 src/http_plugin_server.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http_plugin_server.cpp b/src/http_plugin_server.cpp
index 8159bcc..e56d4ca 100644
--- a/src/http_plugin_server.cpp
+++ b/src/http_plugin_server.cpp
@@ -28,7 +28,7 @@ void plugin_server::add_service(const std::string& resource, http::plugin_servic
     const std::string clean_resource(strip_trailing_slash(resource));
     service_ptr->set_resource(clean_resource);
     m_services.add(clean_resource, service_ptr);
-    http::server::add_resource(clean_resource, boost::ref(*service_ptr));
+    http::server::add_resource(resource, boost::ref(*service_ptr));
     PION_LOG_INFO(m_logger, "Loaded static web service for resource (" << clean_resource << ")");
 }
 
@@ -37,7 +37,7 @@ void plugin_server::load_service(const std::string& resource, const std::string&
     const std::string clean_resource(strip_trailing_slash(resource));
     http::plugin_service *service_ptr;
     service_ptr = m_services.load(clean_resource, service_name);
-    http::server::add_resource(clean_resource, boost::ref(*service_ptr));
+    http::server::add_resource(resource, boost::ref(*service_ptr));
     service_ptr->set_resource(clean_resource);
     PION_LOG_INFO(m_logger, "Loaded web service plug-in for resource (" << clean_resource << "): " << service_name);
 }
-- 
2.43.0


From 0a75f91adfd1a3fb8fc23c4d79174f46fbf569fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:18 +0000
Subject: [PATCH 72/74] fix: the cookie service puts text of the request into
 its page as markup

---
 services/CookieService.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/services/CookieService.cpp b/services/CookieService.cpp
index 7f8327a..a07ed09 100644
--- a/services/CookieService.cpp
+++ b/services/CookieService.cpp
@@ -43,7 +43,7 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
             } else {
                 writer->get_response().set_cookie(cookie_name, cookie_value);
                 writer << "\n<p>[Added cookie "
-                    << cookie_name << '=' << cookie_value << "]</p>\n\n";
+                    << algorithm::xml_encode(cookie_name) << '=' << algorithm::xml_encode(cookie_value) << "]</p>\n\n";
             }
         } else if (http_request_ptr->get_query("action") == "delete") {
             const std::string cookie_name(http_request_ptr->get_query("cookie_name"));
@@ -51,7 +51,7 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
                 writer << "\n<p>[Error: You must specify a name to delete a cookie]</p>\n\n";
             } else {
                 writer->get_response().delete_cookie(cookie_name);
-                writer << "\n<p>[Deleted cookie " << cookie_name << "]</p>\n\n";
+                writer << "\n<p>[Deleted cookie " << algorithm::xml_encode(cookie_name) << "]</p>\n\n";
             }
         } else {
             writer << "\n<p>[Error: Unrecognized action]</p>\n\n";
@@ -67,7 +67,7 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
              header_iterator != http_request_ptr->get_headers().end()
              && header_iterator != header_pair.second; ++header_iterator)
         {
-            writer << "<li>Cookie: " << header_iterator->second << "\n";
+            writer << "<li>Cookie: " << algorithm::xml_encode(header_iterator->second) << "\n";
         }
         writer << "</ul>\n\n";
     } else {
@@ -75,15 +75,16 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
     }
     
     // display existing cookies
+    const std::string resource(algorithm::xml_encode(http_request_ptr->get_resource()));
     ihash_multimap& cookie_params = http_request_ptr->get_cookies();
     if (! cookie_params.empty()) {
         writer << "\n<h2>Cookie Variables</h2>\n<ul>\n";
         for (ihash_multimap::const_iterator i = cookie_params.begin();
              i != cookie_params.end(); ++i)
         {
-            writer << "<li>" << i->first << ": " << i->second
-                << " <a href=\"" << http_request_ptr->get_resource()
-                << "?action=delete&cookie_name=" << i->first
+            writer << "<li>" << algorithm::xml_encode(i->first) << ": " << algorithm::xml_encode(i->second)
+                << " <a href=\"" << resource
+                << "?action=delete&cookie_name=" << algorithm::url_encode(i->first)
                 << "\">[Delete]</a>\n";
         }
         writer << "</ul>\n\n";
@@ -93,7 +94,7 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
 
     // display form to add a cookie
     writer << "\n<h2>Add Cookie</h2>\n"
-        "<p><form action=\"" << http_request_ptr->get_resource() << "\" method=\"POST\">\n"
+        "<p><form action=\"" << resource << "\" method=\"POST\">\n"
         "Name: <input type=\"text\" name=\"cookie_name\"><br />\n"
         "Value: <input type=\"text\" name=\"cookie_value\"><br />\n"
         "<input type=\"submit\" name=\"action\" value=\"Add Cookie\"></p>\n"
-- 
2.43.0


From d6ba5e793b9b83e8bfbb51c01250708415efed6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:18 +0000
Subject: [PATCH 73/74] fix: a cookie name or value of a request becomes header
 lines or another cookie in the cookie service

---
 services/CookieService.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/services/CookieService.cpp b/services/CookieService.cpp
index a07ed09..72663ce 100644
--- a/services/CookieService.cpp
+++ b/services/CookieService.cpp
@@ -17,6 +17,16 @@ namespace pion {        // begin namespace pion
 namespace plugins {     // begin namespace plugins
 
     
+// returns true if a name (or value) may be sent within a Set-Cookie header
+static bool is_valid_cookie(const std::string& str, const char *bad_chars)
+{
+    for (std::string::const_iterator i = str.begin(); i != str.end(); ++i) {
+        if ((static_cast<unsigned char>(*i) < 32) || *i == 127)
+            return false;
+    }
+    return str.find_first_of(bad_chars) == std::string::npos;
+}
+
 // CookieService member functions
 
 /// handles requests for CookieService
@@ -40,6 +50,8 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
             const std::string cookie_value(http_request_ptr->get_query("cookie_value"));
             if (cookie_name.empty() || cookie_value.empty()) {
                 writer << "\n<p>[Error: You must specify a name and value to add a cookie]</p>\n\n";
+            } else if (! is_valid_cookie(cookie_name, "=;, \"'") || ! is_valid_cookie(cookie_value, "\"")) {
+                writer << "\n<p>[Error: Invalid cookie name or value]</p>\n\n";
             } else {
                 writer->get_response().set_cookie(cookie_name, cookie_value);
                 writer << "\n<p>[Added cookie "
@@ -49,6 +61,8 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
             const std::string cookie_name(http_request_ptr->get_query("cookie_name"));
             if (cookie_name.empty()) {
                 writer << "\n<p>[Error: You must specify a name to delete a cookie]</p>\n\n";
+            } else if (! is_valid_cookie(cookie_name, "=;, \"'")) {
+                writer << "\n<p>[Error: Invalid cookie name or value]</p>\n\n";
             } else {
                 writer->get_response().delete_cookie(cookie_name);
                 writer << "\n<p>[Deleted cookie " << algorithm::xml_encode(cookie_name) << "]</p>\n\n";
-- 
2.43.0


From c97370146d233a43230ab223500ea9d893a410d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:06 +0000
Subject: [PATCH 74/74] fix: the time of the last clean-up of the session cache
 is read and written by several threads without the lock

---
 src/http_cookie_auth.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http_cookie_auth.cpp b/src/http_cookie_auth.cpp
index 4a8b10e..23e6da1 100644
--- a/src/http_cookie_auth.cpp
+++ b/src/http_cookie_auth.cpp
@@ -264,9 +264,9 @@ void cookie_auth::handle_ok(const http::request_ptr& http_request_ptr,
 
 void cookie_auth::expire_cache(const boost::posix_time::ptime &time_now)
 {
+    boost::mutex::scoped_lock cache_lock(m_cache_mutex);
     if (time_now > m_cache_cleanup_time + boost::posix_time::seconds(CACHE_EXPIRATION)) {
         // expire cache
-        boost::mutex::scoped_lock cache_lock(m_cache_mutex);
         user_cache_type::iterator i;
         user_cache_type::iterator next=m_user_cache.begin();
         while (next!=m_user_cache.end()) {
-- 
2.43.0

