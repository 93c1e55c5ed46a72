From caa924cbdeb2a2f6609bc23432e307c3def53ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:18 +0000
Subject: [PATCH 01/64] fix: base64_decode indexed its table with a negative
 value for bytes above 0x7f

---
 src/algorithm.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algorithm.cpp b/src/algorithm.cpp
index 00ea0b6..15c5904 100644
--- a/src/algorithm.cpp
+++ b/src/algorithm.cpp
@@ -60,12 +60,12 @@ bool algorithm::base64_decode(const std::string &input, std::string &output)
         char base64code2 = 0;   // initialized to 0 to suppress warnings
         char base64code3;
 
-        base64code0 = decoding_data[static_cast<int>(input_ptr[i])];
+        base64code0 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
         if(base64code0==nop)            // non base64 character
             return false;
         if(!(++i<input_length)) // we need at least two input bytes for first byte output
             return false;
-        base64code1 = decoding_data[static_cast<int>(input_ptr[i])];
+        base64code1 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
         if(base64code1==nop)            // non base64 character
             return false;
 
@@ -77,7 +77,7 @@ bool algorithm::base64_decode(const std::string &input, std::string &output)
                 BOOST_ASSERT( (base64code1 & 0x0f)==0);
                 return true;
             }
-            base64code2 = decoding_data[static_cast<int>(input_ptr[i])];
+            base64code2 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
             if(base64code2==nop)            // non base64 character
                 return false;
 
@@ -90,7 +90,7 @@ bool algorithm::base64_decode(const std::string &input, std::string &output)
                 BOOST_ASSERT( (base64code2 & 0x03)==0);
                 return true;
             }
-            base64code3 = decoding_data[static_cast<int>(input_ptr[i])];
+            base64code3 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
             if(base64code3==nop)            // non base64 character
                 return false;
 
-- 
2.43.0


From e1c02d043af4fc4bfe3ccbad108dfaad2fa4df97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:31 +0000
Subject: [PATCH 02/64] fix: url_decode decoded malformed escapes such as %1g,
 %-1 and % 1

---
 src/algorithm.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/algorithm.cpp b/src/algorithm.cpp
index 15c5904..e3ad7a9 100644
--- a/src/algorithm.cpp
+++ b/src/algorithm.cpp
@@ -7,6 +7,7 @@
 // See http://www.boost.org/LICENSE_1_0.txt
 //
 
+#include <cctype>
 #include <cmath>
 #include <cstdlib>
 #include <cstdio>
@@ -170,9 +171,14 @@ std::string algorithm::url_decode(const std::string& str)
                 decode_buf[1] = str[++pos];
                 decode_buf[2] = '\0';
 
-                char decoded_char = static_cast<char>( strtol(decode_buf, 0, 16) );
+                // both characters must be hex digits; strtol alone would also accept
+                // signs, leading whitespace and a single leading digit
+                char decoded_char = '\0';
+                if (isxdigit(static_cast<unsigned char>(decode_buf[0]))
+                    && isxdigit(static_cast<unsigned char>(decode_buf[1])))
+                    decoded_char = static_cast<char>( strtol(decode_buf, 0, 16) );
 
-                // decoded_char will be '\0' if strtol can't parse decode_buf as hex
+                // decoded_char will be '\0' if decode_buf is not a hex number
                 // (or if decode_buf == "00", which is also not valid).
                 // In this case, recover from error by not decoding.
                 if (decoded_char == '\0') {
-- 
2.43.0


From 542b54d7b5daf35ae1e69a88cadbe23f8f6512fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:31 +0000
Subject: [PATCH 03/64] fix: xml_encode passed overlong UTF-8, surrogates and
 U+FFFE/U+FFFF through

---
 src/algorithm.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/algorithm.cpp b/src/algorithm.cpp
index e3ad7a9..0d5cde6 100644
--- a/src/algorithm.cpp
+++ b/src/algorithm.cpp
@@ -282,9 +282,9 @@ std::string algorithm::xml_encode(const std::string& str)
                 result += UTF8_REPLACEMENT_CHAR;
             }
         } else if (*ptr >= 0xE0 && *ptr <= 0xEF) {
-            // three-byte sequence
-            if (*(ptr+1) >= 0x80 && *(ptr+1) <= 0xBF
-                && *(ptr+2) >= 0x80 && *(ptr+2) <= 0xBF) {
+            // three-byte sequence (no overlong forms, surrogates, U+FFFE or U+FFFF)
+            if (*(ptr+1) >= (*ptr == 0xE0 ? 0xA0 : 0x80) && *(ptr+1) <= (*ptr == 0xED ? 0x9F : 0xBF)
+                && *(ptr+2) >= 0x80 && *(ptr+2) <= (*ptr == 0xEF && *(ptr+1) == 0xBF ? 0xBD : 0xBF)) {
                 result += *ptr;
                 result += *(++ptr);
                 result += *(++ptr);
@@ -293,8 +293,8 @@ std::string algorithm::xml_encode(const std::string& str)
                 result += UTF8_REPLACEMENT_CHAR;
             }
         } else if (*ptr >= 0xF0 && *ptr <= 0xF4) {
-            // four-byte sequence
-            if (*(ptr+1) >= 0x80 && *(ptr+1) <= 0xBF
+            // four-byte sequence (no overlong forms, nothing above U+10FFFF)
+            if (*(ptr+1) >= (*ptr == 0xF0 ? 0x90 : 0x80) && *(ptr+1) <= (*ptr == 0xF4 ? 0x8F : 0xBF)
                 && *(ptr+2) >= 0x80 && *(ptr+2) <= 0xBF
                 && *(ptr+3) >= 0x80 && *(ptr+3) <= 0xBF) {
                 result += *ptr;
-- 
2.43.0


From 3cd23839bd3e6310da06f328d35ba6da69d16d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:37 +0000
Subject: [PATCH 04/64] fix: request line ending after the URI and a space was
 rejected instead of read as HTTP/0.9

---
 src/http_parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 9a796b5..33ff032 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -364,8 +364,9 @@ boost::tribool parser::parse_headers(http::message& http_msg,
             } else if (*m_read_ptr != 'H') {
                 set_error(ec, ERROR_VERSION_CHAR);
                 return false;
+            } else {
+                m_headers_parse_state = PARSE_HTTP_VERSION_T_1;
             }
-            m_headers_parse_state = PARSE_HTTP_VERSION_T_1;
             break;
 
         case PARSE_HTTP_VERSION_T_1:
-- 
2.43.0


From 55e9cb48fce2024ca39e4109e4c44be619b4a7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:37 +0000
Subject: [PATCH 05/64] fix: chunked message larger than the content limit was
 never finished

---
 src/http_parser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 33ff032..001a0e6 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1446,8 +1446,9 @@ boost::tribool parser::parse_chunks(http::message::chunk_cache_t& chunks,
                     m_payload_handler(m_read_ptr, len);
                     m_bytes_read_in_current_chunk += len;
                     if (len > 1) m_read_ptr += (len - 1);
-                } else if (chunks.size() < m_max_content_length) {
-                    chunks.push_back(*m_read_ptr);
+                } else {
+                    if (chunks.size() < m_max_content_length)
+                        chunks.push_back(*m_read_ptr);
                     m_bytes_read_in_current_chunk++;
                 }
             }
-- 
2.43.0


From fee5f40fbd267dfa0a77b91eba450f9234e77146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:37 +0000
Subject: [PATCH 06/64] fix: chunked message with footers ended before its
 footers when a payload handler was set

---
 src/http_parser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 001a0e6..0eea723 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -89,8 +89,9 @@ boost::tribool parser::parse(http::message& http_msg,
                 rc = parse_chunks(http_msg.get_chunk_cache(), ec);
                 total_bytes_parsed += m_bytes_last_read;
                 // check if we have finished parsing all chunks
-                if (rc == true && !m_payload_handler) {
-                    http_msg.concatenate_chunks();
+                if (rc == true) {
+                    if (!m_payload_handler)
+                        http_msg.concatenate_chunks();
                     
                     // Handle footers if present
                     rc = ((m_message_parse_state == PARSE_FOOTERS) ?
-- 
2.43.0


From b8718b5240642afa5643cec3a9c7176c2ddbda9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:37 +0000
Subject: [PATCH 07/64] fix: empty multipart form field gave a negative length

---
 src/http_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 0eea723..eea852f 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1210,7 +1210,7 @@ bool parser::parse_multipart_form_data(ihash_multimap& dict,
                 if (next_ptr) {
                     // don't include CRLF before next boundary
                     const char *temp_ptr = next_ptr - 2;
-                    if (temp_ptr[0] == '\r' && temp_ptr[1] == '\n')
+                    if (temp_ptr >= ptr && temp_ptr[0] == '\r' && temp_ptr[1] == '\n')
                         field_end_ptr = temp_ptr;
                     else field_end_ptr = next_ptr;
                 }
-- 
2.43.0


From b1894e697338932d0d53e4135d027a442cbbcbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:37 +0000
Subject: [PATCH 08/64] fix: missing content crossing the content limit was
 left uninitialised, and not counted with a payload handler

---
 src/http_parser.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index eea852f..3d8297e 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -197,14 +197,13 @@ boost::tribool parser::parse_missing_data(http::message& http_msg,
                 if (m_payload_handler) {
                     for (std::size_t n = 0; n < len; ++n)
                         m_payload_handler(&MISSING_DATA_CHAR, 1);
-                } else if ( (m_bytes_content_read+len) <= m_max_content_length) {
-                    // use dummy content for missing data
-                    for (std::size_t n = 0; n < len; ++n)
-                        http_msg.get_content()[m_bytes_content_read++] = MISSING_DATA_CHAR;
                 } else {
-                    m_bytes_content_read += len;
+                    // use dummy content for missing data
+                    for (std::size_t n = m_bytes_content_read; n < m_bytes_content_read + len && n < m_max_content_length; ++n)
+                        http_msg.get_content()[n] = MISSING_DATA_CHAR;
                 }
 
+                m_bytes_content_read += len;
                 m_bytes_content_remaining -= len;
                 m_bytes_total_read += len;
                 m_bytes_last_read = len;
-- 
2.43.0


From 19a65464894bf43baadbe2fc737c82c702e27aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:37 +0000
Subject: [PATCH 09/64] fix: negative Content-Length wrapped around to a huge
 length

---
 include/pion/http/message.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pion/http/message.hpp b/include/pion/http/message.hpp
index 0df5977..4753867 100644
--- a/include/pion/http/message.hpp
+++ b/include/pion/http/message.hpp
@@ -321,6 +321,9 @@ public:
         } else {
             std::string trimmed_length(i->second);
             boost::algorithm::trim(trimmed_length);
+            // lexical_cast also accepts signs (and wraps negative numbers around)
+            if (! boost::algorithm::all(trimmed_length, boost::algorithm::is_digit()))
+                throw boost::bad_lexical_cast();
             m_content_length = boost::lexical_cast<size_t>(trimmed_length);
         }
     }
-- 
2.43.0


From 708cd374ba62819f66991256af6aeef9f3cd798f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:37 +0000
Subject: [PATCH 10/64] fix: parse_uri wrapped out-of-range ports around and
 kept a stale query

---
 src/http_parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 3d8297e..09d7652 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -857,6 +857,7 @@ bool parser::parse_uri(const std::string& uri, std::string& proto,
     if (server_port_end == std::string::npos) {
         // no path -> use just /
         path = "/";
+        query.clear();
         server_port_end = uri.size();
     }
     
@@ -875,7 +876,10 @@ bool parser::parse_uri(const std::string& uri, std::string& proto,
     // parse the port, if it's not empty
     if(port_pos != std::string::npos) {
         try {
-            port = boost::lexical_cast<int>(t.substr(port_pos+1));
+            const int port_num = boost::lexical_cast<int>(t.substr(port_pos+1));
+            if (port_num < 0 || port_num > 65535)
+                return false;
+            port = static_cast<boost::uint16_t>(port_num);
         } catch (boost::bad_lexical_cast &) {
             return false;
         }
-- 
2.43.0


From 999d8b29817085bad7acb30f21fefa6acd94dbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:37 +0000
Subject: [PATCH 11/64] fix: base64_2binary threw on characters outside the
 base64 alphabet

---
 src/http_parser.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 09d7652..f269c67 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1056,12 +1056,17 @@ bool parser::base64_2binary(char *out_buf, const std::size_t buf_size, std::size
     if (size > buf_size || out_buf == NULL)
         return false;
 
-    char *p = std::copy(
-        base64_2binary(base64.data() + prefix_end_pos),
-        base64_2binary(base64.data() + size),
-        out_buf
-        );
-    *p = '\0';
+    try {
+        char *p = std::copy(
+            base64_2binary(base64.data() + prefix_end_pos),
+            base64_2binary(base64.data() + size),
+            out_buf
+            );
+        *p = '\0';
+    } catch (dataflow_exception &) {
+        // not base64
+        return false;
+    }
     
     return true;
 }
-- 
2.43.0


From 489a459a560a7f47b188c1739d4284ef9cb40158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:37 +0000
Subject: [PATCH 12/64] fix: status codes and version numbers above 65535
 wrapped around

---
 src/http_parser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index f269c67..3909a8e 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -419,7 +419,7 @@ boost::tribool parser::parse_headers(http::message& http_msg,
             // parsing the major version number (not first digit)
             if (*m_read_ptr == '.') {
                 m_headers_parse_state = PARSE_HTTP_VERSION_MINOR_START;
-            } else if (is_digit(*m_read_ptr)) {
+            } else if (is_digit(*m_read_ptr) && http_msg.get_version_major() < 1000) {
                 http_msg.set_version_major( (http_msg.get_version_major() * 10)
                                           + (*m_read_ptr - '0') );
             } else {
@@ -459,7 +459,7 @@ boost::tribool parser::parse_headers(http::message& http_msg,
                     return false;
                 }
                 m_headers_parse_state = PARSE_EXPECTING_CR;
-            } else if (is_digit(*m_read_ptr)) {
+            } else if (is_digit(*m_read_ptr) && http_msg.get_version_minor() < 1000) {
                 http_msg.set_version_minor( (http_msg.get_version_minor() * 10)
                                           + (*m_read_ptr - '0') );
             } else {
@@ -483,7 +483,7 @@ boost::tribool parser::parse_headers(http::message& http_msg,
             if (*m_read_ptr == ' ') {
                 m_status_message.erase();
                 m_headers_parse_state = PARSE_STATUS_MESSAGE;
-            } else if (is_digit(*m_read_ptr)) {
+            } else if (is_digit(*m_read_ptr) && m_status_code < 1000) {
                 m_status_code = ( (m_status_code * 10) + (*m_read_ptr - '0') );
             } else if (*m_read_ptr == '\r') {
                 // recover from status message not sent
-- 
2.43.0


From 5ad75a05ff2e318e94a41fe396eb00140c0536e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:33 +0000
Subject: [PATCH 13/64] fix: SPDY GOAWAY frame took the bytes after it for a
 status code

---
 include/pion/spdy/parser.hpp |  3 ++-
 src/spdy_parser.cpp          | 17 +++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/pion/spdy/parser.hpp b/include/pion/spdy/parser.hpp
index ce38e67..69433a3 100644
--- a/include/pion/spdy/parser.hpp
+++ b/include/pion/spdy/parser.hpp
@@ -199,7 +199,8 @@ protected:
      *
      */
     void parse_spdy_goaway_frame(boost::system::error_code& ec,
-                                 const spdy_control_frame_info& frame);
+                                 const spdy_control_frame_info& frame,
+                                 boost::uint32_t length_available);
     
     /**
      * parses an the WindowUpdate Frame for SPDY
diff --git a/src/spdy_parser.cpp b/src/spdy_parser.cpp
index 172c83c..01c8b6c 100644
--- a/src/spdy_parser.cpp
+++ b/src/spdy_parser.cpp
@@ -176,6 +176,9 @@ boost::tribool parser::parse_spdy_frame(boost::system::error_code& ec,
     
     control_bit = (boost::uint8_t)frame.control_bit;
     
+    // Number of bytes in the packet that follow the frame header
+    const boost::uint32_t length_available = length_packet;
+    
     // There is a possibility that there are more than one SPDY frames in one TCP frame
     if(length_packet > frame.length){
         m_current_data_chunk_ptr = m_read_ptr + frame.length;
@@ -228,7 +231,7 @@ boost::tribool parser::parse_spdy_frame(boost::system::error_code& ec,
             break;
             
         case SPDY_GOAWAY:
-            parse_spdy_goaway_frame(ec, frame);
+            parse_spdy_goaway_frame(ec, frame, length_available);
             http_info.http_type = SPDY_CONTROL;
             break;
             
@@ -523,11 +526,12 @@ void parser::parse_spdy_settings_frame(boost::system::error_code& /* ec */,
 }
 
 void parser::parse_spdy_goaway_frame(boost::system::error_code &ec,
-                                     const spdy_control_frame_info& frame)
+                                     const spdy_control_frame_info& frame,
+                                     boost::uint32_t length_available)
 {
     // First complete the check for size
-    // The length should be 4 always
-    if(frame.length != 4){
+    // The length should be 4 (SPDYv2, no status code) or 8 (SPDYv3)
+    if((frame.length != 4 && frame.length != 8) || frame.length > length_available){
         return;
     }
     
@@ -536,6 +540,11 @@ void parser::parse_spdy_goaway_frame(boost::system::error_code &ec,
     // Ignore the 31 bit stream id
     m_read_ptr += 4;
     
+    if(frame.length == 4){
+        // There is no status code
+        return;
+    }
+    
     // Get the status code
     
     status_code = algorithm::to_uint32(m_read_ptr);
-- 
2.43.0


From 2f30734089e11e997d84813253b113c1078e6e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:33 +0000
Subject: [PATCH 14/64] fix: incomplete SPDY RST_STREAM and header frames were
 read past the packet

---
 include/pion/spdy/parser.hpp |  6 ++++--
 src/spdy_parser.cpp          | 19 ++++++++++++++-----
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/include/pion/spdy/parser.hpp b/include/pion/spdy/parser.hpp
index 69433a3..8768bcf 100644
--- a/include/pion/spdy/parser.hpp
+++ b/include/pion/spdy/parser.hpp
@@ -162,7 +162,8 @@ protected:
                               const decompressor_ptr& decompressor,
                               const spdy_control_frame_info& frame,
                               http_protocol_info& http_headers,
-                              boost::uint32_t current_stream_count);
+                              boost::uint32_t current_stream_count,
+                              boost::uint32_t length_available);
     
     /**
      * parses the data for SPDY
@@ -185,7 +186,8 @@ protected:
      *
      */
     void parse_spdy_rst_stream(boost::system::error_code& ec,
-                               const spdy_control_frame_info& frame);
+                               const spdy_control_frame_info& frame,
+                               boost::uint32_t length_available);
     
     /**
      * parses an the Ping Frame for SPDY
diff --git a/src/spdy_parser.cpp b/src/spdy_parser.cpp
index 01c8b6c..61d2c57 100644
--- a/src/spdy_parser.cpp
+++ b/src/spdy_parser.cpp
@@ -212,11 +212,11 @@ boost::tribool parser::parse_spdy_frame(boost::system::error_code& ec,
         case SPDY_SYN_STREAM:
         case SPDY_SYN_REPLY:
         case SPDY_HEADERS:
-            parse_header_payload(ec, decompressor, frame, http_info, current_stream_count);
+            parse_header_payload(ec, decompressor, frame, http_info, current_stream_count, length_available);
             break;
             
         case SPDY_RST_STREAM:
-            parse_spdy_rst_stream(ec, frame);
+            parse_spdy_rst_stream(ec, frame, length_available);
             http_info.http_type = SPDY_CONTROL;
             break;
             
@@ -352,8 +352,16 @@ void parser::parse_header_payload(boost::system::error_code &ec,
                                   const decompressor_ptr& decompressor,
                                   const spdy_control_frame_info& frame,
                                   http_protocol_info& http_info,
-                                  boost::uint32_t /* current_stream_count */)
+                                  boost::uint32_t /* current_stream_count */,
+                                  boost::uint32_t length_available)
 {
+    // The whole frame has to be there, with at least its fixed fields
+    if (frame.length > length_available || frame.length < (frame.type == SPDY_SYN_STREAM ? 10U : 6U)) {
+        PION_LOG_ERROR(m_logger, "Missing SPDY header data");
+        set_error(ec, ERROR_MISSING_HEADER_DATA);
+        return;
+    }
+    
     boost::uint32_t stream_id = 0;
     boost::uint32_t header_block_length = frame.length;
     
@@ -473,13 +481,14 @@ void parser::parse_spdy_data(boost::system::error_code& /* ec */,
 }
 
 void parser::parse_spdy_rst_stream(boost::system::error_code& /* ec */,
-                                   const spdy_control_frame_info& frame)
+                                   const spdy_control_frame_info& frame,
+                                   boost::uint32_t length_available)
 {
     boost::uint32_t status_code = 0;
     
     // First complete the check for size and flag
     // The flag for RST frame should be 0, The length should be 8
-    if(frame.flags != 0 || frame.length != 8 ){
+    if(frame.flags != 0 || frame.length != 8 || frame.length > length_available){
         return;
     }
 
-- 
2.43.0


From 92f471f042009883f0e74cc2f474547a945480a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:55 +0000
Subject: [PATCH 15/64] fix: SPDY header block was read past its uncompressed
 size

---
 include/pion/spdy/decompressor.hpp |  5 ++++-
 src/spdy_decompressor.cpp          |  5 +++--
 src/spdy_parser.cpp                | 23 ++++++++++++++++++++++-
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/include/pion/spdy/decompressor.hpp b/include/pion/spdy/decompressor.hpp
index eb88a6d..d38a253 100644
--- a/include/pion/spdy/decompressor.hpp
+++ b/include/pion/spdy/decompressor.hpp
@@ -45,12 +45,15 @@ public:
     /**
      * decompresses the http content
      *
+     * @param uncomp_length will be set to the size of the uncompressed string
+     *
      * @return the uncompressed string, or null on failure
      */
     char* decompress(const char *compressed_data_ptr,
                      boost::uint32_t stream_id,
                      const spdy_control_frame_info& frame,
-                     boost::uint32_t header_block_length);
+                     boost::uint32_t header_block_length,
+                     boost::uint32_t& uncomp_length);
 
     
 protected:
diff --git a/src/spdy_decompressor.cpp b/src/spdy_decompressor.cpp
index d1b4152..ffb227c 100644
--- a/src/spdy_decompressor.cpp
+++ b/src/spdy_decompressor.cpp
@@ -89,7 +89,8 @@ decompressor::~decompressor()
 char* decompressor::decompress(const char *compressed_data_ptr,
                                boost::uint32_t stream_id,
                                const spdy_control_frame_info& frame,
-                               boost::uint32_t header_block_length)
+                               boost::uint32_t header_block_length,
+                               boost::uint32_t& uncomp_length)
 {
     /// Get our decompressor.
     z_streamp decomp = NULL;
@@ -113,7 +114,7 @@ char* decompressor::decompress(const char *compressed_data_ptr,
     BOOST_ASSERT(decomp);
     
     // Decompress the data
-    boost::uint32_t uncomp_length = 0;
+    uncomp_length = 0;
     
     // Catch decompression failures.
     if (!spdy_decompress_header(compressed_data_ptr, decomp,
diff --git a/src/spdy_parser.cpp b/src/spdy_parser.cpp
index 61d2c57..cb48911 100644
--- a/src/spdy_parser.cpp
+++ b/src/spdy_parser.cpp
@@ -412,10 +412,12 @@ void parser::parse_header_payload(boost::system::error_code &ec,
     }
     
     // Decompress header block as necessary.
+    boost::uint32_t uncomp_length = 0;
     m_uncompressed_ptr = decompressor->decompress(m_read_ptr,
                                                   stream_id,
                                                   frame,
-                                                  header_block_length);
+                                                  header_block_length,
+                                                  uncomp_length);
     
     if (!m_uncompressed_ptr) {
         set_error(ec, ERROR_DECOMPRESSION);
@@ -428,6 +430,11 @@ void parser::parse_header_payload(boost::system::error_code &ec,
     // and it is 32 bit in SPDYv3
     
     // TBD : Add support for SPDYv3
+    const char * const uncompressed_end_ptr = m_uncompressed_ptr + uncomp_length;
+    if (uncompressed_end_ptr - m_uncompressed_ptr < 2) {
+        set_error(ec, ERROR_MISSING_HEADER_DATA);
+        return;
+    }
     boost::uint16_t num_name_val_pairs = algorithm::to_uint16(m_uncompressed_ptr);
     
     m_uncompressed_ptr += 2;
@@ -439,11 +446,20 @@ void parser::parse_header_payload(boost::system::error_code &ec,
         
         
         // Get the length of the name
+        if (uncompressed_end_ptr - m_uncompressed_ptr < 2) {
+            set_error(ec, ERROR_MISSING_HEADER_DATA);
+            return;
+        }
         boost::uint16_t length_name = algorithm::to_uint16(m_uncompressed_ptr);
         std::string name = "";
         
         m_uncompressed_ptr += 2;
         
+        if (uncompressed_end_ptr - m_uncompressed_ptr < length_name + 2) {
+            set_error(ec, ERROR_MISSING_HEADER_DATA);
+            return;
+        }
+        
         {
             for(boost::uint16_t count = 0; count < length_name; ++count){
                 name.push_back(*(m_uncompressed_ptr+count));
@@ -457,6 +473,11 @@ void parser::parse_header_payload(boost::system::error_code &ec,
         
         m_uncompressed_ptr += 2;
         
+        if (uncompressed_end_ptr - m_uncompressed_ptr < length_value) {
+            set_error(ec, ERROR_MISSING_HEADER_DATA);
+            return;
+        }
+        
         {
             for(boost::uint16_t count = 0; count < length_value; ++count){
                 value.push_back(*(m_uncompressed_ptr+count));
-- 
2.43.0


From 139d5257716e055446a2174d95a292cf6047b716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:48 +0000
Subject: [PATCH 16/64] fix: assigning a message to itself destroyed its
 content

---
 include/pion/http/message.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/pion/http/message.hpp b/include/pion/http/message.hpp
index 4753867..3154a38 100644
--- a/include/pion/http/message.hpp
+++ b/include/pion/http/message.hpp
@@ -521,6 +521,8 @@ protected:
 
         /// assignment operator
         content_buffer_t& operator=(const content_buffer_t& buf) {
+            if (this == &buf)
+                return *this;
             if (buf.size()) {
                 resize(buf.size());
                 memcpy(get(), buf.get(), buf.size());
-- 
2.43.0


From 62e1b4f2fa94fd8af200ce02cd479579ad8698fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:48 +0000
Subject: [PATCH 17/64] fix: "Connection: Close" did not close the connection

---
 include/pion/http/message.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pion/http/message.hpp b/include/pion/http/message.hpp
index 3154a38..419d1aa 100644
--- a/include/pion/http/message.hpp
+++ b/include/pion/http/message.hpp
@@ -17,6 +17,7 @@
 #include <boost/asio.hpp>
 #include <boost/scoped_array.hpp>
 #include <boost/lexical_cast.hpp>
+#include <boost/algorithm/string/predicate.hpp>
 #include <boost/algorithm/string/trim.hpp>
 #include <boost/regex.hpp>
 #include <pion/config.hpp>
@@ -382,7 +383,7 @@ public:
 
     /// returns true if the HTTP connection may be kept alive
     inline bool check_keep_alive(void) const {
-        return (get_header(HEADER_CONNECTION) != "close"
+        return (! boost::algorithm::iequals(get_header(HEADER_CONNECTION), "close")
                 && (get_version_major() > 1
                     || (get_version_major() >= 1 && get_version_minor() >= 1)) );
     }
-- 
2.43.0


From 06aba10a0098a3321260cf5a8a6fae89fba8c908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:48 +0000
Subject: [PATCH 18/64] fix: content received in chunks was sent unchunked
 under "Transfer-Encoding: chunked"

---
 include/pion/http/message.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/pion/http/message.hpp b/include/pion/http/message.hpp
index 419d1aa..ada89a7 100644
--- a/include/pion/http/message.hpp
+++ b/include/pion/http/message.hpp
@@ -582,6 +582,8 @@ protected:
             if (get_chunks_supported())
                 change_header(HEADER_TRANSFER_ENCODING, "chunked");
         } else if (! m_do_not_send_content_length) {
+            // the content is sent as is, even if it has been received in chunks
+            delete_header(HEADER_TRANSFER_ENCODING);
             change_header(HEADER_CONTENT_LENGTH, boost::lexical_cast<std::string>(get_content_length()));
         }
     }
-- 
2.43.0


From abf89a0dde30822385410c6c50a319f23154c59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:48 +0000
Subject: [PATCH 19/64] fix: the first line of a request ignored
 change_resource()

---
 include/pion/http/request.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pion/http/request.hpp b/include/pion/http/request.hpp
index 65b67cd..df0e106 100644
--- a/include/pion/http/request.hpp
+++ b/include/pion/http/request.hpp
@@ -96,7 +96,10 @@ public:
     }
 
     /// changes the resource or uri-stem to be delivered (called as the result of a redirect)
-    inline void change_resource(const std::string& str) { m_resource = str; }
+    inline void change_resource(const std::string& str) {
+        m_resource = str;
+        clear_first_line();
+    }
 
     /// sets the uri-query or query string requested
     inline void set_query_string(const std::string& str) {
-- 
2.43.0


From b955ab14ec2b3aa4e9cb760aa87c1f58b6249e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:26 +0000
Subject: [PATCH 20/64] fix: clearing a writer leaked the binary content
 written

---
 include/pion/http/writer.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/pion/http/writer.hpp b/include/pion/http/writer.hpp
index e245ff3..06865c6 100644
--- a/include/pion/http/writer.hpp
+++ b/include/pion/http/writer.hpp
@@ -307,10 +307,14 @@ private:
     /// used to cache binary data included within the payload content
     class binary_cache_t : public std::vector<std::pair<const char *, size_t> > {
     public:
-        ~binary_cache_t() {
+        ~binary_cache_t() { clear(); }
+        
+        /// releases all of the cached data
+        inline void clear(void) {
             for (iterator i=begin(); i!=end(); ++i) {
                 delete[] i->first;
             }
+            std::vector<std::pair<const char *, size_t> >::clear();
         }
         inline boost::asio::const_buffer add(const void *ptr, const size_t size) {
             char *data_ptr = new char[size];
-- 
2.43.0


From b27628589d7647290b26d97f9813178f9c852dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:30 +0000
Subject: [PATCH 21/64] fix: a single final chunk sent to a client without
 chunk support had no end

---
 include/pion/http/writer.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/pion/http/writer.hpp b/include/pion/http/writer.hpp
index 06865c6..c3aea6c 100644
--- a/include/pion/http/writer.hpp
+++ b/include/pion/http/writer.hpp
@@ -193,12 +193,7 @@ public:
      */
     template <typename SendHandler>
     inline void send_chunk(SendHandler send_handler) {
-        m_sending_chunks = true;
-        if (!supports_chunked_messages()) {
-            // sending data in chunks, but the client does not support chunking;
-            // make sure that the connection will be closed when we are all done
-            m_tcp_conn->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE);
-        }
+        start_sending_chunks();
         // send more data
         send_more_data(false, send_handler);
     }
@@ -216,7 +211,7 @@ public:
      */ 
     template <typename SendHandler>
     inline void send_final_chunk(SendHandler send_handler) {
-        m_sending_chunks = true;
+        start_sending_chunks();
         send_more_data(true, send_handler);
     }
     
@@ -228,7 +223,7 @@ public:
      * reference to the writer object.
      */ 
     inline void send_final_chunk(void) {
-        m_sending_chunks = true;
+        start_sending_chunks();
         send_more_data(true, bind_to_write_handler());
     }
     
@@ -257,6 +252,16 @@ public:
     
 private:
 
+    /// called before the payload content is sent in chunks
+    inline void start_sending_chunks(void) {
+        m_sending_chunks = true;
+        if (!supports_chunked_messages()) {
+            // sending data in chunks, but the client does not support chunking;
+            // make sure that the connection will be closed when we are all done
+            m_tcp_conn->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE);
+        }
+    }
+
     /**
      * sends all of the buffered data to the client
      *
-- 
2.43.0


From c2977735c4772cc1fff7839a6fa114eac8bbf935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:30 +0000
Subject: [PATCH 22/64] fix: content starting with a zero byte was announced
 but not sent

---
 include/pion/http/request_writer.hpp  | 3 +--
 include/pion/http/response_writer.hpp | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/pion/http/request_writer.hpp b/include/pion/http/request_writer.hpp
index a8a06e1..e589355 100644
--- a/include/pion/http/request_writer.hpp
+++ b/include/pion/http/request_writer.hpp
@@ -101,8 +101,7 @@ protected:
         // check if we should initialize the payload content using
         // the request's content buffer
         if (m_http_request->get_content_length() > 0
-            && m_http_request->get_content() != NULL
-            && m_http_request->get_content()[0] != '\0')
+            && m_http_request->get_content() != NULL)
         {
             write_no_copy(m_http_request->get_content(),
                         m_http_request->get_content_length());
diff --git a/include/pion/http/response_writer.hpp b/include/pion/http/response_writer.hpp
index d24af9d..fab370e 100644
--- a/include/pion/http/response_writer.hpp
+++ b/include/pion/http/response_writer.hpp
@@ -94,8 +94,7 @@ protected:
         // check if we should initialize the payload content using
         // the response's content buffer
         if (m_http_response->get_content_length() > 0
-            && m_http_response->get_content() != NULL
-            && m_http_response->get_content()[0] != '\0')
+            && m_http_response->get_content() != NULL)
         {
             write_no_copy(m_http_response->get_content(), m_http_response->get_content_length());
         }
-- 
2.43.0


From 03da26ff879409a07e0ab28a827687808ac8ae16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:19 +0000
Subject: [PATCH 23/64] fix: content was sent in responses to HEAD requests

---
 include/pion/http/response_writer.hpp | 5 +++++
 include/pion/http/writer.hpp          | 3 +++
 src/http_writer.cpp                   | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/include/pion/http/response_writer.hpp b/include/pion/http/response_writer.hpp
index fab370e..c78761e 100644
--- a/include/pion/http/response_writer.hpp
+++ b/include/pion/http/response_writer.hpp
@@ -130,6 +130,11 @@ protected:
                                                sending_chunked_message());
     }   
 
+    /// returns false if the response may not have any payload content (i.e. for HEAD requests)
+    virtual bool is_content_allowed(void) const {
+        return ! m_http_response->is_content_length_implied();
+    }
+
     /// returns a function bound to http::writer::handle_write()
     virtual write_handler_t bind_to_write_handler(void) {
         return boost::bind(&response_writer::handle_write, shared_from_this(),
diff --git a/include/pion/http/writer.hpp b/include/pion/http/writer.hpp
index c3aea6c..f20bb74 100644
--- a/include/pion/http/writer.hpp
+++ b/include/pion/http/writer.hpp
@@ -73,6 +73,9 @@ protected:
      */
     virtual void prepare_buffers_for_send(http::message::write_buffers_t& write_buffers) = 0;
                                       
+    /// returns false if the message may not have any payload content
+    virtual bool is_content_allowed(void) const { return true; }
+
     /// returns a function bound to writer::handle_write()
     virtual write_handler_t bind_to_write_handler(void) = 0;
     
diff --git a/src/http_writer.cpp b/src/http_writer.cpp
index 690b033..513d774 100644
--- a/src/http_writer.cpp
+++ b/src/http_writer.cpp
@@ -30,6 +30,10 @@ void writer::prepare_write_buffers(http::message::write_buffers_t& write_buffers
         m_sent_headers = true;
     }
 
+    // responses to HEAD requests (for example) end with their headers
+    if (! is_content_allowed())
+        return;
+
     // combine I/O write buffers (headers and content) so that everything
     // can be sent together; otherwise, we would have to send headers
     // and content separately, which would not be as efficient
-- 
2.43.0


From 470764a59f33cf0f9317136fe2200605b8799a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:37 +0000
Subject: [PATCH 24/64] fix: the message of a 403 answer was sent as markup

handle_forbidden_request() wrote the error message into the page as it is,
while handle_server_error() escapes it.
---
 src/http_server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http_server.cpp b/src/http_server.cpp
index ccfac53..1f57214 100644
--- a/src/http_server.cpp
+++ b/src/http_server.cpp
@@ -269,7 +269,7 @@ void server::handle_forbidden_request(const http::request_ptr& http_request_ptr,
     writer->write_no_copy(FORBIDDEN_HTML_START);
     writer << algorithm::xml_encode(http_request_ptr->get_resource());
     writer->write_no_copy(FORBIDDEN_HTML_MIDDLE);
-    writer << error_msg;
+    writer << algorithm::xml_encode(error_msg);
     writer->write_no_copy(FORBIDDEN_HTML_FINISH);
     writer->send();
 }
-- 
2.43.0


From 57805bea2f448c3b9d4473ce7efaf8397eec4b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:46 +0000
Subject: [PATCH 25/64] fix: a response without content announced as chunked
 was never complete

---
 include/pion/http/message.hpp  | 3 +++
 include/pion/http/response.hpp | 7 +++++++
 src/http_parser.cpp            | 2 +-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/pion/http/message.hpp b/include/pion/http/message.hpp
index ada89a7..dc87300 100644
--- a/include/pion/http/message.hpp
+++ b/include/pion/http/message.hpp
@@ -166,6 +166,9 @@ public:
     /// should return true if the content length can be implied without headers
     virtual bool is_content_length_implied(void) const = 0;
 
+    /// should return true if the message ends with its headers, whatever they say
+    virtual bool is_content_prohibited(void) const { return false; }
+
     /// returns true if the message is valid
     inline bool is_valid(void) const { return m_is_valid; }
 
diff --git a/include/pion/http/response.hpp b/include/pion/http/response.hpp
index f1d0bcf..a1e24e4 100644
--- a/include/pion/http/response.hpp
+++ b/include/pion/http/response.hpp
@@ -86,6 +86,13 @@ public:
                 );
     }
 
+    /// a HEAD, 1xx, 204 or 304 response ends with its headers, even if these
+    /// announce chunks (a 205 response may have a last chunk of size zero)
+    virtual bool is_content_prohibited(void) const {
+        return is_content_length_implied()
+            && (m_status_code != 205 || m_request_method == REQUEST_METHOD_HEAD);
+    }
+
     /**
      * Updates HTTP request information for the response object (use 
      * this if the response cannot be constructed using the request)
diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 3909a8e..351b332 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -760,7 +760,7 @@ boost::tribool parser::finish_header_parsing(http::message& http_msg,
     http_msg.update_transfer_encoding_using_header();
     update_message_with_header_data(http_msg);
 
-    if (http_msg.is_chunked()) {
+    if (http_msg.is_chunked() && ! http_msg.is_content_prohibited()) {
 
         // content is encoded using chunks
         m_message_parse_state = PARSE_CHUNKS;
-- 
2.43.0


From 161b9efeb1da49a713a4c13475c4d42532835b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:46 +0000
Subject: [PATCH 26/64] fix: a connection kept alive was handled with the
 server locked

---
 src/tcp_server.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tcp_server.cpp b/src/tcp_server.cpp
index 483b629..1dc5686 100644
--- a/src/tcp_server.cpp
+++ b/src/tcp_server.cpp
@@ -250,6 +250,8 @@ void server::finish_connection(const tcp::connection_ptr& tcp_conn)
     if (m_is_listening && tcp_conn->get_keep_alive()) {
         
         // keep the connection alive
+        // (unlock first: the handler may use the server, or finish right away)
+        server_lock.unlock();
         handle_connection(tcp_conn);
 
     } else {
-- 
2.43.0


From 7b5f04aef5ad9a227219e5094d2a69a8c587a780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:46 +0000
Subject: [PATCH 27/64] fix: redirects were read while they could be added

---
 src/http_server.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http_server.cpp b/src/http_server.cpp
index 1f57214..65255cd 100644
--- a/src/http_server.cpp
+++ b/src/http_server.cpp
@@ -67,10 +67,12 @@ void server::handle_request(const http::request_ptr& http_request_ptr,
     std::string resource_requested(strip_trailing_slash(http_request_ptr->get_resource()));
 
     // apply any redirection
+    boost::mutex::scoped_lock redirect_lock(m_resource_mutex);
     redirect_map_t::const_iterator it = m_redirects.find(resource_requested);
     unsigned int num_redirects = 0;
     while (it != m_redirects.end()) {
         if (++num_redirects > MAX_REDIRECTS) {
+            redirect_lock.unlock();
             PION_LOG_ERROR(m_logger, "Maximum number of redirects (server::MAX_REDIRECTS) exceeded for requested resource: " << http_request_ptr->get_original_resource());
             m_server_error_handler(http_request_ptr, tcp_conn, "Maximum number of redirects (server::MAX_REDIRECTS) exceeded for requested resource");
             return;
@@ -79,6 +81,7 @@ void server::handle_request(const http::request_ptr& http_request_ptr,
         http_request_ptr->change_resource(resource_requested);
         it = m_redirects.find(resource_requested);
     }
+    redirect_lock.unlock();
 
     // if authentication activated, check current request
     if (m_auth_ptr) {
-- 
2.43.0


From 79763d58d16f785e581adb1308a317e4f599af21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:46 +0000
Subject: [PATCH 28/64] fix: a server that could not bind its port could never
 be started again

---
 src/tcp_server.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tcp_server.cpp b/src/tcp_server.cpp
index 1dc5686..6f87196 100644
--- a/src/tcp_server.cpp
+++ b/src/tcp_server.cpp
@@ -96,6 +96,9 @@ void server::start(void)
             m_tcp_acceptor.listen();
         } catch (std::exception& e) {
             PION_LOG_ERROR(m_logger, "Unable to bind to port " << get_port() << ": " << e.what());
+            // do not keep the acceptor open: it could never be started again
+            boost::system::error_code ec;
+            m_tcp_acceptor.close(ec);
             throw;
         }
 
-- 
2.43.0


From 726b58f1eafae4badd4af5cc7251c67964515cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:20 +0000
Subject: [PATCH 29/64] fix: user identifiers above 32767 were not restored
 when releasing administrative rights

---
 include/pion/admin_rights.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pion/admin_rights.hpp b/include/pion/admin_rights.hpp
index 52a7260..eefe62d 100644
--- a/include/pion/admin_rights.hpp
+++ b/include/pion/admin_rights.hpp
@@ -72,7 +72,7 @@ private:
     boost::unique_lock<boost::mutex>    m_lock;
 
     /// saved user identifier before upgrading to administrator
-    boost::int16_t                      m_user_id;
+    long                                m_user_id;
 
     /// true if the class currently holds administrative rights
     bool                                m_has_rights;
-- 
2.43.0


From 5f883be2b2252bd4c765ab9ea91f2027a553eb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:48 +0000
Subject: [PATCH 30/64] fix: users and groups with an empty password field were
 given the wrong identifier

---
 src/admin_rights.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/admin_rights.cpp b/src/admin_rights.cpp
index 5d28618..48d2916 100644
--- a/src/admin_rights.cpp
+++ b/src/admin_rights.cpp
@@ -132,7 +132,7 @@ long admin_rights::find_system_id(const std::string& name,
 
     // find id in system file
     typedef boost::tokenizer<boost::char_separator<char> > Tok;
-    boost::char_separator<char> sep(":");
+    boost::char_separator<char> sep(":", "", boost::keep_empty_tokens);  // the password may be empty
     std::string line;
     boost::int32_t system_id = -1;
 
-- 
2.43.0


From 5634feaa051af946bfed9b72d3d8ab31c1fe4c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:48 +0000
Subject: [PATCH 31/64] fix: a scheduler that was shut down and started again
 was busy all the time

---
 include/pion/scheduler.hpp |  5 +++++
 src/scheduler.cpp          | 15 +++++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/pion/scheduler.hpp b/include/pion/scheduler.hpp
index bc2369b..842f2b4 100644
--- a/include/pion/scheduler.hpp
+++ b/include/pion/scheduler.hpp
@@ -97,6 +97,11 @@ public:
      */
     void keep_running(boost::asio::io_service& my_service,
                      boost::asio::deadline_timer& my_timer);
+
+    /// called when the timer used by keep_running() expires or is cancelled
+    void handle_keep_running(boost::asio::io_service& my_service,
+                     boost::asio::deadline_timer& my_timer,
+                     const boost::system::error_code& ec);
     
     /**
      * puts the current thread to sleep for a specific period of time
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index ee35f84..8e7222c 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -80,11 +80,22 @@ void scheduler::keep_running(boost::asio::io_service& my_service,
     if (m_is_running) {
         // schedule this again to make sure the service doesn't complete
         my_timer.expires_from_now(boost::posix_time::seconds(KEEP_RUNNING_TIMER_SECONDS));
-        my_timer.async_wait(boost::bind(&scheduler::keep_running, this,
-                                        boost::ref(my_service), boost::ref(my_timer)));
+        my_timer.async_wait(boost::bind(&scheduler::handle_keep_running, this,
+                                        boost::ref(my_service), boost::ref(my_timer),
+                                        boost::asio::placeholders::error));
     }
 }
 
+void scheduler::handle_keep_running(boost::asio::io_service& my_service,
+                                boost::asio::deadline_timer& my_timer,
+                                const boost::system::error_code& ec)
+{
+    // a timer that was cancelled has already been scheduled again (this happens
+    // after a restart); doing so once more would only cancel that one
+    if (! ec)
+        keep_running(my_service, my_timer);
+}
+
 void scheduler::add_active_user(void)
 {
     if (!m_is_running) startup();
-- 
2.43.0


From 0b398d54e00e84d6559a7cd8ca69f4731cfa5959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:48 +0000
Subject: [PATCH 32/64] fix: a user could be added to a scheduler while it shut
 down, which then did not run

---
 src/scheduler.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 8e7222c..7f178c9 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -98,9 +98,18 @@ void scheduler::handle_keep_running(boost::asio::io_service& my_service,
 
 void scheduler::add_active_user(void)
 {
-    if (!m_is_running) startup();
+    // register first, so that shutdown() can not complete in between
     boost::mutex::scoped_lock scheduler_lock(m_mutex);
     ++m_active_users;
+    if (!m_is_running) {
+        scheduler_lock.unlock();
+        try {
+            startup();
+        } catch (...) {
+            remove_active_user();
+            throw;
+        }
+    }
 }
 
 void scheduler::remove_active_user(void)
-- 
2.43.0


From f662f1c4afcf9dbe661f09e2b960eada520ae433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:19 +0000
Subject: [PATCH 33/64] fix: refuse malformed password hashes without changing
 the user

---
 include/pion/user.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/pion/user.hpp b/include/pion/user.hpp
index 761b4de..eb97ea1 100644
--- a/include/pion/user.hpp
+++ b/include/pion/user.hpp
@@ -112,14 +112,19 @@ public:
 #ifdef PION_HAVE_SSL
     /// sets encrypted password credentials for given user
     virtual void set_password_hash(const std::string& password_hash) {
-        // update password string representation
+        password_hash_type_t hash_type;
         if (password_hash.size() == SHA256_DIGEST_LENGTH * 2) {
-            m_password_hash_type = SHA_256;
+            hash_type = SHA_256;
         } else if (password_hash.size() == SHA_DIGEST_LENGTH * 2) {
-            m_password_hash_type = SHA_1;
+            hash_type = SHA_1;
         } else {
             BOOST_THROW_EXCEPTION( error::bad_password_hash() );
         }
+        if (password_hash.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos)
+            BOOST_THROW_EXCEPTION( error::bad_password_hash() );
+
+        // update password string representation
+        m_password_hash_type = hash_type;
         m_password = password_hash;
 
         // convert string from hex to binary value
-- 
2.43.0


From e8f3aa1621d2aa3b2de483117791f7f11c49bac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:19 +0000
Subject: [PATCH 34/64] fix: cached basic credentials are verified again after
 the cache period, and not used for removed users

---
 src/http_basic_auth.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/http_basic_auth.cpp b/src/http_basic_auth.cpp
index cb26648..050098c 100644
--- a/src/http_basic_auth.cpp
+++ b/src/http_basic_auth.cpp
@@ -65,10 +65,17 @@ bool basic_auth::handle_request(const http::request_ptr& http_request_ptr, const
             user_cache_type::iterator user_cache_ptr=m_user_cache.find(credentials);
             if (user_cache_ptr!=m_user_cache.end()) {
                 // we found the credentials in our cache...
-                // we can approve authorization now!
-                http_request_ptr->set_user(user_cache_ptr->second.second);
-                user_cache_ptr->second.first = time_now;
-                return true;
+                // they are good until they have to be verified again,
+                // unless the user has been removed since
+                const user_ptr cached_user(user_cache_ptr->second.second);
+                if (time_now <= user_cache_ptr->second.first + boost::posix_time::seconds(CACHE_EXPIRATION)
+                    && m_user_manager->get_user(cached_user->get_username()) == cached_user)
+                {
+                    // we can approve authorization now!
+                    http_request_ptr->set_user(cached_user);
+                    return true;
+                }
+                m_user_cache.erase(user_cache_ptr);
             }
     
             std::string username;
-- 
2.43.0


From 6b57a82e80bf5181052ed925079491b38f8f4a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:19 +0000
Subject: [PATCH 35/64] fix: sessions end after the cache period without use,
 and with the removal of their user

---
 src/http_cookie_auth.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/http_cookie_auth.cpp b/src/http_cookie_auth.cpp
index 06f3b38..24fb5d2 100644
--- a/src/http_cookie_auth.cpp
+++ b/src/http_cookie_auth.cpp
@@ -77,11 +77,18 @@ bool cookie_auth::handle_request(const http::request_ptr& http_request_ptr, cons
         user_cache_type::iterator user_cache_itr=m_user_cache.find(auth_cookie);
         if (user_cache_itr != m_user_cache.end()) {
             // we find those credential in our cache...
-            // we can approve authorization now!
-            http_request_ptr->set_user(user_cache_itr->second.second);
-            // and update cache timeout
-            user_cache_itr->second.first = time_now;
-            return true;
+            // make sure that the session has not expired and that the user still exists
+            const user_ptr cached_user(user_cache_itr->second.second);
+            if (time_now <= user_cache_itr->second.first + boost::posix_time::seconds(CACHE_EXPIRATION)
+                && m_user_manager->get_user(cached_user->get_username()))
+            {
+                // we can approve authorization now!
+                http_request_ptr->set_user(cached_user);
+                // and update cache timeout
+                user_cache_itr->second.first = time_now;
+                return true;
+            }
+            m_user_cache.erase(user_cache_itr);
         }
     }
 
-- 
2.43.0


From 08c1e8fb4c92754cb2a6c139adf336e440421127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:19 +0000
Subject: [PATCH 36/64] fix: a login or logout redirect cannot add headers to
 the response

---
 src/http_cookie_auth.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/http_cookie_auth.cpp b/src/http_cookie_auth.cpp
index 24fb5d2..97a601a 100644
--- a/src/http_cookie_auth.cpp
+++ b/src/http_cookie_auth.cpp
@@ -119,6 +119,13 @@ bool cookie_auth::process_login(const http::request_ptr& http_request_ptr, const
     }
 
     std::string redirect_url = http_request_ptr->get_query("url");
+    // never let the client add headers to the response
+    for (std::string::const_iterator c = redirect_url.begin(); c != redirect_url.end(); ++c) {
+        if (static_cast<unsigned char>(*c) < 32 || *c == 127) {
+            redirect_url.clear();
+            break;
+        }
+    }
     std::string new_cookie;
     bool delete_cookie = false;
 
-- 
2.43.0


From 23fb06b2fee4156c45367ae61cf1dd59dc98273c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:38 +0000
Subject: [PATCH 37/64] fix: session and credential caches and the session key
 generator were used by several threads at once without a lock

---
 src/http_basic_auth.cpp  | 3 ++-
 src/http_cookie_auth.cpp | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/http_basic_auth.cpp b/src/http_basic_auth.cpp
index 050098c..4e8ea5d 100644
--- a/src/http_basic_auth.cpp
+++ b/src/http_basic_auth.cpp
@@ -39,9 +39,9 @@ bool basic_auth::handle_request(const http::request_ptr& http_request_ptr, const
     }
     
     boost::posix_time::ptime time_now(boost::posix_time::second_clock::universal_time());
+    boost::mutex::scoped_lock cleanup_lock(m_cache_mutex);
     if (time_now > m_cache_cleanup_time + boost::posix_time::seconds(CACHE_EXPIRATION)) {
         // expire cache
-        boost::mutex::scoped_lock cache_lock(m_cache_mutex);
         user_cache_type::iterator i;
         user_cache_type::iterator next=m_user_cache.begin();
         while (next!=m_user_cache.end()) {
@@ -54,6 +54,7 @@ bool basic_auth::handle_request(const http::request_ptr& http_request_ptr, const
         }
         m_cache_cleanup_time = time_now;
     }
+    cleanup_lock.unlock();
     
     // if we are here, we need to check if access authorized...
     std::string authorization = http_request_ptr->get_header(http::types::HEADER_AUTHORIZATION);
diff --git a/src/http_cookie_auth.cpp b/src/http_cookie_auth.cpp
index 97a601a..f404195 100644
--- a/src/http_cookie_auth.cpp
+++ b/src/http_cookie_auth.cpp
@@ -146,6 +146,8 @@ bool cookie_auth::process_login(const http::request_ptr& http_request_ptr, const
         // create random cookie
         std::string rand_binary;
         rand_binary.reserve(RANDOM_COOKIE_BYTES);
+        // the random number generator is shared as well
+        boost::mutex::scoped_lock cache_lock(m_cache_mutex);
         for (unsigned int i=0; i<RANDOM_COOKIE_BYTES ; i++) {
             rand_binary += static_cast<unsigned char>(m_random_die());
         }
@@ -153,7 +155,6 @@ bool cookie_auth::process_login(const http::request_ptr& http_request_ptr, const
 
         // add new session to cache
         boost::posix_time::ptime time_now(boost::posix_time::second_clock::universal_time());
-        boost::mutex::scoped_lock cache_lock(m_cache_mutex);
         m_user_cache.insert(std::make_pair(new_cookie,std::make_pair(time_now,user)));
     } else {
         // process logout sequence
@@ -274,9 +275,9 @@ void cookie_auth::handle_ok(const http::request_ptr& http_request_ptr,
 
 void cookie_auth::expire_cache(const boost::posix_time::ptime &time_now)
 {
+    boost::mutex::scoped_lock cache_lock(m_cache_mutex);
     if (time_now > m_cache_cleanup_time + boost::posix_time::seconds(CACHE_EXPIRATION)) {
         // expire cache
-        boost::mutex::scoped_lock cache_lock(m_cache_mutex);
         user_cache_type::iterator i;
         user_cache_type::iterator next=m_user_cache.begin();
         while (next!=m_user_cache.end()) {
-- 
2.43.0


From 69d084d15419aaf7c1547e075887bac07a7a03b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:38 +0000
Subject: [PATCH 38/64] fix: the number of connections was wrong while a server
 was being started

---
 src/tcp_server.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tcp_server.cpp b/src/tcp_server.cpp
index 6f87196..045cd57 100644
--- a/src/tcp_server.cpp
+++ b/src/tcp_server.cpp
@@ -294,7 +294,8 @@ std::size_t server::prune_connections(void)
 std::size_t server::get_connections(void) const
 {
     boost::mutex::scoped_lock server_lock(m_mutex);
-    return (m_is_listening ? (m_conn_pool.size() - 1) : m_conn_pool.size());
+    // the pool includes the next connection to be accepted (unless it is just being created)
+    return (m_is_listening && !m_conn_pool.empty() ? (m_conn_pool.size() - 1) : m_conn_pool.size());
 }
 
 }   // end namespace tcp
-- 
2.43.0


From 9e5329c84e32f11714da0a482a09f54617616280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:48 +0000
Subject: [PATCH 39/64] fix: requests could reach files outside of the
 directory served (../www2 for www, anything above . or ..), and none inside
 when it was given with a slash at its end

---
 services/FileService.cpp | 34 +++++++++++++++++++++++++++-------
 services/FileService.hpp |  8 ++++++++
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index 342bc87..00a9935 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -149,13 +149,7 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
 
     // make sure that the requested file is within the configured directory
     file_path.normalize();
-# if defined(BOOST_FILESYSTEM_VERSION) && BOOST_FILESYSTEM_VERSION >= 3
-    std::string file_string = file_path.string();
-    if (file_string.find(m_directory.string()) != 0) {
-#else
-    std::string file_string = file_path.file_string();
-    if (file_string.find(m_directory.directory_string()) != 0) {
-#endif
+    if (! isWithinDirectory(file_path)) {
         PION_LOG_WARN(m_logger, "Request for file outside of directory ("
                       << get_resource() << "): " << relative_path);
         static const std::string FORBIDDEN_HTML_START =
@@ -565,6 +559,32 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
     }
 }
 
+bool FileService::isWithinDirectory(const boost::filesystem::path& file_path) const
+{
+    if (m_directory.empty())
+        return true;    // only the file option is used
+
+    // the path must start with the names of the directory (not just with the same text)
+    boost::filesystem::path::iterator file_itr = file_path.begin();
+    for (boost::filesystem::path::iterator dir_itr = m_directory.begin();
+         dir_itr != m_directory.end(); ++dir_itr)
+    {
+        if (*dir_itr == ".")
+            continue;   // "." is not kept when the file's path is normalized
+        if (file_itr == file_path.end() || *file_itr != *dir_itr)
+            return false;
+        ++file_itr;
+    }
+
+    // and must not leave it again
+    for (; file_itr != file_path.end(); ++file_itr) {
+        if (*file_itr == "..")
+            return false;
+    }
+
+    return true;
+}
+
 void FileService::sendNotFoundResponse(const http::request_ptr& http_request_ptr,
                                        const tcp::connection_ptr& tcp_conn)
 {
diff --git a/services/FileService.hpp b/services/FileService.hpp
index a93dbfa..4bfea14 100644
--- a/services/FileService.hpp
+++ b/services/FileService.hpp
@@ -308,6 +308,14 @@ protected:
      */
     static std::string findMIMEType(const std::string& file_name);
 
+    /**
+     * checks if a file is within the configured directory
+     *
+     * @param file_path normalized path to the file
+     * @return bool true if the file is within the directory (or if there is none)
+     */
+    bool isWithinDirectory(const boost::filesystem::path& file_path) const;
+
     void sendNotFoundResponse(const pion::http::request_ptr& http_request_ptr,
                               const pion::tcp::connection_ptr& tcp_conn);
 
-- 
2.43.0


From c241a9cb4397d1bb7d8a090e320764f0dd85e559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:48 +0000
Subject: [PATCH 40/64] fix: the answer to a HEAD request for a file announced
 a length of zero

---
 services/FileService.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index 00a9935..0383105 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -386,6 +386,9 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
             writer->get_response().add_header(http::types::HEADER_LAST_MODIFIED,
                                             response_file.getLastModifiedString());
 
+            // announce the length of the file (it is not sent)
+            writer->get_response().set_content_length(response_file.getFileSize());
+
             switch(response_type) {
                 case RESPONSE_UNDEFINED:
                 case RESPONSE_NOT_FOUND:
-- 
2.43.0


From 05d8024dd9c6b29fba27318bd3fdabd66b544b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:53 +0000
Subject: [PATCH 41/64] fix: a PUT or POST that could not be written was
 reported as done

---
 services/FileService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index 0383105..227a336 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -486,7 +486,7 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
                 boost::filesystem::ofstream file_stream(file_path, mode);
                 file_stream.write(http_request_ptr->get_content(), http_request_ptr->get_content_length());
                 file_stream.close();
-                if (!boost::filesystem::exists(file_path)) {
+                if (!file_stream || !boost::filesystem::exists(file_path)) {
                     static const std::string PUT_FAILED_HTML_START =
                         "<html><head>\n"
                         "<title>500 Server Error</title>\n"
-- 
2.43.0


From 1aade8990737bb3667ceacde28e1ce49814271e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:23 +0000
Subject: [PATCH 42/64] fix: after a file in the cache could not be read, the
 next request for it was answered with uninitialized memory

---
 services/FileService.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index 227a336..72b7c40 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -789,15 +789,18 @@ void DiskFile::update(void)
 
 void DiskFile::read(void)
 {
-    // re-allocate storage buffer for the file's content
-    m_file_content.reset(new char[m_file_size]);
+    // allocate a storage buffer for the file's content
+    boost::shared_array<char> file_content(new char[m_file_size]);
 
     // open the file for reading
     boost::filesystem::ifstream file_stream;
     file_stream.open(m_file_path, std::ios::in | std::ios::binary);
 
     // read the file into memory
-    if (!file_stream.is_open() || !file_stream.read(m_file_content.get(), m_file_size)) {
+    if (!file_stream.is_open() || !file_stream.read(file_content.get(), m_file_size)) {
+        // forget about the file, so that it is read before it is used again
+        resetFileContent();
+        m_last_modified = 0;
 # if defined(BOOST_FILESYSTEM_VERSION) && BOOST_FILESYSTEM_VERSION >= 3
         const std::string file_name = m_file_path.string();
 #else
@@ -805,6 +808,7 @@ void DiskFile::read(void)
 #endif
         BOOST_THROW_EXCEPTION( error::read_file() << error::errinfo_file_name(file_name) );
     }
+    m_file_content = file_content;
 }
 
 bool DiskFile::checkUpdated(void)
-- 
2.43.0


From 6e3ed0543aa61d2dd42f999db53fc0ddcf0e97d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:32 +0000
Subject: [PATCH 43/64] fix: a request for a file that could not be read was
 never answered, and its connection never finished

---
 services/FileService.cpp | 19 +++++++++++++++++++
 services/FileService.hpp |  4 ++++
 2 files changed, 23 insertions(+)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index 72b7c40..ead6936 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -902,6 +902,7 @@ void DiskFileSender::send(void)
                 PION_LOG_ERROR(m_logger, "Unable to open file: "
                                << m_disk_file.getFilePath().file_string());
 #endif
+                handleReadError();
                 return;
             }
         }
@@ -932,6 +933,7 @@ void DiskFileSender::send(void)
                                << m_disk_file.getFilePath().file_string());
 #endif
             }
+            handleReadError();
             return;
         }
     }
@@ -963,6 +965,23 @@ void DiskFileSender::send(void)
     }
 }
 
+void DiskFileSender::handleReadError(void)
+{
+    if (m_bytes_sent == 0) {
+        // nothing was sent yet -> let the server send an error response
+# if defined(BOOST_FILESYSTEM_VERSION) && BOOST_FILESYSTEM_VERSION >= 3
+        const std::string file_name = m_disk_file.getFilePath().string();
+#else
+        const std::string file_name = m_disk_file.getFilePath().file_string();
+#endif
+        BOOST_THROW_EXCEPTION( error::read_file() << error::errinfo_file_name(file_name) );
+    }
+
+    // part of the file was sent already -> all we can do is to close the connection
+    m_writer->get_connection()->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE);
+    m_writer->get_connection()->finish();
+}
+
 void DiskFileSender::handle_write(const boost::system::error_code& write_error,
                                  std::size_t /* bytes_written */)
 {
diff --git a/services/FileService.hpp b/services/FileService.hpp
index 4bfea14..b165cec 100644
--- a/services/FileService.hpp
+++ b/services/FileService.hpp
@@ -192,6 +192,10 @@ protected:
     void handle_write(const boost::system::error_code& write_error,
                      std::size_t bytes_written);
 
+    /// handles files that cannot be read: throws if no part of the file was
+    /// sent yet, and closes the connection otherwise
+    void handleReadError(void);
+
 
     /// primary logging interface used by this class
     logger                              m_logger;
-- 
2.43.0


From dad88d179862eb188b7658946c4dd90905e885bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:34 +0000
Subject: [PATCH 44/64] fix: after a PUT or POST of the same size within a
 second, the file's previous content was still served from the cache

---
 services/FileService.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index ead6936..49fcc62 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -486,6 +486,15 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
                 boost::filesystem::ofstream file_stream(file_path, mode);
                 file_stream.write(http_request_ptr->get_content(), http_request_ptr->get_content_length());
                 file_stream.close();
+                if (m_cache_setting == 1) {
+                    // read the file again for the next request (its size and time may
+                    // be the same as before)
+                    boost::mutex::scoped_lock cache_lock(m_cache_mutex);
+                    CacheMap::iterator cache_itr = m_cache_map.find(relative_path);
+                    if (cache_itr != m_cache_map.end())
+                        cache_itr->second = DiskFile(cache_itr->second.getFilePath(), NULL, 0, 0,
+                                                     cache_itr->second.getMimeType());
+                }
                 if (!file_stream || !boost::filesystem::exists(file_path)) {
                     static const std::string PUT_FAILED_HTML_START =
                         "<html><head>\n"
-- 
2.43.0


From a92f32d4a7f0b621ec5249cb02666896d872c8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:40 +0000
Subject: [PATCH 45/64] fix: opening a plug-in that was open already blocked
 forever when the name was known

---
 src/plugin.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/plugin.cpp b/src/plugin.cpp
index ab18041..276527e 100644
--- a/src/plugin.cpp
+++ b/src/plugin.cpp
@@ -85,17 +85,21 @@ void plugin::reset_plugin_directories(void)
 void plugin::open(const std::string& plugin_name)
 {
     // check first if name matches an existing plugin name
+    data_type *plugin_data = NULL;
     {
         config_type& cfg = get_plugin_config();
         boost::mutex::scoped_lock plugin_lock(cfg.m_plugin_mutex);
         map_type::iterator itr = cfg.m_plugin_map.find(plugin_name);
         if (itr != cfg.m_plugin_map.end()) {
-            release_data();  // make sure we're not already pointing to something
-            m_plugin_data = itr->second;
-            ++ m_plugin_data->m_references;
-            return;
+            plugin_data = itr->second;
+            ++ plugin_data->m_references;
         }
     }
+    if (plugin_data != NULL) {
+        release_data();  // make sure we're not already pointing to something
+        m_plugin_data = plugin_data;
+        return;
+    }
     
     // nope, look for shared library file
     std::string plugin_file;
-- 
2.43.0


From 06357ca89eeac8375fa8803ae706abc4c063d9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:40 +0000
Subject: [PATCH 46/64] fix: a plug-in pointer assigned to itself was closed

---
 src/plugin.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plugin.cpp b/src/plugin.cpp
index 276527e..ab12214 100644
--- a/src/plugin.cpp
+++ b/src/plugin.cpp
@@ -171,6 +171,8 @@ void plugin::release_data(void)
 
 void plugin::grab_data(const plugin& p)
 {
+    if (this == &p)
+        return;
     release_data();  // make sure we're not already pointing to something
     config_type& cfg = get_plugin_config();
     boost::mutex::scoped_lock plugin_lock(cfg.m_plugin_mutex);
-- 
2.43.0


From 245c0eab822aeba86df2649fd0245c3f86613e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:40 +0000
Subject: [PATCH 47/64] fix: the plug-in for a resource was not found if others
 with longer names came between them

---
 include/pion/plugin_manager.hpp | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/include/pion/plugin_manager.hpp b/include/pion/plugin_manager.hpp
index 80ee545..5528285 100644
--- a/include/pion/plugin_manager.hpp
+++ b/include/pion/plugin_manager.hpp
@@ -308,19 +308,9 @@ inline PluginType *plugin_manager<PluginType>::find(const std::string& resource)
     while (i != m_plugin_map.begin()) {
         --i;
         
-        // keep checking while the first part of the strings match
-        if (resource.compare(0, i->first.size(), i->first) != 0) {
-            // the first part no longer matches
-            if (i != m_plugin_map.begin()) {
-                // continue to next plug-in in list if its size is < this one
-                typename pion::plugin_manager<PluginType>::map_type::iterator j=i;
-                --j;
-                if (j->first.size() < i->first.size())
-                    continue;
-            }
-            // otherwise we've reached the end; stop looking for a match
-            break;
-        }
+        // continue to the next plug-in in the list if the first part does not match
+        if (resource.compare(0, i->first.size(), i->first) != 0)
+            continue;
         
         // only if the resource matches the plug-in's identifier
         // or if resource is followed first with a '/' character
-- 
2.43.0


From cd34c69fdc4715168b4c361f2f1a24b0571784d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:15 +0000
Subject: [PATCH 48/64] fix: the last line of a service configuration was
 ignored if no newline followed it

---
 src/http_plugin_server.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/http_plugin_server.cpp b/src/http_plugin_server.cpp
index be729b0..e247f50 100644
--- a/src/http_plugin_server.cpp
+++ b/src/http_plugin_server.cpp
@@ -75,8 +75,14 @@ void plugin_server::load_service_config(const std::string& config_name)
     std::string option_name_string;
     std::string option_value_string;
     int c = config_stream.get();    // read the first character
+    bool at_end = false;
     
-    while (config_stream) {
+    while (config_stream || ! at_end) {
+        if (! config_stream) {
+            // the end of the file also finishes its last line
+            c = '\n';
+            at_end = true;
+        }
         switch(parse_state) {
         case PARSE_NEWLINE:
             // parsing command portion (or beginning of line)
-- 
2.43.0


From d98377bffc328904bdec742bf03aba8571d4bcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:17 +0000
Subject: [PATCH 49/64] fix: loading plug-ins looked at the map of plug-ins
 without a lock, and lost one of two with the same identifier

---
 include/pion/plugin_manager.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/pion/plugin_manager.hpp b/include/pion/plugin_manager.hpp
index 5528285..3684e95 100644
--- a/include/pion/plugin_manager.hpp
+++ b/include/pion/plugin_manager.hpp
@@ -239,9 +239,12 @@ template <typename PluginType>
 inline PluginType *plugin_manager<PluginType>::load(const std::string& plugin_id,
                                                      const std::string& plugin_type)
 {
-    // search for the plug-in file using the configured paths
-    if (m_plugin_map.find(plugin_id) != m_plugin_map.end())
-        BOOST_THROW_EXCEPTION( error::duplicate_plugin() << error::errinfo_plugin_name(plugin_id) );
+    // make sure that the identifier is not being used already
+    {
+        boost::mutex::scoped_lock plugins_lock(m_plugin_mutex);
+        if (m_plugin_map.find(plugin_id) != m_plugin_map.end())
+            BOOST_THROW_EXCEPTION( error::duplicate_plugin() << error::errinfo_plugin_name(plugin_id) );
+    }
     
     // open up the plug-in's shared object library
     plugin_ptr<PluginType> plugin_ptr;
@@ -252,8 +255,13 @@ inline PluginType *plugin_manager<PluginType>::load(const std::string& plugin_id
     
     // add the new plug-in object to our map
     boost::mutex::scoped_lock plugins_lock(m_plugin_mutex);
-    m_plugin_map.insert(std::make_pair(plugin_id,
-                                       std::make_pair(plugin_object_ptr, plugin_ptr)));
+    if (! m_plugin_map.insert(std::make_pair(plugin_id,
+                                             std::make_pair(plugin_object_ptr, plugin_ptr))).second)
+    {
+        // another thread was faster
+        plugin_ptr.destroy(plugin_object_ptr);
+        BOOST_THROW_EXCEPTION( error::duplicate_plugin() << error::errinfo_plugin_name(plugin_id) );
+    }
 
     return plugin_object_ptr;
 }
-- 
2.43.0


From c456500ad3450927565edac03c7b3240c6acb535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:15 +0000
Subject: [PATCH 50/64] fix: a stream took an early end of its wait for the end
 of the operation

---
 include/pion/tcp/stream.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/pion/tcp/stream.hpp b/include/pion/tcp/stream.hpp
index 606600d..d581db5 100644
--- a/include/pion/tcp/stream.hpp
+++ b/include/pion/tcp/stream.hpp
@@ -118,11 +118,12 @@ protected:
         if (bytes_to_send > 0) {
             boost::mutex::scoped_lock async_lock(m_async_mutex);
             m_bytes_transferred = 0;
+            m_async_finished = false;
             m_conn_ptr->async_write(boost::asio::buffer(pbase(), bytes_to_send),
                                     boost::bind(&stream_buffer::operation_finished, this,
                                                 boost::asio::placeholders::error,
                                                 boost::asio::placeholders::bytes_transferred));
-            m_async_done.wait(async_lock);
+            wait_until_finished(async_lock);
             bytes_sent = m_bytes_transferred;
             pbump(-bytes_sent);
             if (m_async_error)
@@ -155,12 +156,13 @@ protected:
         // be cancelled by other threads and will block forever (such as during shutdown)
         boost::mutex::scoped_lock async_lock(m_async_mutex);
         m_bytes_transferred = 0;
+        m_async_finished = false;
         m_conn_ptr->async_read_some(boost::asio::buffer(m_read_buf+PUT_BACK_MAX,
                                                         connection::READ_BUFFER_SIZE-PUT_BACK_MAX),
                                     boost::bind(&stream_buffer::operation_finished, this,
                                                 boost::asio::placeholders::error,
                                                 boost::asio::placeholders::bytes_transferred));
-        m_async_done.wait(async_lock);
+        wait_until_finished(async_lock);
         if (m_async_error)
             return traits_type::eof();
         
@@ -223,12 +225,13 @@ protected:
                 // send it all now rather than buffering
                 boost::mutex::scoped_lock async_lock(m_async_mutex);
                 m_bytes_transferred = 0;
+                m_async_finished = false;
                 m_conn_ptr->async_write(boost::asio::buffer(s+bytes_available,
                                                             n-bytes_available),
                                         boost::bind(&stream_buffer::operation_finished, this,
                                                     boost::asio::placeholders::error,
                                                     boost::asio::placeholders::bytes_transferred));
-                m_async_done.wait(async_lock);
+                wait_until_finished(async_lock);
                 bytes_sent = bytes_available + m_bytes_transferred;
             } else {
                 // the buffer is larger than the remaining data
@@ -283,6 +286,12 @@ protected:
     
 private:
     
+    /// waits until the asynchronous operation has completed (conditions may wake up earlier)
+    inline void wait_until_finished(boost::mutex::scoped_lock& async_lock) {
+        while (! m_async_finished)
+            m_async_done.wait(async_lock);
+    }
+
     /// function called after an asynchronous operation has completed
     inline void operation_finished(const boost::system::error_code& error_code,
                                   std::size_t bytes_transferred)
@@ -290,6 +299,7 @@ private:
         boost::mutex::scoped_lock async_lock(m_async_mutex);
         m_async_error = error_code;
         m_bytes_transferred = bytes_transferred;
+        m_async_finished = true;
         m_async_done.notify_one();
     }
     
@@ -303,6 +313,9 @@ private:
     /// condition signaled whenever an asynchronous operation has completed
     boost::condition            m_async_done;
     
+    /// true if the last asynchronous operation has completed
+    bool                        m_async_finished;
+
     /// used to keep track of the result from the last asynchronous operation
     boost::system::error_code   m_async_error;
     
-- 
2.43.0


From 14150e0ad4302e5e61edd5041bb8fe730a7c0bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:15 +0000
Subject: [PATCH 51/64] fix: after a write that failed halfway a stream sent
 bytes again and lost others

---
 include/pion/tcp/stream.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/pion/tcp/stream.hpp b/include/pion/tcp/stream.hpp
index d581db5..35e44b9 100644
--- a/include/pion/tcp/stream.hpp
+++ b/include/pion/tcp/stream.hpp
@@ -125,6 +125,8 @@ protected:
                                                 boost::asio::placeholders::bytes_transferred));
             wait_until_finished(async_lock);
             bytes_sent = m_bytes_transferred;
+            // keep what was not sent at the beginning of the buffer
+            memmove(pbase(), pbase()+bytes_sent, bytes_to_send-bytes_sent);
             pbump(-bytes_sent);
             if (m_async_error)
                 bytes_sent = traits_type::eof();
-- 
2.43.0


From a578ca0733e78cadb753a578f94e97324d7c4091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:15 +0000
Subject: [PATCH 52/64] fix: writing to a stream again after a write failed
 overran its buffer

---
 include/pion/tcp/stream.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pion/tcp/stream.hpp b/include/pion/tcp/stream.hpp
index 35e44b9..9ef098d 100644
--- a/include/pion/tcp/stream.hpp
+++ b/include/pion/tcp/stream.hpp
@@ -185,6 +185,9 @@ protected:
      */
     virtual int_type overflow(int_type c) {
         if (! traits_type::eq_int_type(c, traits_type::eof())) {
+            // the extra char is still in use if flushing the buffer failed before
+            if (pptr() > epptr() && flush_output() == traits_type::eof())
+                return traits_type::eof();
             // character is not eof -> add it to the end of the write buffer
             // we can push this to the back of the write buffer because we set
             // the size of the write buffer to 1 less than the actual size using setp()
@@ -205,7 +208,7 @@ protected:
      * @return std::streamsize number of character written
      */
     virtual std::streamsize xsputn(const char_type *s, std::streamsize n) {
-        const std::streamsize bytes_available = std::streamsize(epptr() - pptr());
+        const std::streamsize bytes_available = (pptr() < epptr() ? std::streamsize(epptr() - pptr()) : 0);
         std::streamsize bytes_sent = 0;
         if (bytes_available >= n) {
             // there is enough room in the buffer -> just put it in there
-- 
2.43.0


From ed9103b64a692ec0fac88fe5bf5d12fed4ccce74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:15 +0000
Subject: [PATCH 53/64] fix: wrong bytes were put back into a stream after a
 read failed

---
 include/pion/tcp/stream.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pion/tcp/stream.hpp b/include/pion/tcp/stream.hpp
index 9ef098d..e7c01a9 100644
--- a/include/pion/tcp/stream.hpp
+++ b/include/pion/tcp/stream.hpp
@@ -165,8 +165,11 @@ protected:
                                                 boost::asio::placeholders::error,
                                                 boost::asio::placeholders::bytes_transferred));
         wait_until_finished(async_lock);
-        if (m_async_error)
+        if (m_async_error) {
+            // the bytes that can be put back have been moved
+            setg(m_read_buf+(PUT_BACK_MAX-put_back_num), m_read_buf+PUT_BACK_MAX, m_read_buf+PUT_BACK_MAX);
             return traits_type::eof();
+        }
         
         // reset buffer pointers now that data is available
         setg(m_read_buf+(PUT_BACK_MAX-put_back_num),            //< beginning of putback bytes
-- 
2.43.0


From eb0005a65a3fd4373e283748162796fe893dac19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:29 +0000
Subject: [PATCH 54/64] fix: the cookie service wrote what clients sent into
 its page as HTML

---
 services/CookieService.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/services/CookieService.cpp b/services/CookieService.cpp
index 7f8327a..76163c6 100644
--- a/services/CookieService.cpp
+++ b/services/CookieService.cpp
@@ -26,6 +26,9 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
         "</head>\n<body>\n\n<h1>Cookie Service</h1>\n";
     static const std::string FOOTER_HTML = "\n</body>\n</html>\n";
 
+    // nothing sent by the client may be taken for HTML
+    const std::string resource(algorithm::xml_encode(http_request_ptr->get_resource()));
+
     // Set Content-type for HTML and write the header
     http::response_writer_ptr writer(http::response_writer::create(tcp_conn, *http_request_ptr,
                                                             boost::bind(&tcp::connection::finish, tcp_conn)));
@@ -43,7 +46,8 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
             } else {
                 writer->get_response().set_cookie(cookie_name, cookie_value);
                 writer << "\n<p>[Added cookie "
-                    << cookie_name << '=' << cookie_value << "]</p>\n\n";
+                    << algorithm::xml_encode(cookie_name) << '='
+                    << algorithm::xml_encode(cookie_value) << "]</p>\n\n";
             }
         } else if (http_request_ptr->get_query("action") == "delete") {
             const std::string cookie_name(http_request_ptr->get_query("cookie_name"));
@@ -51,7 +55,7 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
                 writer << "\n<p>[Error: You must specify a name to delete a cookie]</p>\n\n";
             } else {
                 writer->get_response().delete_cookie(cookie_name);
-                writer << "\n<p>[Deleted cookie " << cookie_name << "]</p>\n\n";
+                writer << "\n<p>[Deleted cookie " << algorithm::xml_encode(cookie_name) << "]</p>\n\n";
             }
         } else {
             writer << "\n<p>[Error: Unrecognized action]</p>\n\n";
@@ -67,7 +71,7 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
              header_iterator != http_request_ptr->get_headers().end()
              && header_iterator != header_pair.second; ++header_iterator)
         {
-            writer << "<li>Cookie: " << header_iterator->second << "\n";
+            writer << "<li>Cookie: " << algorithm::xml_encode(header_iterator->second) << "\n";
         }
         writer << "</ul>\n\n";
     } else {
@@ -81,9 +85,9 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
         for (ihash_multimap::const_iterator i = cookie_params.begin();
              i != cookie_params.end(); ++i)
         {
-            writer << "<li>" << i->first << ": " << i->second
-                << " <a href=\"" << http_request_ptr->get_resource()
-                << "?action=delete&cookie_name=" << i->first
+            writer << "<li>" << algorithm::xml_encode(i->first) << ": " << algorithm::xml_encode(i->second)
+                << " <a href=\"" << resource
+                << "?action=delete&cookie_name=" << algorithm::xml_encode(algorithm::url_encode(i->first))
                 << "\">[Delete]</a>\n";
         }
         writer << "</ul>\n\n";
@@ -93,7 +97,7 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
 
     // display form to add a cookie
     writer << "\n<h2>Add Cookie</h2>\n"
-        "<p><form action=\"" << http_request_ptr->get_resource() << "\" method=\"POST\">\n"
+        "<p><form action=\"" << resource << "\" method=\"POST\">\n"
         "Name: <input type=\"text\" name=\"cookie_name\"><br />\n"
         "Value: <input type=\"text\" name=\"cookie_value\"><br />\n"
         "<input type=\"submit\" name=\"action\" value=\"Add Cookie\"></p>\n"
-- 
2.43.0


From 9ce6d5c89707d70ab656cf042e7a72c22467e1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 55/64] fix: the cookie service let clients write any header
 into its answers

---
 services/CookieService.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/services/CookieService.cpp b/services/CookieService.cpp
index 76163c6..9f9127b 100644
--- a/services/CookieService.cpp
+++ b/services/CookieService.cpp
@@ -17,6 +17,20 @@ namespace pion {        // begin namespace pion
 namespace plugins {     // begin namespace plugins
 
     
+/// returns true if the name and value can be sent in a Set-Cookie header
+static bool isValidCookie(const std::string& name, const std::string& value)
+{
+    static const std::string SEPARATORS("()<>@,;:\\\"/[]?={}");
+    for (std::string::const_iterator i = name.begin(); i != name.end(); ++i)
+        if (*i <= 0x20 || *i >= 0x7F || SEPARATORS.find(*i) != std::string::npos)
+            return false;
+    for (std::string::const_iterator i = value.begin(); i != value.end(); ++i)
+        if ((*i >= 0 && *i < 0x20) || *i == 0x7F || *i == '"')
+            return false;
+    return true;
+}
+
+
 // CookieService member functions
 
 /// handles requests for CookieService
@@ -43,6 +57,8 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
             const std::string cookie_value(http_request_ptr->get_query("cookie_value"));
             if (cookie_name.empty() || cookie_value.empty()) {
                 writer << "\n<p>[Error: You must specify a name and value to add a cookie]</p>\n\n";
+            } else if (! isValidCookie(cookie_name, cookie_value)) {
+                writer << "\n<p>[Error: Invalid cookie name or value]</p>\n\n";
             } else {
                 writer->get_response().set_cookie(cookie_name, cookie_value);
                 writer << "\n<p>[Added cookie "
@@ -53,6 +69,8 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
             const std::string cookie_name(http_request_ptr->get_query("cookie_name"));
             if (cookie_name.empty()) {
                 writer << "\n<p>[Error: You must specify a name to delete a cookie]</p>\n\n";
+            } else if (! isValidCookie(cookie_name, "")) {
+                writer << "\n<p>[Error: Invalid cookie name]</p>\n\n";
             } else {
                 writer->get_response().delete_cookie(cookie_name);
                 writer << "\n<p>[Deleted cookie " << algorithm::xml_encode(cookie_name) << "]</p>\n\n";
-- 
2.43.0


From 0b2f3894faf3df6d9d9cbd48d7a044ede6f5d68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:32 +0000
Subject: [PATCH 56/64] fix: an answer without length that was cut short by the
 time limit or a reset counted as complete

---
 src/http_reader.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/http_reader.cpp b/src/http_reader.cpp
index ad5433f..d64f5fe 100644
--- a/src/http_reader.cpp
+++ b/src/http_reader.cpp
@@ -141,7 +141,10 @@ void reader::handle_read_error(const boost::system::error_code& read_error)
     m_tcp_conn->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE);   // make sure it will get closed
 
     // check if this is just a message with unknown content length
-    if (! check_premature_eof(get_message())) {
+    // (which ends with the connection, but not with a time limit or a failure)
+    if (read_error != boost::asio::error::operation_aborted
+        && read_error != boost::asio::error::connection_reset
+        && ! check_premature_eof(get_message())) {
         boost::system::error_code ec;   // clear error code
         finished_reading(ec);
         return;
-- 
2.43.0


From 09ae824944ed829685d0464a99e998b5ee3c1861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:32 +0000
Subject: [PATCH 57/64] fix: receive() took content cut short by a connection
 reset for complete

---
 src/http_message.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/http_message.cpp b/src/http_message.cpp
index eabf212..00c7db3 100644
--- a/src/http_message.cpp
+++ b/src/http_message.cpp
@@ -80,8 +80,9 @@ std::size_t message::receive(tcp::connection& tcp_conn,
         // read more bytes from the connection
         last_bytes_read = tcp_conn.read_some(ec);
         if (ec || last_bytes_read == 0) {
-            if (http_parser.check_premature_eof(*this)) {
-                // premature EOF encountered
+            if (ec == boost::asio::error::operation_aborted || ec == boost::asio::error::connection_reset
+                || http_parser.check_premature_eof(*this)) {
+                // premature EOF encountered, or the connection failed
                 if (! ec)
                     ec = make_error_code(boost::system::errc::io_error);
                 return http_parser.get_total_bytes_read();
-- 
2.43.0


From 14852fce86e8631be496ceb4dcc0472f9510eb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:03 +0000
Subject: [PATCH 58/64] fix: a timer that was started again cancelled its
 connection at once, and could not be started after it was cancelled

---
 include/pion/tcp/timer.hpp |  6 +++++-
 src/tcp_timer.cpp          | 11 ++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/pion/tcp/timer.hpp b/include/pion/tcp/timer.hpp
index 53b8e19..f542c11 100644
--- a/include/pion/tcp/timer.hpp
+++ b/include/pion/tcp/timer.hpp
@@ -55,8 +55,9 @@ private:
      * Callback handler for the deadline timer
      *
      * @param ec deadline timer error status code
+     * @param times_started number of times the timer had been started before waiting
      */
-    void timer_callback(const boost::system::error_code& ec);
+    void timer_callback(const boost::system::error_code& ec, const boost::uint32_t times_started);
 
     /// pointer to the TCP connection that is being monitored
     tcp::connection_ptr                     m_conn_ptr;
@@ -72,6 +73,9 @@ private:
 
     /// true if the timer was cancelled (operation completed)
     bool                                    m_was_cancelled;    
+
+    /// number of times the timer has been started
+    boost::uint32_t                         m_times_started;
 };
 
 
diff --git a/src/tcp_timer.cpp b/src/tcp_timer.cpp
index d1234d7..0ab4046 100644
--- a/src/tcp_timer.cpp
+++ b/src/tcp_timer.cpp
@@ -19,7 +19,7 @@ namespace tcp {     // begin namespace tcp
 
 timer::timer(const tcp::connection_ptr& conn_ptr)
     : m_conn_ptr(conn_ptr), m_timer(conn_ptr->get_io_service()),
-    m_timer_active(false), m_was_cancelled(false)
+    m_timer_active(false), m_was_cancelled(false), m_times_started(0)
 {
 }
 
@@ -27,9 +27,11 @@ void timer::start(const boost::uint32_t seconds)
 {
     boost::mutex::scoped_lock timer_lock(m_mutex);
     m_timer_active = true;
+    m_was_cancelled = false;
+    ++m_times_started;
     m_timer.expires_from_now(boost::posix_time::seconds(seconds));
     m_timer.async_wait(boost::bind(&timer::timer_callback,
-        shared_from_this(), _1));
+        shared_from_this(), _1, m_times_started));
 }
 
 void timer::cancel(void)
@@ -40,9 +42,12 @@ void timer::cancel(void)
         m_timer.cancel();
 }
 
-void timer::timer_callback(const boost::system::error_code& /* ec */)
+void timer::timer_callback(const boost::system::error_code& /* ec */,
+    const boost::uint32_t times_started)
 {
     boost::mutex::scoped_lock timer_lock(m_mutex);
+    if (times_started != m_times_started)
+        return; // the timer has been restarted since
     m_timer_active = false;
     if (! m_was_cancelled)
         m_conn_ptr->cancel();
-- 
2.43.0


From bae20adc541b4fe7058308bd53a0f019dba657ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:52 +0000
Subject: [PATCH 59/64] fix: read data synchronously in tcp::connection::read()

The overload that uses the connection's own buffer called async_read() with an
error code for a handler, which does not compile.
---
 include/pion/tcp/connection.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/pion/tcp/connection.hpp b/include/pion/tcp/connection.hpp
index b4f70a8..241353e 100644
--- a/include/pion/tcp/connection.hpp
+++ b/include/pion/tcp/connection.hpp
@@ -515,12 +515,12 @@ public:
     {
 #ifdef PION_HAVE_SSL
         if (get_ssl_flag())
-            return boost::asio::async_read(m_ssl_socket, boost::asio::buffer(m_read_buffer),
-                                           completion_condition, ec);
+            return boost::asio::read(m_ssl_socket, boost::asio::buffer(m_read_buffer),
+                                     completion_condition, ec);
         else
 #endif      
-            return boost::asio::async_read(m_ssl_socket.next_layer(), boost::asio::buffer(m_read_buffer),
-                                           completion_condition, ec);
+            return boost::asio::read(m_ssl_socket.next_layer(), boost::asio::buffer(m_read_buffer),
+                                     completion_condition, ec);
     }
     
     /**
-- 
2.43.0


From 351e157aa24d76dbbd12094faca33c1061119f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:23 +0000
Subject: [PATCH 60/64] fix: a session of a removed user is not revived when a
 user of the same name is added

---
 src/http_cookie_auth.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http_cookie_auth.cpp b/src/http_cookie_auth.cpp
index f404195..8e218b9 100644
--- a/src/http_cookie_auth.cpp
+++ b/src/http_cookie_auth.cpp
@@ -80,7 +80,7 @@ bool cookie_auth::handle_request(const http::request_ptr& http_request_ptr, cons
             // make sure that the session has not expired and that the user still exists
             const user_ptr cached_user(user_cache_itr->second.second);
             if (time_now <= user_cache_itr->second.first + boost::posix_time::seconds(CACHE_EXPIRATION)
-                && m_user_manager->get_user(cached_user->get_username()))
+                && m_user_manager->get_user(cached_user->get_username()) == cached_user)
             {
                 // we can approve authorization now!
                 http_request_ptr->set_user(cached_user);
-- 
2.43.0


From 070b71a339264f2b06a0e526c098012878a9dd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:18 +0000
Subject: [PATCH 61/64] fix: a header value need not be separated from its name
 by a space

RFC 7230 allows any optional blanks (none, spaces or tabs) before a header's
value; a tab or a delimiter such as a quote right after the colon failed the
whole message.
---
 src/http_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 351b332..ad841e7 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -631,7 +631,7 @@ boost::tribool parser::parse_headers(http::message& http_msg,
 
         case PARSE_SPACE_BEFORE_HEADER_VALUE:
             // parsing space character before a header's value
-            if (*m_read_ptr == ' ') {
+            if (*m_read_ptr == ' ' || *m_read_ptr == '\t') {
                 m_headers_parse_state = PARSE_HEADER_VALUE;
             } else if (*m_read_ptr == '\r') {
                 http_msg.add_header(m_header_name, m_header_value);
@@ -639,7 +639,7 @@ boost::tribool parser::parse_headers(http::message& http_msg,
             } else if (*m_read_ptr == '\n') {
                 http_msg.add_header(m_header_name, m_header_value);
                 m_headers_parse_state = PARSE_EXPECTING_CR;
-            } else if (!is_char(*m_read_ptr) || is_control(*m_read_ptr) || is_special(*m_read_ptr)) {
+            } else if (is_control(*m_read_ptr)) {
                 set_error(ec, ERROR_HEADER_CHAR);
                 return false;
             } else {
-- 
2.43.0


From 283e5dcc68a85893636c4d88345491afd1269182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:55 +0000
Subject: [PATCH 62/64] fix: piond and helloserver refuse port numbers above
 65535 instead of listening on another port

---
 utils/helloserver.cpp | 8 ++++++--
 utils/piond.cpp       | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/utils/helloserver.cpp b/utils/helloserver.cpp
index 9946021..5c03b74 100644
--- a/utils/helloserver.cpp
+++ b/utils/helloserver.cpp
@@ -42,8 +42,12 @@ int main (int argc, char *argv[])
     // parse command line: determine port number
     unsigned int port = DEFAULT_PORT;
     if (argc == 2) {
-        port = strtoul(argv[1], 0, 10);
-        if (port == 0) port = DEFAULT_PORT;
+        const unsigned long port_arg = strtoul(argv[1], 0, 10);
+        if (port_arg > 65535) {
+            std::cerr << "usage: helloserver [port]" << std::endl;
+            return 1;
+        }
+        if (port_arg != 0) port = static_cast<unsigned int>(port_arg);
     } else if (argc != 1) {
         std::cerr << "usage: helloserver [port]" << std::endl;
         return 1;
diff --git a/utils/piond.cpp b/utils/piond.cpp
index 7cfddc9..9fdf473 100644
--- a/utils/piond.cpp
+++ b/utils/piond.cpp
@@ -59,8 +59,12 @@ int main (int argc, char *argv[])
             if (argv[argnum][1] == 'p' && argv[argnum][2] == '\0' && argnum+1 < argc) {
                 // set port number
                 ++argnum;
-                cfg_endpoint.port(strtoul(argv[argnum], 0, 10));
-                if (cfg_endpoint.port() == 0) cfg_endpoint.port(DEFAULT_PORT);
+                const unsigned long port = strtoul(argv[argnum], 0, 10);
+                if (port > 65535) {
+                    argument_error();
+                    return 1;
+                }
+                cfg_endpoint.port(static_cast<unsigned short>(port == 0 ? DEFAULT_PORT : port));
             } else if (argv[argnum][1] == 'i' && argv[argnum][2] == '\0' && argnum+1 < argc) {
                 // set ip address
                 cfg_endpoint.address(boost::asio::ip::address::from_string(argv[++argnum]));
-- 
2.43.0


From c7a6f42f1ca8613db7bc93b044bf1efcb025484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:55 +0000
Subject: [PATCH 63/64] fix: piond reports a malformed IP address instead of
 ending with an uncaught exception

---
 utils/piond.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/utils/piond.cpp b/utils/piond.cpp
index 9fdf473..e81f016 100644
--- a/utils/piond.cpp
+++ b/utils/piond.cpp
@@ -67,7 +67,12 @@ int main (int argc, char *argv[])
                 cfg_endpoint.port(static_cast<unsigned short>(port == 0 ? DEFAULT_PORT : port));
             } else if (argv[argnum][1] == 'i' && argv[argnum][2] == '\0' && argnum+1 < argc) {
                 // set ip address
-                cfg_endpoint.address(boost::asio::ip::address::from_string(argv[++argnum]));
+                boost::system::error_code ec;
+                cfg_endpoint.address(boost::asio::ip::address::from_string(argv[++argnum], ec));
+                if (ec) {
+                    argument_error();
+                    return 1;
+                }
             } else if (argv[argnum][1] == 'c' && argv[argnum][2] == '\0' && argnum+1 < argc) {
                 service_config_file = argv[++argnum];
             } else if (argv[argnum][1] == 'd' && argv[argnum][2] == '\0' && argnum+1 < argc) {
-- 
2.43.0


From 90b97751f0ee5b3792e81805f415f3c9156f4a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:55 +0000
Subject: [PATCH 64/64] fix: piond and helloserver report failure when the
 server could not be started

---
 utils/helloserver.cpp | 1 +
 utils/piond.cpp       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/utils/helloserver.cpp b/utils/helloserver.cpp
index 5c03b74..f56dc3d 100644
--- a/utils/helloserver.cpp
+++ b/utils/helloserver.cpp
@@ -72,6 +72,7 @@ int main (int argc, char *argv[])
 
     } catch (std::exception& e) {
         PION_LOG_FATAL(main_log, pion::diagnostic_information(e));
+        return 1;
     }
 
     return 0;
diff --git a/utils/piond.cpp b/utils/piond.cpp
index e81f016..313b217 100644
--- a/utils/piond.cpp
+++ b/utils/piond.cpp
@@ -184,6 +184,7 @@ int main (int argc, char *argv[])
         
     } catch (std::exception& e) {
         PION_LOG_FATAL(main_log, pion::diagnostic_information(e));
+        return 1;
     }
 
     return 0;
-- 
2.43.0

