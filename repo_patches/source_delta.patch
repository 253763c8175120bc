From aadad563d7a0848d24aec02d9266350b8684ecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:29 +0000
Subject: [PATCH 01/22] fix: reject header fields whose index cannot be decoded

The failed std::expected was dereferenced after logging, so a header block
ending inside an index was read as if it held an (indeterminate) index.
---
 lib/hpack/header_block_decoder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/hpack/header_block_decoder.cpp b/lib/hpack/header_block_decoder.cpp
index 58de481..69cc6f1 100644
--- a/lib/hpack/header_block_decoder.cpp
+++ b/lib/hpack/header_block_decoder.cpp
@@ -134,6 +134,7 @@ std::expected<HttpHeader, FrameError> HeaderBlockDecoder::decode_indexed_field(B
     const auto index = IntegerDecoder::decode(reader, 7);
     if (!index.has_value()) {
         spdlog::error("failed to decode indexed header index (not enough bytes)");
+        return std::unexpected(FrameError::ProtocolError);
     }
 
     if (*index < 1) {
@@ -148,6 +149,7 @@ std::expected<HttpHeader, FrameError> HeaderBlockDecoder::decode_literal_field(
     const auto index = IntegerDecoder::decode(reader, idx_prefix_bits);
     if (!index.has_value()) {
         spdlog::error("failed to decode literal field index (not enough bytes)");
+        return std::unexpected(FrameError::ProtocolError);
     }
 
     bool is_new_name = *index == 0;
-- 
2.43.0


From bc35353353aa42b109cb7b511061e14018385e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:29 +0000
Subject: [PATCH 02/22] fix: reject Huffman strings with an EOS code or invalid
 padding

A string ending inside a code, padded with more than 7 bits or containing EOS
was accepted although RFC 7541 section 5.2 requires a decoding error.
---
 lib/hpack/huffman_tree.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/hpack/huffman_tree.cpp b/lib/hpack/huffman_tree.cpp
index 8375752..4763909 100644
--- a/lib/hpack/huffman_tree.cpp
+++ b/lib/hpack/huffman_tree.cpp
@@ -41,8 +41,11 @@ std::expected<std::vector<uint8_t>, HuffmanDecodeError> HuffmanTree::decode(
     BitReader br{data};
     const HuffmanNode* current = root_.get();
     size_t bits_processed = 0;
+    size_t symbol_end = 0;
+    bool only_ones = true;
     while (br.has_more()) {
         if (!br.read_bit()) {
+            only_ones = false;
             current = current->left.get();
         } else {
             current = current->right.get();
@@ -58,15 +61,22 @@ std::expected<std::vector<uint8_t>, HuffmanDecodeError> HuffmanTree::decode(
                 }
                 bits_processed++;
             }
-            return result;
+            break;
         }
 
         if (current->is_terminal()) {
             result.push_back(*current->symbol);
             current = root_.get();
+            symbol_end = bits_processed;
+            only_ones = true;
         }
     }
 
+    // RFC 7541 section 5.2: padding is at most 7 bits, all ones (a longer run is or contains EOS)
+    if (!only_ones || bits_processed - symbol_end > 7) {
+        spdlog::error("invalid Huffman padding: (bit pos = {})", bits_processed);
+        return std::unexpected{HuffmanDecodeError::InvalidCode};
+    }
     return result;
 }
 
-- 
2.43.0


From 95df0a88c83f396b2c0539a2d07d7156a475de6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:29 +0000
Subject: [PATCH 03/22] fix: index the Huffman table with an unsigned octet

char is signed here, so a response header octet >= 0x80 read far outside
HUFFMAN_CODES.
---
 lib/hpack/header_block_encoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hpack/header_block_encoder.cpp b/lib/hpack/header_block_encoder.cpp
index fe0dcfa..bc76312 100644
--- a/lib/hpack/header_block_encoder.cpp
+++ b/lib/hpack/header_block_encoder.cpp
@@ -23,7 +23,7 @@ std::vector<uint8_t> HeaderBlockEncoder::write_length_and_string(const std::stri
         // use huffman coding
         BitWriter bw{};
         for (const char c : str) {
-            auto huffman_code = HUFFMAN_CODES[c];
+            auto huffman_code = HUFFMAN_CODES[static_cast<uint8_t>(c)];
             bw.write_bits(huffman_code.lsb_aligned_code, huffman_code.code_len);
         }
         auto bitstream = bw.finalize();
-- 
2.43.0


From 413931d4ad73df2e837107ed73570b35a2c3fbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:29 +0000
Subject: [PATCH 04/22] fix: encode large header table indices as prefix
 integers

An index that does not fit the 7-bit (or 6-bit) prefix was truncated to one
octet, so e.g. dynamic index 127 was sent as an indexed field with index 127
of which the continuation octet was missing.
---
 lib/hpack/header_block_encoder.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/hpack/header_block_encoder.cpp b/lib/hpack/header_block_encoder.cpp
index bc76312..f072604 100644
--- a/lib/hpack/header_block_encoder.cpp
+++ b/lib/hpack/header_block_encoder.cpp
@@ -13,6 +13,13 @@ namespace ion {
 
 static constexpr size_t MAX_PLAIN_TEXT_STRING_LENGTH = 3;
 
+static void write_prefixed_index(std::vector<uint8_t>& bytes, size_t index, uint8_t prefix_bits,
+                                 uint8_t pattern) {
+    auto encoded_index = IntegerEncoder::encode(static_cast<uint32_t>(index), prefix_bits);
+    encoded_index[0] |= pattern;
+    bytes.insert(bytes.end(), encoded_index.begin(), encoded_index.end());
+}
+
 HeaderBlockEncoder::HeaderBlockEncoder(DynamicTable& dynamic_table)
     : dynamic_table_(dynamic_table) {}
 
@@ -63,14 +70,14 @@ std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& h
             // found static header
             const size_t table_index = std::distance(STATIC_TABLE.begin(), st_it);
             const size_t index = table_index + 1;
-            bytes.push_back(static_cast<uint8_t>(index | 0x80));
+            write_prefixed_index(bytes, index, 7, 0x80);
             continue;
         }
 
         // check dynamic headers too
         if (auto dyn_table_index = dynamic_table_.find(hdr)) {
             const size_t index = STATIC_TABLE.size() + dyn_table_index.value() + 1;
-            bytes.push_back(static_cast<uint8_t>(index | 0x80));
+            write_prefixed_index(bytes, index, 7, 0x80);
             continue;
         }
 
@@ -82,7 +89,7 @@ std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& h
         if (st_name_it != STATIC_TABLE.end()) {
             const size_t table_index = std::distance(STATIC_TABLE.begin(), st_name_it);
             const size_t index = table_index + 1;
-            bytes.push_back(static_cast<uint8_t>(index | 0x40));
+            write_prefixed_index(bytes, index, 6, 0x40);
 
             // encode string
             const auto len_and_str_bytes = write_length_and_string(hdr.value);
@@ -96,7 +103,7 @@ std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& h
         // is dynamic field header name?
         if (auto dyn_table_index = dynamic_table_.find_name(hdr.name)) {
             const size_t index = STATIC_TABLE.size() + dyn_table_index.value() + 1;
-            bytes.push_back(static_cast<uint8_t>(index | 0x40));
+            write_prefixed_index(bytes, index, 6, 0x40);
 
             // encode string
             const auto len_and_str_bytes = write_length_and_string(hdr.value);
-- 
2.43.0


From d9d69227a47e4d2ec05d5b6ec06bfb359fc3dda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:29 +0000
Subject: [PATCH 05/22] fix: limit the encoder table to the 4096 octets every
 peer grants

The encoder kept up to 64 KiB of entries while the peer evicts at 4096 octets,
after which references to entries the peer no longer has were sent.
---
 lib/http2_conn.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/http2_conn.h b/lib/http2_conn.h
index 59f16bf..8f3f092 100644
--- a/lib/http2_conn.h
+++ b/lib/http2_conn.h
@@ -54,7 +54,8 @@ class Http2Connection {
     std::vector<uint8_t> write_buffer_;
     Http2ConnectionState state_ = Http2ConnectionState::AwaitingHandshake;
     DynamicTable decoder_dynamic_table_{};
-    DynamicTable encoder_dynamic_table_{};
+    // the peer grants 4096 octets until it sends SETTINGS_HEADER_TABLE_SIZE, which is not tracked
+    DynamicTable encoder_dynamic_table_{4096};
     HeaderBlockDecoder decoder_{decoder_dynamic_table_};
     HeaderBlockEncoder encoder_{encoder_dynamic_table_};
     std::chrono::steady_clock::time_point last_activity_{std::chrono::steady_clock::now()};
-- 
2.43.0


From d528029a0f705bbb91a5948df593af5985ecf26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:29 +0000
Subject: [PATCH 06/22] fix: do not read past the payload of short frames

A HEADERS frame with PRIORITY and fewer than 5 octets, or a WINDOW_UPDATE or
GOAWAY shorter than its fixed fields, was read beyond its payload.
process_window_update_payload, which had the same fault, had no caller.
---
 lib/http2_conn.cpp         | 15 +++++++++++----
 lib/http2_conn.h           |  1 -
 lib/http2_frame_reader.cpp |  6 ++++++
 lib/http2_frame_reader.h   |  3 +++
 4 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 7ea5cb5..0f3fddf 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -39,10 +39,6 @@ Http2Connection::Http2Connection(std::unique_ptr<Transport> transport, const std
     write_buffer_.reserve(INITIAL_WRITE_BUFFER_SIZE);
 }
 
-Http2WindowUpdate Http2Connection::process_window_update_payload(std::span<const uint8_t> payload) {
-    return Http2WindowUpdate::parse(payload.subspan<0, Http2WindowUpdate::wire_size>());
-}
-
 void Http2Connection::write_frame_header(const Http2FrameHeader& header) {
     std::array<uint8_t, Http2FrameHeader::wire_size> header_bytes{};
     header.serialize(header_bytes);
@@ -253,6 +249,12 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
             spdlog::debug(" - end headers: {}, end stream: {}, length: {}", frame.is_end_headers(),
                           frame.is_end_stream(), frame.length());
 
+            if (frame.priority() && frame.length() < 5) {
+                spdlog::error("HEADERS frame too short for its priority fields");
+                update_state(Http2ConnectionState::ProtocolError);
+                return;
+            }
+
             log_dynamic_tables();
             auto hdrs = decoder_.decode(frame.headers_block());
             if (!hdrs) {
@@ -283,6 +285,11 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
         }
         case FRAME_TYPE_WINDOW_UPDATE: {
             spdlog::debug("received WINDOW_UPDATE frame for stream {}", frame.stream_id());
+            if (frame.length() != Http2WindowUpdate::wire_size) {
+                spdlog::error("invalid WINDOW_UPDATE frame size: {}", frame.length());
+                update_state(Http2ConnectionState::ProtocolError);
+                return;
+            }
             const auto [window_size_increment] = frame.read_window_update();
             spdlog::debug("window size increment = {}", window_size_increment);
             break;
diff --git a/lib/http2_conn.h b/lib/http2_conn.h
index 8f3f092..a29eebb 100644
--- a/lib/http2_conn.h
+++ b/lib/http2_conn.h
@@ -62,7 +62,6 @@ class Http2Connection {
 
     Http2ProcessResult internal_process();
     ReadPrefaceResult read_preface();
-    Http2WindowUpdate process_window_update_payload(std::span<const uint8_t> payload);
     bool try_read_frame();
     void fill_read_buffer();
     void discard_processed_buffer(size_t length);
diff --git a/lib/http2_frame_reader.cpp b/lib/http2_frame_reader.cpp
index 16109d9..67e1096 100644
--- a/lib/http2_frame_reader.cpp
+++ b/lib/http2_frame_reader.cpp
@@ -29,10 +29,16 @@ std::expected<std::vector<Http2Setting>, FrameError> Http2FrameReader::read_sett
 }
 
 Http2WindowUpdate Http2FrameReader::read_window_update() const {
+    if (payload_.size() < Http2WindowUpdate::wire_size) {
+        return {};
+    }
     return Http2WindowUpdate::parse(payload_.subspan<0, Http2WindowUpdate::wire_size>());
 }
 
 Http2GoAwayPayload Http2FrameReader::read_goaway() const {
+    if (payload_.size() < Http2GoAwayPayload::wire_size) {
+        return {};
+    }
     return Http2GoAwayPayload::parse(payload_.subspan<0, Http2GoAwayPayload::wire_size>());
 }
 
diff --git a/lib/http2_frame_reader.h b/lib/http2_frame_reader.h
index 948f9af..c1aec8c 100644
--- a/lib/http2_frame_reader.h
+++ b/lib/http2_frame_reader.h
@@ -60,6 +60,9 @@ class Http2FrameReader {
 
     std::span<const uint8_t> headers_block() const {
         if (priority()) {
+            if (payload_.size() < 5) {
+                return {};
+            }
             return payload_.subspan(5);  // skip exclusive (1), stream dependency (31) & weight (8)
         }
         return payload_;
-- 
2.43.0


From 75f2b509caaa138bb83a87a638c1dfe2a134c6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:29 +0000
Subject: [PATCH 07/22] fix: report partial writes instead of failing on them

A short write on a non-blocking socket was reported as WriteError although its
octets had left, so they were sent a second time; SSL_write returning 0 was
not examined with SSL_get_error.
---
 lib/transports/tcp_transport.cpp | 6 ------
 lib/transports/tls_transport.cpp | 6 +-----
 2 files changed, 1 insertion(+), 11 deletions(-)

diff --git a/lib/transports/tcp_transport.cpp b/lib/transports/tcp_transport.cpp
index f083125..b277c69 100644
--- a/lib/transports/tcp_transport.cpp
+++ b/lib/transports/tcp_transport.cpp
@@ -51,12 +51,6 @@ std::expected<ssize_t, TransportError> TcpTransport::write(std::span<const uint8
         spdlog::error("TCP write error: {}", strerror(errno));
         return std::unexpected(TransportError::WriteError);
     }
-    if (bytes_written != static_cast<ssize_t>(buffer.size())) {
-        spdlog::error("TCP partial write: wrote {} of {} bytes", bytes_written, buffer.size());
-        // For non-blocking sockets, partial writes can happen
-        // TODO: Fix this!
-        return std::unexpected(TransportError::WriteError);
-    }
     spdlog::trace("successfully wrote {} bytes to TCP socket", bytes_written);
     return bytes_written;
 }
diff --git a/lib/transports/tls_transport.cpp b/lib/transports/tls_transport.cpp
index 6ddeed3..6c0a23f 100644
--- a/lib/transports/tls_transport.cpp
+++ b/lib/transports/tls_transport.cpp
@@ -119,7 +119,7 @@ std::expected<ssize_t, TransportError> TlsTransport::read(std::span<uint8_t> buf
 
 std::expected<ssize_t, TransportError> TlsTransport::write(std::span<const uint8_t> buffer) const {
     const auto bytes_written = SSL_write(ssl_, buffer.data(), static_cast<int>(buffer.size()));
-    if (bytes_written < 0) {
+    if (bytes_written <= 0) {
         switch (const int ssl_error = SSL_get_error(ssl_, bytes_written)) {
             case SSL_ERROR_WANT_READ:
                 spdlog::trace("SSL want read");
@@ -138,10 +138,6 @@ std::expected<ssize_t, TransportError> TlsTransport::write(std::span<const uint8
                 return std::unexpected(TransportError::ProtocolError);
         }
     }
-    if (bytes_written != static_cast<int>(buffer.size())) {
-        spdlog::error("SSL partial write: wrote {} of {} bytes", bytes_written, buffer.size());
-        return std::unexpected(TransportError::WriteError);
-    }
     spdlog::trace("successfully wrote {} bytes to SSL", bytes_written);
     return bytes_written;
 }
-- 
2.43.0


From 7cd3dd8b47700b81fe94bdb6fd1a39ecebf93a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:29 +0000
Subject: [PATCH 08/22] fix: clear the OpenSSL error queue before each TLS
 operation

SSL_get_error inspects the thread error queue, so an error left by another
connection turned a would-block result into a fatal one.
---
 lib/transports/tls_transport.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/transports/tls_transport.cpp b/lib/transports/tls_transport.cpp
index 6c0a23f..6541d91 100644
--- a/lib/transports/tls_transport.cpp
+++ b/lib/transports/tls_transport.cpp
@@ -38,6 +38,7 @@ TlsTransport::TlsTransport(SocketFd&& client_fd, const TlsContext& tls_context)
 }
 
 std::expected<void, TransportError> TlsTransport::handshake() const {
+    ERR_clear_error();
     const int result = SSL_accept(ssl_);
     if (result == 1) {
         return {};
@@ -93,6 +94,7 @@ void TlsTransport::print_debug_to_stderr() {
 
 std::expected<ssize_t, TransportError> TlsTransport::read(std::span<uint8_t> buffer) const {
     spdlog::trace("reading from SSL");
+    ERR_clear_error();
     const auto bytes_read = SSL_read(ssl_, buffer.data(), static_cast<int>(buffer.size()));
     if (bytes_read <= 0) {
         switch (const int ssl_error = SSL_get_error(ssl_, bytes_read)) {
@@ -118,6 +120,7 @@ std::expected<ssize_t, TransportError> TlsTransport::read(std::span<uint8_t> buf
 }
 
 std::expected<ssize_t, TransportError> TlsTransport::write(std::span<const uint8_t> buffer) const {
+    ERR_clear_error();
     const auto bytes_written = SSL_write(ssl_, buffer.data(), static_cast<int>(buffer.size()));
     if (bytes_written <= 0) {
         switch (const int ssl_error = SSL_get_error(ssl_, bytes_written)) {
-- 
2.43.0


From 430ff070da2e1249a0b3bc3b2b9a8b57bb136e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:29 +0000
Subject: [PATCH 09/22] fix: free the SSL object when attaching the socket
 fails

---
 lib/transports/tls_transport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/transports/tls_transport.cpp b/lib/transports/tls_transport.cpp
index 6541d91..cefd163 100644
--- a/lib/transports/tls_transport.cpp
+++ b/lib/transports/tls_transport.cpp
@@ -33,6 +33,7 @@ TlsTransport::TlsTransport(SocketFd&& client_fd, const TlsContext& tls_context)
     ssl_ = tls_context.create_ssl();
 
     if (SSL_set_fd(ssl_, client_fd_) != 1) {
+        SSL_free(ssl_);
         throw std::runtime_error("failed to set SSL file descriptor");
     }
 }
-- 
2.43.0


From 7352397687c94da65d986e866f65b51464409cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:29 +0000
Subject: [PATCH 10/22] fix: do not capture lookup arguments by reference in
 static handlers

The returned handler referred to the method string of the caller and to an
element of static_handlers_, which moves when another handler is added.
---
 lib/router.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/router.cpp b/lib/router.cpp
index 5dbf97c..19c6405 100644
--- a/lib/router.cpp
+++ b/lib/router.cpp
@@ -24,7 +24,8 @@ RouteHandler Router::get_handler(const std::string& path, const std::string& met
         if (method == "GET" || method == "HEAD") {
             for (const auto& handler : static_handlers_) {
                 if (handler->matches(path)) {
-                    target = [&handler, path, &method](const HttpRequest&) -> HttpResponse {
+                    target = [handler = handler.get(), path,
+                              method](const HttpRequest&) -> HttpResponse {
                         return handler->handle(path, method == "HEAD");
                     };
                 }
-- 
2.43.0


From 183ef326507ec5456d584aa690be77fbc98d96b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:29 +0000
Subject: [PATCH 11/22] fix: leave the key path unset when it was not given

An empty --tls-key-path became a set, empty path, which validate() accepts;
ServerConfiguration::cleartext was indeterminate unless value-initialised.
---
 app/args.cpp        | 1 -
 lib/server_config.h | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/app/args.cpp b/app/args.cpp
index 56a6f66..6ee056e 100644
--- a/app/args.cpp
+++ b/app/args.cpp
@@ -66,6 +66,5 @@ ion::ServerConfiguration Args::to_server_config() const {
     if (!key_path.empty()) {
         config.key_path = key_path;
     }
-    config.key_path = key_path;
     return config;
 }
diff --git a/lib/server_config.h b/lib/server_config.h
index 3789858..6f3a503 100644
--- a/lib/server_config.h
+++ b/lib/server_config.h
@@ -9,7 +9,7 @@ namespace ion {
 struct ServerConfiguration {
     std::optional<std::filesystem::path> cert_path;
     std::optional<std::filesystem::path> key_path;
-    bool cleartext;
+    bool cleartext{};
     std::string custom_404_path;
 
     void validate() const;
-- 
2.43.0


From cbeee1e7b8f4c06f077b78042e7a7253179f9da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:29 +0000
Subject: [PATCH 12/22] fix: send no body with the custom 404 page in answer to
 HEAD

---
 app/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/main.cpp b/app/main.cpp
index 66dc04a..8434efb 100644
--- a/app/main.cpp
+++ b/app/main.cpp
@@ -47,7 +47,8 @@ void run_server(const Args& args) {
 
                 if (res.status_code == 404) {
                     auto file_res =
-                        ion::StaticFileHandler::file_response(args.status_404_file_path, false);
+                        ion::StaticFileHandler::file_response(args.status_404_file_path,
+                                                              req.method == "HEAD");
                     file_res.status_code = 404;
                     return file_res;
                 }
-- 
2.43.0


From e0f4a329b197b8bba3dc068d50f529d91d3fdb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:02 +0000
Subject: [PATCH 13/22] fix: flush GOAWAY before discarding a connection

GOAWAY was only enqueued: the connection was discarded before anything was
written. After a fatal write error the output stayed pending and the
connection kept waiting to write instead of being discarded.
---
 lib/http2_conn.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 0f3fddf..65fefe8 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -370,7 +370,10 @@ Http2ProcessResult Http2Connection::internal_process() {
             return Http2ProcessResult::WantWrite;
         }
 
-        fill_read_buffer();
+        if (state_ == Http2ConnectionState::AwaitingPreface ||
+            state_ == Http2ConnectionState::AwaitingFrame) {
+            fill_read_buffer();
+        }
 
         switch (state_) {
             case Http2ConnectionState::AwaitingPreface: {
@@ -399,7 +402,7 @@ Http2ProcessResult Http2Connection::internal_process() {
             case Http2ConnectionState::ProtocolError: {
                 spdlog::error("protocol error. closing connection");
                 close();
-                return Http2ProcessResult::DiscardConnection;
+                break;  // flush the GOAWAY frame before discarding the connection
             }
             case Http2ConnectionState::ClientClosed: {
                 return Http2ProcessResult::DiscardConnection;
@@ -505,7 +508,9 @@ void Http2Connection::flush_write_buffer() {
         } else {
             spdlog::error("failed to flush write buffer: error: {}",
                           static_cast<int>(result.error()));
-            update_state(Http2ConnectionState::ProtocolError);
+            // nothing more can be delivered, not even GOAWAY
+            write_buffer_.clear();
+            update_state(Http2ConnectionState::ClientClosed);
         }
         return;
     }
-- 
2.43.0


From 64b2ca6fddf8dd201a3db2fdebeb440febdfaf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:02 +0000
Subject: [PATCH 14/22] fix: split response header blocks that exceed the
 maximum frame size

A header block larger than 16384 octets was sent as one oversized HEADERS
frame; the rest now follows in CONTINUATION frames.
---
 lib/http2_conn.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 65fefe8..d5f76aa 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -20,6 +20,7 @@ static constexpr uint8_t FRAME_TYPE_HEADERS = 0x01;
 static constexpr uint8_t FRAME_TYPE_SETTINGS = 0x04;
 static constexpr uint8_t FRAME_TYPE_GOAWAY = 0x07;
 static constexpr uint8_t FRAME_TYPE_WINDOW_UPDATE = 0x08;
+static constexpr uint8_t FRAME_TYPE_CONTINUATION = 0x09;
 
 static constexpr uint8_t FLAG_END_HEADERS = 0x04;
 static constexpr uint8_t FLAG_END_STREAM = 0x01;
@@ -69,8 +70,20 @@ void Http2Connection::write_settings_ack() {
 
 void Http2Connection::write_headers_response(uint32_t stream_id,
                                              std::span<const uint8_t> headers_data, uint8_t flags) {
+    uint8_t type = FRAME_TYPE_HEADERS;
+    while (headers_data.size() > MAX_FRAME_SIZE) {
+        write_frame_header({.length = static_cast<uint32_t>(MAX_FRAME_SIZE),
+                            .type = type,
+                            .flags = static_cast<uint8_t>(flags & ~FLAG_END_HEADERS),
+                            .stream_id = stream_id});
+        enqueue_write(headers_data.first(MAX_FRAME_SIZE));
+        headers_data = headers_data.subspan(MAX_FRAME_SIZE);
+        type = FRAME_TYPE_CONTINUATION;
+        flags &= static_cast<uint8_t>(~FLAG_END_STREAM);
+    }
+
     const Http2FrameHeader header{.length = static_cast<uint32_t>(headers_data.size()),
-                                  .type = FRAME_TYPE_HEADERS,
+                                  .type = type,
                                   .flags = flags,
                                   .stream_id = stream_id};
 
-- 
2.43.0


From d762d43bc9678c7b061616e95b68b8dbf955dfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:02 +0000
Subject: [PATCH 15/22] fix: keep serving when accepting a connection or a
 handler throws

accept() failures such as ECONNABORTED or EMFILE, and failures to set up a
connection, escaped the event loop and ended the server; so did exceptions
not derived from std::exception thrown by a request handler.
---
 lib/http2_conn.cpp   | 7 +++++++
 lib/http2_server.cpp | 6 +++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index d5f76aa..4affdfc 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -343,6 +343,10 @@ Http2ProcessResult Http2Connection::process() {
         spdlog::error("unhandled error processing connection: {}", e.what());
         update_state(Http2ConnectionState::ProtocolError);
         return Http2ProcessResult::DiscardConnection;
+    } catch (...) {
+        spdlog::error("unhandled non-standard exception processing connection");
+        update_state(Http2ConnectionState::ProtocolError);
+        return Http2ProcessResult::DiscardConnection;
     }
 }
 
@@ -486,6 +490,9 @@ HttpResponse Http2Connection::process_request(const std::vector<HttpHeader>& hea
     } catch (const std::exception& e) {
         spdlog::error("error processing request: {}", e.what());
         resp = HttpResponse{.status_code = 500};
+    } catch (...) {
+        spdlog::error("error processing request: non-standard exception");
+        resp = HttpResponse{.status_code = 500};
     }
 
     span->SetAttribute("http.status_code", resp.status_code);
diff --git a/lib/http2_server.cpp b/lib/http2_server.cpp
index ec21578..930ec04 100644
--- a/lib/http2_server.cpp
+++ b/lib/http2_server.cpp
@@ -135,7 +135,11 @@ void Http2Server::start(uint16_t port) {
         }
         for (auto& [fd, poll_events] : *events) {
             if (fd == listener_fd) {
-                handle_incoming_connection(listener, *poller);
+                try {
+                    handle_incoming_connection(listener, *poller);
+                } catch (const std::exception& e) {
+                    spdlog::error("failed to accept connection: {}", e.what());
+                }
             } else {
                 handle_connection_events(*poller, fd, poll_events);
             }
-- 
2.43.0


From 49f771525cc4a509411e7a5dd6bf3416151313c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:02 +0000
Subject: [PATCH 16/22] fix: escape client-supplied octets in the access log

Line breaks and quotes in a header value could forge log entries; of repeated
:method or :path fields the last was logged although the first was served.
---
 lib/access_log.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/lib/access_log.cpp b/lib/access_log.cpp
index 20b5202..d1dc73f 100644
--- a/lib/access_log.cpp
+++ b/lib/access_log.cpp
@@ -3,11 +3,26 @@
 #include <spdlog/spdlog.h>
 
 #include <format>
+#include <ranges>
 
 #include "system_clock.h"
 
 namespace ion {
 
+// keeps client-supplied octets from ending the line or a quoted field
+static std::string escape(const std::string& value) {
+    std::string escaped;
+    for (const char c : value) {
+        const auto byte = static_cast<uint8_t>(c);
+        if (byte < 0x20 || byte == 0x7F || c == '"' || c == '\\') {
+            escaped += std::format("\\x{:02x}", byte);
+        } else {
+            escaped += c;
+        }
+    }
+    return escaped;
+}
+
 void AccessLog::log_request(std::vector<HttpHeader>& req_headers, uint16_t status_code,
                             size_t content_length, const std::string& client_ip) {
     auto access_log = spdlog::get(ACCESS_LOGGER_NAME);
@@ -20,18 +35,19 @@ void AccessLog::log_request(std::vector<HttpHeader>& req_headers, uint16_t statu
     std::string user_agent{"-"};
     std::string referrer{"-"};
 
-    for (const auto& [name, value] : req_headers) {
+    // in reverse, as the first of repeated fields is the one that was acted upon
+    for (const auto& [name, value] : req_headers | std::views::reverse) {
         if (name == ":method") {
-            method = value;
+            method = escape(value);
         }
         if (name == ":path") {
-            path = value;
+            path = escape(value);
         }
         if (name == "user-agent") {
-            user_agent = value;
+            user_agent = escape(value);
         }
         if (name == "referer") {
-            referrer = value;
+            referrer = escape(value);
         }
     }
     const auto entry =
-- 
2.43.0


From 18a0063e197ea010e65adc37bc5879d35fe584ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:25 +0000
Subject: [PATCH 17/22] fix: send :status with the 400 answer to a request
 without :path or :method

---
 lib/http2_conn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 4affdfc..f293096 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -474,7 +474,7 @@ HttpResponse Http2Connection::process_request(const std::vector<HttpHeader>& hea
 
     if (!path || !method) {
         spdlog::error("invalid request: missing path or method");
-        return HttpResponse{.status_code = 400};
+        return HttpResponse{.status_code = 400, .headers = {{":status", "400"}}};
     }
 
     span->SetAttribute("http.method", *method);
-- 
2.43.0


From a9ba7a8dba37883cf43df828f5545052baead4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:55 +0000
Subject: [PATCH 18/22] fix: make EPollPoller non-copyable, a copy would close
 its descriptor twice

---
 lib/pollers/epoll_poller.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/pollers/epoll_poller.h b/lib/pollers/epoll_poller.h
index 420cc55..289c0d9 100644
--- a/lib/pollers/epoll_poller.h
+++ b/lib/pollers/epoll_poller.h
@@ -15,6 +15,9 @@ class EPollPoller : public Poller {
     EPollPoller();
     ~EPollPoller() override;
 
+    EPollPoller(const EPollPoller&) = delete;
+    EPollPoller& operator=(const EPollPoller&) = delete;
+
     std::expected<std::vector<PollEvent>, PollError> poll(
         std::chrono::milliseconds timeout) override;
     void set(int fd, PollEventType event_types) override;
-- 
2.43.0


From 90531e1267e60935bb9ba9676b1e3d0fcbe54d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:50 +0000
Subject: [PATCH 19/22] fix: write access-log entries whatever the log level

---
 app/main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/main.cpp b/app/main.cpp
index 8434efb..8beea0b 100644
--- a/app/main.cpp
+++ b/app/main.cpp
@@ -68,6 +68,8 @@ void setup_access_logs(const std::string& log_path) {
     try {
         auto logger = spdlog::basic_logger_mt(ion::AccessLog::ACCESS_LOGGER_NAME, log_path);
         logger->set_pattern("%v");
+        // entries are logged at info: the level of the console log is not theirs
+        logger->set_level(spdlog::level::info);
         logger->flush_on(spdlog::level::info);
         spdlog::info("writing access logs to {}", log_path);
     } catch (const spdlog::spdlog_ex& e) {
-- 
2.43.0


From b9118ceeaafec05dd3a7c8a2a588be6884292a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:24 +0000
Subject: [PATCH 20/22] fix: count a request in the statistics once it has been
 answered

The mean latency divided the time of the finished requests by a count that
included the request being handled (the status page itself), so it was too low.
---
 app/server_stats.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/server_stats.cpp b/app/server_stats.cpp
index af5448c..421f64c 100644
--- a/app/server_stats.cpp
+++ b/app/server_stats.cpp
@@ -17,7 +17,6 @@ ion::Middleware ServerStats::middleware() {
     return [](auto next) {
         return [next](const auto& req) {
             auto& stats = instance();
-            stats.total_requests++;
             const auto start = std::chrono::steady_clock::now();
 
             auto res = next(req);
@@ -27,6 +26,7 @@ ion::Middleware ServerStats::middleware() {
                 std::chrono::duration_cast<std::chrono::microseconds>(end - start).count();
             stats.total_duration_us += duration;
             stats.status_codes[res.status_code]++;
+            stats.total_requests++;
             return res;
         };
     };
-- 
2.43.0


From 9923f6986c3b6d9658a346ef029f9e56a126ad3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:24 +0000
Subject: [PATCH 21/22] fix: count requests whose handler throws in the
 statistics

They are answered with a 500, which was in neither the status counts nor the
latency.
---
 app/server_stats.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/app/server_stats.cpp b/app/server_stats.cpp
index 421f64c..d34972f 100644
--- a/app/server_stats.cpp
+++ b/app/server_stats.cpp
@@ -1,5 +1,6 @@
 #include "server_stats.h"
 
+#include <exception>
 #include <iomanip>
 #include <random>
 
@@ -19,7 +20,14 @@ ion::Middleware ServerStats::middleware() {
             auto& stats = instance();
             const auto start = std::chrono::steady_clock::now();
 
-            auto res = next(req);
+            // a handler that throws is answered with a 500
+            ion::HttpResponse res{.status_code = 500};
+            std::exception_ptr error;
+            try {
+                res = next(req);
+            } catch (...) {
+                error = std::current_exception();
+            }
 
             const auto end = std::chrono::steady_clock::now();
             const auto duration =
@@ -27,6 +35,9 @@ ion::Middleware ServerStats::middleware() {
             stats.total_duration_us += duration;
             stats.status_codes[res.status_code]++;
             stats.total_requests++;
+            if (error) {
+                std::rethrow_exception(error);
+            }
             return res;
         };
     };
-- 
2.43.0


From 4a3934a7afe48aea1bbe742839c2aad0630f9957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:26 +0000
Subject: [PATCH 22/22] fix: follow the peer's SETTINGS_HEADER_TABLE_SIZE in
 the header encoder

---
 lib/hpack/header_block_encoder.cpp | 17 +++++++++++++++++
 lib/hpack/header_block_encoder.h   |  6 ++++++
 lib/http2_conn.cpp                 |  9 +++++++++
 lib/http2_conn.h                   |  5 +++--
 4 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/lib/hpack/header_block_encoder.cpp b/lib/hpack/header_block_encoder.cpp
index f072604..9a370db 100644
--- a/lib/hpack/header_block_encoder.cpp
+++ b/lib/hpack/header_block_encoder.cpp
@@ -57,8 +57,25 @@ std::vector<uint8_t> HeaderBlockEncoder::write_length_and_string(const std::stri
     return bytes;
 }
 
+void HeaderBlockEncoder::set_max_table_size(size_t new_sz) {
+    dynamic_table_.set_max_table_size(new_sz);
+    smallest_size_update_ = std::min(new_sz, smallest_size_update_.value_or(new_sz));
+    last_size_update_ = new_sz;
+}
+
 std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& headers) {
     std::vector<uint8_t> bytes{};
+
+    // announce changes of the table's size since the last block (RFC 7541 4.2)
+    if (last_size_update_) {
+        if (*smallest_size_update_ < *last_size_update_) {
+            write_prefixed_index(bytes, *smallest_size_update_, 5, 0x20);
+        }
+        write_prefixed_index(bytes, *last_size_update_, 5, 0x20);
+        smallest_size_update_.reset();
+        last_size_update_.reset();
+    }
+
     for (auto& hdr : headers) {
         // is static header?
         const auto st_it = std::find_if(
diff --git a/lib/hpack/header_block_encoder.h b/lib/hpack/header_block_encoder.h
index f53707f..4049fc3 100644
--- a/lib/hpack/header_block_encoder.h
+++ b/lib/hpack/header_block_encoder.h
@@ -1,5 +1,7 @@
 #pragma once
+#include <cstddef>
 #include <cstdint>
+#include <optional>
 #include <vector>
 
 #include "dynamic_table.h"
@@ -10,11 +12,15 @@ class HeaderBlockEncoder {
    public:
     explicit HeaderBlockEncoder(DynamicTable& dynamic_table);
     std::vector<uint8_t> encode(const std::vector<HttpHeader>& headers);
+    void set_max_table_size(size_t new_sz);
 
    private:
     std::vector<uint8_t> write_length_and_string(const std::string& str);
 
     DynamicTable& dynamic_table_;
+    // size changes the peer has not been told of: the smallest since the last block, and the last
+    std::optional<size_t> smallest_size_update_;
+    std::optional<size_t> last_size_update_;
 };
 
 }  // namespace ion
diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index f293096..d26befe 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -3,6 +3,7 @@
 #include <opentelemetry/trace/provider.h>
 #include <spdlog/spdlog.h>
 
+#include <algorithm>
 #include <format>
 
 #include "access_log.h"
@@ -22,6 +23,8 @@ static constexpr uint8_t FRAME_TYPE_GOAWAY = 0x07;
 static constexpr uint8_t FRAME_TYPE_WINDOW_UPDATE = 0x08;
 static constexpr uint8_t FRAME_TYPE_CONTINUATION = 0x09;
 
+static constexpr uint16_t SETTINGS_HEADER_TABLE_SIZE = 0x01;
+
 static constexpr uint8_t FLAG_END_HEADERS = 0x04;
 static constexpr uint8_t FLAG_END_STREAM = 0x01;
 
@@ -248,6 +251,12 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
                     update_state(Http2ConnectionState::ProtocolError);
                     return;
                 }
+                for (const auto& setting : *settings) {
+                    if (setting.identifier == SETTINGS_HEADER_TABLE_SIZE) {
+                        encoder_.set_max_table_size(
+                            std::min<size_t>(setting.value, MAX_ENCODER_TABLE_SIZE));
+                    }
+                }
                 spdlog::debug("read {} settings, sending ACK", settings->size());
                 write_settings_ack();
             }
diff --git a/lib/http2_conn.h b/lib/http2_conn.h
index a29eebb..beae7dd 100644
--- a/lib/http2_conn.h
+++ b/lib/http2_conn.h
@@ -54,8 +54,9 @@ class Http2Connection {
     std::vector<uint8_t> write_buffer_;
     Http2ConnectionState state_ = Http2ConnectionState::AwaitingHandshake;
     DynamicTable decoder_dynamic_table_{};
-    // the peer grants 4096 octets until it sends SETTINGS_HEADER_TABLE_SIZE, which is not tracked
-    DynamicTable encoder_dynamic_table_{4096};
+    // what the peer grants until it sends SETTINGS_HEADER_TABLE_SIZE, and the most that is used
+    static constexpr size_t MAX_ENCODER_TABLE_SIZE = 4096;
+    DynamicTable encoder_dynamic_table_{MAX_ENCODER_TABLE_SIZE};
     HeaderBlockDecoder decoder_{decoder_dynamic_table_};
     HeaderBlockEncoder encoder_{encoder_dynamic_table_};
     std::chrono::steady_clock::time_point last_activity_{std::chrono::steady_clock::now()};
-- 
2.43.0

