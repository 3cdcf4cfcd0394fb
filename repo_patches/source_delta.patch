From f7beb52334aeeed0904f025bed7c141a4698d35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:58 +0000
Subject: [PATCH 01/32] fix: a partial TCP write no longer kills the connection

---
 lib/transports/tcp_transport.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/lib/transports/tcp_transport.cpp b/lib/transports/tcp_transport.cpp
index f083125..4037618 100644
--- a/lib/transports/tcp_transport.cpp
+++ b/lib/transports/tcp_transport.cpp
@@ -44,19 +44,14 @@ std::expected<ssize_t, TransportError> TcpTransport::read(std::span<uint8_t> buf
 std::expected<ssize_t, TransportError> TcpTransport::write(std::span<const uint8_t> buffer) const {
     const auto bytes_written = ::write(client_fd_, buffer.data(), buffer.size());
     if (bytes_written < 0) {
-        if (errno == EAGAIN || errno == EWOULDBLOCK) {
+        if (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR) {
             spdlog::trace("TCP want write");
             return std::unexpected(TransportError::WantReadOrWrite);
         }
         spdlog::error("TCP write error: {}", strerror(errno));
         return std::unexpected(TransportError::WriteError);
     }
-    if (bytes_written != static_cast<ssize_t>(buffer.size())) {
-        spdlog::error("TCP partial write: wrote {} of {} bytes", bytes_written, buffer.size());
-        // For non-blocking sockets, partial writes can happen
-        // TODO: Fix this!
-        return std::unexpected(TransportError::WriteError);
-    }
+    // a non-blocking socket may take only part of the buffer: the caller keeps the rest
     spdlog::trace("successfully wrote {} bytes to TCP socket", bytes_written);
     return bytes_written;
 }
-- 
2.43.0


From 438588ee20e2a8d2a6498ddba82188077c675887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:58 +0000
Subject: [PATCH 02/32] fix: progress of a partly sent TLS response counts as
 activity

---
 lib/http2_conn.cpp               | 5 +----
 lib/transports/tls_context.cpp   | 4 ++++
 lib/transports/tls_transport.cpp | 6 +-----
 3 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 7ea5cb5..c4479ce 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -486,14 +486,11 @@ void Http2Connection::flush_write_buffer() {
         return;
     }
 
-    // try to write the entire pending buffer.
-    // if transport_->write uses SSL_write, we must pass the same write_buffer_.data()
-    // until it succeeds or we will error out with SSL_ERROR_SSL!
+    // try to write the entire pending buffer: the transport may take only part of it
     auto result = transport_->write(write_buffer_);
     if (!result) {
         if (result.error() == TransportError::WantReadOrWrite) {
             // do nothing. The buffer remains intact for the next attempt.
-            // SSL_write requirement: address and size stay the same.
             spdlog::trace("transport busy, write will be resumed later");
         } else {
             spdlog::error("failed to flush write buffer: error: {}",
diff --git a/lib/transports/tls_context.cpp b/lib/transports/tls_context.cpp
index d05d2ad..4569342 100644
--- a/lib/transports/tls_context.cpp
+++ b/lib/transports/tls_context.cpp
@@ -37,6 +37,10 @@ TlsContext::TlsContext(const std::filesystem::path& cert_path,
         throw std::runtime_error("private key does not match certificate");
     }
 
+    // a non-blocking socket may take only part of what is written: report progress record by
+    // record, and allow the write buffer to move between attempts
+    SSL_CTX_set_mode(ctx_, SSL_MODE_ENABLE_PARTIAL_WRITE | SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
+
     SSL_CTX_set_alpn_select_cb(ctx_, alpn_callback, nullptr);
 
     SSL_CTX_set_keylog_callback(ctx_, [](const SSL*, const char* line) {
diff --git a/lib/transports/tls_transport.cpp b/lib/transports/tls_transport.cpp
index 6ddeed3..6c0a23f 100644
--- a/lib/transports/tls_transport.cpp
+++ b/lib/transports/tls_transport.cpp
@@ -119,7 +119,7 @@ std::expected<ssize_t, TransportError> TlsTransport::read(std::span<uint8_t> buf
 
 std::expected<ssize_t, TransportError> TlsTransport::write(std::span<const uint8_t> buffer) const {
     const auto bytes_written = SSL_write(ssl_, buffer.data(), static_cast<int>(buffer.size()));
-    if (bytes_written < 0) {
+    if (bytes_written <= 0) {
         switch (const int ssl_error = SSL_get_error(ssl_, bytes_written)) {
             case SSL_ERROR_WANT_READ:
                 spdlog::trace("SSL want read");
@@ -138,10 +138,6 @@ std::expected<ssize_t, TransportError> TlsTransport::write(std::span<const uint8
                 return std::unexpected(TransportError::ProtocolError);
         }
     }
-    if (bytes_written != static_cast<int>(buffer.size())) {
-        spdlog::error("SSL partial write: wrote {} of {} bytes", bytes_written, buffer.size());
-        return std::unexpected(TransportError::WriteError);
-    }
     spdlog::trace("successfully wrote {} bytes to SSL", bytes_written);
     return bytes_written;
 }
-- 
2.43.0


From 749842db20c30c7056c1812a4a7e7785a67be7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:58 +0000
Subject: [PATCH 03/32] fix: TLS errors of one connection no longer leak into
 another through the error queue

---
 lib/transports/tls_transport.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/transports/tls_transport.cpp b/lib/transports/tls_transport.cpp
index 6c0a23f..72b19d6 100644
--- a/lib/transports/tls_transport.cpp
+++ b/lib/transports/tls_transport.cpp
@@ -38,6 +38,7 @@ TlsTransport::TlsTransport(SocketFd&& client_fd, const TlsContext& tls_context)
 }
 
 std::expected<void, TransportError> TlsTransport::handshake() const {
+    ERR_clear_error();  // SSL_get_error() is only reliable if the error queue starts empty
     const int result = SSL_accept(ssl_);
     if (result == 1) {
         return {};
@@ -78,6 +79,7 @@ TlsTransport::~TlsTransport() {
 }
 
 void TlsTransport::graceful_shutdown() const {
+    ERR_clear_error();
     BIO_flush(SSL_get_wbio(ssl_));
     // Bidirectional shutdown
     spdlog::debug("shutting down SSL (client notify)");
@@ -93,6 +95,7 @@ void TlsTransport::print_debug_to_stderr() {
 
 std::expected<ssize_t, TransportError> TlsTransport::read(std::span<uint8_t> buffer) const {
     spdlog::trace("reading from SSL");
+    ERR_clear_error();
     const auto bytes_read = SSL_read(ssl_, buffer.data(), static_cast<int>(buffer.size()));
     if (bytes_read <= 0) {
         switch (const int ssl_error = SSL_get_error(ssl_, bytes_read)) {
@@ -118,6 +121,7 @@ std::expected<ssize_t, TransportError> TlsTransport::read(std::span<uint8_t> buf
 }
 
 std::expected<ssize_t, TransportError> TlsTransport::write(std::span<const uint8_t> buffer) const {
+    ERR_clear_error();
     const auto bytes_written = SSL_write(ssl_, buffer.data(), static_cast<int>(buffer.size()));
     if (bytes_written <= 0) {
         switch (const int ssl_error = SSL_get_error(ssl_, bytes_written)) {
-- 
2.43.0


From 505e34a9c925493955df41cb48966d73687820d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:56 +0000
Subject: [PATCH 04/32] fix: a failure while accepting one connection no longer
 ends the server

---
 lib/http2_server.cpp             |  7 +++++--
 lib/tcp_listener.cpp             | 26 +++++++++++++++++++++-----
 lib/transports/tls_transport.cpp |  1 +
 3 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/lib/http2_server.cpp b/lib/http2_server.cpp
index ec21578..81823fe 100644
--- a/lib/http2_server.cpp
+++ b/lib/http2_server.cpp
@@ -39,8 +39,11 @@ void Http2Server::establish_conn(TcpListener& listener, Poller& poller) {
     spdlog::info("client connected (ip: {})", client_ip_res.value_or("unknown"));
 
     const int raw_fd = *fd;
-    auto transport = create_transport(std::move(fd.value()));
-    if (!transport) {
+    std::unique_ptr<Transport> transport;
+    try {
+        transport = create_transport(std::move(fd.value()));
+    } catch (const std::exception& e) {
+        spdlog::error("dropping new connection: {}", e.what());
         return;
     }
 
diff --git a/lib/tcp_listener.cpp b/lib/tcp_listener.cpp
index c9a2038..33b8b8f 100644
--- a/lib/tcp_listener.cpp
+++ b/lib/tcp_listener.cpp
@@ -87,16 +87,32 @@ std::optional<SocketFd> TcpListener::try_accept() {
     const int fd = ::accept(server_fd_, reinterpret_cast<sockaddr*>(&client_addr), &client_len);
     if (fd >= 0) {
         auto client_fd = SocketFd(fd);
-        set_nonblocking_socket(client_fd);  // required for Linux. macOS inherits from server_fd!
+        try {
+            // required for Linux. macOS inherits from server_fd!
+            set_nonblocking_socket(client_fd);
+        } catch (const std::system_error& e) {
+            spdlog::warn("dropping new connection: {}", e.what());
+            return std::nullopt;
+        }
         set_tcp_no_delay(client_fd);
         return client_fd;
     }
 
-    if (errno == EAGAIN || errno == EINTR) {
-        return std::nullopt;
+    switch (errno) {
+        case EBADF:
+        case EFAULT:
+        case EINVAL:
+        case ENOTSOCK:
+            // the listening socket itself is unusable
+            throw std::system_error(errno, std::system_category(), "accept");
+        case EAGAIN:
+        case EINTR:
+            return std::nullopt;
+        default:
+            // the client went away, or the system is short of a resource: try again later
+            spdlog::warn("failed to accept connection: {}", strerror(errno));
+            return std::nullopt;
     }
-
-    throw std::system_error(errno, std::system_category(), "accept");
 }
 
 void TcpListener::close() {
diff --git a/lib/transports/tls_transport.cpp b/lib/transports/tls_transport.cpp
index 72b19d6..db2092c 100644
--- a/lib/transports/tls_transport.cpp
+++ b/lib/transports/tls_transport.cpp
@@ -33,6 +33,7 @@ TlsTransport::TlsTransport(SocketFd&& client_fd, const TlsContext& tls_context)
     ssl_ = tls_context.create_ssl();
 
     if (SSL_set_fd(ssl_, client_fd_) != 1) {
+        SSL_free(ssl_);
         throw std::runtime_error("failed to set SSL file descriptor");
     }
 }
-- 
2.43.0


From c3212a77c6377c63badaf24fa41affa07de060e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:56 +0000
Subject: [PATCH 05/32] fix: a truncated or overlong HPACK index is a decoding
 error

---
 lib/hpack/header_block_decoder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/hpack/header_block_decoder.cpp b/lib/hpack/header_block_decoder.cpp
index 58de481..69cc6f1 100644
--- a/lib/hpack/header_block_decoder.cpp
+++ b/lib/hpack/header_block_decoder.cpp
@@ -134,6 +134,7 @@ std::expected<HttpHeader, FrameError> HeaderBlockDecoder::decode_indexed_field(B
     const auto index = IntegerDecoder::decode(reader, 7);
     if (!index.has_value()) {
         spdlog::error("failed to decode indexed header index (not enough bytes)");
+        return std::unexpected(FrameError::ProtocolError);
     }
 
     if (*index < 1) {
@@ -148,6 +149,7 @@ std::expected<HttpHeader, FrameError> HeaderBlockDecoder::decode_literal_field(
     const auto index = IntegerDecoder::decode(reader, idx_prefix_bits);
     if (!index.has_value()) {
         spdlog::error("failed to decode literal field index (not enough bytes)");
+        return std::unexpected(FrameError::ProtocolError);
     }
 
     bool is_new_name = *index == 0;
-- 
2.43.0


From 0917df76ec0cb99f2b76bec0cae341329806538f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:23 +0000
Subject: [PATCH 06/32] fix: frames of impossible size are refused and padding
 is not taken for headers

---
 lib/http2_conn.cpp         | 11 +++++------
 lib/http2_frame_reader.cpp | 38 ++++++++++++++++++++++++++++++++++++++
 lib/http2_frame_reader.h   | 19 +++++++++++++++----
 lib/http2_frames.h         |  9 +++++++++
 4 files changed, 67 insertions(+), 10 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index c4479ce..3ddd74c 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -15,12 +15,6 @@ namespace ion {
 
 static constexpr std::string_view CLIENT_PREFACE{"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"};
 
-static constexpr uint8_t FRAME_TYPE_DATA = 0x00;
-static constexpr uint8_t FRAME_TYPE_HEADERS = 0x01;
-static constexpr uint8_t FRAME_TYPE_SETTINGS = 0x04;
-static constexpr uint8_t FRAME_TYPE_GOAWAY = 0x07;
-static constexpr uint8_t FRAME_TYPE_WINDOW_UPDATE = 0x08;
-
 static constexpr uint8_t FLAG_END_HEADERS = 0x04;
 static constexpr uint8_t FLAG_END_STREAM = 0x01;
 
@@ -227,6 +221,11 @@ bool Http2Connection::try_read_frame() {
 }
 
 void Http2Connection::process_frame(const Http2FrameReader& frame) {
+    if (!frame.check_size()) {
+        update_state(Http2ConnectionState::ProtocolError);
+        return;
+    }
+
     switch (frame.type()) {
         case FRAME_TYPE_SETTINGS: {
             spdlog::debug("received SETTINGS frame (stream={} flags={})", frame.stream_id(),
diff --git a/lib/http2_frame_reader.cpp b/lib/http2_frame_reader.cpp
index 16109d9..7ba266b 100644
--- a/lib/http2_frame_reader.cpp
+++ b/lib/http2_frame_reader.cpp
@@ -8,6 +8,44 @@
 
 namespace ion {
 
+std::expected<void, FrameError> Http2FrameReader::check_size() const {
+    const size_t size = payload_.size();
+    bool valid = true;
+    switch (type()) {
+        case FRAME_TYPE_DATA:
+            valid = !padded() || size >= 1 + padding_size();
+            break;
+        case FRAME_TYPE_HEADERS:
+            valid = size >= headers_block_offset() + padding_size();
+            break;
+        case FRAME_TYPE_PRIORITY:
+            valid = size == 5;
+            break;
+        case FRAME_TYPE_RST_STREAM:
+            valid = size == 4;
+            break;
+        case FRAME_TYPE_SETTINGS:
+            valid = has_flag(0x01) ? size == 0 : size % Http2Setting::wire_size == 0;
+            break;
+        case FRAME_TYPE_PING:
+            valid = size == 8;
+            break;
+        case FRAME_TYPE_GOAWAY:
+            valid = size >= Http2GoAwayPayload::wire_size;
+            break;
+        case FRAME_TYPE_WINDOW_UPDATE:
+            valid = size == Http2WindowUpdate::wire_size;
+            break;
+        default:
+            break;
+    }
+    if (!valid) {
+        spdlog::error("invalid frame (type {}): impossible payload size {}", type(), size);
+        return std::unexpected(FrameError::ProtocolError);
+    }
+    return {};
+}
+
 std::expected<std::vector<Http2Setting>, FrameError> Http2FrameReader::read_settings() const {
     if (payload_.size() % Http2Setting::wire_size != 0) {
         spdlog::error("invalid SETTINGS frame: data size not a multiple of {}",
diff --git a/lib/http2_frame_reader.h b/lib/http2_frame_reader.h
index 948f9af..d965262 100644
--- a/lib/http2_frame_reader.h
+++ b/lib/http2_frame_reader.h
@@ -58,14 +58,25 @@ class Http2FrameReader {
     Http2WindowUpdate read_window_update() const;
     Http2GoAwayPayload read_goaway() const;
 
+    // the header block of a HEADERS frame which has been checked
     std::span<const uint8_t> headers_block() const {
-        if (priority()) {
-            return payload_.subspan(5);  // skip exclusive (1), stream dependency (31) & weight (8)
-        }
-        return payload_;
+        const size_t start = headers_block_offset();
+        return payload_.subspan(start, payload_.size() - start - padding_size());
     }
 
+    // is the payload of a size which is possible for this type of frame?
+    std::expected<void, FrameError> check_size() const;
+
    private:
+    // padding length (1), then exclusive (1 bit), stream dependency (31 bits) & weight (1)
+    size_t headers_block_offset() const {
+        return (padded() ? 1 : 0) + (priority() ? 5 : 0);
+    }
+
+    size_t padding_size() const {
+        return padded() && !payload_.empty() ? payload_[0] : 0;
+    }
+
     Http2FrameHeader header_;
     std::span<const uint8_t> payload_;
 };
diff --git a/lib/http2_frames.h b/lib/http2_frames.h
index 1797568..eac309b 100644
--- a/lib/http2_frames.h
+++ b/lib/http2_frames.h
@@ -4,6 +4,15 @@
 
 namespace ion {
 
+inline constexpr uint8_t FRAME_TYPE_DATA = 0x00;
+inline constexpr uint8_t FRAME_TYPE_HEADERS = 0x01;
+inline constexpr uint8_t FRAME_TYPE_PRIORITY = 0x02;
+inline constexpr uint8_t FRAME_TYPE_RST_STREAM = 0x03;
+inline constexpr uint8_t FRAME_TYPE_SETTINGS = 0x04;
+inline constexpr uint8_t FRAME_TYPE_PING = 0x06;
+inline constexpr uint8_t FRAME_TYPE_GOAWAY = 0x07;
+inline constexpr uint8_t FRAME_TYPE_WINDOW_UPDATE = 0x08;
+
 inline uint16_t load_uint16_be(std::span<const uint8_t, 2> data) {
     return static_cast<uint16_t>(data[0]) << 8 | static_cast<uint16_t>(data[1]);
 }
-- 
2.43.0


From 10743c59ba36bc95c99d2ef9e7b99556a635cd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:29 +0000
Subject: [PATCH 07/32] fix: response header bytes above 0x7f no longer index
 outside the Huffman table

---
 lib/hpack/header_block_encoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hpack/header_block_encoder.cpp b/lib/hpack/header_block_encoder.cpp
index fe0dcfa..bc76312 100644
--- a/lib/hpack/header_block_encoder.cpp
+++ b/lib/hpack/header_block_encoder.cpp
@@ -23,7 +23,7 @@ std::vector<uint8_t> HeaderBlockEncoder::write_length_and_string(const std::stri
         // use huffman coding
         BitWriter bw{};
         for (const char c : str) {
-            auto huffman_code = HUFFMAN_CODES[c];
+            auto huffman_code = HUFFMAN_CODES[static_cast<uint8_t>(c)];
             bw.write_bits(huffman_code.lsb_aligned_code, huffman_code.code_len);
         }
         auto bitstream = bw.finalize();
-- 
2.43.0


From 80aeb162a839f05d0307ce7e80d48107abba96fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:29 +0000
Subject: [PATCH 08/32] fix: header table indices which exceed their prefix are
 encoded as integers

---
 lib/hpack/header_block_encoder.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/hpack/header_block_encoder.cpp b/lib/hpack/header_block_encoder.cpp
index bc76312..1c8ecb0 100644
--- a/lib/hpack/header_block_encoder.cpp
+++ b/lib/hpack/header_block_encoder.cpp
@@ -16,6 +16,13 @@ static constexpr size_t MAX_PLAIN_TEXT_STRING_LENGTH = 3;
 HeaderBlockEncoder::HeaderBlockEncoder(DynamicTable& dynamic_table)
     : dynamic_table_(dynamic_table) {}
 
+static void append_integer(std::vector<uint8_t>& bytes, uint8_t pattern, size_t value,
+                           uint8_t prefix_bits) {
+    auto encoded = IntegerEncoder::encode(static_cast<uint32_t>(value), prefix_bits);
+    encoded[0] |= pattern;
+    bytes.insert(bytes.end(), encoded.begin(), encoded.end());
+}
+
 std::vector<uint8_t> HeaderBlockEncoder::write_length_and_string(const std::string& str) {
     std::vector<uint8_t> bytes{};
 
@@ -63,14 +70,14 @@ std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& h
             // found static header
             const size_t table_index = std::distance(STATIC_TABLE.begin(), st_it);
             const size_t index = table_index + 1;
-            bytes.push_back(static_cast<uint8_t>(index | 0x80));
+            append_integer(bytes, 0x80, index, 7);
             continue;
         }
 
         // check dynamic headers too
         if (auto dyn_table_index = dynamic_table_.find(hdr)) {
             const size_t index = STATIC_TABLE.size() + dyn_table_index.value() + 1;
-            bytes.push_back(static_cast<uint8_t>(index | 0x80));
+            append_integer(bytes, 0x80, index, 7);
             continue;
         }
 
@@ -82,7 +89,7 @@ std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& h
         if (st_name_it != STATIC_TABLE.end()) {
             const size_t table_index = std::distance(STATIC_TABLE.begin(), st_name_it);
             const size_t index = table_index + 1;
-            bytes.push_back(static_cast<uint8_t>(index | 0x40));
+            append_integer(bytes, 0x40, index, 6);
 
             // encode string
             const auto len_and_str_bytes = write_length_and_string(hdr.value);
@@ -96,7 +103,7 @@ std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& h
         // is dynamic field header name?
         if (auto dyn_table_index = dynamic_table_.find_name(hdr.name)) {
             const size_t index = STATIC_TABLE.size() + dyn_table_index.value() + 1;
-            bytes.push_back(static_cast<uint8_t>(index | 0x40));
+            append_integer(bytes, 0x40, index, 6);
 
             // encode string
             const auto len_and_str_bytes = write_length_and_string(hdr.value);
-- 
2.43.0


From 81979fa20bb9549dc48446177ba588b314f91108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:29 +0000
Subject: [PATCH 09/32] fix: the encoder's header table stays within the size
 the client allows

---
 lib/hpack/dynamic_table.cpp        |  4 ++++
 lib/hpack/dynamic_table.h          |  3 +++
 lib/hpack/header_block_encoder.cpp | 20 ++++++++++++++++++++
 lib/hpack/header_block_encoder.h   |  5 +++++
 lib/http2_conn.cpp                 |  7 +++++++
 lib/http2_conn.h                   |  2 +-
 6 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/lib/hpack/dynamic_table.cpp b/lib/hpack/dynamic_table.cpp
index db14d44..870f770 100644
--- a/lib/hpack/dynamic_table.cpp
+++ b/lib/hpack/dynamic_table.cpp
@@ -67,6 +67,10 @@ int DynamicTable::size() const {
     return table_size_;
 }
 
+size_t DynamicTable::max_size() const {
+    return max_table_size_;
+}
+
 void DynamicTable::set_max_table_size(size_t new_sz) {
     max_table_size_ = new_sz;
     while (table_size_ > max_table_size_) {
diff --git a/lib/hpack/dynamic_table.h b/lib/hpack/dynamic_table.h
index 0b0748e..721389e 100644
--- a/lib/hpack/dynamic_table.h
+++ b/lib/hpack/dynamic_table.h
@@ -9,6 +9,8 @@
 namespace ion {
 
 constexpr size_t HARD_TABLE_SIZE_LIMIT = 64 * 1024;
+// what both sides start with, unless SETTINGS_HEADER_TABLE_SIZE says otherwise (RFC 7541, 4.2)
+constexpr size_t INITIAL_TABLE_SIZE = 4096;
 constexpr size_t DEFAULT_MAX_TABLE_SIZE = 64 * 1024;
 
 class DynamicTable {
@@ -22,6 +24,7 @@ class DynamicTable {
     std::optional<size_t> find_name(const std::string& name);
     void log_contents() const;
     int size() const;
+    size_t max_size() const;
     void set_max_table_size(size_t new_sz);
 
    private:
diff --git a/lib/hpack/header_block_encoder.cpp b/lib/hpack/header_block_encoder.cpp
index 1c8ecb0..439f7ff 100644
--- a/lib/hpack/header_block_encoder.cpp
+++ b/lib/hpack/header_block_encoder.cpp
@@ -57,8 +57,28 @@ std::vector<uint8_t> HeaderBlockEncoder::write_length_and_string(const std::stri
     return bytes;
 }
 
+void HeaderBlockEncoder::set_max_table_size(size_t max_table_size) {
+    max_table_size = std::min(max_table_size, HARD_TABLE_SIZE_LIMIT);
+    if (!pending_size_update_ && max_table_size == dynamic_table_.max_size()) {
+        return;
+    }
+    // the peer has to be told of the smallest size in between too, as it evicts entries
+    smallest_pending_size_ = pending_size_update_ ? std::min(smallest_pending_size_, max_table_size)
+                                                  : max_table_size;
+    pending_size_update_ = true;
+    dynamic_table_.set_max_table_size(max_table_size);
+}
+
 std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& headers) {
     std::vector<uint8_t> bytes{};
+    if (pending_size_update_) {
+        if (smallest_pending_size_ != dynamic_table_.max_size()) {
+            append_integer(bytes, 0x20, smallest_pending_size_, 5);
+        }
+        append_integer(bytes, 0x20, dynamic_table_.max_size(), 5);
+        pending_size_update_ = false;
+    }
+
     for (auto& hdr : headers) {
         // is static header?
         const auto st_it = std::find_if(
diff --git a/lib/hpack/header_block_encoder.h b/lib/hpack/header_block_encoder.h
index f53707f..7a5b77c 100644
--- a/lib/hpack/header_block_encoder.h
+++ b/lib/hpack/header_block_encoder.h
@@ -11,10 +11,15 @@ class HeaderBlockEncoder {
     explicit HeaderBlockEncoder(DynamicTable& dynamic_table);
     std::vector<uint8_t> encode(const std::vector<HttpHeader>& headers);
 
+    // adopt the table size the peer allows, announcing it in the next header block
+    void set_max_table_size(size_t max_table_size);
+
    private:
     std::vector<uint8_t> write_length_and_string(const std::string& str);
 
     DynamicTable& dynamic_table_;
+    bool pending_size_update_ = false;
+    size_t smallest_pending_size_ = 0;
 };
 
 }  // namespace ion
diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 3ddd74c..cecc1ec 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -18,6 +18,8 @@ static constexpr std::string_view CLIENT_PREFACE{"PRI * HTTP/2.0\r\n\r\nSM\r\n\r
 static constexpr uint8_t FLAG_END_HEADERS = 0x04;
 static constexpr uint8_t FLAG_END_STREAM = 0x01;
 
+static constexpr uint16_t SETTINGS_HEADER_TABLE_SIZE = 0x0001;
+
 static constexpr size_t MAX_READ_BUFFER_SIZE = 64 * 1024;
 static constexpr size_t MAX_FRAME_SIZE = 16384;
 static constexpr size_t INITIAL_READ_BUFFER_SIZE = 16 * 1024;
@@ -238,6 +240,11 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
                     update_state(Http2ConnectionState::ProtocolError);
                     return;
                 }
+                for (const auto& setting : *settings) {
+                    if (setting.identifier == SETTINGS_HEADER_TABLE_SIZE) {
+                        encoder_.set_max_table_size(setting.value);
+                    }
+                }
                 spdlog::debug("read {} settings, sending ACK", settings->size());
                 write_settings_ack();
             }
diff --git a/lib/http2_conn.h b/lib/http2_conn.h
index 59f16bf..975028d 100644
--- a/lib/http2_conn.h
+++ b/lib/http2_conn.h
@@ -54,7 +54,7 @@ class Http2Connection {
     std::vector<uint8_t> write_buffer_;
     Http2ConnectionState state_ = Http2ConnectionState::AwaitingHandshake;
     DynamicTable decoder_dynamic_table_{};
-    DynamicTable encoder_dynamic_table_{};
+    DynamicTable encoder_dynamic_table_{INITIAL_TABLE_SIZE};
     HeaderBlockDecoder decoder_{decoder_dynamic_table_};
     HeaderBlockEncoder encoder_{encoder_dynamic_table_};
     std::chrono::steady_clock::time_point last_activity_{std::chrono::steady_clock::now()};
-- 
2.43.0


From 16a010df5e63db018e01f683cf0f3320d98ffaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:29 +0000
Subject: [PATCH 10/32] fix: a response header block larger than a frame is
 continued in CONTINUATION frames

---
 lib/http2_conn.cpp | 24 +++++++++++++++++-------
 lib/http2_frames.h |  1 +
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index cecc1ec..28db3e9 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -69,13 +69,23 @@ void Http2Connection::write_settings_ack() {
 
 void Http2Connection::write_headers_response(uint32_t stream_id,
                                              std::span<const uint8_t> headers_data, uint8_t flags) {
-    const Http2FrameHeader header{.length = static_cast<uint32_t>(headers_data.size()),
-                                  .type = FRAME_TYPE_HEADERS,
-                                  .flags = flags,
-                                  .stream_id = stream_id};
-
-    write_frame_header(header);
-    enqueue_write(headers_data);
+    // a block which is too large for one frame goes on in CONTINUATION frames
+    bool first = true;
+    do {
+        const auto chunk = headers_data.first(std::min(headers_data.size(), MAX_FRAME_SIZE));
+        headers_data = headers_data.subspan(chunk.size());
+
+        uint8_t frame_flags = first ? flags & ~FLAG_END_HEADERS : 0;
+        if (headers_data.empty()) {
+            frame_flags |= FLAG_END_HEADERS;
+        }
+        write_frame_header({.length = static_cast<uint32_t>(chunk.size()),
+                            .type = first ? FRAME_TYPE_HEADERS : FRAME_TYPE_CONTINUATION,
+                            .flags = frame_flags,
+                            .stream_id = stream_id});
+        enqueue_write(chunk);
+        first = false;
+    } while (!headers_data.empty());
 }
 
 void Http2Connection::write_data_response(uint32_t stream_id, const std::vector<uint8_t>& body) {
diff --git a/lib/http2_frames.h b/lib/http2_frames.h
index eac309b..fe45b6f 100644
--- a/lib/http2_frames.h
+++ b/lib/http2_frames.h
@@ -12,6 +12,7 @@ inline constexpr uint8_t FRAME_TYPE_SETTINGS = 0x04;
 inline constexpr uint8_t FRAME_TYPE_PING = 0x06;
 inline constexpr uint8_t FRAME_TYPE_GOAWAY = 0x07;
 inline constexpr uint8_t FRAME_TYPE_WINDOW_UPDATE = 0x08;
+inline constexpr uint8_t FRAME_TYPE_CONTINUATION = 0x09;
 
 inline uint16_t load_uint16_be(std::span<const uint8_t, 2> data) {
     return static_cast<uint16_t>(data[0]) << 8 | static_cast<uint16_t>(data[1]);
-- 
2.43.0


From c64d7625f321ed1775a61401095d5c187539756f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:42 +0000
Subject: [PATCH 11/32] fix: a connection which cannot be written to is closed
 at once

---
 lib/http2_conn.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 28db3e9..58a04ba 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -511,7 +511,9 @@ void Http2Connection::flush_write_buffer() {
         } else {
             spdlog::error("failed to flush write buffer: error: {}",
                           static_cast<int>(result.error()));
-            update_state(Http2ConnectionState::ProtocolError);
+            // nothing more can be sent
+            write_buffer_.clear();
+            update_state(Http2ConnectionState::ClientClosed);
         }
         return;
     }
-- 
2.43.0


From 8392f679f90097e3e7f93380abca34422c454624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:42 +0000
Subject: [PATCH 12/32] fix: unread input no longer makes the loop spin while a
 connection is write-blocked

---
 lib/http2_server.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/http2_server.cpp b/lib/http2_server.cpp
index 81823fe..3275bbd 100644
--- a/lib/http2_server.cpp
+++ b/lib/http2_server.cpp
@@ -107,7 +107,8 @@ void Http2Server::handle_connection_events(Poller& poller, int fd, PollEventType
     switch (conn->process()) {
         case Http2ProcessResult::WantWrite:
             spdlog::trace("will poll write events for fd {}", fd);
-            poller.set(fd, PollEventType::Read | PollEventType::Write);
+            // nothing is read until the pending output is gone, so input must not wake us up
+            poller.set(fd, PollEventType::Write);
             break;
         case Http2ProcessResult::WantRead:
             // interest is already Read (or was reset above), just keep waiting
-- 
2.43.0


From daa370c13d5d327ed61775048a2152bf218df2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:42 +0000
Subject: [PATCH 13/32] fix: requests which arrive together with the end of the
 client's stream are answered

---
 lib/http2_conn.cpp | 15 ++++++++++++---
 lib/http2_conn.h   |  2 ++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 58a04ba..709e0dc 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -153,8 +153,9 @@ void Http2Connection::fill_read_buffer() {
                     spdlog::trace("transport want read/write");
                     break;
                 case TransportError::ConnectionClosed:
+                    // what was received before is still processed
                     spdlog::debug("transport connection closed");
-                    update_state(Http2ConnectionState::ClientClosed);
+                    input_ended_ = true;
                     break;
                 case TransportError::ProtocolError:
                     spdlog::error("transport protocol error");
@@ -387,7 +388,7 @@ Http2ProcessResult Http2Connection::internal_process() {
                     case ReadPrefaceResult::Success:
                         break;
                     case ReadPrefaceResult::NotEnoughData:
-                        return Http2ProcessResult::WantRead;
+                        return await_input();
                     case ReadPrefaceResult::ProtocolError:
                         return Http2ProcessResult::DiscardConnection;
                 }
@@ -397,7 +398,7 @@ Http2ProcessResult Http2Connection::internal_process() {
                     spdlog::debug("frame processed, continuing...");
                     break;
                 }
-                return Http2ProcessResult::WantRead;
+                return await_input();
             }
             case Http2ConnectionState::Closing: {
                 spdlog::debug("in closing state, completing shutdown");
@@ -420,6 +421,14 @@ Http2ProcessResult Http2Connection::internal_process() {
     }
 }
 
+Http2ProcessResult Http2Connection::await_input() {
+    if (input_ended_) {
+        update_state(Http2ConnectionState::ClientClosed);
+        return Http2ProcessResult::DiscardConnection;
+    }
+    return Http2ProcessResult::WantRead;
+}
+
 void Http2Connection::close() {
     if (state_ == Http2ConnectionState::Closing) {
         spdlog::error("attempting to close connection in closing state");
diff --git a/lib/http2_conn.h b/lib/http2_conn.h
index 975028d..875aacc 100644
--- a/lib/http2_conn.h
+++ b/lib/http2_conn.h
@@ -52,6 +52,7 @@ class Http2Connection {
     const Router& router_;
     std::vector<uint8_t> read_buffer_;
     std::vector<uint8_t> write_buffer_;
+    bool input_ended_ = false;
     Http2ConnectionState state_ = Http2ConnectionState::AwaitingHandshake;
     DynamicTable decoder_dynamic_table_{};
     DynamicTable encoder_dynamic_table_{INITIAL_TABLE_SIZE};
@@ -64,6 +65,7 @@ class Http2Connection {
     Http2WindowUpdate process_window_update_payload(std::span<const uint8_t> payload);
     bool try_read_frame();
     void fill_read_buffer();
+    Http2ProcessResult await_input();
     void discard_processed_buffer(size_t length);
     void write_frame_header(const Http2FrameHeader& header);
     void write_settings(const std::vector<Http2Setting>& settings);
-- 
2.43.0


From 52706763ea1ef54ae829b79662bcecb241aa93a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:46 +0000
Subject: [PATCH 14/32] fix: request header blocks split over CONTINUATION
 frames are assembled

---
 lib/http2_conn.cpp | 41 +++++++++++++++++++++++++++++++++++++++++
 lib/http2_conn.h   |  5 +++++
 2 files changed, 46 insertions(+)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 709e0dc..98e6695 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -22,6 +22,7 @@ static constexpr uint16_t SETTINGS_HEADER_TABLE_SIZE = 0x0001;
 
 static constexpr size_t MAX_READ_BUFFER_SIZE = 64 * 1024;
 static constexpr size_t MAX_FRAME_SIZE = 16384;
+static constexpr size_t MAX_HEADER_BLOCK_SIZE = 64 * 1024;
 static constexpr size_t INITIAL_READ_BUFFER_SIZE = 16 * 1024;
 static constexpr size_t INITIAL_WRITE_BUFFER_SIZE = 16 * 1024;
 static constexpr size_t TEMP_READ_BUFFER_SIZE = 16 * 1024;
@@ -233,12 +234,52 @@ bool Http2Connection::try_read_frame() {
     return true;
 }
 
+void Http2Connection::continue_header_block(const Http2FrameReader& frame) {
+    const auto fragment =
+        frame.type() == FRAME_TYPE_CONTINUATION ? frame.payload() : frame.headers_block();
+    if (continued_block_.size() + fragment.size() > MAX_HEADER_BLOCK_SIZE) {
+        spdlog::error("header block too big (max: {})", MAX_HEADER_BLOCK_SIZE);
+        update_state(Http2ConnectionState::ProtocolError);
+        return;
+    }
+    continued_block_.insert(continued_block_.end(), fragment.begin(), fragment.end());
+    if (!frame.is_end_headers()) {
+        return;
+    }
+
+    // process the assembled block as if it had come in one HEADERS frame
+    const auto block = std::exchange(continued_block_, {});
+    auto header = *std::exchange(continued_frame_, std::nullopt);
+    header.length = static_cast<uint32_t>(block.size());
+    header.flags = (header.flags & FLAG_END_STREAM) | FLAG_END_HEADERS;
+    process_frame(Http2FrameReader{header, block});
+}
+
 void Http2Connection::process_frame(const Http2FrameReader& frame) {
     if (!frame.check_size()) {
         update_state(Http2ConnectionState::ProtocolError);
         return;
     }
 
+    // a header block is continued by nothing but the CONTINUATION frames of its stream
+    const bool is_continuation = frame.type() == FRAME_TYPE_CONTINUATION;
+    if (is_continuation != continued_frame_.has_value() ||
+        (is_continuation && continued_frame_->stream_id != frame.stream_id())) {
+        spdlog::error("unexpected frame (type {}) around a header block", frame.type());
+        update_state(Http2ConnectionState::ProtocolError);
+        return;
+    }
+    if (frame.type() == FRAME_TYPE_HEADERS && !frame.is_end_headers()) {
+        continued_frame_ = {.length = frame.length(),
+                            .type = frame.type(),
+                            .flags = frame.flags(),
+                            .stream_id = frame.stream_id()};
+    }
+    if (continued_frame_) {
+        continue_header_block(frame);
+        return;
+    }
+
     switch (frame.type()) {
         case FRAME_TYPE_SETTINGS: {
             spdlog::debug("received SETTINGS frame (stream={} flags={})", frame.stream_id(),
diff --git a/lib/http2_conn.h b/lib/http2_conn.h
index 875aacc..e2f24d0 100644
--- a/lib/http2_conn.h
+++ b/lib/http2_conn.h
@@ -2,6 +2,7 @@
 #include <opentelemetry/trace/span.h>
 
 #include <chrono>
+#include <optional>
 #include <span>
 #include <vector>
 
@@ -53,6 +54,9 @@ class Http2Connection {
     std::vector<uint8_t> read_buffer_;
     std::vector<uint8_t> write_buffer_;
     bool input_ended_ = false;
+    // a header block which goes on in CONTINUATION frames, and the frame it began with
+    std::optional<Http2FrameHeader> continued_frame_;
+    std::vector<uint8_t> continued_block_;
     Http2ConnectionState state_ = Http2ConnectionState::AwaitingHandshake;
     DynamicTable decoder_dynamic_table_{};
     DynamicTable encoder_dynamic_table_{INITIAL_TABLE_SIZE};
@@ -76,6 +80,7 @@ class Http2Connection {
     void write_goaway(uint32_t last_stream_id, ErrorCode error_code);
     void write_settings();
     void process_frame(const Http2FrameReader& frame);
+    void continue_header_block(const Http2FrameReader& frame);
     void update_state(Http2ConnectionState new_state);
     void log_dynamic_tables();
     HttpResponse process_request(const std::vector<HttpHeader>& req_hdrs, SpanPtr span);
-- 
2.43.0


From deafd4a42303ae0a92e3a5b1be99e2daaf00466f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:46 +0000
Subject: [PATCH 15/32] fix: a request's trailers are not taken for another
 request

---
 lib/http2_conn.cpp | 6 ++++++
 lib/http2_conn.h   | 1 +
 2 files changed, 7 insertions(+)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 98e6695..7025399 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -318,6 +318,12 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
                 return;
             }
 
+            if (frame.stream_id() <= last_stream_id_) {
+                spdlog::debug("trailers of an earlier request ignored");
+                break;
+            }
+            last_stream_id_ = frame.stream_id();
+
             for (const auto& hdr : *hdrs) {
                 spdlog::debug(" - request header: {}: {}", hdr.name, hdr.value);
             }
diff --git a/lib/http2_conn.h b/lib/http2_conn.h
index e2f24d0..2ae85a2 100644
--- a/lib/http2_conn.h
+++ b/lib/http2_conn.h
@@ -54,6 +54,7 @@ class Http2Connection {
     std::vector<uint8_t> read_buffer_;
     std::vector<uint8_t> write_buffer_;
     bool input_ended_ = false;
+    uint32_t last_stream_id_ = 0;
     // a header block which goes on in CONTINUATION frames, and the frame it began with
     std::optional<Http2FrameHeader> continued_frame_;
     std::vector<uint8_t> continued_block_;
-- 
2.43.0


From b6f94481d0f18cea89d52674da25ce993fae3940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:46 +0000
Subject: [PATCH 16/32] fix: PING frames are answered

---
 lib/http2_conn.cpp | 15 +++++++++++++++
 lib/http2_conn.h   |  1 +
 2 files changed, 16 insertions(+)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 7025399..8bd6336 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -68,6 +68,14 @@ void Http2Connection::write_settings_ack() {
     write_frame_header(header);
 }
 
+void Http2Connection::write_ping_ack(std::span<const uint8_t> payload) {
+    write_frame_header({.length = static_cast<uint32_t>(payload.size()),
+                        .type = FRAME_TYPE_PING,
+                        .flags = 0x01,
+                        .stream_id = 0});
+    enqueue_write(payload);
+}
+
 void Http2Connection::write_headers_response(uint32_t stream_id,
                                              std::span<const uint8_t> headers_data, uint8_t flags) {
     // a block which is too large for one frame goes on in CONTINUATION frames
@@ -351,6 +359,13 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
             spdlog::debug("window size increment = {}", window_size_increment);
             break;
         }
+        case FRAME_TYPE_PING: {
+            spdlog::debug("received PING frame");
+            if (!frame.has_flag(0x01)) {
+                write_ping_ack(frame.payload());
+            }
+            break;
+        }
         case FRAME_TYPE_GOAWAY: {
             spdlog::debug("received GOAWAY frame (stream {})", frame.stream_id());
             update_state(Http2ConnectionState::ClientClosed);
diff --git a/lib/http2_conn.h b/lib/http2_conn.h
index 2ae85a2..cf18b8f 100644
--- a/lib/http2_conn.h
+++ b/lib/http2_conn.h
@@ -75,6 +75,7 @@ class Http2Connection {
     void write_frame_header(const Http2FrameHeader& header);
     void write_settings(const std::vector<Http2Setting>& settings);
     void write_settings_ack();
+    void write_ping_ack(std::span<const uint8_t> payload);
     void write_headers_response(uint32_t stream_id, std::span<const uint8_t> headers_data,
                                 uint8_t flags);
     void write_data_response(uint32_t uint32, const std::vector<uint8_t>& body);
-- 
2.43.0


From 498201e94f9b1fb06eef5ac6a5b4335063064ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:46 +0000
Subject: [PATCH 17/32] fix: the 400 response to a request without method or
 path carries its status

---
 lib/http2_conn.cpp | 6 +++++-
 lib/http2_conn.h   | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 8bd6336..b34d41d 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -534,7 +534,7 @@ HttpResponse Http2Connection::process_request(const std::vector<HttpHeader>& hea
 
     if (!path || !method) {
         spdlog::error("invalid request: missing path or method");
-        return HttpResponse{.status_code = 400};
+        return with_server_headers(HttpResponse{.status_code = 400});
     }
 
     span->SetAttribute("http.method", *method);
@@ -554,6 +554,10 @@ HttpResponse Http2Connection::process_request(const std::vector<HttpHeader>& hea
 
     span->SetAttribute("http.status_code", resp.status_code);
 
+    return with_server_headers(std::move(resp));
+}
+
+HttpResponse Http2Connection::with_server_headers(HttpResponse resp) {
     resp.headers.insert(resp.headers.begin(),
                         HttpHeader{":status", std::to_string(resp.status_code)});
     if (!resp.body.empty()) {
diff --git a/lib/http2_conn.h b/lib/http2_conn.h
index cf18b8f..89a4ab8 100644
--- a/lib/http2_conn.h
+++ b/lib/http2_conn.h
@@ -86,6 +86,7 @@ class Http2Connection {
     void update_state(Http2ConnectionState new_state);
     void log_dynamic_tables();
     HttpResponse process_request(const std::vector<HttpHeader>& req_hdrs, SpanPtr span);
+    static HttpResponse with_server_headers(HttpResponse resp);
     void enqueue_write(std::span<const uint8_t> data);
     void flush_write_buffer();
     void update_last_activity();
-- 
2.43.0


From 06e702e654d6b2912e5ab9c00c5fa92c8be8107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:46 +0000
Subject: [PATCH 18/32] fix: whatever a handler or middleware throws fails only
 its own request

---
 lib/http2_conn.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index b34d41d..d518422 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -541,15 +541,18 @@ HttpResponse Http2Connection::process_request(const std::vector<HttpHeader>& hea
     span->SetAttribute("http.target", *path);
     span->SetAttribute("ion.client_ip", client_ip_);
 
-    auto handler = router_.get_handler(path.value(), method.value());
     HttpRequest req{.method = *method, .path = *path, .headers = headers};
 
     HttpResponse resp;
     try {
+        auto handler = router_.get_handler(path.value(), method.value());
         resp = handler(req);
     } catch (const std::exception& e) {
         spdlog::error("error processing request: {}", e.what());
         resp = HttpResponse{.status_code = 500};
+    } catch (...) {
+        spdlog::error("error processing request: unknown exception");
+        resp = HttpResponse{.status_code = 500};
     }
 
     span->SetAttribute("http.status_code", resp.status_code);
-- 
2.43.0


From 26909888b1203102546de4a8c4f7c9006f4d37eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:37 +0000
Subject: [PATCH 19/32] fix: Huffman strings which do not end in proper padding
 are refused

---
 lib/hpack/huffman_tree.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/lib/hpack/huffman_tree.cpp b/lib/hpack/huffman_tree.cpp
index 8375752..6ce175d 100644
--- a/lib/hpack/huffman_tree.cpp
+++ b/lib/hpack/huffman_tree.cpp
@@ -41,32 +41,36 @@ std::expected<std::vector<uint8_t>, HuffmanDecodeError> HuffmanTree::decode(
     BitReader br{data};
     const HuffmanNode* current = root_.get();
     size_t bits_processed = 0;
+    size_t pending_bits = 0;  // since the last symbol
+    bool pending_is_padding = true;
     while (br.has_more()) {
         if (!br.read_bit()) {
             current = current->left.get();
+            pending_is_padding = false;
         } else {
             current = current->right.get();
         }
         bits_processed++;
+        pending_bits++;
 
         if (!current) {
-            while (br.has_more()) {
-                if (!br.read_bit()) {
-                    spdlog::error("remaining unmatched Huffman code is not padding: (bit pos = {})",
-                                  bits_processed);
-                    return std::unexpected{HuffmanDecodeError::InvalidCode};
-                }
-                bits_processed++;
-            }
-            return result;
+            break;
         }
 
         if (current->is_terminal()) {
             result.push_back(*current->symbol);
             current = root_.get();
+            pending_bits = 0;
+            pending_is_padding = true;
         }
     }
 
+    // padding is less than a byte of ones (RFC 7541, 5.2)
+    if (pending_bits > 7 || !pending_is_padding) {
+        spdlog::error("remaining unmatched Huffman code is not padding: (bit pos = {})",
+                      bits_processed);
+        return std::unexpected{HuffmanDecodeError::InvalidCode};
+    }
     return result;
 }
 
-- 
2.43.0


From 172b67231d098f9ccad6a9a3bc7ec1b2addbe0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:37 +0000
Subject: [PATCH 20/32] fix: a TLS handshake blocked on output goes on when the
 socket is writable

---
 lib/http2_conn.cpp               | 5 +++++
 lib/transports/tls_transport.cpp | 9 ++++++---
 lib/transports/transport.h       | 1 +
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index d518422..f1141cf 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -159,6 +159,7 @@ void Http2Connection::fill_read_buffer() {
         if (!bytes_read_res) {
             switch (bytes_read_res.error()) {
                 case TransportError::WantReadOrWrite:
+                case TransportError::WantWrite:
                     spdlog::trace("transport want read/write");
                     break;
                 case TransportError::ConnectionClosed:
@@ -416,6 +417,10 @@ std::optional<Http2ProcessResult> Http2Connection::handle_handshake() {
             spdlog::trace("handshake: want read/write");
             return Http2ProcessResult::WantRead;
         }
+        if (handshake_result.error() == TransportError::WantWrite) {
+            spdlog::trace("handshake: want write");
+            return Http2ProcessResult::WantWrite;
+        }
         if (handshake_result.error() == TransportError::ConnectionClosed) {
             spdlog::trace("handshake: connection closed");
             return Http2ProcessResult::DiscardConnection;
diff --git a/lib/transports/tls_transport.cpp b/lib/transports/tls_transport.cpp
index db2092c..380964e 100644
--- a/lib/transports/tls_transport.cpp
+++ b/lib/transports/tls_transport.cpp
@@ -49,11 +49,14 @@ std::expected<void, TransportError> TlsTransport::handshake() const {
         case SSL_ERROR_ZERO_RETURN:
             spdlog::debug("TLS connection closed by peer before handshake (likely health check)");
             return std::unexpected(TransportError::ConnectionClosed);
-        case SSL_ERROR_WANT_READ:
-        case SSL_ERROR_WANT_WRITE: {
-            spdlog::trace("TLS handshake want read/write");
+        case SSL_ERROR_WANT_READ: {
+            spdlog::trace("TLS handshake want read");
             return std::unexpected(TransportError::WantReadOrWrite);
         }
+        case SSL_ERROR_WANT_WRITE: {
+            spdlog::trace("TLS handshake want write");
+            return std::unexpected(TransportError::WantWrite);
+        }
         case SSL_ERROR_SSL: {
             const unsigned long err = ERR_get_error();
             if (ERR_GET_REASON(err) == SSL_R_UNEXPECTED_EOF_WHILE_READING) {
diff --git a/lib/transports/transport.h b/lib/transports/transport.h
index e02e96d..d6dd8fb 100644
--- a/lib/transports/transport.h
+++ b/lib/transports/transport.h
@@ -8,6 +8,7 @@ namespace ion {
 
 enum class TransportError {
     WantReadOrWrite,
+    WantWrite,  // while handshaking: nothing more to read until the socket takes output
     WriteError,
     ConnectionClosed,
     ProtocolError,
-- 
2.43.0


From ac69137a77ffe35565bd211cdd1c788229ddce08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:37 +0000
Subject: [PATCH 21/32] fix: header values can no longer split or forge access
 log lines

---
 lib/access_log.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/lib/access_log.cpp b/lib/access_log.cpp
index 20b5202..7cc0a7f 100644
--- a/lib/access_log.cpp
+++ b/lib/access_log.cpp
@@ -8,6 +8,24 @@
 
 namespace ion {
 
+// clients choose these values: none may end its field or its line
+static std::string escape(const std::string& value) {
+    std::string result;
+    result.reserve(value.size());
+    for (const char c : value) {
+        const auto byte = static_cast<uint8_t>(c);
+        if (c == '"' || c == '\\') {
+            result.push_back('\\');
+            result.push_back(c);
+        } else if (byte < 0x20 || byte > 0x7e) {
+            result += std::format("\\x{:02x}", byte);
+        } else {
+            result.push_back(c);
+        }
+    }
+    return result;
+}
+
 void AccessLog::log_request(std::vector<HttpHeader>& req_headers, uint16_t status_code,
                             size_t content_length, const std::string& client_ip) {
     auto access_log = spdlog::get(ACCESS_LOGGER_NAME);
@@ -22,16 +40,16 @@ void AccessLog::log_request(std::vector<HttpHeader>& req_headers, uint16_t statu
 
     for (const auto& [name, value] : req_headers) {
         if (name == ":method") {
-            method = value;
+            method = escape(value);
         }
         if (name == ":path") {
-            path = value;
+            path = escape(value);
         }
         if (name == "user-agent") {
-            user_agent = value;
+            user_agent = escape(value);
         }
         if (name == "referer") {
-            referrer = value;
+            referrer = escape(value);
         }
     }
     const auto entry =
-- 
2.43.0


From d9799e35cc7d17d7298febfd2be65e0bbc068e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:37 +0000
Subject: [PATCH 22/32] fix: the access log is written whatever the log level

---
 app/main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/main.cpp b/app/main.cpp
index 66dc04a..b244338 100644
--- a/app/main.cpp
+++ b/app/main.cpp
@@ -67,6 +67,7 @@ void setup_access_logs(const std::string& log_path) {
     try {
         auto logger = spdlog::basic_logger_mt(ion::AccessLog::ACCESS_LOGGER_NAME, log_path);
         logger->set_pattern("%v");
+        logger->set_level(spdlog::level::info);  // whatever level diagnostics are logged at
         logger->flush_on(spdlog::level::info);
         spdlog::info("writing access logs to {}", log_path);
     } catch (const spdlog::spdlog_ex& e) {
-- 
2.43.0


From a8737d1b81640b03ac2c37b3c3a0ef3b3a02c884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:37 +0000
Subject: [PATCH 23/32] fix: the custom 404 page is not sent in response to
 HEAD

---
 app/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/main.cpp b/app/main.cpp
index b244338..c14aced 100644
--- a/app/main.cpp
+++ b/app/main.cpp
@@ -46,8 +46,8 @@ void run_server(const Args& args) {
                 auto res = next(req);
 
                 if (res.status_code == 404) {
-                    auto file_res =
-                        ion::StaticFileHandler::file_response(args.status_404_file_path, false);
+                    auto file_res = ion::StaticFileHandler::file_response(
+                        args.status_404_file_path, req.method == "HEAD");
                     file_res.status_code = 404;
                     return file_res;
                 }
-- 
2.43.0


From 9241f9cf780ee7380494a7226a542ce08f3ad5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:46 +0000
Subject: [PATCH 24/32] fix: the status page counts the 500 responses of
 handlers which throw

---
 app/server_stats.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/app/server_stats.cpp b/app/server_stats.cpp
index af5448c..297b345 100644
--- a/app/server_stats.cpp
+++ b/app/server_stats.cpp
@@ -1,5 +1,6 @@
 #include "server_stats.h"
 
+#include <exception>
 #include <iomanip>
 #include <random>
 
@@ -20,13 +21,25 @@ ion::Middleware ServerStats::middleware() {
             stats.total_requests++;
             const auto start = std::chrono::steady_clock::now();
 
-            auto res = next(req);
+            // an exception becomes a 500 response once it has left all middleware
+            uint16_t status_code = 500;
+            std::exception_ptr failure;
+            ion::HttpResponse res{};
+            try {
+                res = next(req);
+                status_code = res.status_code;
+            } catch (...) {
+                failure = std::current_exception();
+            }
 
             const auto end = std::chrono::steady_clock::now();
             const auto duration =
                 std::chrono::duration_cast<std::chrono::microseconds>(end - start).count();
             stats.total_duration_us += duration;
-            stats.status_codes[res.status_code]++;
+            stats.status_codes[status_code]++;
+            if (failure) {
+                std::rethrow_exception(failure);
+            }
             return res;
         };
     };
-- 
2.43.0


From 26f96eb596c8f162895ea47110cf6ec9934d8ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:46 +0000
Subject: [PATCH 25/32] fix: losing the reader of the standard output or error
 stops the server

---
 app/signal_handler.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/app/signal_handler.cpp b/app/signal_handler.cpp
index 5c52083..af4d173 100644
--- a/app/signal_handler.cpp
+++ b/app/signal_handler.cpp
@@ -1,7 +1,9 @@
 #include "signal_handler.h"
 
+#include <poll.h>
 #include <unistd.h>
 
+#include <cerrno>
 #include <csignal>
 
 SignalHandler SignalHandler::setup(ion::Http2Server& server) {
@@ -37,11 +39,16 @@ void SignalHandler::signal_handler(int) {
 }
 
 void SignalHandler::sigpipe_handler(int) {
-    constexpr char dummy = 0;
-    if (write(STDOUT_FILENO, &dummy, 0) < 0 && errno == EPIPE) {
-        stop_server(ion::StopReason::StdOutPipeBroken);
-    }
-    if (write(STDERR_FILENO, &dummy, 0) < 0 && errno == EPIPE) {
-        stop_server(ion::StopReason::StdErrPipeBroken);
+    // writing nothing to a pipe always succeeds, so ask whether its reader is gone
+    const int saved_errno = errno;
+    pollfd outputs[] = {{STDOUT_FILENO, 0, 0}, {STDERR_FILENO, 0, 0}};
+    if (poll(outputs, 2, 0) > 0) {
+        if (outputs[0].revents & (POLLERR | POLLHUP)) {
+            stop_server(ion::StopReason::StdOutPipeBroken);
+        }
+        if (outputs[1].revents & (POLLERR | POLLHUP)) {
+            stop_server(ion::StopReason::StdErrPipeBroken);
+        }
     }
+    errno = saved_errno;
 }
-- 
2.43.0


From 6de079605ad718d3dd9fa68122acf5e708835a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:53 +0000
Subject: [PATCH 26/32] fix: a closed standard output no longer kills the
 server while it shuts down

---
 app/signal_handler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/signal_handler.cpp b/app/signal_handler.cpp
index af4d173..c6ccfe7 100644
--- a/app/signal_handler.cpp
+++ b/app/signal_handler.cpp
@@ -24,7 +24,8 @@ SignalHandler::SignalHandler(ion::Http2Server& server) {
 SignalHandler::~SignalHandler() {
     std::signal(SIGINT, SIG_DFL);
     std::signal(SIGTERM, SIG_DFL);
-    std::signal(SIGPIPE, SIG_DFL);
+    // what is logged on the way out must not kill the process if its reader is gone
+    std::signal(SIGPIPE, SIG_IGN);
     server_.store(nullptr);
 };
 
-- 
2.43.0


From 0502691afbc2fad8fc0e03e5d1c7556aba700ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:13 +0000
Subject: [PATCH 27/32] fix: a link after a missing path component and ".." is
 checked like any other

---
 lib/file_reader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/file_reader.cpp b/lib/file_reader.cpp
index f7e4ce2..d599139 100644
--- a/lib/file_reader.cpp
+++ b/lib/file_reader.cpp
@@ -115,7 +115,8 @@ std::optional<std::string> FileReader::sanitize_path(const std::string& base_dir
         fs::path combined = requested.is_absolute() ? requested : (base / requested);
 
         // Normalize the combined path (resolve .. and . where possible without requiring the leaf)
-        auto full = fs::weakly_canonical(combined);
+        // Once more, as links which follow a missing component and ".." are not resolved at first
+        auto full = fs::weakly_canonical(fs::weakly_canonical(combined));
 
         // Ensure the resolved path is within the base directory by comparing path components
         auto base_it = base.begin();
-- 
2.43.0


From e874c58e9f789e19c0bf94f32b497f0d926ce085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:25 +0000
Subject: [PATCH 28/32] fix: a TLS response sent more slowly than a record per
 attempt counts as activity

---
 lib/transports/tls_transport.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/transports/tls_transport.cpp b/lib/transports/tls_transport.cpp
index 380964e..0b87d90 100644
--- a/lib/transports/tls_transport.cpp
+++ b/lib/transports/tls_transport.cpp
@@ -8,6 +8,7 @@
 #include <sys/poll.h>
 #include <unistd.h>
 
+#include <algorithm>
 #include <fstream>
 
 namespace ion {
@@ -126,7 +127,10 @@ std::expected<ssize_t, TransportError> TlsTransport::read(std::span<uint8_t> buf
 
 std::expected<ssize_t, TransportError> TlsTransport::write(std::span<const uint8_t> buffer) const {
     ERR_clear_error();
-    const auto bytes_written = SSL_write(ssl_, buffer.data(), static_cast<int>(buffer.size()));
+    // one record at a time: SSL_write() does not report a record whose rest it has sent if the
+    // next one blocks, and progress on a slow connection would go unnoticed
+    const auto size = std::min<size_t>(buffer.size(), SSL3_RT_MAX_PLAIN_LENGTH);
+    const auto bytes_written = SSL_write(ssl_, buffer.data(), static_cast<int>(size));
     if (bytes_written <= 0) {
         switch (const int ssl_error = SSL_get_error(ssl_, bytes_written)) {
             case SSL_ERROR_WANT_READ:
-- 
2.43.0


From 7a8d7970528dc0fe45e99fb6054ec38896905df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:38 +0000
Subject: [PATCH 29/32] fix: a small header block no longer expands into an
 unbounded header list

---
 lib/hpack/header_block_decoder.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/hpack/header_block_decoder.cpp b/lib/hpack/header_block_decoder.cpp
index 69cc6f1..42d7630 100644
--- a/lib/hpack/header_block_decoder.cpp
+++ b/lib/hpack/header_block_decoder.cpp
@@ -15,6 +15,10 @@ namespace ion {
 
 static constexpr size_t MAX_HEADER_STRING_LENGTH = 4 * 1024;
 
+// references to table entries take a byte each but decode to whole headers
+static constexpr size_t MAX_HEADER_LIST_SIZE = 512 * 1024;
+static constexpr size_t HEADER_OVERHEAD = 32;
+
 static void populate_huffman_tree(HuffmanTree& tree) {
     for (uint16_t i = 0; i < static_cast<uint16_t>(HUFFMAN_CODES.size()); i++) {
         auto code = HUFFMAN_CODES[i];
@@ -190,6 +194,7 @@ std::expected<void, FrameError> HeaderBlockDecoder::decode_dynamic_table_size_up
 std::expected<std::vector<HttpHeader>, FrameError> HeaderBlockDecoder::decode(
     std::span<const uint8_t> data) {
     auto hdrs = std::vector<HttpHeader>{};
+    size_t list_size = 0;
     ByteReader reader(data);
 
     while (reader.has_bytes()) {
@@ -234,6 +239,14 @@ std::expected<std::vector<HttpHeader>, FrameError> HeaderBlockDecoder::decode(
                 return std::unexpected(FrameError::ProtocolError);
             }
         }
+
+        if (type != HeaderFieldType::SizeUpdate) {
+            list_size += hdrs.back().name.size() + hdrs.back().value.size() + HEADER_OVERHEAD;
+        }
+        if (list_size > MAX_HEADER_LIST_SIZE) {
+            spdlog::error("header list too big (max: {})", MAX_HEADER_LIST_SIZE);
+            return std::unexpected(FrameError::ProtocolError);
+        }
     }
     return hdrs;
 }
-- 
2.43.0


From 0b1d04decb95e5b8c553ac0a10ce43dfa37a5fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:38 +0000
Subject: [PATCH 30/32] fix: flow-control credit for request bodies is given
 back, so large uploads go on

---
 lib/http2_conn.cpp | 22 ++++++++++++++++++++++
 lib/http2_conn.h   |  1 +
 2 files changed, 23 insertions(+)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index f1141cf..ab65553 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -76,6 +76,16 @@ void Http2Connection::write_ping_ack(std::span<const uint8_t> payload) {
     enqueue_write(payload);
 }
 
+void Http2Connection::write_window_update(uint32_t stream_id, uint32_t increment) {
+    write_frame_header({.length = Http2WindowUpdate::wire_size,
+                        .type = FRAME_TYPE_WINDOW_UPDATE,
+                        .flags = 0x00,
+                        .stream_id = stream_id});
+    std::array<uint8_t, Http2WindowUpdate::wire_size> payload_bytes{};
+    Http2WindowUpdate{.window_size_increment = increment}.serialize(payload_bytes);
+    enqueue_write(payload_bytes);
+}
+
 void Http2Connection::write_headers_response(uint32_t stream_id,
                                              std::span<const uint8_t> headers_data, uint8_t flags) {
     // a block which is too large for one frame goes on in CONTINUATION frames
@@ -354,6 +364,18 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
             AccessLog::log_request(*hdrs, resp.status_code, resp.body.size(), client_ip_);
             break;
         }
+        case FRAME_TYPE_DATA: {
+            // request bodies are not kept, so the client may send as much again at once
+            spdlog::debug("received DATA frame (stream={} length={})", frame.stream_id(),
+                          frame.length());
+            if (frame.length() > 0) {
+                write_window_update(0, frame.length());
+                if (!frame.is_end_stream()) {
+                    write_window_update(frame.stream_id(), frame.length());
+                }
+            }
+            break;
+        }
         case FRAME_TYPE_WINDOW_UPDATE: {
             spdlog::debug("received WINDOW_UPDATE frame for stream {}", frame.stream_id());
             const auto [window_size_increment] = frame.read_window_update();
diff --git a/lib/http2_conn.h b/lib/http2_conn.h
index 89a4ab8..c38f48c 100644
--- a/lib/http2_conn.h
+++ b/lib/http2_conn.h
@@ -76,6 +76,7 @@ class Http2Connection {
     void write_settings(const std::vector<Http2Setting>& settings);
     void write_settings_ack();
     void write_ping_ack(std::span<const uint8_t> payload);
+    void write_window_update(uint32_t stream_id, uint32_t increment);
     void write_headers_response(uint32_t stream_id, std::span<const uint8_t> headers_data,
                                 uint8_t flags);
     void write_data_response(uint32_t uint32, const std::vector<uint8_t>& body);
-- 
2.43.0


From 06f1bebe97d4f4c0330638fa7c73e806b7267f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:44 +0000
Subject: [PATCH 31/32] fix: a client which never stops sending no longer keeps
 every other one waiting

---
 lib/http2_conn.cpp   | 16 +++++++++++++++-
 lib/http2_conn.h     |  2 ++
 lib/http2_server.cpp | 11 ++++++++++-
 lib/http2_server.h   |  3 +++
 4 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index ab65553..6c04758 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -27,6 +27,9 @@ static constexpr size_t INITIAL_READ_BUFFER_SIZE = 16 * 1024;
 static constexpr size_t INITIAL_WRITE_BUFFER_SIZE = 16 * 1024;
 static constexpr size_t TEMP_READ_BUFFER_SIZE = 16 * 1024;
 
+// reads and frames taken from one connection before the others get their turn
+static constexpr size_t MAX_TURN_STEPS = 64;
+
 static constexpr std::chrono::seconds IDLE_TIMEOUT{5};
 
 Http2Connection::Http2Connection(std::unique_ptr<Transport> transport, const std::string& client_ip,
@@ -157,7 +160,7 @@ void Http2Connection::write_settings() {
 }
 
 void Http2Connection::fill_read_buffer() {
-    while (true) {
+    while (turn_steps_ < MAX_TURN_STEPS) {
         if (read_buffer_.size() + TEMP_READ_BUFFER_SIZE >= MAX_READ_BUFFER_SIZE) {
             spdlog::debug("read buffer full");
             return;
@@ -191,6 +194,7 @@ void Http2Connection::fill_read_buffer() {
             return;
         }
         const auto bytes_read = *bytes_read_res;
+        ++turn_steps_;
         update_last_activity();
         read_buffer_.insert(read_buffer_.end(), buffer.begin(), buffer.begin() + bytes_read);
         spdlog::trace("read {} bytes, buffer size now {}", bytes_read, read_buffer_.size());
@@ -453,6 +457,7 @@ std::optional<Http2ProcessResult> Http2Connection::handle_handshake() {
 }
 
 Http2ProcessResult Http2Connection::internal_process() {
+    turn_steps_ = 0;
     while (true) {
         spdlog::trace("processing state: {}", state_to_string(state_));
 
@@ -469,6 +474,11 @@ Http2ProcessResult Http2Connection::internal_process() {
             return Http2ProcessResult::WantWrite;
         }
 
+        // there may be more to do without anything else arriving, but it is the others' turn
+        if (turn_steps_ >= MAX_TURN_STEPS) {
+            return Http2ProcessResult::WantTurn;
+        }
+
         fill_read_buffer();
 
         switch (state_) {
@@ -484,6 +494,7 @@ Http2ProcessResult Http2Connection::internal_process() {
             }
             case Http2ConnectionState::AwaitingFrame: {
                 if (try_read_frame()) {
+                    ++turn_steps_;
                     spdlog::debug("frame processed, continuing...");
                     break;
                 }
@@ -511,6 +522,9 @@ Http2ProcessResult Http2Connection::internal_process() {
 }
 
 Http2ProcessResult Http2Connection::await_input() {
+    if (turn_steps_ >= MAX_TURN_STEPS) {
+        return Http2ProcessResult::WantTurn;
+    }
     if (input_ended_) {
         update_state(Http2ConnectionState::ClientClosed);
         return Http2ProcessResult::DiscardConnection;
diff --git a/lib/http2_conn.h b/lib/http2_conn.h
index c38f48c..5361e14 100644
--- a/lib/http2_conn.h
+++ b/lib/http2_conn.h
@@ -20,6 +20,7 @@ using SpanPtr = opentelemetry::nostd::shared_ptr<opentelemetry::trace::Span>;
 enum class Http2ProcessResult {
     WantRead,
     WantWrite,
+    WantTurn,
     DiscardConnection,
 };
 
@@ -54,6 +55,7 @@ class Http2Connection {
     std::vector<uint8_t> read_buffer_;
     std::vector<uint8_t> write_buffer_;
     bool input_ended_ = false;
+    size_t turn_steps_ = 0;
     uint32_t last_stream_id_ = 0;
     // a header block which goes on in CONTINUATION frames, and the frame it began with
     std::optional<Http2FrameHeader> continued_frame_;
diff --git a/lib/http2_server.cpp b/lib/http2_server.cpp
index 3275bbd..2c67e9e 100644
--- a/lib/http2_server.cpp
+++ b/lib/http2_server.cpp
@@ -113,6 +113,9 @@ void Http2Server::handle_connection_events(Poller& poller, int fd, PollEventType
         case Http2ProcessResult::WantRead:
             // interest is already Read (or was reset above), just keep waiting
             break;
+        case Http2ProcessResult::WantTurn:
+            unfinished_.insert(fd);
+            break;
         case Http2ProcessResult::DiscardConnection:
             spdlog::info("closing connection");
             poller.remove(fd);
@@ -133,7 +136,13 @@ void Http2Server::start(uint16_t port) {
     while (!user_req_termination_) {
         reap_idle_connections(*poller);
 
-        auto events = poller->poll(POLL_TIMEOUT);
+        // before the poll, so that no event it reports can be for a connection closed here
+        for (const int fd : std::exchange(unfinished_, {})) {
+            handle_connection_events(*poller, fd, PollEventType::Read);
+        }
+
+        auto events =
+            poller->poll(unfinished_.empty() ? POLL_TIMEOUT : std::chrono::milliseconds{0});
         if (!events) {
             continue;
         }
diff --git a/lib/http2_server.h b/lib/http2_server.h
index fd9aa84..e51bb21 100644
--- a/lib/http2_server.h
+++ b/lib/http2_server.h
@@ -2,6 +2,7 @@
 
 #include <csignal>
 #include <map>
+#include <set>
 
 #include "http2_conn.h"
 #include "pollers/poller.h"
@@ -37,6 +38,8 @@ class Http2Server {
     ServerConfiguration config_;
     StopReason stop_reason_{};
     std::map<int, std::unique_ptr<Http2Connection>> connections_;
+    // connections which have more to do without waiting for an event
+    std::set<int> unfinished_;
     std::optional<TlsContext> tls_ctx_{};
 };
 
-- 
2.43.0


From 970a14e0ca3592f231e9651311a73e2153c0d3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:34 +0000
Subject: [PATCH 32/32] fix: no memory for one connection no longer ends the
 server

---
 lib/http2_server.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/http2_server.cpp b/lib/http2_server.cpp
index 2c67e9e..f396db9 100644
--- a/lib/http2_server.cpp
+++ b/lib/http2_server.cpp
@@ -39,17 +39,16 @@ void Http2Server::establish_conn(TcpListener& listener, Poller& poller) {
     spdlog::info("client connected (ip: {})", client_ip_res.value_or("unknown"));
 
     const int raw_fd = *fd;
-    std::unique_ptr<Transport> transport;
     try {
-        transport = create_transport(std::move(fd.value()));
+        auto transport = create_transport(std::move(fd.value()));
+        auto conn = std::make_unique<Http2Connection>(std::move(transport),
+                                                      client_ip_res.value_or(""), router_);
+        connections_[raw_fd] = std::move(conn);
     } catch (const std::exception& e) {
         spdlog::error("dropping new connection: {}", e.what());
         return;
     }
 
-    auto conn = std::make_unique<Http2Connection>(std::move(transport), client_ip_res.value_or(""),
-                                                  router_);
-    connections_[raw_fd] = std::move(conn);
     spdlog::info("HTTP connection established. total = {}", connections_.size());
 
     poller.set(raw_fd, PollEventType::Read);
-- 
2.43.0

