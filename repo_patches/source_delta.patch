From 5cf6528605ca622b5c267011e5d2b38af330e62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:52 +0000
Subject: [PATCH 01/56] fix: percent-encode bytes above 127 (negative chars
 indexed the digits table out of bounds)

---
 include/http/Encodings.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index 44ab149..e01b277 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -22,12 +22,13 @@ namespace uri {
     std::string encoded;
     static std::array digits{'0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'A', 'B', 'C', 'D', 'E', 'F'};
     for (auto c : uri) {
-        if (std::isalnum(c) || c == '-' || c == '_' || c == '.' || c == '~')
+        auto byte = static_cast<uint8_t>(c);
+        if (std::isalnum(byte) || c == '-' || c == '_' || c == '.' || c == '~')
             encoded += c;
         else {
             encoded += "%";
-            encoded += digits[static_cast<size_t>(c >> 4)];
-            encoded += digits[static_cast<size_t>(c % 16)];
+            encoded += digits[static_cast<size_t>(byte >> 4)];
+            encoded += digits[static_cast<size_t>(byte % 16)];
         }
     }
     return encoded;
-- 
2.43.0


From ab647080313cbfbf036d67584da0f4c6e096169b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:52 +0000
Subject: [PATCH 02/56] fix: do not pass negative chars to isxdigit when
 percent-decoding

---
 include/http/Encodings.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index e01b277..1b23995 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -40,7 +40,8 @@ namespace uri {
     for (std::size_t index = 0; index < uri.size(); ++index) {
         switch (uri[index]) {
         case '%':
-            if (index + 3 <= uri.size() && std::isxdigit(uri[index + 1]) && std::isxdigit(uri[index + 2])) {
+            if (index + 3 <= uri.size() && std::isxdigit(static_cast<uint8_t>(uri[index + 1])) &&
+                std::isxdigit(static_cast<uint8_t>(uri[index + 2]))) {
                 auto hexToValue = [](char c) -> uint8_t {
                     if (c >= '0' && c <= '9') return uint8_t(c - '0');
                     if (c >= 'A' && c <= 'F') return uint8_t(c - 'A' + 10);
-- 
2.43.0


From d68dd89f35ec9042ad2d9c373ceaa3c13a39262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:52 +0000
Subject: [PATCH 03/56] fix: URI splitting no longer depends on shared static
 state, misses components, nor dangles in copies

---
 include/http/Encodings.hpp | 59 ++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index 1b23995..6403e3c 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -12,6 +12,7 @@
 #include <span>
 #include <string>
 #include <string_view>
+#include <utility>
 
 #include <iostream>
 
@@ -68,38 +69,40 @@ namespace uri {
 //  └─┬─┘   └─────────────┬────────────┘└───────┬───────┘ └────────────┬────────────┘ └┬┘
 //  scheme          authority                  path                  query           fragment
 struct URI {
-    URI(std::string uri) : string(uri), scheme(next(string)), authority(next(string)), path(next(string)), query(next(string)),
-        fragment(next(string)), userinfo(next(authority)), host(next(authority)), port(next(authority)) {}
-        
+    URI(std::string uri) : string(std::move(uri)), scheme(split(string)[0]), authority(split(string)[1]), path(split(string)[2]), query(split(string)[3]),
+        fragment(split(string)[4]), userinfo(split(string)[5]), host(split(string)[6]), port(split(string)[7]) {}
+    URI(const URI& other) : URI(other.string) {}
+
     const std::string string;
     const std::string_view scheme, authority, path, query, fragment, userinfo, host, port;
 
-private:    
-    static std::string_view next(std::string_view uri) {
-        const size_t schem{0}, autho{1}, path_{2}, quer_{3}, fragm{4}, usrnf{5}, host_{6}, port_{7}, npos = std::string_view::npos; 
-        static size_t step{port_}, mark, mark2;
-        step = (step == port_) ? schem : step + 1;
-        switch (step) {
-            case schem: mark = uri.find("://");
-                if (mark == npos) { mark = uri.size() - 3; return {}; } else return uri.substr(0, mark);
-            case autho: mark2 = uri.find("/", mark + 3);
-                if (mark2 == npos) { mark2 = uri.size() - 1; return {}; } else return uri.substr(mark + 3, mark2 - mark - 3);
-            case path_: mark = uri.find("?", mark2 + 1);
-                if (mark == npos) {
-                    mark = uri.find("#");
-                    if (mark == npos) { mark = uri.size() - 1; return uri.substr(mark2); }
-                }
-                return uri.substr(mark2, mark - mark2);
-            case quer_: mark2 = uri.find("#", mark + 1);
-                if (mark2 == npos) { mark2 = uri.size() - 1; return uri.substr(mark + 1); } else return uri.substr(mark + 1, mark2 - mark - 1);
-            case fragm: return uri.substr(mark2 + 1);
-            case usrnf: mark = uri.find("@");
-                if (mark == npos) return {}; else return uri.substr(0, mark);
-            case host_: mark2 = uri.find(":", mark + 1);
-                if (mark2 == npos) return uri.substr(mark + 1); else return uri.substr(mark + 1, mark2 - mark - 1);
-            case port_: if (mark2 != npos) return uri.substr(mark2 + 1);
+private:
+    static std::array<std::string_view, 8> split(std::string_view uri) {
+        std::string_view scheme, authority, path, query, fragment, userinfo, host, port;
+        constexpr auto npos = std::string_view::npos;
+        auto cut = [](std::string_view& head, std::string_view& tail, size_t mark) { // head is truncated before mark, tail is what follows it
+            if (mark == npos) return;
+            tail = head.substr(mark + 1);
+            head = head.substr(0, mark);
+        };
+
+        path = uri;
+        cut(path, fragment, path.find('#'));
+        cut(path, query, path.find('?'));
+        auto mark = path.find('/');
+        if (mark != npos && mark > 0 && path.substr(mark - 1, 3) == "://") {
+            scheme = path.substr(0, mark - 1);
+            authority = path.substr(mark + 2, path.find('/', mark + 2) - (mark + 2));
+            path.remove_prefix(mark + 2 + authority.size());
+        }
+        host = authority;
+        if (host.find('@') != npos) {
+            cut(host, userinfo, host.find('@'));
+            std::swap(host, userinfo);
         }
-        return {};           
+        mark = host.starts_with('[') ? host.find(']') : 0; // ':' may appear in a bracketed IPv6 address
+        cut(host, port, host.find(':', mark == npos ? 0 : mark));
+        return {scheme, authority, path, query, fragment, userinfo, host, port};
     }
 };
 } // namespace uri
-- 
2.43.0


From 826a04d978672c46cde7e4765f685c18ae11c60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:52 +0000
Subject: [PATCH 04/56] fix: base64 of 0 or 1 byte no longer reads out of
 bounds, no trailing NUL for multiples of 3 bytes

---
 include/http/Encodings.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index 6403e3c..d848cc5 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -116,10 +116,10 @@ namespace detail {
                                     'W', 'X', 'Y', 'Z', 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r',
                                     's', 't', 'u', 'v', 'w', 'x', 'y', 'z', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '+', '/'};
 
-    std::string output((4 * (size + 2) / 3), '\0');
+    std::string output(4 * ((size + 2) / 3), '\0');
     auto coded = output.begin();
     size_t i = 0;
-    for (; i < size - 2; i += 3) {
+    for (; i + 2 < size; i += 3) {
         *coded++ = code[(input[i] >> 2) & 0x3Fu];
         *coded++ = code[((input[i] & 0x3u) << 4) | ((input[i + 1] & 0xF0u) >> 4)];
         *coded++ = code[((input[i + 1] & 0xFu) << 2) | ((input[i + 2] & 0xC0u) >> 6)];
-- 
2.43.0


From 4e0dc5c28045536549a1c0f15b7a8e1cefe0e9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:52 +0000
Subject: [PATCH 05/56] fix: SHA-1 encodes the full 64-bit message length
 (messages of 512 MB and more)

---
 include/http/Encodings.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index d848cc5..86e1b36 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -216,7 +216,7 @@ static constexpr size_t sha1Length = 5;
     if (blockByteIndex > 56)
         while (blockByteIndex != 0) next(0);
     while (blockByteIndex < 56) next(0);
-    for (auto value : {uint8_t(0), uint8_t(0), uint8_t(0), uint8_t(0), uint8_t(b >> 24), uint8_t(b >> 16), uint8_t(b >> 8), uint8_t(b)}) next(value);
+    for (size_t shift = 64; shift > 0; shift -= 8) next(static_cast<uint8_t>(static_cast<uint64_t>(b) >> (shift - 8)));
 
     return digest;
 }
-- 
2.43.0


From 7928049606ad567693fc2840e8e40fcbae92255a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 06/56] fix: request parser scratch buffer is per request, not
 shared by all the connections

---
 include/http/HTTPServer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 7257cf9..753a423 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -115,6 +115,7 @@ private: // clang-format off
     enum class State { methodStart, method, URI, versionH, versionT1, versionT2, versionP, versionSlash, versionMajorStart, versionMajor, versionMinorStart,
                  versionMinor, newline1, headerLineStart, headerLws, headerName, spaceBeforeHeaderValue, headerValue, newline2, newline3, completed };
     State state { State::methodStart };    
+    std::string buffer; // token being parsed
     bool completeRequest(char input) {
         auto isChar = [](char c) { return c >= 0; };
         auto isCtrl = [](char c) { return (c >= 0 && c <= 31) || (c == 127); };
@@ -129,7 +130,6 @@ private: // clang-format off
             if (cond) throw BadRequestException();
         };
 
-        static std::string buffer;
         using enum State;
         switch (state) {
             case methodStart:
-- 
2.43.0


From 28c9214ab3ab08c760cf5136ec5dc53340db7931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 07/56] fix: refuse HTTP version numbers which would overflow
 an int

---
 include/http/HTTPServer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 753a423..9043d1e 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -129,6 +129,7 @@ private: // clang-format off
             state = next;
             if (cond) throw BadRequestException();
         };
+        auto isTooBig = [](int version) { return version > 99999; }; // one more digit could overflow
 
         using enum State;
         switch (state) {
@@ -150,12 +151,12 @@ private: // clang-format off
             case versionSlash: setState(input != '/', versionMajorStart); httpVersionMajor = 0; httpVersionMinor = 0; break;
             case versionMajorStart: setState(!isDigit(input), versionMajor); httpVersionMajor = httpVersionMajor * 10 + input - '0'; break;
             case versionMajor: if (input == '.') state = versionMinorStart;
-                                    else if (isDigit(input)) httpVersionMajor = httpVersionMajor * 10 + input - '0';
+                                    else if (isDigit(input) && !isTooBig(httpVersionMajor)) httpVersionMajor = httpVersionMajor * 10 + input - '0';
                                     else throw BadRequestException();
                 break;
             case versionMinorStart: setState(!isDigit(input), versionMinor); httpVersionMinor = httpVersionMinor * 10 + input - '0'; break;
             case versionMinor: if (input == '\r') state = newline1;
-                                    else if (isDigit(input)) httpVersionMinor = httpVersionMinor * 10 + input - '0';
+                                    else if (isDigit(input) && !isTooBig(httpVersionMinor)) httpVersionMinor = httpVersionMinor * 10 + input - '0';
                                     else throw BadRequestException();
                 break;
             case newline1: setState(input != '\n', headerLineStart); break;
-- 
2.43.0


From e7c62f5145388cbb070dd6f1ef99cfcd97e7a938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 08/56] fix: status line text belongs to its response (a
 concurrent response overwrote it while being sent)

---
 include/http/HTTPServer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 9043d1e..667bed3 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -211,7 +211,6 @@ struct Response : Headers {
     template<typename Net>
     [[nodiscard]] std::vector<typename Net::ConstBuffer> toBuffers() const {
         std::vector<typename Net::ConstBuffer> buffers;
-        static std::string httpStatus;
         httpStatus = "HTTP/1.1 " + std::to_string(statusCode) + " " + toString(statusCode) + "\r\n";
         buffers.push_back(Net::Buffer(httpStatus));
 
@@ -230,6 +229,8 @@ struct Response : Headers {
     }
 
 private:
+    mutable std::string httpStatus; // status line referenced by the buffers
+
     [[nodiscard]] static std::string toString(StatusCode code) {
         switch (code) {
         case switchingProtocols: return "Switching Protocols";
-- 
2.43.0


From 9b0bdaf2945822291f17fcad1473603f21251dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 09/56] fix: refuse request targets containing a NUL, which
 truncated the path of the file opened

---
 include/http/HTTPServer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 667bed3..19e01fd 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -257,7 +257,8 @@ public:
     Response handleRequest(Request request) {
         auto requestUri = uri::decode(request.uri);
         log::debug("Request uri - raw:'{}' decoded:'{}'", request.uri, requestUri);
-        if (requestUri.empty() || requestUri[0] != '/' || requestUri.find("..") != std::string::npos)
+        if (requestUri.empty() || requestUri[0] != '/' || requestUri.find("..") != std::string::npos ||
+            requestUri.find('\0') != std::string::npos)
             return Response::getStatusResponse(Response::badRequest);
         auto requestPath = std::filesystem::path(requestUri).relative_path();
         log::debug("  -> requestPath : {}", requestPath.string());
-- 
2.43.0


From 38bddcad5e971adf921ca8f473e8a1bed0e36ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 10/56] fix: a directory is not a file, it was served as an
 empty one with status 200

---
 include/system/NativeFS.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/system/NativeFS.hpp b/include/system/NativeFS.hpp
index 334a21d..04f6ab1 100644
--- a/include/system/NativeFS.hpp
+++ b/include/system/NativeFS.hpp
@@ -5,7 +5,9 @@
 
 #include "FileSystem.hpp"
 
+#include <filesystem>
 #include <fstream>
+#include <system_error>
 
 namespace webfront::fs {
 
@@ -14,6 +16,7 @@ class NativeRawFS {
 public:
     std::optional<File> open(std::filesystem::path path) {
         std::ifstream file;
+        if (std::error_code ec; !std::filesystem::is_regular_file(rootPath / path, ec)) return {};
         file.open(rootPath / path, std::ios::binary);
         if (file.is_open()) return File{std::move(file)};
         return {};
-- 
2.43.0


From 10d4871e048dd722e8f99d04272d889184c14a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 11/56] fix: embedded files read uninitialised data when a read
 did not start on a word boundary

---
 include/system/FileSystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/system/FileSystem.hpp b/include/system/FileSystem.hpp
index ea7fed2..143307d 100644
--- a/include/system/FileSystem.hpp
+++ b/include/system/FileSystem.hpp
@@ -73,7 +73,7 @@ private:
         for (size_t index = 0; (index < buffer.size()); ++index) {
             if (eof()) return index;
 
-            if (readIndex % bytesPerInt == 0) chunk = convert(data[readIndex / bytesPerInt]);
+            if (index == 0 || readIndex % bytesPerInt == 0) chunk = convert(data[readIndex / bytesPerInt]);
 
             buffer[index] = static_cast<char>(chunk.byte[readIndex % bytesPerInt]);
             readIndex++;
-- 
2.43.0


From bf2d014dd78c0e058326e6c89d0e38dc941a0c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:01 +0000
Subject: [PATCH 12/56] fix: csv files were served as text/css

---
 include/http/MimeType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/MimeType.hpp b/include/http/MimeType.hpp
index eeac5be..0333e7e 100644
--- a/include/http/MimeType.hpp
+++ b/include/http/MimeType.hpp
@@ -35,7 +35,7 @@ struct MimeType {
     [[nodiscard]] constexpr std::string_view toString() const {
         auto names =
           std::array{"text/plain",      "text/html", "text/css",     "application/javascript", "image/jpeg", "image/png", "image/gif", "application/json",
-                     "application/pdf", "font/ttf",  "image/x-icon", "image/svg+xml",          "image/webp", "text/css",  "text/csv"};
+                     "application/pdf", "font/ttf",  "image/x-icon", "image/svg+xml",          "image/webp", "text/csv"};
         return names[type];
     }
 };
-- 
2.43.0


From 5219ec50a8b74410dded7921f4c4ef13ebd991dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:01 +0000
Subject: [PATCH 13/56] fix: the answer to HEAD declares the length and coding
 GET would have

---
 include/http/HTTPServer.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 19e01fd..a76b78c 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -265,6 +265,7 @@ public:
         if (!requestPath.has_filename()) requestPath /= "index.html";
 
         Response response;
+        size_t contentLength{};
         switch (request.method) {
         case Request::Method::Get: {
             if (request.isUpgradeRequest("websocket")) {
@@ -291,17 +292,23 @@ public:
             std::array<char, 512> buffer{0, 0};
             while (auto bytesRead = file->read(buffer)) response.content.append(buffer.data(), bytesRead);
             if (file->isEncoded()) response.headers.emplace_back("Content-Encoding", file->getEncoding());
+            contentLength = response.content.size();
 
         } break;
-        case Request::Method::Head:
-            if (!fs.open(requestPath)) return Response::getStatusResponse(Response::notFound);
-            break;
+        case Request::Method::Head: {
+            auto file = fs.open(requestPath);
+            if (!file) return Response::getStatusResponse(Response::notFound);
+            if (file->isEncoded()) response.headers.emplace_back("Content-Encoding", file->getEncoding());
+
+            std::array<char, 512> buffer{0, 0};
+            while (auto bytesRead = file->read(buffer)) contentLength += bytesRead;
+        } break;
 
         default: return Response::getStatusResponse(Response::notImplemented);
         };
 
         response.statusCode = Response::ok;
-        response.headers.emplace_back("Content-Length", std::to_string(response.content.size()));
+        response.headers.emplace_back("Content-Length", std::to_string(contentLength));
         response.headers.emplace_back("Content-Type", MimeType(requestPath.extension().string()).toString());
 
         return response;
-- 
2.43.0


From 64cce3247fdcadb608352195fe7e94da8d0839f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:01 +0000
Subject: [PATCH 14/56] fix: no body is sent in answer to HEAD, errors included

---
 include/http/HTTPServer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index a76b78c..4d98a59 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -391,6 +391,7 @@ private:
                         if (request.completed()) {
                             log::info("Received request {} on {}", request.getMethodName(), request.uri);
                             response = requestHandler.handleRequest(request);
+                            if (request.method == Request::Method::Head) response.content.clear(); // never a body, even with an error status
                             log::info("  responding http {}", static_cast<int>(response.statusCode));
                             write();
                             if (response.statusCode == Response::switchingProtocols) protocol = Protocol::HTTPUpgrading;
-- 
2.43.0


From c6ae068a14810751dfe8a6637a2e1d8ec384d0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:01 +0000
Subject: [PATCH 15/56] fix: upgraded connections were retained forever, and
 upgraded even when the 101 answer could not be sent

---
 include/http/HTTPServer.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 4d98a59..d002bfa 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -340,6 +340,8 @@ public:
         connection->stop();
     }
 
+    void remove(std::shared_ptr<ConnectionType> connection) { connections.erase(connection); }
+
     void stopAll() {
         for (auto connection : connections) connection->stop();
         connections.clear();
@@ -416,9 +418,10 @@ private:
     void write() {
         auto self(this->shared_from_this());
         Net::AsyncWrite(socket, response.toBuffers<Net>(), [this, self](std::error_code ec, std::size_t /*bytesTransferred*/) {
-            if (protocol == Protocol::HTTPUpgrading) {
+            if (protocol == Protocol::HTTPUpgrading && !ec) {
                 protocol = Protocol::WebSocket;
                 if (onUpgrade) onUpgrade(std::move(socket), protocol);
+                connections.remove(self);
             }
             else {
                 if (!ec) socket.shutdown(Net::Socket::shutdown_both);
-- 
2.43.0


From 904f698fdf3406dcf37b1da21307c1542eb73066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:01 +0000
Subject: [PATCH 16/56] fix: an exception of shutdown on a connection reset by
 the client escaped from run()

---
 include/http/HTTPServer.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index d002bfa..9dbc758 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -424,7 +424,12 @@ private:
                 connections.remove(self);
             }
             else {
-                if (!ec) socket.shutdown(Net::Socket::shutdown_both);
+                try {
+                    if (!ec) socket.shutdown(Net::Socket::shutdown_both);
+                }
+                catch (const std::exception& e) { // the client may already have reset the connection
+                    log::debug("Connection shutdown : {}", e.what());
+                }
                 if (ec != Net::Error::OperationAborted) connections.stop(self);
             }
         });
-- 
2.43.0


From 593b4507b85f2ee03435ebd1cfac43c15ddbb936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:18 +0000
Subject: [PATCH 17/56] fix: setPayloadSize shifted by a negative amount and
 wrote one byte too many

---
 include/http/WebSocket.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 3af01e4..f2a2154 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -99,7 +99,7 @@ struct Header {
     void setPayloadSize(size_t size) {
         raw[1] = (raw[1] & std::byte(0b10000000)) | std::byte(size < 126 ? size : size < 65536 ? 126 : 127);
         size_t len = size < 126 ? 0 : size < 65536 ? 2 : 8;
-        for (size_t i = 0; i <= len; ++i) raw[2 + i] = std::byte(size >> (8 * (len - i - 1)));
+        for (size_t i = 0; i < len; ++i) raw[2 + i] = std::byte(size >> (8 * (len - i - 1)));
     }
 
 protected:
-- 
2.43.0


From fc99a04d292c71f7d3cec62985fdc1c5d5d5b94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:18 +0000
Subject: [PATCH 18/56] fix: the header sent for a frame which had grown or
 been moved was truncated or dangling

---
 include/http/WebSocket.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index f2a2154..87304a5 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -137,7 +137,11 @@ struct Frame : public Header {
 
     [[nodiscard]] size_t size() const { return payloadSize(); };
 
-    std::vector<typename Net::ConstBuffer> toBuffers() const { return buffers; }
+    std::vector<typename Net::ConstBuffer> toBuffers() const {
+        auto frameBuffers = buffers;
+        frameBuffers.front() = {raw.data(), headerSize()}; // header may have grown or moved since the construction
+        return frameBuffers;
+    }
 
     /// @return size of added buffer
     size_t addBuffer(std::span<const std::byte> buffer) {
-- 
2.43.0


From d5611ed0ac0fda5c872211c58bb07c8dcb32318d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:18 +0000
Subject: [PATCH 19/56] fix: frames with an extended length, split header or
 payload were completed too early, or reserved the announced size

---
 include/http/WebSocket.hpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 87304a5..687de02 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -80,8 +80,7 @@ struct Header {
 
     /// @return true if first 'size' bytes constitute a complete header
     [[nodiscard]] bool isComplete(size_t size) const {
-        if (size < 2) return false;
-        return std::to_integer<uint8_t>(raw[1] & std::byte(0b1111111)) < 126 ? size >= 6 : size >= 14;
+        return size >= 2 && size >= headerSize();
     }
 
     void setFIN(bool set) {
@@ -160,7 +159,7 @@ public:
 
 public:
     FrameDecoder() : payloadBuffer(sizeof(Header)) { reset(); }
-    std::span<const std::byte> payload() const { return std::span(payloadBuffer.data(), payloadSize); }
+    std::span<const std::byte> payload() const { return payloadBuffer; }
 
     // Parses some incoming data and tries to decode it.
     // @return true if the frame is complete, false if it needs more data
@@ -169,12 +168,12 @@ public:
             for (auto in : encoded) payloadBuffer.push_back(in ^ mask[maskIndex++ % 4]);
             return payloadBuffer.size();
         };
+        auto missingData = [&](size_t available) { return std::min<size_t>(available, payloadSize - payloadBuffer.size()); };
         auto decodeHeader = [&](auto input) {
             payloadSize = reinterpret_cast<const Header*>(input)->payloadSize();
             headerSize = reinterpret_cast<const Header*>(input)->headerSize();
             mask = reinterpret_cast<const Header*>(input)->maskingKey();
             frameType = reinterpret_cast<const Header*>(input)->opcode();
-            payloadBuffer.reserve(payloadSize);
         };
         auto bufferizeHeaderData = [&](std::span<const std::byte> input) -> size_t {
             for (size_t index = 0; index < input.size(); ++index) {
@@ -186,10 +185,10 @@ public:
 
         switch (state) {
         case DecodingState::starting:
-            if (reinterpret_cast<const Header*>(buffer.data())->isComplete(buffer.size())) {
+            if (buffer.size() >= 2 && reinterpret_cast<const Header*>(buffer.data())->isComplete(buffer.size())) {
                 reinterpret_cast<const Header*>(buffer.data())->dump();
                 decodeHeader(buffer.data());
-                if (decodePayload(buffer.subspan(headerSize, std::min(buffer.size() - headerSize, payloadSize))) == payloadSize) return true;
+                if (decodePayload(buffer.subspan(headerSize, missingData(buffer.size() - headerSize))) == payloadSize) return true;
                 state = DecodingState::decodingPayload;
             }
             else {
@@ -201,13 +200,12 @@ public:
             auto consumedData = bufferizeHeaderData(buffer);
             if (headerBuffer.isComplete(headerBufferParser)) {
                 decodeHeader(headerBuffer.raw.data());
-                if (decodePayload(buffer.subspan(consumedData, std::min(buffer.size() - consumedData, payloadSize))) == payloadSize) return true;
+                if (decodePayload(buffer.subspan(consumedData, missingData(buffer.size() - consumedData))) == payloadSize) return true;
                 state = DecodingState::decodingPayload;
             }
         } break;
         case DecodingState::decodingPayload: {
-            decodePayload(buffer.first(std::min(payloadSize - payloadBuffer.size(), buffer.size())));
-            return (buffer.size() >= (payloadSize - payloadBuffer.size()));
+            return decodePayload(buffer.first(missingData(buffer.size()))) == payloadSize;
         }
         }
         return false;
@@ -225,7 +223,8 @@ private:
     std::vector<std::byte> payloadBuffer;
     Header headerBuffer;
     size_t headerBufferParser;
-    size_t payloadSize, headerSize;
+    uint64_t payloadSize;
+    size_t headerSize;
     std::array<std::byte, 4> mask;
     uint8_t maskIndex;
 };
-- 
2.43.0


From 16e3ee7a90c8339fc5c24377e4fa665e978e6a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:49 +0000
Subject: [PATCH 20/56] fix: only the first of several WebSocket frames
 received in one read was decoded

---
 include/http/WebSocket.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 687de02..610afa8 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -160,12 +160,15 @@ public:
 public:
     FrameDecoder() : payloadBuffer(sizeof(Header)) { reset(); }
     std::span<const std::byte> payload() const { return payloadBuffer; }
+    /// @return the data following the frame completed by the last call to parse()
+    std::span<const std::byte> unparsed() const { return unparsedData; }
 
     // Parses some incoming data and tries to decode it.
     // @return true if the frame is complete, false if it needs more data
     bool parse(std::span<const std::byte> buffer) {
         auto decodePayload = [&](std::span<const std::byte> encoded) -> size_t {
             for (auto in : encoded) payloadBuffer.push_back(in ^ mask[maskIndex++ % 4]);
+            unparsedData = std::span(encoded.data() + encoded.size(), buffer.data() + buffer.size());
             return payloadBuffer.size();
         };
         auto missingData = [&](size_t available) { return std::min<size_t>(available, payloadSize - payloadBuffer.size()); };
@@ -221,6 +224,7 @@ public:
 private:
     enum class DecodingState { starting, partialHeader, decodingPayload } state;
     std::vector<std::byte> payloadBuffer;
+    std::span<const std::byte> unparsedData;
     Header headerBuffer;
     size_t headerBufferParser;
     uint64_t payloadSize;
@@ -275,7 +279,9 @@ private:
     void read() {
         socket.async_read_some(Net::Buffer(readBuffer), [this](std::error_code ec, std::size_t bytesTransferred) {
             if (!ec) {
-                if (decoder.parse(std::span(readBuffer.data(), bytesTransferred))) {
+                auto received = std::span<const std::byte>(readBuffer.data(), bytesTransferred);
+                while (!received.empty() && decoder.parse(received)) {
+                    received = decoder.unparsed();
                     auto data = decoder.payload();
                     switch (decoder.frameType) {
                     case Header::Opcode::text:
-- 
2.43.0


From a8b33fb522ea14a94a7b6692b848108dc4572279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:19 +0000
Subject: [PATCH 21/56] fix: starting a WebSocket twice launched two concurrent
 reads in the same buffer

---
 include/http/WebSocket.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 610afa8..c79ef13 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -250,6 +250,7 @@ public:
     ~WebSocket() { log::debug("WebSocket destructor"); }
 
     void start() {
+        if (started) return;
         started = true;
         read();
     }
-- 
2.43.0


From 542bb1e82884891c6abd1bd3de78923cc4fca235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:19 +0000
Subject: [PATCH 22/56] fix: WebSocket messages were sent from memory already
 released and interleaved with one another

---
 include/http/WebSocket.hpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index c79ef13..a0ab5b4 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -8,6 +8,7 @@
 
 #include <array>
 #include <cstddef>
+#include <deque>
 #include <functional>
 #include <memory>
 #include <set>
@@ -274,6 +275,7 @@ private:
     std::function<void(std::string_view)> textHandler;
     std::function<void(std::span<const std::byte>)> binaryHandler;
     std::function<void(CloseEvent)> closeHandler;
+    std::deque<std::shared_ptr<std::vector<std::byte>>> pendingWrites;
     bool started;
 
 private:
@@ -309,9 +311,27 @@ private:
         });
     }
 
+    /// The frame and the data it refers to may not outlive the call, and only one write can be in progress at a time
     void writeData(Frame<Net> frame) {
-        Net::AsyncWrite(socket, frame.toBuffers(), [this](std::error_code ec, std::size_t /*bytesTransferred*/) {
-            if (ec) {
+        if (!started) return;
+        auto frameData = std::make_shared<std::vector<std::byte>>();
+        for (const auto& buffer : frame.toBuffers()) {
+            auto bytes = static_cast<const std::byte*>(buffer.data());
+            frameData->insert(frameData->end(), bytes, bytes + buffer.size());
+        }
+        pendingWrites.push_back(std::move(frameData));
+        if (pendingWrites.size() == 1) writeNext();
+    }
+
+    void writeNext() {
+        auto data = pendingWrites.front();
+        auto buffers = std::array{typename Net::ConstBuffer(data->data(), data->size())};
+        Net::AsyncWrite(socket, buffers, [this, data](std::error_code ec, std::size_t /*bytesTransferred*/) {
+            if (!ec) {
+                pendingWrites.pop_front();
+                if (!pendingWrites.empty()) writeNext();
+            }
+            else {
                 if (started) {
                     log::error("Error during write : ec.value() = {}", ec.value());
                     if (closeHandler) closeHandler(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
-- 
2.43.0


From 7018d72b3a266404c701be4ce64dec3637a5d809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:19 +0000
Subject: [PATCH 23/56] fix: the end of a WebSocket was notified several times,
 messages were delivered after it, and pending operations used it once
 destroyed

---
 include/http/WebSocket.hpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index a0ab5b4..84e404c 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -13,6 +13,7 @@
 #include <memory>
 #include <set>
 #include <span>
+#include <utility>
 
 namespace webfront::websocket {
 using Handle = uint32_t;
@@ -277,13 +278,21 @@ private:
     std::function<void(CloseEvent)> closeHandler;
     std::deque<std::shared_ptr<std::vector<std::byte>>> pendingWrites;
     bool started;
+    std::shared_ptr<bool> lifetime = std::make_shared<bool>(true); /// Expires with the WebSocket : its pending operations have to do nothing
 
 private:
+    /// Ends the connection and notifies it only once, the handler may destroy this WebSocket
+    void close(CloseEvent event) {
+        stop();
+        if (auto handler = std::exchange(closeHandler, nullptr)) handler(std::move(event));
+    }
+
     void read() {
-        socket.async_read_some(Net::Buffer(readBuffer), [this](std::error_code ec, std::size_t bytesTransferred) {
+        socket.async_read_some(Net::Buffer(readBuffer), [this, alive = std::weak_ptr(lifetime)](std::error_code ec, std::size_t bytesTransferred) {
+            if (alive.expired()) return;
             if (!ec) {
                 auto received = std::span<const std::byte>(readBuffer.data(), bytesTransferred);
-                while (!received.empty() && decoder.parse(received)) {
+                while (started && !received.empty() && decoder.parse(received)) {
                     received = decoder.unparsed();
                     auto data = decoder.payload();
                     switch (decoder.frameType) {
@@ -294,9 +303,7 @@ private:
                         if (binaryHandler) binaryHandler(data);
                         break;
                     case Header::Opcode::connectionClose:
-                        if (closeHandler) closeHandler(CloseEvent{});
-                        stop();
-                        break;
+                        return close(CloseEvent{});
                     default: log::debug("Unhandled frameType");
                     };
                     decoder.reset();
@@ -305,8 +312,7 @@ private:
             }
             else {
                 log::error("Error in websocket::read() : {}:{}", ec.value(), ec.message());
-                if (closeHandler) closeHandler(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
-                stop();
+                close(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
             }
         });
     }
@@ -326,7 +332,8 @@ private:
     void writeNext() {
         auto data = pendingWrites.front();
         auto buffers = std::array{typename Net::ConstBuffer(data->data(), data->size())};
-        Net::AsyncWrite(socket, buffers, [this, data](std::error_code ec, std::size_t /*bytesTransferred*/) {
+        Net::AsyncWrite(socket, buffers, [this, data, alive = std::weak_ptr(lifetime)](std::error_code ec, std::size_t /*bytesTransferred*/) {
+            if (alive.expired()) return;
             if (!ec) {
                 pendingWrites.pop_front();
                 if (!pendingWrites.empty()) writeNext();
@@ -334,8 +341,7 @@ private:
             else {
                 if (started) {
                     log::error("Error during write : ec.value() = {}", ec.value());
-                    if (closeHandler) closeHandler(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
-                    if (ec != Net::Error::OperationAborted) stop();
+                    close(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
                 }
             }
         });
-- 
2.43.0


From 7990b9aeefbb04833357d32d8a4e67c4d9aac72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:19 +0000
Subject: [PATCH 24/56] fix: status code and reason of a close frame were not
 given to the close handler

---
 include/http/WebSocket.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 84e404c..d7b4205 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -287,6 +287,13 @@ private:
         if (auto handler = std::exchange(closeHandler, nullptr)) handler(std::move(event));
     }
 
+    static CloseEvent closeEvent(std::span<const std::byte> data) {
+        if (data.size() < 2) return {1005, {}}; // RFC6455 7.1.5 : no status code received
+        auto reason = data.subspan(2);
+        return {static_cast<uint16_t>(std::to_integer<uint16_t>(data[0]) << 8 | std::to_integer<uint16_t>(data[1])),
+                std::string(reinterpret_cast<const char*>(reason.data()), reason.size())};
+    }
+
     void read() {
         socket.async_read_some(Net::Buffer(readBuffer), [this, alive = std::weak_ptr(lifetime)](std::error_code ec, std::size_t bytesTransferred) {
             if (alive.expired()) return;
@@ -303,7 +310,7 @@ private:
                         if (binaryHandler) binaryHandler(data);
                         break;
                     case Header::Opcode::connectionClose:
-                        return close(CloseEvent{});
+                        return close(closeEvent(data));
                     default: log::debug("Unhandled frameType");
                     };
                     decoder.reset();
-- 
2.43.0


From 790117c4c6268d4c8f6a1dc6be601f2aa04a84af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:19 +0000
Subject: [PATCH 25/56] fix: fragments of a WebSocket message were delivered as
 separate messages or dropped

---
 include/http/WebSocket.hpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index d7b4205..f3a56f9 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -158,6 +158,7 @@ struct Frame : public Header {
 class FrameDecoder {
 public:
     Header::Opcode frameType;
+    bool isFinal;
 
 public:
     FrameDecoder() : payloadBuffer(sizeof(Header)) { reset(); }
@@ -179,6 +180,7 @@ public:
             headerSize = reinterpret_cast<const Header*>(input)->headerSize();
             mask = reinterpret_cast<const Header*>(input)->maskingKey();
             frameType = reinterpret_cast<const Header*>(input)->opcode();
+            isFinal = reinterpret_cast<const Header*>(input)->FIN();
         };
         auto bufferizeHeaderData = [&](std::span<const std::byte> input) -> size_t {
             for (size_t index = 0; index < input.size(); ++index) {
@@ -273,6 +275,8 @@ public:
 private:
     std::array<std::byte, receptionBufferSize> readBuffer;
     FrameDecoder decoder;
+    Header::Opcode fragmentsType = Header::Opcode::continuation;
+    std::vector<std::byte> fragments;
     std::function<void(std::string_view)> textHandler;
     std::function<void(std::span<const std::byte>)> binaryHandler;
     std::function<void(CloseEvent)> closeHandler;
@@ -287,6 +291,20 @@ private:
         if (auto handler = std::exchange(closeHandler, nullptr)) handler(std::move(event));
     }
 
+    /// Joins the fragments of a message, control frames may be received between them
+    /// @return the type of the completed message or continuation if the message needs more frames
+    Header::Opcode assemble(std::span<const std::byte>& data) {
+        if (decoder.frameType > Header::Opcode::binary) return decoder.frameType;
+        if (decoder.frameType != Header::Opcode::continuation) {
+            fragmentsType = decoder.frameType;
+            fragments.clear();
+        }
+        fragments.insert(fragments.end(), data.begin(), data.end());
+        if (!decoder.isFinal) return Header::Opcode::continuation;
+        data = fragments;
+        return std::exchange(fragmentsType, Header::Opcode::continuation);
+    }
+
     static CloseEvent closeEvent(std::span<const std::byte> data) {
         if (data.size() < 2) return {1005, {}}; // RFC6455 7.1.5 : no status code received
         auto reason = data.subspan(2);
@@ -302,7 +320,7 @@ private:
                 while (started && !received.empty() && decoder.parse(received)) {
                     received = decoder.unparsed();
                     auto data = decoder.payload();
-                    switch (decoder.frameType) {
+                    switch (assemble(data)) {
                     case Header::Opcode::text:
                         if (textHandler) textHandler(std::string_view(reinterpret_cast<const char*>(data.data()), data.size()));
                         break;
@@ -311,6 +329,7 @@ private:
                         break;
                     case Header::Opcode::connectionClose:
                         return close(closeEvent(data));
+                    case Header::Opcode::continuation: break; // the message is not complete yet
                     default: log::debug("Unhandled frameType");
                     };
                     decoder.reset();
-- 
2.43.0


From dceaf1c3058f774e37927cf99d4a8fa3f2bc2cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:19 +0000
Subject: [PATCH 26/56] fix: pings were not answered

---
 include/http/WebSocket.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index f3a56f9..0a8d3f7 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -329,6 +329,7 @@ private:
                         break;
                     case Header::Opcode::connectionClose:
                         return close(closeEvent(data));
+                    case Header::Opcode::ping: pong(data); break;
                     case Header::Opcode::continuation: break; // the message is not complete yet
                     default: log::debug("Unhandled frameType");
                     };
@@ -343,6 +344,12 @@ private:
         });
     }
 
+    void pong(std::span<const std::byte> data) {
+        Frame<Net> frame(data);
+        frame.setOpcode(Header::Opcode::pong);
+        writeData(std::move(frame));
+    }
+
     /// The frame and the data it refers to may not outlive the call, and only one write can be in progress at a time
     void writeData(Frame<Net> frame) {
         if (!started) return;
-- 
2.43.0


From 4925d757cda2084a665c59d5d094e1a95a2d064a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 27/56] fix: a JavaScript function object used twice sent wrong
 sizes, then overflowed its buffer

---
 include/JsFunction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/JsFunction.hpp b/include/JsFunction.hpp
index 5eb62f8..f5eb361 100644
--- a/include/JsFunction.hpp
+++ b/include/JsFunction.hpp
@@ -21,7 +21,7 @@ public:
         : name(functionName), webFront(wf), webLinkId(linkId) {}
 
     void operator()(auto&&... ts) {
-        command.setParametersCount(0);
+        command = {};
         websocket::Frame<typename WebFront::Net> frame{std::span(reinterpret_cast<const std::byte*>(command.header().data()), command.header().size())};
         command.encodeParameter(name, frame);
         (((command.encodeParameter(std::forward<decltype(ts)>(ts), frame))), ...);
-- 
2.43.0


From 15c439e2ec5137e9d6c9db28a95c6e8aff694342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 28/56] fix: calls with many parameters overflowed a buffer,
 and strings of more than 65535 bytes were sent with a wrong size

---
 include/weblink/Messages.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 16453d6..f382d70 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -3,6 +3,7 @@
 /// @brief Messages exchanged between webfront clients and server
 #pragma once
 
+#include <algorithm>
 #include <array>
 #include <bit>
 #include <cstddef>
@@ -166,7 +167,8 @@ class FunctionCall : public MessageBase<FunctionCall> {
     } head;
     static_assert(sizeof(Header) == 8, "FunctionCall header has to be 8 bytes long");
 
-    std::array<std::byte, 1024> buffer; // When composing a msg, buffer doesn't represent the payload but some bufferized data
+    static constexpr size_t maxParametersCount = 255, maxStringSize = 65535;
+    std::array<std::byte, maxParametersCount * (1 + sizeof(double))> buffer; // When composing a msg, buffer doesn't represent the payload but some bufferized data
     size_t encodeBufferIndex = 0;
     friend class MessageBase<FunctionCall>;
 
@@ -204,7 +206,8 @@ public:
     void encodeParameter(T&& t, WebSocketFrame& frame) {
         using namespace std;
         using ParamType = remove_cvref_t<T>;
-        setParametersCount(getParametersCount() + 1);
+        if (getParametersCount() == maxParametersCount) throw length_error("Too many parameters for a msg::FunctionCall");
+        setParametersCount(static_cast<uint8_t>(getParametersCount() + 1));
 
         if constexpr (is_printable<T>::value) {
             std::cout << "Param: " << typeName<T>() << " -> " << typeName<ParamType>() << " : " << t << "\n";
@@ -219,6 +222,7 @@ public:
         };
 
         [[maybe_unused]] auto encodeString = [&](const char* str, size_t size) constexpr {
+            if (size > maxStringSize) throw length_error("String parameter too long for a msg::FunctionCall");
             if (size < 256)
                 encodeType(msg::CodedType::smallString, static_cast<uint8_t>(size), frame);
             else
@@ -274,7 +278,7 @@ public:
 
         else if constexpr (is_base_of_v<std::exception, ParamType>) {
             std::cout << "Exception : " << t.what() << '\n';
-            auto textSize = char_traits<char>::length(t.what());
+            auto textSize = std::min(char_traits<char>::length(t.what()), maxStringSize);
             encodeType(msg::CodedType::exception, static_cast<uint16_t>(textSize), frame);
             frame.addBuffer(span(reinterpret_cast<const std::byte*>(t.what()), textSize));
             incrementPayloadSize(textSize);
-- 
2.43.0


From 7e477697e162e59a73b60655d37280168a3cef9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 29/56] fix: texts of more than 65535 bytes were sent with a
 wrong size

---
 include/weblink/Messages.hpp | 6 +++++-
 include/weblink/WebLink.hpp  | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index f382d70..7029963 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -147,11 +147,15 @@ class TextCommand : public MessageBase<TextCommand> {
     friend class MessageBase<TextCommand>;
 
 public:
+    static constexpr size_t maxTextSize = 65535;
+
     TextCommand(TxtOpcode opcode, std::string_view text)
         : head{.opcode = opcode,
                .lengthHi = static_cast<uint8_t>(text.size() >> 8),
                .lengthLo = static_cast<uint8_t>(text.size())},
-          payloadSpan{reinterpret_cast<const std::byte*>(text.data()), text.size()} {}
+          payloadSpan{reinterpret_cast<const std::byte*>(text.data()), text.size()} {
+        if (text.size() > maxTextSize) throw std::length_error("Text too long for a msg::TextCommand");
+    }
 
     [[nodiscard]] std::span<const std::byte> payload() const { return payloadSpan; }
     [[nodiscard]] size_t getPayloadSize() const { return static_cast<uint16_t>(256 * head.lengthHi + head.lengthLo); }
diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index fb4f54d..144b34d 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -52,7 +52,7 @@ public:
                 auto command = msg::Handshake::castFromRawData(data);
                 sendCommand(msg::Ack{});
                 logSink =
-                  log::addSinks([this](std::string_view t) { sendCommand(msg::TextCommand(msg::TxtOpcode::debugLog, t)); });
+                  log::addSinks([this](std::string_view t) { sendCommand(msg::TextCommand(msg::TxtOpcode::debugLog, t.substr(0, msg::TextCommand::maxTextSize))); });
                 sameEndian = (std::endian::native == std::endian::little &&
                               static_cast<msg::JSEndian>(command->getEndian()) == msg::JSEndian::little) ||
                              (std::endian::native == std::endian::big &&
-- 
2.43.0


From f85f9de3953c8013831f387d1b51535c41feda67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 30/56] fix: booleans were always decoded as false and not
 consumed

---
 include/weblink/Messages.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 7029963..d458056 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -318,6 +318,15 @@ public:
                 data = data.subspan(3 + size);
             }
             break;
+        case CodedType::booleanTrue:
+        case CodedType::booleanFalse:
+            if constexpr (is_same_v<T, bool>) {
+                param = codedType == CodedType::booleanTrue;
+                data = data.subspan(1);
+            }
+            else
+                param = {};
+            break;
         case CodedType::number:
             if constexpr (is_arithmetic_v<T>) {
                 double value;
-- 
2.43.0


From 41169950b92e0fb937663b56a6e5379a90adda73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 31/56] fix: decoding a truncated string or tuple read past the
 end of the message

---
 include/weblink/Messages.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index d458056..c6130c3 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -300,7 +300,7 @@ public:
         switch (codedType) {
         case CodedType::smallString:
             if constexpr (is_same_v<T, string>) {
-                if (data.size() < 1u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
+                if (data.size() < 2u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 auto size = static_cast<size_t>(data[1]);
                 if (data.size() < 2u + size) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 param = string(reinterpret_cast<const char*>(&data[2]), size);
@@ -310,7 +310,7 @@ public:
         case CodedType::string:
         case CodedType::exception:
             if constexpr (is_same_v<T, string>) {
-                if (data.size() < 1u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
+                if (data.size() < 3u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 uint16_t size;
                 copy_n(&data[1], 2, reinterpret_cast<byte*>(&size));
                 if (data.size() < 3u + size) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
@@ -339,6 +339,7 @@ public:
             break;
         case CodedType::tuple:
             if constexpr (is_tuple_v<T>) {
+                if (data.size() < 2u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 auto tupleSize = static_cast<size_t>(data[1]);
                 if (tuple_size_v<T> != tupleSize)
                     throw runtime_error("Parameter is a "s + to_string(tuple_size_v<T>) +
-- 
2.43.0


From 502896dd1c301270a6cbc114bf9eb924def00ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 32/56] fix: messages declaring more data than received were
 accepted, then read out of bounds

---
 include/weblink/Messages.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index c6130c3..12209f5 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -105,7 +105,7 @@ public:
     static const T* castFromRawData(std::span<const std::byte> data) {
         if (data.size() < sizeof(typename T::Header)) throw std::runtime_error("Not enough data to form a message Header");
         auto message = reinterpret_cast<const T*>(data.data());
-        if ((data.size() + message->getPayloadSize()) < sizeof(typename T::Header))
+        if (data.size() - sizeof(typename T::Header) < message->getPayloadSize())
             throw std::runtime_error("Not enough data to form a complete message");
         return message;
     }
-- 
2.43.0


From 1798396a461844397096a8f51f66f351099d7b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 33/56] fix: numbers out of the range of an integral parameter
 were converted with an undefined result

---
 include/weblink/Messages.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 12209f5..e42d7da 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -6,7 +6,9 @@
 #include <algorithm>
 #include <array>
 #include <bit>
+#include <cmath>
 #include <cstddef>
+#include <limits>
 #include <span>
 #include <stdexcept>
 #include <string>
@@ -333,6 +335,11 @@ public:
                 if (data.size() < 1u + sizeof(value))
                     throw runtime_error("Erroneous 'number' data feeded to msg::FunctionCall::decodeParameter");
                 copy_n(&data[1], sizeof(value), reinterpret_cast<byte*>(&value));
+                if constexpr (is_integral_v<T> and !is_same_v<T, bool>) { // out of range conversions are undefined
+                    using Limits = numeric_limits<T>;
+                    if (!(trunc(value) >= static_cast<double>(Limits::min()) and trunc(value) < ldexp(1., Limits::digits)))
+                        throw runtime_error("Number out of the range of the parameter type");
+                }
                 param = static_cast<T>(value);
                 data = data.subspan(1 + sizeof(value));
             }
-- 
2.43.0


From d7987e01451c42c92d5170b0c0252a00a0067f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 34/56] fix: return messages were sent as function calls

---
 include/weblink/Messages.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index e42d7da..2dba7d0 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -193,7 +193,11 @@ class FunctionCall : public MessageBase<FunctionCall> {
         return tName;
     }
 
+protected:
+    explicit FunctionCall(Command command) : head{.command = command} {}
+
 public:
+    FunctionCall() = default;
     void setParametersCount(uint8_t parametersCount) { head.parametersCount = parametersCount; }
     void setPayloadSize(uint32_t size) { head.parametersDataSize = size; }
     [[nodiscard]] uint8_t getParametersCount() const { return head.parametersCount; }
@@ -366,14 +370,8 @@ public:
 
 /// Encodes FunctionCall return values (or exceptions)
 class FunctionReturn : public FunctionCall {
-    struct Header {
-        Command command = Command::functionReturn;
-        uint8_t parametersCount = 0;
-        std::array<uint8_t, 2> padding{};
-        uint32_t parametersDataSize = 0;
-    } head;
-    static_assert(sizeof(Header) == 8, "FunctionReturn header has to be 8 bytes long");
-    friend class MessageBase<FunctionReturn>;
+public:
+    FunctionReturn() : FunctionCall(Command::functionReturn) {}
 };
 
 } // namespace webfront::msg
-- 
2.43.0


From ebbaafe41a14a3837663e80c9698f2efc6dc9f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 35/56] fix: empty or malformed messages were read out of
 bounds or their exception escaped from run()

---
 include/weblink/WebLink.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index 144b34d..e8c4fbe 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -47,8 +47,10 @@ public:
         ws.onMessage([this](std::span<const std::byte> data) {
             log::infoHex("onMessage(binary) :", data);
 
+            if (data.empty()) return;
             switch (static_cast<msg::Command>(data[0])) {
             case msg::Command::handshake: {
+                if (data.size() < sizeof(msg::Handshake)) break;
                 auto command = msg::Handshake::castFromRawData(data);
                 sendCommand(msg::Ack{});
                 logSink =
@@ -62,9 +64,9 @@ public:
 
             case msg::Command::callFunction: {
                 log::info("Function called !");
-                auto command = msg::FunctionCall::castFromRawData(data);
-                auto [functionName, paramData] = command->getFunctionName();
                 try {
+                    auto command = msg::FunctionCall::castFromRawData(data);
+                    auto [functionName, paramData] = command->getFunctionName();
                     eventsHandler(WebLinkEvent(WebLinkEvent::Code::cppFunctionCalled, id, functionName, paramData));
                 }
                 catch (const std::out_of_range& e) {
-- 
2.43.0


From 385ae74c7987494cea3d9e43888c81d214eea7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 36/56] fix: a repeated handshake leaked a log sink referring
 to a link later destroyed

---
 include/weblink/WebLink.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index e8c4fbe..b540aef 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -53,6 +53,7 @@ public:
                 if (data.size() < sizeof(msg::Handshake)) break;
                 auto command = msg::Handshake::castFromRawData(data);
                 sendCommand(msg::Ack{});
+                if (logSink) break; // already linked
                 logSink =
                   log::addSinks([this](std::string_view t) { sendCommand(msg::TextCommand(msg::TxtOpcode::debugLog, t.substr(0, msg::TextCommand::maxTextSize))); });
                 sameEndian = (std::endian::native == std::endian::little &&
-- 
2.43.0


From 94874b29b37293adead98f5bac607107b04675e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 37/56] fix: links were never released, a closed one swallowed
 what was sent to it

---
 include/weblink/WebLink.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index b540aef..bfaae9c 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -86,6 +86,11 @@ public:
             }
         });
 
+        ws.onClose([this](websocket::CloseEvent) {
+            auto handler = std::move(eventsHandler); // the handler destroys this link
+            handler({WebLinkEvent::Code::closed, id});
+        });
+
         ws.start();
     }
     WebLink(const WebLink&) = delete;
-- 
2.43.0


From a624173435b02d61477756a3d1f9cbdd179d4803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 38/56] fix: a function registered from a temporary was called
 through a dangling reference

---
 include/WebFront.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/WebFront.hpp b/include/WebFront.hpp
index e63f5b5..1faa539 100644
--- a/include/WebFront.hpp
+++ b/include/WebFront.hpp
@@ -14,6 +14,7 @@
 #include <cstddef>
 #include <functional>
 #include <map>
+#include <memory>
 #include <span>
 #include <string_view>
 #include <tuple>
@@ -90,11 +91,12 @@ public:
      */
     template<typename R, typename... Args>
     void cppFunction(std::string functionName, auto&& function) {
-        cppFunctions.try_emplace(functionName, [&function](std::span<const std::byte> data) -> void {
+        auto callable = std::make_shared<std::decay_t<decltype(function)>>(std::forward<decltype(function)>(function));
+        cppFunctions.try_emplace(functionName, [callable](std::span<const std::byte> data) -> void {
             std::tuple<Args...> parameters;
             auto deserializeAndCall = [&]<std::size_t... Is>(std::tuple<Args...> & tuple, std::index_sequence<Is...>) {
                 (msg::FunctionCall::decodeParameter(std::get<Is>(tuple), data), ...);
-                function(std::get<Is>(tuple)...);
+                (*callable)(std::get<Is>(tuple)...);
             };
 
             deserializeAndCall(parameters, std::index_sequence_for<Args...>());
-- 
2.43.0


From 9a1b6e97563cd9a90daa5cebc881b54e745901d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 39/56] fix: a handshake stopped the server when no UI handler
 was registered

---
 include/WebFront.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/WebFront.hpp b/include/WebFront.hpp
index 1faa539..ff1d181 100644
--- a/include/WebFront.hpp
+++ b/include/WebFront.hpp
@@ -113,7 +113,7 @@ private:
 private:
     void onEvent(WebLinkEvent event) {
         switch (event.code) {
-        case WebLinkEvent::Code::linked: uiStartedHandler(UI{*this, event.webLinkId}); break;
+        case WebLinkEvent::Code::linked: if (uiStartedHandler) uiStartedHandler(UI{*this, event.webLinkId}); break;
         case WebLinkEvent::Code::closed: webLinks.erase(event.webLinkId); break;
         case WebLinkEvent::Code::cppFunctionCalled: cppFunctions.at(event.text)(event.data); break;
         }
-- 
2.43.0


From 7f08c5eb3abfba67ad6fa09e67a52386e8ea1bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 40/56] fix: buffers made from an empty string took the address
 of a character it does not have

---
 include/networking/BasicNetworking.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/networking/BasicNetworking.hpp b/include/networking/BasicNetworking.hpp
index 6edd8f4..e2d140b 100644
--- a/include/networking/BasicNetworking.hpp
+++ b/include/networking/BasicNetworking.hpp
@@ -101,12 +101,12 @@ public:
 
     template<typename CharT, typename Traits, typename Alloc>
     static MutableBuffer Buffer(std::basic_string<CharT, Traits, Alloc>& d) noexcept {
-        return ToMutableBuffer(&d.front(), d.size());
+        return ToMutableBuffer(d.data(), d.size());
     }
 
     template<typename CharT, typename Traits, typename Alloc>
     static ConstBuffer Buffer(const std::basic_string<CharT, Traits, Alloc>& d) noexcept {
-        return ToConstBuffer(&d.front(), d.size());
+        return ToConstBuffer(d.data(), d.size());
     }
 
     template<typename CharT, typename Traits>
-- 
2.43.0


From c9c58abdf8e6490dcaac9cd4bf41b483a68d491c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:15 +0000
Subject: [PATCH 41/56] fix: an exception not derived from std::exception
 thrown by a called function escaped from run()

---
 include/weblink/WebLink.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index bfaae9c..f567761 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -80,6 +80,9 @@ public:
                 catch (const std::exception& e) {
                     log::info("event cppFunctionCalled failed with exception {}", e.what());
                 }
+                catch (...) {
+                    log::info("event cppFunctionCalled failed");
+                }
             } break;
 
             default: break;
-- 
2.43.0


From 057f8ea25e630fffe222a7be056038eef3243778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 42/56] fix: the name of an unknown method was read out of
 bounds

---
 include/http/HTTPServer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 9dbc758..63bbc61 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -93,7 +93,9 @@ struct Request : Headers {
         return Method::Undefined;
     }
 
-    [[nodiscard]] std::string_view getMethodName() const { return methodNames[static_cast<size_t>(method)]; }
+    [[nodiscard]] std::string_view getMethodName() const {
+        return method == Method::Undefined ? "UNDEFINED" : methodNames[static_cast<size_t>(method)];
+    }
         
     void setMethod(std::string_view text) { method = getMethodFromString(text); }
 
-- 
2.43.0


From adbaf57ce58f65bacf268ca3198856f2fd4de9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 43/56] fix: a hex dump changed the fill character of the
 stream it was written to

---
 include/tooling/HexDump.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/tooling/HexDump.hpp b/include/tooling/HexDump.hpp
index b673417..b4403ee 100644
--- a/include/tooling/HexDump.hpp
+++ b/include/tooling/HexDump.hpp
@@ -37,6 +37,7 @@ std::ostream& operator<<(std::ostream& os, const HexDump<Container>& h) {
     const auto buffer =
       span(reinterpret_cast<const uint8_t*>(h.buffer.data()), h.buffer.size() * sizeof(typename pointer_traits<decltype(h.buffer.data())>::element_type));
     auto iosFlags{os.flags()};
+    auto fillChar{os.fill()};
     os << hex << setfill('0');
     while (address < buffer.size()) {
         os << setw(8) << address + h.startAddress;
@@ -55,6 +56,7 @@ std::ostream& operator<<(std::ostream& os, const HexDump<Container>& h) {
         if (address < buffer.size()) os << '\n';
     }
     os.flags(iosFlags);
+    os.fill(fillChar);
 
     return os;
 }
-- 
2.43.0


From 8647a51af250e40f2533b46fe8c04e2f4031219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 44/56] fix: the hex dump of two buffers of multi-byte elements
 truncated each of them to a byte

---
 include/tooling/HexDump.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/tooling/HexDump.hpp b/include/tooling/HexDump.hpp
index b4403ee..741ac8c 100644
--- a/include/tooling/HexDump.hpp
+++ b/include/tooling/HexDump.hpp
@@ -7,7 +7,9 @@
 #include <algorithm>
 #include <concepts>
 #include <cstdint>
+#include <cstddef>
 #include <iomanip>
+#include <iterator>
 #include <ostream>
 #include <span>
 #include <sstream>
@@ -82,9 +84,9 @@ std::ostream& operator<<(std::ostream& os, const HexDump<Container>& h) {
 /// @return  a multi-lines string with the dumped data
 [[nodiscard]] static std::string hexDump(const Buffer auto& buffer1, const Buffer auto& buffer2) {
     std::vector<uint8_t> buffer;
-    buffer.resize(buffer1.size() + buffer2.size());
-    std::copy_n(buffer1.data(), buffer1.size(), buffer.data());
-    std::copy_n(buffer2.data(), buffer2.size(), buffer.data() + buffer1.size());
+    auto append = [&buffer](auto bytes) { std::ranges::transform(bytes, std::back_inserter(buffer), std::to_integer<uint8_t>); };
+    append(std::as_bytes(std::span(buffer1.data(), buffer1.size())));
+    append(std::as_bytes(std::span(buffer2.data(), buffer2.size())));
 
     std::stringstream ss;
     ss << HexDump<decltype(buffer)>(buffer);
-- 
2.43.0


From 605d901c129f39f54fccd0f5b21279b68c65cbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 45/56] fix: a buffer could not be made from a constant
 std::array

---
 include/networking/BasicNetworking.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/networking/BasicNetworking.hpp b/include/networking/BasicNetworking.hpp
index e2d140b..7d8b6f4 100644
--- a/include/networking/BasicNetworking.hpp
+++ b/include/networking/BasicNetworking.hpp
@@ -90,6 +90,10 @@ public:
     static ConstBuffer Buffer(std::array<const T, S>& d) noexcept {
         return ToConstBuffer(d.data(), d.size());
     }
+    template<typename T, std::size_t S>
+    static ConstBuffer Buffer(const std::array<T, S>& d) noexcept {
+        return ToConstBuffer(d.data(), d.size());
+    }
     template<typename T, typename Alloc>
     static MutableBuffer Buffer(std::vector<T, Alloc>& d) noexcept {
         return ToMutableBuffer(d.data(), d.size());
-- 
2.43.0


From de78a5e57e832f2e54e11c16abb076b2b4dc5f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:59 +0000
Subject: [PATCH 46/56] fix: decoding an empty string at the end of a message
 accessed the byte after it

---
 include/weblink/Messages.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 2dba7d0..0a9a6e2 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -309,7 +309,7 @@ public:
                 if (data.size() < 2u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 auto size = static_cast<size_t>(data[1]);
                 if (data.size() < 2u + size) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
-                param = string(reinterpret_cast<const char*>(&data[2]), size);
+                param = string(reinterpret_cast<const char*>(data.data() + 2), size);
                 data = data.subspan(2 + size);
             }
             break;
@@ -320,7 +320,7 @@ public:
                 uint16_t size;
                 copy_n(&data[1], 2, reinterpret_cast<byte*>(&size));
                 if (data.size() < 3u + size) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
-                param = string(reinterpret_cast<const char*>(&data[3]), size);
+                param = string(reinterpret_cast<const char*>(data.data() + 3), size);
                 data = data.subspan(3 + size);
             }
             break;
-- 
2.43.0


From f8906dfb8fb8d0ddfec765fdddcef21b2cee6744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 47/56] fix: a JavaScript function was not called when one of
 its arguments was a tuple

The parameters count of the call included the elements of the tuples, so the
browser client tried to decode parameters after the last one and gave up with
a RangeError before calling the function.
---
 include/JsFunction.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/JsFunction.hpp b/include/JsFunction.hpp
index f5eb361..a39e2fe 100644
--- a/include/JsFunction.hpp
+++ b/include/JsFunction.hpp
@@ -25,7 +25,8 @@ public:
         websocket::Frame<typename WebFront::Net> frame{std::span(reinterpret_cast<const std::byte*>(command.header().data()), command.header().size())};
         command.encodeParameter(name, frame);
         (((command.encodeParameter(std::forward<decltype(ts)>(ts), frame))), ...);
-        
+        command.setParametersCount(static_cast<uint8_t>(1 + sizeof...(ts))); // elements of tuples are not parameters for the client
+
         webFront.getLink(webLinkId).sendFrame(std::move(frame));
     }
 
-- 
2.43.0


From cd93270cfb458fc260e480547f7f1b4a6ee6a6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:34 +0000
Subject: [PATCH 48/56] fix: never give the identifier of a link to another one

Identifiers were 16-bit wide: after 65536 links a handle kept by the application for a closed link
addressed another client, and a new link could be given the identifier of a living one.
---
 include/weblink/WebLink.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index f567761..ad564da 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -13,7 +13,7 @@
 
 namespace webfront {
 
-using WebLinkId = uint16_t;
+using WebLinkId = uint64_t;
 
 struct WebLinkEvent {
     enum class Code { linked, closed, cppFunctionCalled };
-- 
2.43.0


From fc1a899af471d3987d53efdabe2974eca2fd12b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:08 +0000
Subject: [PATCH 49/56] fix: the objects bound to a type-erased function were
 lost for its calls without a result

---
 include/utils/TypeErasedFunction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/TypeErasedFunction.hpp b/include/utils/TypeErasedFunction.hpp
index 0b223e6..94cfd4e 100644
--- a/include/utils/TypeErasedFunction.hpp
+++ b/include/utils/TypeErasedFunction.hpp
@@ -132,7 +132,7 @@ public:
 
     template<typename T, typename... Args>
     TypeErasedFunction(T&& t, Args&&... args)
-        : function(new FunctionPointer<typename function_traits<T>::type>(std::bind(std::forward<T>(t), std::forward<Args>(args)...))),
+        : function(new FunctionPointer<typename function_traits<T>::type>(std::bind(t, args...))),
           voidFunction(new FunctionPointer<typename function_traits<T>::void_type>(std::bind(std::forward<T>(t), std::forward<Args>(args)...))) {
         std::cout << "TypeErasedFunction constructor(";
         ((std::cout << TypeName(args)), ...);
-- 
2.43.0


From 61a7d20fb3b00978a32ec3c26e98301892c7b412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 50/56] fix: a limit of a huge number of elements leaves a
 network buffer whole

---
 include/networking/BasicNetworking.hpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/networking/BasicNetworking.hpp b/include/networking/BasicNetworking.hpp
index 7d8b6f4..f39e219 100644
--- a/include/networking/BasicNetworking.hpp
+++ b/include/networking/BasicNetworking.hpp
@@ -120,55 +120,60 @@ public:
 
     template<typename T, std::size_t S>
     static MutableBuffer Buffer(T (&d)[S], std::size_t s) noexcept {
-        return Buffer(Buffer(d), s * sizeof(T));
+        return Buffer(Buffer(d), SizeInBytes<T>(s));
     }
 
     template<typename T, std::size_t S>
     static ConstBuffer Buffer(const T (&d)[S], std::size_t s) noexcept {
-        return Buffer(Buffer(d), s * sizeof(T));
+        return Buffer(Buffer(d), SizeInBytes<T>(s));
     }
 
     template<typename T, std::size_t S>
     static MutableBuffer Buffer(std::array<T, S>& d, std::size_t s) noexcept {
-        return Buffer(Buffer(d), s * sizeof(T));
+        return Buffer(Buffer(d), SizeInBytes<T>(s));
     }
 
     template<typename T, std::size_t S>
     static ConstBuffer Buffer(std::array<const T, S>& d, std::size_t s) noexcept {
-        return Buffer(Buffer(d), s * sizeof(T));
+        return Buffer(Buffer(d), SizeInBytes<T>(s));
     }
 
     template<typename T, std::size_t S>
     static ConstBuffer Buffer(const std::array<T, S>& d, std::size_t s) noexcept {
-        return Buffer(Buffer(d), s * sizeof(T));
+        return Buffer(Buffer(d), SizeInBytes<T>(s));
     }
 
     template<typename T, typename Alloc>
     static MutableBuffer Buffer(std::vector<T, Alloc>& d, std::size_t s) noexcept {
-        return Buffer(Buffer(d), s * sizeof(T));
+        return Buffer(Buffer(d), SizeInBytes<T>(s));
     }
 
     template<typename T, typename Alloc>
     static ConstBuffer Buffer(const std::vector<T, Alloc>& d, std::size_t s) noexcept {
-        return Buffer(Buffer(d), s * sizeof(T));
+        return Buffer(Buffer(d), SizeInBytes<T>(s));
     }
 
     template<typename CharT, typename Traits, typename Alloc>
     static MutableBuffer Buffer(std::basic_string<CharT, Traits, Alloc>& d, std::size_t s) noexcept {
-        return Buffer(Buffer(d), s * sizeof(CharT));
+        return Buffer(Buffer(d), SizeInBytes<CharT>(s));
     }
 
     template<typename CharT, typename Traits, typename Alloc>
     static ConstBuffer Buffer(const std::basic_string<CharT, Traits, Alloc>& d, std::size_t s) noexcept {
-        return Buffer(Buffer(d), s * sizeof(CharT));
+        return Buffer(Buffer(d), SizeInBytes<CharT>(s));
     }
 
     template<typename CharT, typename Traits>
     static ConstBuffer Buffer(std::basic_string_view<CharT, Traits> d, std::size_t s) noexcept {
-        return Buffer(Buffer(d), s * sizeof(CharT));
+        return Buffer(Buffer(d), SizeInBytes<CharT>(s));
     }
 
 private:
+    /// @return the size in bytes of count elements, or the largest one if it can't be represented
+    template<typename T>
+    static constexpr std::size_t SizeInBytes(std::size_t count) noexcept {
+        return count > SIZE_MAX / sizeof(T) ? SIZE_MAX : count * sizeof(T);
+    }
     template<typename T>
     static MutableBuffer ToMutableBuffer(T* data, std::size_t s) {
         return {s ? data : nullptr, s * sizeof(T)};
-- 
2.43.0


From 54c73dd930546708f30981a809d8455f9171a36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:25 +0000
Subject: [PATCH 51/56] fix: std::format replacement overflows its fragments
 with 32 parameters

---
 include/details/C++20Support.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/details/C++20Support.hpp b/include/details/C++20Support.hpp
index 6775ad5..6d995db 100644
--- a/include/details/C++20Support.hpp
+++ b/include/details/C++20Support.hpp
@@ -63,8 +63,8 @@ std::ostream& operator<<(std::ostream& os, std::chrono::time_point<C, T> t) {
 namespace std {
 string format(std::string_view fmt, auto&&... ts) {
     if (sizeof...(ts) == 0) return std::string(fmt);
-    std::array<std::string_view, 32> fragments{};
-    if (sizeof...(ts) > fragments.size()) throw std::length_error("format parameters count limit exceeded");
+    std::array<std::string_view, 33> fragments{}; // one before each parameter and one after the last of them
+    if (sizeof...(ts) >= fragments.size()) throw std::length_error("format parameters count limit exceeded");
     size_t index = 0;
     auto start = fmt.cbegin(), parser = start;
     while (parser != fmt.cend()) {
-- 
2.43.0


From f05febe353bfebbca97c22d9b4f557706cf52c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 52/56] fix: optional white space around header values is
 refused or kept

---
 include/http/HTTPServer.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 63bbc61..8b94e3b 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -131,6 +131,7 @@ private: // clang-format off
             state = next;
             if (cond) throw BadRequestException();
         };
+        auto trimRight = [](std::string& value) { value.erase(value.find_last_not_of(" \t") + 1); };
         auto isTooBig = [](int version) { return version > 99999; }; // one more digit could overflow
 
         using enum State;
@@ -173,9 +174,12 @@ private: // clang-format off
             case headerName: if (input == ':') { state = spaceBeforeHeaderValue; break; }
                                   else if (!isChar(input) || isCtrl(input) || isSpecial(input)) throw BadRequestException();
                                   else { headers.back().name.push_back(input); break; }
-            case spaceBeforeHeaderValue: setState(input != ' ', headerValue); break;
-            case headerValue: if (input == '\r') { state = newline2; break; }
-                                   else if (isCtrl(input)) throw BadRequestException();
+            case spaceBeforeHeaderValue: if (input == ' ' || input == '\t') break; // optional white space is not part of the value
+                                              else if (input == '\r') { state = newline2; break; }
+                                              else if (isCtrl(input)) throw BadRequestException();
+                                              else { state = headerValue; headers.back().value.push_back(input); break; }
+            case headerValue: if (input == '\r') { state = newline2; trimRight(headers.back().value); break; }
+                                   else if (isCtrl(input) && input != '\t') throw BadRequestException();
                                    else { headers.back().value.push_back(input); break; }
             case newline2: setState(input != '\n', headerLineStart); break;
             case newline3: if (input == '\n') { state = completed; return true; } else throw BadRequestException();
-- 
2.43.0


From 6145a3d99c0b09bc6fb95484ad5db7a2fe50b9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:53 +0000
Subject: [PATCH 53/56] fix: header list elements are matched as substrings and
 refused ones accepted

---
 include/http/HTTPServer.hpp | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 8b94e3b..8251bfb 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -61,6 +61,34 @@ public:
         return false;
     }
 
+    /// @return true if element is one of those listed in the value fields of headerName (case insensitive) and its weight is not 0
+    [[nodiscard]] bool headersList(std::string_view headerName, std::string_view element) const {
+        auto trim = [](std::string_view text) {
+            text.remove_prefix(std::min(text.find_first_not_of(" \t"), text.size()));
+            return text.substr(0, text.find_last_not_of(" \t") + 1);
+        };
+        auto next = [](std::string_view& list, char separator) {
+            auto item = list.substr(0, list.find(separator));
+            list.remove_prefix(std::min(item.size() + 1, list.size()));
+            return item;
+        };
+        auto isRefused = [&](std::string_view parameters) {
+            while (!parameters.empty()) {
+                auto parameter = trim(next(parameters, ';'));
+                if (caseInsensitiveEqual(parameter.substr(0, 2), "q=")) return parameter.find_first_of("123456789") == std::string_view::npos;
+            }
+            return false;
+        };
+        for (const auto& header : getHeadersValues(headerName)) {
+            for (std::string_view list = header; !list.empty();) {
+                auto parameters = next(list, ',');
+                auto name = trim(next(parameters, ';'));
+                if (caseInsensitiveEqual(name, element) && !isRefused(parameters)) return true;
+            }
+        }
+        return false;
+    }
+
     std::vector<Header> headers;
 
 private:
@@ -100,7 +128,7 @@ struct Request : Headers {
     void setMethod(std::string_view text) { method = getMethodFromString(text); }
 
     [[nodiscard]] bool isUpgradeRequest(std::string_view protocol) const {
-        return headersContain("Connection", "upgrade") && headersContain("Upgrade", protocol);
+        return headersList("Connection", "upgrade") && headersList("Upgrade", protocol);
     }
 
     template<typename InputIterator>
@@ -289,7 +317,7 @@ public:
             auto file = fs.open(requestPath);
             if (!file) return Response::getStatusResponse(Response::notFound);
             if (file->isEncoded()) {
-                if (!request.headersContain("Accept-Encoding", file->getEncoding())) {
+                if (!request.headersList("Accept-Encoding", file->getEncoding())) {
                     log::error("File {} encoding is not supported by client : HTTP ERROR 506", file->getEncoding());
                     return Response::getStatusResponse(Response::variantAlsoNegotiates);
                 }
-- 
2.43.0


From 2aa8b3033151bac1ff7a1a81abe260688132a83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:09 +0000
Subject: [PATCH 54/56] fix: TCPSockets.hpp does not compile

---
 include/networking/TCPSockets.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/networking/TCPSockets.hpp b/include/networking/TCPSockets.hpp
index 27127ef..2360ba6 100644
--- a/include/networking/TCPSockets.hpp
+++ b/include/networking/TCPSockets.hpp
@@ -104,7 +104,7 @@ protected:
     static int getLastError() { return errno; }
 #endif
 };
-
+} // namespace
 
 class TCPSockets : public BasicNetworking<> {
 public:
-- 
2.43.0


From 89ee59cdcf4d753d41a2f87ac151bba0a36cafcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:24 +0000
Subject: [PATCH 55/56] fix: a write larger than the record of the mock network
 overflows it

---
 include/networking/NetworkingMock.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/networking/NetworkingMock.hpp b/include/networking/NetworkingMock.hpp
index d5ee36e..87df8bb 100644
--- a/include/networking/NetworkingMock.hpp
+++ b/include/networking/NetworkingMock.hpp
@@ -63,10 +63,12 @@ public:
 
     void async_read_some(auto /*Buffer*/, auto /*completionFunction*/) {}
 
-    size_t write_some(auto inputBuffer, std::error_code&) {
-        std::copy_n(reinterpret_cast<const std::byte*>(inputBuffer.data()), inputBuffer.size(), &debugBuffer[bufferIndex]);
-        bufferIndex += inputBuffer.size();
-        return inputBuffer.size();
+    size_t write_some(auto inputBuffer, std::error_code& ec) {
+        auto size = std::min(inputBuffer.size(), debugBuffer.size() - bufferIndex);
+        if (size < inputBuffer.size()) ec = std::make_error_code(std::errc::no_buffer_space);
+        std::copy_n(reinterpret_cast<const std::byte*>(inputBuffer.data()), size, debugBuffer.data() + bufferIndex);
+        bufferIndex += size;
+        return size;
     }
 
     void close() { log::debug("SocketMock::close()"); }
-- 
2.43.0


From 95965304a8a9ad09ef9e6b971427dcb9ccf1545b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:12 +0000
Subject: [PATCH 56/56] fix: a link ended while one of its messages was being
 handled was destroyed under the handler

A function called by a browser, or a start handler, may run the event loop
(runOne). When the link it was called through ended meanwhile, the close
notification erased the link whose read handler was still on the stack. It is
now notified once the message handler returns.
---
 include/http/WebSocket.hpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 0a8d3f7..df0a3d0 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -11,6 +11,7 @@
 #include <deque>
 #include <functional>
 #include <memory>
+#include <optional>
 #include <set>
 #include <span>
 #include <utility>
@@ -282,15 +283,30 @@ private:
     std::function<void(CloseEvent)> closeHandler;
     std::deque<std::shared_ptr<std::vector<std::byte>>> pendingWrites;
     bool started;
+    bool delivering = false;             /// A message handler is running
+    std::optional<CloseEvent> postponed; /// Event notified once the message handler returns
     std::shared_ptr<bool> lifetime = std::make_shared<bool>(true); /// Expires with the WebSocket : its pending operations have to do nothing
 
 private:
     /// Ends the connection and notifies it only once, the handler may destroy this WebSocket
     void close(CloseEvent event) {
         stop();
+        if (delivering) { // a message handler runs the event loop
+            postponed = std::move(event);
+            return;
+        }
         if (auto handler = std::exchange(closeHandler, nullptr)) handler(std::move(event));
     }
 
+    void deliver(auto& handler, auto message) {
+        struct Delivery {
+            bool& flag;
+            explicit Delivery(bool& f) : flag(f) { flag = true; }
+            ~Delivery() { flag = false; }
+        } delivery(delivering);
+        if (handler) handler(message);
+    }
+
     /// Joins the fragments of a message, control frames may be received between them
     /// @return the type of the completed message or continuation if the message needs more frames
     Header::Opcode assemble(std::span<const std::byte>& data) {
@@ -322,10 +338,10 @@ private:
                     auto data = decoder.payload();
                     switch (assemble(data)) {
                     case Header::Opcode::text:
-                        if (textHandler) textHandler(std::string_view(reinterpret_cast<const char*>(data.data()), data.size()));
+                        deliver(textHandler, std::string_view(reinterpret_cast<const char*>(data.data()), data.size()));
                         break;
                     case Header::Opcode::binary:
-                        if (binaryHandler) binaryHandler(data);
+                        deliver(binaryHandler, data);
                         break;
                     case Header::Opcode::connectionClose:
                         return close(closeEvent(data));
@@ -333,6 +349,7 @@ private:
                     case Header::Opcode::continuation: break; // the message is not complete yet
                     default: log::debug("Unhandled frameType");
                     };
+                    if (postponed) return close(*std::exchange(postponed, std::nullopt));
                     decoder.reset();
                 }
                 read();
-- 
2.43.0

