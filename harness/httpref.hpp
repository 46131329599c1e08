// httpref.hpp - independent HTTP/1.1 response parser, request generator and in-memory / on-disk file trees
#pragma once
#include "pbt.hpp"
#include "ref.hpp"

#include <filesystem>
#include <map>

#include <system/FileSystem.hpp>

namespace ref {

inline std::string lower(std::string s) {
    for (auto& c : s)
        if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32);
    return s;
}

struct HttpResponse {
    int status = 0;
    std::vector<std::pair<std::string, std::string>> headers;
    std::string body;
    std::vector<std::string> all(const std::string& name) const {
        std::vector<std::string> v;
        for (auto& [n, val] : headers)
            if (lower(n) == lower(name)) v.push_back(val);
        return v;
    }
    std::string one(const std::string& name) const {
        auto v = all(name);
        if (v.size() != 1) throw pbt::Failure{pbt::cat("expected one ", name, " header, found ", v.size())};
        return v[0];
    }
};

inline const char* reason(int status) {
    switch (status) {
    case 101: return "Switching Protocols";
    case 200: return "OK";
    case 400: return "Bad Request";
    case 404: return "Not Found";
    case 501: return "Not Implemented";
    case 506: return "Variant Also Negotiates";
    default: return nullptr;
    }
}

/// Strict parse of what a connection carried as answer to one request: the whole text has to be one response
inline HttpResponse parseResponse(const std::string& raw, bool toHead, std::string* rest = nullptr) {
    HttpResponse r;
    auto bad = [&](const std::string& why) { throw pbt::Failure{"malformed response: " + why + ": " + pbt::printable(raw, 300)}; };
    auto eol = raw.find("\r\n");
    if (eol == std::string::npos) bad("no status line");
    auto line = raw.substr(0, eol);
    if (line.rfind("HTTP/1.1 ", 0) != 0 || line.size() < 13 || line[12] != ' ') bad("status line");
    for (int i = 9; i < 12; ++i)
        if (line[static_cast<size_t>(i)] < '0' || line[static_cast<size_t>(i)] > '9') bad("status code");
    r.status = std::stoi(line.substr(9, 3));
    auto expected = reason(r.status);
    if (!expected || line.substr(13) != expected) bad("reason phrase");
    size_t pos = eol + 2;
    for (;;) {
        eol = raw.find("\r\n", pos);
        if (eol == std::string::npos) bad("unterminated header");
        if (eol == pos) break;
        line = raw.substr(pos, eol - pos);
        pos = eol + 2;
        auto colon = line.find(':');
        if (colon == std::string::npos || colon == 0) bad("header without name");
        for (size_t i = 0; i < colon; ++i) {
            auto c = static_cast<unsigned char>(line[i]);
            bool ok = (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c && strchr("!#$%&'*+-.^_`|~", c));
            if (!ok) bad("header name");
        }
        auto value = line.substr(colon + 1);
        while (!value.empty() && (value.front() == ' ' || value.front() == '\t')) value.erase(0, 1);
        while (!value.empty() && (value.back() == ' ' || value.back() == '\t')) value.pop_back();
        for (unsigned char c : value)
            if (c < 32 || c == 127) bad("header value");
        r.headers.emplace_back(line.substr(0, colon), value);
    }
    pos += 2;
    r.body = raw.substr(pos);
    if (r.status == 101) {
        if (rest) {
            *rest = r.body;
            r.body.clear();
        }
        if (!r.body.empty()) bad("body after 101");
        return r;
    }
    auto length = r.one("Content-Length");
    if (length.empty() || length.find_first_not_of("0123456789") != std::string::npos) bad("Content-Length");
    if (toHead) {
        if (!r.body.empty()) bad("body in answer to HEAD");
    }
    else if (std::stoull(length) != r.body.size())
        bad(pbt::cat("body of ", r.body.size(), " bytes, Content-Length ", length));
    return r;
}

/// percent-decoding as documented: valid triplets and pluses
inline std::string urlDecode(std::string_view t) {
    auto hex = [](char c) -> int {
        if (c >= '0' && c <= '9') return c - '0';
        if (c >= 'a' && c <= 'f') return c - 'a' + 10;
        if (c >= 'A' && c <= 'F') return c - 'A' + 10;
        return -1;
    };
    std::string out;
    for (size_t i = 0; i < t.size();) {
        if (t[i] == '%' && i + 2 < t.size() && hex(t[i + 1]) >= 0 && hex(t[i + 2]) >= 0) {
            out += static_cast<char>(hex(t[i + 1]) * 16 + hex(t[i + 2]));
            i += 3;
        }
        else {
            out += t[i] == '+' ? ' ' : t[i];
            ++i;
        }
    }
    return out;
}

/// a request target which decodes to the given path
inline std::string encodeTarget(pbt::Src& s, std::string_view path) {
    static const char* up = "0123456789ABCDEF";
    static const char* low = "0123456789abcdef";
    std::string out;
    auto mode = s.draw(3);
    for (char ch : path) {
        auto b = static_cast<unsigned char>(ch);
        bool must = b <= 32 || b == 127 || b == '%' || b == '+';
        if (b == ' ' && s.coin()) {
            out += '+';
            continue;
        }
        if (must || (mode == 1 && s.chance(1, 4)) || (mode == 2 && b >= 128) || (mode == 3 && ch != '/')) {
            auto d = s.coin() ? up : low;
            out += '%';
            out += d[b >> 4];
            out += d[b & 15];
        }
        else
            out += ch;
    }
    return out;
}

inline std::string randomCase(pbt::Src& s, std::string t) {
    auto mode = s.draw(3);
    for (auto& c : t) {
        bool up = mode == 1 || (mode == 2 && s.coin());
        if (up && c >= 'a' && c <= 'z') c = static_cast<char>(c - 32);
        else if (mode == 3 && c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32);
    }
    return t;
}

constexpr std::string_view tokenChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-.^_`|~";

inline std::string fieldValue(pbt::Src& s, size_t n) {
    std::string v;
    for (size_t i = 0; i < n; ++i) {
        char c;
        switch (s.weighted({6, 3, 1})) {
        case 0: c = static_cast<char>('a' + s.draw(25)); break;
        case 1: c = static_cast<char>(' ' + s.draw(94)); break;
        default: c = static_cast<char>(128 + s.draw(127)); break;
        }
        v += c;
    }
    while (!v.empty() && v.front() == ' ') v.front() = 'x';
    while (!v.empty() && v.back() == ' ') v.back() = 'y';
    return v;
}

struct HttpRequest {
    std::string method = "GET", target = "/";
    int major = 1, minor = 1;
    std::vector<std::pair<std::string, std::string>> headers;
    std::string colon = ": "; // with optional white space
    std::string raw() const {
        std::string r = method + " " + target + " HTTP/" + std::to_string(major) + "." + std::to_string(minor) + "\r\n";
        for (auto& [n, v] : headers) r += n + colon + v + "\r\n";
        return r + "\r\n";
    }
};

inline std::string genColon(pbt::Src& s) { return s.chance(1, 4) ? s.oneOf<const char*>({": ", ":", ":\t", ":  "}) : ": "; }

/// a header which changes nothing to the answer
inline std::pair<std::string, std::string> otherHeader(pbt::Src& s) {
    static const std::vector<std::string> names{"Host", "User-Agent", "Accept", "Accept-Language", "Cache-Control", "Referer", "X-Test", "DNT"};
    static const std::vector<std::pair<const char*, const char*>> usual{
      {"Host", "localhost:9002"}, {"Connection", "keep-alive"}, {"Connection", "close"}, {"Range", "bytes=0-3"}, {"Range", "bytes=-1"}, {"If-Range", "\"x\""},
      {"If-Modified-Since", "Sat, 29 Oct 2033 19:43:31 GMT"}, {"If-None-Match", "*"}, {"If-Match", "\"abc\""}, {"If-Unmodified-Since", "Sat, 29 Oct 1994 19:43:31 GMT"},
      {"Upgrade-Insecure-Requests", "1"}, {"Accept", "text/html,application/xhtml+xml;q=0.9,image/webp,*/*;q=0.8"}, {"Accept", "image/png"}, {"Accept-Charset", "utf-8, iso-8859-1;q=0.5"},
      {"TE", "trailers, deflate;q=0.5"}, {"Via", "1.0 fred, 1.1 p.example.net"}, {"Origin", "http://localhost"}, {"Cookie", "a=b; c=d"}, {"Authorization", "Basic dXNlcjpwYXNz"},
      {"Pragma", "no-cache"}, {"Sec-Fetch-Mode", "navigate"}, {"Content-Length", "0"}, {"Content-Type", "text/plain"}, {"Keep-Alive", "timeout=5"}, {"Forwarded", "for=192.0.2.60"},
      {"Sec-WebSocket-Version", "13"}, {"Sec-WebSocket-Protocol", "chat, superchat"}, {"Sec-WebSocket-Extensions", "permessage-deflate"}, {"X-HTTP-Method-Override", "DELETE"},
      {"X-Original-URL", "/none"}, {"Date", "Sat, 29 Oct 1994 19:43:31 GMT"}, {"Max-Forwards", "0"}};
    if (s.coin()) {
        auto [n, v] = s.pick(usual);
        return {randomCase(s, n), v};
    }
    return {randomCase(s, s.pick(names)), fieldValue(s, s.small(60))};
}
/// what changes nothing to the answer: the version, the white space before values, other headers
inline void ordinary(pbt::Src& s, HttpRequest& r) {
    if (s.chance(1, 4)) std::tie(r.major, r.minor) = s.pick(std::vector<std::pair<int, int>>{{1, 0}, {0, 9}, {1, 2}, {2, 0}, {3, 0}, {11, 10}});
    r.colon = genColon(s);
    for (auto n = s.draw(3); n > 0; --n) r.headers.push_back(otherHeader(s));
}

} // namespace ref

/// Files given by the test case, served as embedded ones
struct TestFS {
    struct Entry {
        std::vector<uint64_t> words;
        size_t size = 0;
        std::string encoding, content;
    };
    static std::map<std::string, Entry>& files() {
        static std::map<std::string, Entry> f;
        return f;
    }
    static void add(const std::string& name, const std::string& content, const std::string& encoding = "") {
        Entry e;
        e.size = content.size();
        e.content = content;
        e.encoding = encoding;
        e.words.assign((content.size() + 7) / 8, 0);
        for (size_t i = 0; i < content.size(); ++i)
            e.words[i / 8] |= static_cast<uint64_t>(static_cast<unsigned char>(content[i])) << (8 * (7 - i % 8));
        files()[name] = std::move(e);
    }
    explicit TestFS(std::filesystem::path) {}
    std::optional<webfront::fs::File> open(std::filesystem::path file) {
        auto it = files().find(file.relative_path().string());
        if (it == files().end()) return {};
        return std::optional<webfront::fs::File>(std::in_place, std::span<const uint64_t>(it->second.words), it->second.size, std::string_view(it->second.encoding));
    }
};

/// scratch directory of this process
inline std::filesystem::path scratchDir() {
    static pid_t owner = 0;
    static std::filesystem::path dir;
    if (owner != getpid()) {
        owner = getpid();
        auto base = getenv("WF_SCRATCH");
        dir = std::filesystem::path(base ? base : "/tmp") / ("p" + std::to_string(owner));
        std::filesystem::remove_all(dir);
        std::filesystem::create_directories(dir);
    }
    return dir;
}
inline void writeFile(const std::filesystem::path& p, std::string_view content) {
    std::ofstream f(p, std::ios::binary);
    f.write(content.data(), static_cast<std::streamsize>(content.size()));
}

/// Files on disk as the server should see them
struct Tree {
    std::map<std::string, std::string> files; // relative path -> content
    std::set<std::string> dirs{""};
    void add(const std::string& path, const std::string& content) {
        files[path] = content;
        for (auto p = path.rfind('/'); p != std::string::npos; p = p ? path.rfind('/', p - 1) : std::string::npos) dirs.insert(path.substr(0, p));
    }
    void store(const std::filesystem::path& root) const {
        for (auto& d : dirs) std::filesystem::create_directories(root / d);
        for (auto& [p, content] : files) writeFile(root / p, content);
    }
    /// file designated by a path relative to the root (without ".." components), if any
    const std::string* find(std::string_view path) const {
        std::string dir;
        size_t pos = 0;
        const std::string* found = nullptr;
        bool first = true;
        while (pos <= path.size()) {
            auto e = std::min(path.find('/', pos), path.size());
            auto comp = path.substr(pos, e - pos);
            if (found) return nullptr; // something below a file
            if (!comp.empty() && comp != ".") {
                std::string full = first ? std::string(comp) : dir + "/" + std::string(comp);
                auto f = files.find(full);
                if (f != files.end()) found = &f->second;
                else if (!dirs.count(full)) return nullptr;
                dir = full;
                first = false;
            }
            pos = e + 1;
        }
        return found;
    }
};
