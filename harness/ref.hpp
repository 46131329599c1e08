// Independent reference implementations used as oracles
#pragma once
#include <array>
#include <cstdint>
#include <string>
#include <string_view>

namespace ref {
inline std::string base64(std::string_view d) {
    static const char* a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string o;
    uint32_t acc = 0;
    int bits = 0;
    for (unsigned char c : d) {
        acc = (acc << 8) | c;
        bits += 8;
        while (bits >= 6) {
            bits -= 6;
            o += a[(acc >> bits) & 63];
        }
        acc &= 0xFF;
    }
    if (bits) o += a[(acc << (6 - bits)) & 63];
    while (o.size() % 4) o += '=';
    return o;
}
inline std::string unbase64(std::string_view t) {
    std::string o;
    uint32_t acc = 0;
    int bits = 0;
    for (char c : t) {
        int v = c >= 'A' && c <= 'Z'   ? c - 'A'
                : c >= 'a' && c <= 'z' ? c - 'a' + 26
                : c >= '0' && c <= '9' ? c - '0' + 52
                : c == '+'             ? 62
                : c == '/'             ? 63
                                       : -1;
        if (v < 0) break;
        acc = ((acc << 6) | static_cast<uint32_t>(v)) & 0xFFFFFF;
        bits += 6;
        if (bits >= 8) {
            bits -= 8;
            o += static_cast<char>((acc >> bits) & 0xFF);
        }
    }
    return o;
}

class Sha1 {
    std::array<uint32_t, 5> h{0x67452301u, 0xEFCDAB89u, 0x98BADCFEu, 0x10325476u, 0xC3D2E1F0u};
    uint64_t total = 0;
    std::array<uint8_t, 64> buf{};
    size_t fill = 0;
    static uint32_t rol(uint32_t v, int n) { return (v << n) | (v >> (32 - n)); }
    void block(const uint8_t* p) {
        uint32_t w[80];
        for (int i = 0; i < 16; ++i) w[i] = uint32_t(p[4 * i]) << 24 | uint32_t(p[4 * i + 1]) << 16 | uint32_t(p[4 * i + 2]) << 8 | p[4 * i + 3];
        for (int i = 16; i < 80; ++i) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
        for (int i = 0; i < 80; ++i) {
            uint32_t f = i < 20 ? (d ^ (b & (c ^ d))) : i < 40 ? (b ^ c ^ d) : i < 60 ? ((b & c) | (d & (b | c))) : (b ^ c ^ d);
            uint32_t k = i < 20 ? 0x5A827999u : i < 40 ? 0x6ED9EBA1u : i < 60 ? 0x8F1BBCDCu : 0xCA62C1D6u;
            uint32_t t = rol(a, 5) + f + e + k + w[i];
            e = d;
            d = c;
            c = rol(b, 30);
            b = a;
            a = t;
        }
        h[0] += a;
        h[1] += b;
        h[2] += c;
        h[3] += d;
        h[4] += e;
    }

public:
    void add(std::string_view d) {
        total += d.size();
        auto p = reinterpret_cast<const uint8_t*>(d.data());
        size_t n = d.size();
        while (n) {
            if (fill == 0 && n >= 64) {
                block(p);
                p += 64;
                n -= 64;
                continue;
            }
            buf[fill++] = *p++;
            --n;
            if (fill == 64) {
                block(buf.data());
                fill = 0;
            }
        }
    }
    std::array<uint32_t, 5> finish() {
        uint64_t bitCount = total * 8;
        std::string pad(1, '\x80');
        while ((total + pad.size()) % 64 != 56) pad += '\0';
        for (int i = 7; i >= 0; --i) pad += static_cast<char>(bitCount >> (8 * i));
        add(pad);
        return h;
    }
};
inline std::array<uint32_t, 5> sha1(std::string_view d) {
    Sha1 s;
    s.add(d);
    return s.finish();
}
inline std::string sha1Bytes(std::string_view d) {
    std::string o;
    for (auto v : sha1(d))
        for (int i = 3; i >= 0; --i) o += static_cast<char>(v >> (8 * i));
    return o;
}
/// RFC 6455 accept value
inline std::string acceptKey(const std::string& key) { return base64(sha1Bytes(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11")); }
} // namespace ref
