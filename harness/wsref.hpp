// wsref.hpp - independent RFC 6455 framing: what a client sends, and a strict reading of what a server sends
#pragma once
#include "pbt.hpp"

namespace ref {

struct WsFrame {
    int opcode = 0;
    bool fin = true;
    std::string data;
};

/// masked frame of a client
inline std::string clientFrame(int opcode, std::string_view data, uint32_t mask, bool fin = true, int rsv = 0) {
    std::string out;
    out += static_cast<char>((fin ? 0x80 : 0) | (rsv << 4) | opcode);
    auto n = data.size();
    if (n < 126) out += static_cast<char>(0x80 | n);
    else if (n < 65536) {
        out += static_cast<char>(0x80 | 126);
        out += static_cast<char>(n >> 8);
        out += static_cast<char>(n);
    }
    else {
        out += static_cast<char>(0x80 | 127);
        for (int i = 7; i >= 0; --i) out += static_cast<char>(static_cast<uint64_t>(n) >> (8 * i));
    }
    char key[4] = {static_cast<char>(mask >> 24), static_cast<char>(mask >> 16), static_cast<char>(mask >> 8), static_cast<char>(mask)};
    out.append(key, 4);
    auto start = out.size();
    out.append(data);
    for (size_t i = 0; i < n; ++i) out[start + i] = static_cast<char>(out[start + i] ^ key[i % 4]);
    return out;
}

/// length of a shortest server header for a payload
inline size_t serverHeaderSize(uint64_t n) { return n < 126 ? 2 : n < 65536 ? 4 : 10; }

/// Strict reading of a server's bytes: whole, final, unmasked frames with the shortest length. @param partial accepts a truncated last frame (dropped)
inline std::vector<WsFrame> serverFrames(std::string_view raw, bool partial = false) {
    std::vector<WsFrame> out;
    size_t pos = 0;
    auto bad = [&](const std::string& why) {
        throw pbt::Failure{pbt::cat("invalid server frame #", out.size(), " at byte ", pos, ": ", why, ": ", pbt::printable(raw.substr(pos), 40))};
    };
    while (pos < raw.size()) {
        auto left = raw.size() - pos;
        auto byte = [&](size_t i) { return static_cast<unsigned char>(raw[pos + i]); };
        if (left < 2) {
            if (partial) break;
            bad("truncated header");
        }
        WsFrame f;
        f.opcode = byte(0) & 15;
        f.fin = byte(0) & 0x80;
        if (!f.fin) bad("not final");
        if (byte(0) & 0x70) bad("reserved bits");
        if (byte(1) & 0x80) bad("masked");
        uint64_t n = byte(1);
        size_t header = n == 127 ? 10 : n == 126 ? 4 : 2;
        if (left < header) {
            if (partial) break;
            bad("truncated header");
        }
        if (header > 2) {
            n = 0;
            for (size_t i = 2; i < header; ++i) n = n << 8 | byte(i);
            if (serverHeaderSize(n) != header) bad(pbt::cat("length ", n, " encoded on ", header - 2, " bytes"));
        }
        if (left - header < n) {
            if (partial) break;
            bad(pbt::cat("payload of ", n, " bytes truncated to ", left - header));
        }
        f.data = raw.substr(pos + header, n);
        out.push_back(std::move(f));
        pos += header + n;
    }
    return out;
}

/// payload sizes around every boundary of the format and of the reception buffer
inline size_t payloadSize(pbt::Src& s, size_t max) {
    switch (s.weighted({6, 4, 2})) {
    case 0: return s.small(std::min<size_t>(max, 140));
    case 1: return std::min(max, s.oneOf<size_t>({0, 1, 124, 125, 126, 127, 128, 255, 256, 1000, 8178, 8192, 8200, 65534, 65535, 65536, 65537, 70000}) + s.draw(2));
    default: return s.draw(max);
    }
}

struct WsMessage {
    bool text = false;
    std::string data;
};

} // namespace ref
