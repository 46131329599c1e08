// C13 percent-encoding, C14 URI splitting, C15 base64, C16 SHA-1
#include "pbt.hpp"
#include "ref.hpp"

#include <http/Encodings.hpp>

using namespace pbt;
namespace wf = webfront;

// ---------------------------------------------------------------------------------------------------------- C13
// Stand-ins for two functions of the C library whose argument has to be an unsigned char or EOF: any other value, which glibc happens to tolerate,
// is recorded
static int outOfDomain = 0;
static int domain(int c) noexcept {
    if (c < -1 || c > 255) outOfDomain = c;
    return c;
}
extern "C" int isxdigit(int c) noexcept {
    domain(c);
    return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
}
extern "C" int isalnum(int c) noexcept {
    domain(c);
    return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
}

static std::string modelDecode(std::string_view t) {
    auto hex = [](char c) -> int {
        if (c >= '0' && c <= '9') return c - '0';
        if (c >= 'a' && c <= 'f') return c - 'a' + 10;
        if (c >= 'A' && c <= 'F') return c - 'A' + 10;
        return -1;
    };
    std::string out;
    for (size_t i = 0; i < t.size();) {
        if (t[i] == '%' && i + 2 < t.size() && hex(t[i + 1]) >= 0 && hex(t[i + 2]) >= 0) {
            out += static_cast<char>(hex(t[i + 1]) * 16 + hex(t[i + 2]));
            i += 3;
        }
        else {
            out += t[i] == '+' ? ' ' : t[i];
            ++i;
        }
    }
    return out;
}

PROPERTY("C13.roundtrip", 1200000, 24000000,
         "byte strings of 0..600 (rarely 300 000) bytes over all values; non-trivial: at least one byte needs escaping and at least one does not") {
    outOfDomain = 0;
    auto text = s.blob(s.orAny(s.sized({24, 25, 255, 256, 512}, 600), 300'000, 2000));
    c.describe(cat("encode+decode of ", printable(text)));
    auto enc = wf::uri::encode(text);
    bool esc = false, plain = false, high = false;
    size_t pos = 0;
    for (char ch : text) {
        auto b = static_cast<unsigned char>(ch);
        bool unreserved = (b >= '0' && b <= '9') || (b >= 'A' && b <= 'Z') || (b >= 'a' && b <= 'z') || b == '-' || b == '_' || b == '.' || b == '~';
        high = high || b > 127;
        if (unreserved) {
            plain = true;
            CHECK(pos < enc.size() && enc[pos] == ch, "position ", pos, " of ", printable(enc));
            ++pos;
        }
        else {
            esc = true;
            static const char* digits = "0123456789ABCDEF";
            CHECK(pos + 3 <= enc.size() && enc[pos] == '%' && enc[pos + 1] == digits[b >> 4] && enc[pos + 2] == digits[b & 15], "byte ", +b, " encoded as ",
                  printable(enc.substr(std::min(pos, enc.size()), 4)));
            pos += 3;
        }
    }
    CHECK(pos == enc.size(), "trailing text ", printable(enc.substr(pos)));
    CHECK_EQ_TEXT(wf::uri::decode(enc), text, "decode(encode(x))");
    CHECK(outOfDomain == 0, "isxdigit or isalnum called with ", outOfDomain);
    c.nontrivial(esc && plain);
    c.label(high, "bytes>127");
    c.label(text.empty(), "empty");
}

PROPERTY("C13.decode", 1800000, 36000000,
         "texts biased to percent signs, hex digits, truncated and invalid escapes, plus signs, bytes >127; non-trivial: contains a valid escape and an "
         "invalid or truncated one") {
    outOfDomain = 0;
    std::string t;
    auto n = s.orAny(s.small(60), 70'000, 2000);
    bool valid = false, invalid = false;
    for (size_t i = 0; i < n; ++i) {
        switch (s.weighted({3, 3, 2, 1, 2})) {
        case 0: t += s.byteChar(); break;
        case 1:
            t += '%';
            t += "0123456789abcdefABCDEF"[s.index(22)];
            t += "0123456789abcdefABCDEF"[s.index(22)];
            break;
        case 2:
            t += '%';
            t += "0123456789abcdefABCDEFgG/:@`\x80\xff"[s.index(30)];
            break;
        case 3: t += '+'; break;
        default: t += "%%%2%zz%0+% %"[s.index(13)]; break;
        }
    }
    c.describe(cat("decode of ", printable(t)));
    for (size_t i = 0; i < t.size(); ++i)
        if (t[i] == '%') (modelDecode(t.substr(i, 3)).size() == 1 && t.size() - i >= 3 ? valid : invalid) = true;
    // the input lives in an exactly sized heap block, so that reading past it is seen
    std::vector<char> exact(t.begin(), t.end());
    CHECK_EQ_TEXT(wf::uri::decode(std::string_view(exact.data(), exact.size())), modelDecode(t));
    CHECK(outOfDomain == 0, "isxdigit called with ", outOfDomain);
    c.nontrivial(valid && invalid);
    c.label(valid, "valid escape");
    c.label(invalid, "invalid escape");
}

// ---------------------------------------------------------------------------------------------------------- C14
struct UriParts {
    std::string scheme, userinfo, host, port, path, query, fragment;
    bool hasUser, hasPort, hasQuery, hasFragment;
    std::string authority() const { return (hasUser ? userinfo + "@" : "") + host + (hasPort ? ":" + port : ""); }
    std::string compose() const {
        return scheme + "://" + authority() + path + (hasQuery ? "?" + query : "") + (hasFragment ? "#" + fragment : "");
    }
};
static UriParts genUri(Src& s) {
    static const std::string alpha = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", digit = "0123456789";
    static const std::string unreserved = alpha + digit + "-._~", sub = "!$&'()*+,;=", pchar = unreserved + sub + ":@";
    auto some = [&](size_t max, const std::string& chars, const std::string& special) {
        std::string out;
        auto n = s.orAny(s.small(max), 70'000, 4000);
        for (size_t i = 0; i < n; ++i) {
            switch (s.weighted({4, 3, 1})) {
            case 0: out += chars[s.index(chars.size())]; break;
            case 1:
                if (!special.empty()) out += special[s.index(special.size())];
                break;
            default:
                out += '%';
                out += "0123456789ABCDEF"[s.index(16)];
                out += "0123456789ABCDEF"[s.index(16)];
            }
        }
        return out;
    };
    UriParts u;
    u.scheme = s.oneOf<std::string>({"http", "https", "ws", "a", "ftp", "x+y-z.1"});
    if (s.chance(1, 4)) u.scheme = std::string(1, alpha[s.index(alpha.size())]) + s.text(s.draw(8), alpha + digit + "+-.");
    u.hasUser = s.coin();
    if (u.hasUser) u.userinfo = some(12, unreserved, sub + ":");
    switch (s.weighted({4, 2, 1, 1})) {
    case 0: u.host = s.oneOf<std::string>({"localhost", "www.example.com", "a", "127.0.0.1"}); break;
    case 1: u.host = "h" + some(20, unreserved, sub); break;
    case 2: u.host = s.oneOf<std::string>({"[::1]", "[2001:db8::7]", "[fe80::1:2:3]", "[v1.x:y]"}); break;
    default: u.host = ""; break;
    }
    u.hasPort = s.coin();
    if (u.hasPort) u.port = s.coin() ? std::to_string(s.draw(65535)) : "";
    if (s.chance(3, 4)) {
        u.path = "/" + some(30, pchar, "/");
        // an empty first segment "//" after an authority is legal
    }
    u.hasQuery = s.coin();
    if (u.hasQuery) u.query = some(20, pchar, "/?:@&=");
    u.hasFragment = s.coin();
    if (u.hasFragment) u.fragment = some(20, pchar, "/?:@");
    return u;
}
static void checkUri(const wf::uri::URI& v, const UriParts& u, const char* when) {
    CHECK_EQ_TEXT(v.string, u.compose(), when);
    CHECK_EQ_TEXT(v.scheme, u.scheme, when, " scheme of ", v.string);
    CHECK_EQ_TEXT(v.authority, u.authority(), when, " authority of ", v.string);
    CHECK_EQ_TEXT(v.path, u.path, when, " path of ", v.string);
    CHECK_EQ_TEXT(v.query, u.query, when, " query of ", v.string);
    CHECK_EQ_TEXT(v.fragment, u.fragment, when, " fragment of ", v.string);
    CHECK_EQ_TEXT(v.userinfo, u.userinfo, when, " userinfo of ", v.string);
    CHECK_EQ_TEXT(v.host, u.host, when, " host of ", v.string);
    CHECK_EQ_TEXT(v.port, u.port, when, " port of ", v.string);
}
PROPERTY("C14.split", 750000, 15000000,
         "histories of 1..4 URIs composed from generated components, split in one process, kept, copied, and re-checked after the original is gone; "
         "non-trivial: some component is absent and another contains a delimiter of a different component") {
    auto n = 1 + s.draw(3);
    std::vector<UriParts> parts;
    std::vector<std::unique_ptr<wf::uri::URI>> uris;
    bool absent = false, delim = false;
    for (size_t i = 0; i < n; ++i) {
        parts.push_back(genUri(s));
        auto& u = parts.back();
        c.describe(cat(i ? ", " : "split ", u.compose()));
        uris.push_back(std::make_unique<wf::uri::URI>(u.compose()));
        checkUri(*uris.back(), u, "just built:");
        absent = absent || !u.hasUser || !u.hasPort || !u.hasQuery || !u.hasFragment || u.path.empty();
        delim = delim || u.query.find_first_of("/?:@") != u.query.npos || u.fragment.find_first_of("/?:@") != u.fragment.npos ||
                u.path.find_first_of(":@") != u.path.npos || u.userinfo.find(':') != u.userinfo.npos || u.host.starts_with("[");
        c.label(u.path.empty(), "no path");
        c.label(!u.hasQuery && u.hasFragment, "fragment without query");
        c.label(u.host.starts_with("["), "IP literal");
        c.label(u.hasUser, "userinfo");
    }
    for (size_t i = 0; i < n; ++i) checkUri(*uris[i], parts[i], "after later ones:");
    for (size_t i = 0; i < n; ++i) {
        auto copy = std::make_unique<wf::uri::URI>(*uris[i]);
        uris[i] = std::make_unique<wf::uri::URI>("zz://other.host.example/with/a/long/path/of/its/own?x#y");
        checkUri(*copy, parts[i], "copy, original gone:");
        auto moved = wf::uri::URI(std::move(*copy));
        copy.reset();
        checkUri(moved, parts[i], "moved:");
    }
    c.nontrivial(absent && delim);
}

// ---------------------------------------------------------------------------------------------------------- C15
static void checkB64(const std::string& data, const std::string& enc) {
    CHECK(enc.size() == (data.size() + 2) / 3 * 4, "size ", enc.size(), " for ", data.size(), " bytes");
    CHECK_EQ_TEXT(enc, ref::base64(data));
    CHECK_EQ_TEXT(ref::unbase64(enc), data, "decoded back");
}
PROPERTY("C15.bytes", 1200000, 18000000, "byte sequences of 0..700 (rarely 1 000 000) bytes as string, vector<uint8_t>, vector<byte>; non-trivial: at least 2 bytes") {
    auto data = s.blob(s.orAny(s.sized({0, 1, 2, 3, 4, 57, 192, 255, 512}, 700), 1'000'000, 2000));
    c.describe(cat("base64 of ", printable(data)));
    switch (s.draw(2)) {
    case 0: checkB64(data, wf::base64::encode(std::vector<char>(data.begin(), data.end()))); break;
    case 1: checkB64(data, wf::base64::encode(std::vector<uint8_t>(data.begin(), data.end()))); break;
    default: checkB64(data, wf::base64::encode(data));
    }
    c.nontrivial(data.size() >= 2);
    c.label(cat("size%3=", data.size() % 3));
    c.label(data.size() < 3, "size<3");
}
template<typename T, typename C>
static void checkNet(const C& values) {
    std::string big;
    for (T v : values)
        for (size_t i = sizeof(T); i-- > 0;) big += static_cast<char>(static_cast<std::make_unsigned_t<T>>(v) >> (8 * i));
    checkB64(big, wf::base64::encodeInNetworkOrder(values));
    std::string native(reinterpret_cast<const char*>(values.data()), values.size() * sizeof(T));
    checkB64(native, wf::base64::encode(values));
}
template<typename T>
static void netCase(Src& s, Ctx& c) {
    if (s.coin()) {
        std::array<T, 5> a;
        for (auto& v : a) v = static_cast<T>(s.coin() ? s.draw(255) << (8 * s.draw(sizeof(T) - 1)) : s.draw(UINT64_MAX));
        c.describe(cat("array of 5 x ", sizeof(T), " bytes starting with ", +a[0]));
        checkNet<T>(a);
    }
    else {
        std::vector<T> v(s.orAny(s.small(70), 20'000, 2000));
        for (auto& x : v) x = static_cast<T>(s.draw(UINT64_MAX));
        c.describe(cat("vector of ", v.size(), " x ", sizeof(T), " bytes"));
        checkNet<T>(v);
        c.label(v.empty(), "empty vector");
    }
}
PROPERTY("C15.integers", 600000, 9000000,
         "arrays and vectors of 16, 32, 64-bit integers, signed or not, network order and native order; non-trivial: all") {
    switch (s.draw(4)) {
    case 0: netCase<uint32_t>(s, c); break;
    case 1: netCase<uint16_t>(s, c); break;
    case 2: netCase<uint64_t>(s, c); break;
    case 3: netCase<int32_t>(s, c); break;
    default: netCase<int64_t>(s, c);
    }
    c.nontrivial();
}

// ---------------------------------------------------------------------------------------------------------- C16
static std::string digestHex(const std::array<uint32_t, 5>& d) {
    std::string o;
    char b[9];
    for (auto v : d) {
        snprintf(b, sizeof b, "%08x", v);
        o += b;
    }
    return o;
}
PROPERTY("C16.digest", 300000, 6000000,
         "byte strings of 0..1400 (rarely 3 000 000) bytes biased to the padding boundaries (55,56,57,63,64,65,119,120,128); non-trivial: more than one block") {
    auto size = s.sized({55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 183, 184, 192, 256, 512, 1024}, 1400);
    auto data = s.blob(s.orAny(size, 3'000'000, 2000));
    c.describe(cat("sha1 of ", printable(data)));
    std::vector<char> exact(data.begin(), data.end());
    std::string_view v(exact.data(), exact.size());
    auto expected = digestHex(ref::sha1(data));
    CHECK_EQ_TEXT(digestHex(wf::crypto::sha1(v)), expected, "length ", data.size());
    CHECK_EQ_TEXT(wf::crypto::sha1String(v), expected, "text form, length ", data.size());
    CHECK_EQ_TEXT(digestHex(wf::crypto::sha1(v)), expected, "again, length ", data.size());
    c.nontrivial(data.size() > 55);
    c.label(cat("tail ", data.size() % 64 < 56 ? "<56" : ">=56"));
}
PROPERTY("C16.all-lengths", 400, 4000, "every length 0..520 of one generated content per case; non-trivial: all") {
    auto seed = s.draw(255), step = s.draw(255);
    c.describe(cat("sha1 of every prefix of a 520-byte text, seed ", seed, " step ", step));
    std::string t;
    for (size_t n = 0; n <= 520; ++n) {
        CHECK_EQ_TEXT(wf::crypto::sha1String(t), digestHex(ref::sha1(t)), "length ", n);
        t += static_cast<char>(seed + n * step);
    }
    c.nontrivial();
}
