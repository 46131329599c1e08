// C37 what the library provides for toolchains which lack std::format, std::byteswap or std::source_location.
// This toolchain has them: the standard headers are included first, then the feature macros are hidden and the replacements are
// defined under other names.
#define _GLIBCXX_CHRONO_IO_H 1 // such a toolchain does not stream times either
#include "pbt.hpp"
#include "quiet.hpp"
#include "ref.hpp"

#include <algorithm>
#include <array>
#include <bit>
#include <chrono>
#include <concepts>
#include <cstring>
#include <filesystem>
#include <format>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <source_location>
#include <span>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include <version>

#undef __cpp_lib_format
#undef __cpp_lib_byteswap
#undef __cpp_lib_source_location
#define format replacementFormat
#define byteswap replacementByteswap
#define source_location replacementSourceLocation
#include <details/C++20Support.hpp>
#include <details/C++23Support.hpp>
#include <http/Encodings.hpp>
#include <system/FileSystem.hpp>
#include <tooling/Logger.hpp>
#undef format
#undef byteswap
#undef source_location

using namespace pbt;
namespace wf = webfront;

namespace {
/// An argument and its text
struct Arg {
    enum Kind { text, view, literal, character, integer, longInteger, unsignedInteger, byte, kinds } kind;
    std::string t;
    long long n = 0;
};
Arg genArg(Src& s) {
    Arg a{static_cast<Arg::Kind>(s.draw(Arg::kinds - 1)), {}, 0};
    switch (a.kind) {
    case Arg::text:
    case Arg::view: a.t = s.text(s.chance(1, 20) ? s.magnitude(3000) : s.small(20), "{}{}ab:0 %\n"); break;
    case Arg::literal: a.t = "lit{}"; break;
    case Arg::character: a.t = std::string(1, static_cast<char>(s.range(32, 126))); break;
    case Arg::integer: a.n = static_cast<int32_t>(s.draw(UINT32_MAX)); break;
    case Arg::longInteger: a.n = static_cast<long long>(s.draw(UINT64_MAX)); break;
    case Arg::unsignedInteger: a.n = static_cast<long long>(s.draw(UINT32_MAX)); break;
    default: a.n = static_cast<long long>(s.draw(65535));
    }
    if (a.kind >= Arg::integer) a.t = std::to_string(a.n);
    return a;
}
/// Streams an argument as its own type would be
template<typename F>
auto with(const Arg& a, F&& f) {
    switch (a.kind) {
    case Arg::text: return f(a.t);
    case Arg::view: return f(std::string_view(a.t));
    case Arg::literal: return f("lit{}");
    case Arg::character: return f(a.t[0]);
    case Arg::integer: return f(static_cast<int32_t>(a.n));
    case Arg::longInteger: return f(a.n);
    case Arg::unsignedInteger: return f(static_cast<uint32_t>(a.n));
    default: return f(static_cast<uint16_t>(a.n));
    }
}
/// Streamable view of an argument, for calls of many arguments
struct Any {
    const Arg* a;
    friend std::ostream& operator<<(std::ostream& o, const Any& x) {
        with(*x.a, [&](const auto& v) -> void { o << v; });
        return o;
    }
};
std::string genFragment(Src& s) { return s.text(s.chance(1, 30) ? s.magnitude(2000) : s.small(8), "ab:0 %\n\t-><|[]"); }

template<size_t N, typename F>
auto callWith(const std::vector<Arg>& args, F&& f) {
    return [&]<size_t... Is>(std::index_sequence<Is...>) { return f(Any{&args[Is]}...); }(std::make_index_sequence<N>{});
}
template<typename F>
auto callWithAll(const std::vector<Arg>& args, F&& f) {
    switch (args.size()) {
    case 1: return with(args[0], [&](const auto& a) { return f(a); });
    case 2: return with(args[0], [&](const auto& a) { return with(args[1], [&](const auto& b) { return f(a, b); }); });
    case 3: return callWith<3>(args, f);
    case 4: return callWith<4>(args, f);
    case 5: return callWith<5>(args, f);
    case 9: return callWith<9>(args, f);
    case 16: return callWith<16>(args, f);
    case 31: return callWith<31>(args, f);
    case 32: return callWith<32>(args, f);
    default: return callWith<6>(args, f);
    }
}
struct Composed {
    std::string fmt, expected;
    std::vector<Arg> args;
};
Composed compose(Src& s) {
    static const std::vector<size_t> counts{1, 2, 3, 4, 5, 6, 9, 16, 31, 32};
    Composed r;
    auto n = s.chance(1, 8) ? counts[s.index(counts.size())] : counts[s.index(5)];
    r.fmt = r.expected = genFragment(s);
    for (size_t i = 0; i < n; ++i) {
        r.args.push_back(genArg(s));
        r.fmt += "{}";
        r.expected += r.args.back().t;
        auto f = s.chance(1, 3) ? std::string() : genFragment(s);
        r.fmt += f;
        r.expected += f;
    }
    return r;
}
} // namespace

PROPERTY("C37.format", 300000, 6000000,
         "format texts of fragments and 1..32 placeholders, arguments of 8 types (texts holding braces); non-trivial: two placeholders and a fragment") {
    auto r = compose(s);
    if (c.describing()) c.describe(cat("format ", printable(r.fmt), " with ", r.args.size(), " arguments: ", printable(r.expected)));
    auto got = callWithAll(r.args, [&](const auto&... a) { return std::replacementFormat(r.fmt, a...); });
    CHECK_EQ_TEXT(got, r.expected);
    CHECK_EQ_TEXT(std::replacementFormat(r.fmt), r.fmt); // without arguments, the text itself
    c.label(cat(r.args.size() > 5 ? "many" : "few", " arguments"));
    if (r.args.size() > 1 && r.fmt.size() > 2 * r.args.size()) c.nontrivial();
}

PROPERTY("C37.records", 120000, 2400000,
         "a record of composed text at a generated level, logged through 1..3 sinks by a logger built over the replacements; non-trivial: it is enabled and has an argument") {
    namespace log = wf::log;
    struct Got {
        std::vector<std::string> texts;
    };
    std::vector<Got> sinks(1 + s.draw(2));
    log::out.sinks.clear();
    for (auto& k : sinks) log::addSinks([&k](std::string_view t) { k.texts.emplace_back(t); });
    auto enabled = static_cast<int>(s.draw(4));
    log::setLogLevel(static_cast<uint8_t>(enabled));
    auto level = 1 + static_cast<int>(s.draw(3));
    auto r = compose(s);
    while (r.args.size() > 3) r = compose(s);
    if (c.describing()) c.describe(cat("level ", level, " of ", enabled, ": ", printable(r.expected)));
    auto send = [&](const auto&... a) {
        switch (level) {
        case 1: log::error(r.fmt, a...); break;
        case 2: log::warn(r.fmt, a...); break;
        case 3: log::info(r.fmt, a...); break;
        default: log::debug(r.fmt, a...);
        }
        return 0;
    };
    callWithAll(r.args, send);
    for (auto& k : sinks) {
        CHECK(k.texts.size() == (level <= enabled), k.texts.size(), " records at level ", level, " when ", enabled, " is set");
        if (k.texts.empty()) continue;
        auto& t = k.texts[0];
        CHECK(t.starts_with(std::string("[") + "?EWID"[level] + "] "), "record ", printable(t));
        CHECK(t.ends_with("| " + r.expected), "record ", printable(t), " does not carry ", printable(r.expected));
        CHECK(t.size() < r.expected.size() + 120, "record ", printable(t));
        c.nontrivial();
    }
    log::out.sinks.clear();
}

PROPERTY("C37.time", 300000, 6000000, "times of the day at every resolution from nanoseconds to seconds, since 1970; non-trivial: a component below ten") {
    auto us = static_cast<int64_t>(s.draw(4102444800'000000ull));
    if (s.coin()) us = static_cast<int64_t>(s.draw(30000)) * 86400'000000 + static_cast<int64_t>(s.draw(10) * 3600'000000ull + s.draw(10) * 60'000000ull + s.draw(10) * 1000000ull + s.magnitude(999999));
    auto text = [](auto t) {
        std::ostringstream o;
        using webfront::operator<<;
        o << t;
        return o.str();
    };
    using namespace std::chrono;
    auto timeOfDay = [](int64_t t) {
        char b[40];
        std::snprintf(b, sizeof b, "%02d:%02d:%02d.%06d", int(t / 3600'000000 % 24), int(t / 60'000000 % 60), int(t / 1000000 % 60), int(t % 1000000));
        return std::string(b);
    };
    auto expected = timeOfDay(us);
    if (c.describing()) c.describe(expected);
    CHECK_EQ_TEXT(text(sys_time<microseconds>(microseconds(us))), expected);
    CHECK_EQ_TEXT(text(sys_time<nanoseconds>(microseconds(us) + nanoseconds(s.draw(999)))), expected);
    CHECK_EQ_TEXT(text(sys_time<milliseconds>(floor<milliseconds>(microseconds(us)))), timeOfDay(us / 1000 * 1000));
    CHECK_EQ_TEXT(std::replacementFormat("[{}]{:%T}|{}", 'a', system_clock::time_point(duration_cast<system_clock::duration>(microseconds(us))), "{}"), "[a]" + expected + "|{}");
    if (expected.find('0') != std::string::npos) c.nontrivial();
}

PROPERTY("C37.bytes", 300000, 6000000,
         "integers of 16, 32 and 64 bits whose bytes are reversed, sequences of 32-bit integers in base64 and embedded files over the replacement; non-trivial: the reversal differs") {
    auto v = s.draw(UINT64_MAX);
    if (s.coin()) v >>= s.draw(63);
    CHECK(std::replacementByteswap(v) == __builtin_bswap64(v), v);
    CHECK(std::replacementByteswap(static_cast<uint32_t>(v)) == __builtin_bswap32(static_cast<uint32_t>(v)), v);
    CHECK(std::replacementByteswap(static_cast<uint16_t>(v)) == __builtin_bswap16(static_cast<uint16_t>(v)), v);
    if (__builtin_bswap64(v) != v) c.nontrivial();

    std::vector<uint32_t> words(s.small(9));
    std::string bytes;
    for (auto& w : words) {
        w = static_cast<uint32_t>(s.draw(UINT32_MAX));
        for (int shift = 24; shift >= 0; shift -= 8) bytes += static_cast<char>(w >> shift);
    }
    CHECK_EQ_TEXT(wf::base64::encodeInNetworkOrder(words), ref::base64(bytes));

    std::string content = s.text(s.small(40), "abcdefghijklmnopqrstuvwxyz");
    std::vector<uint64_t> data((content.size() + 7) / 8);
    for (size_t i = 0; i < content.size(); ++i) data[i / 8] |= uint64_t(static_cast<uint8_t>(content[i])) << (56 - 8 * (i % 8));
    wf::fs::File file(data, content.size());
    std::string got;
    std::array<char, 16> buffer;
    for (size_t steps = 0; steps < 100; ++steps) {
        auto n = file.read(std::span(buffer.data(), 1 + s.index(buffer.size())));
        if (!n) break;
        got.append(buffer.data(), n);
    }
    CHECK_EQ_TEXT(got, content);
    if (c.describing()) c.describe(cat(v, ", ", words.size(), " words, file of ", content.size()));
}
