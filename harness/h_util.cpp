// C29 logger, C31 hex dump, C32 type-erased functions, C33 network buffers
#include "pbt.hpp"
#include "quiet.hpp"

#include <networking/BasicNetworking.hpp>
#include <tooling/HexDump.hpp>
#include <tooling/Logger.hpp>
#include <utils/TypeErasedFunction.hpp>

#include <span>

using namespace pbt;
namespace wf = webfront;

// ------------------------------------------------------------------------------------------------------ C29 logger
namespace {
/// A sink recording what it gets, and the model of what it should get
struct Sink {
    size_t id = 0;
    bool active = true, managed = false;
    std::vector<std::string> got;
    std::vector<std::string> expected; // text every record has to end with
};
struct Emission {
    std::string text; // the formatted message
    char level;
};
std::string bracedText(Src& s, size_t max) { return s.text(s.small(max), "{}{}ab:0 %s\\\n\t\"'<>^"); }
} // namespace

PROPERTY("C29.sinks", 480000, 12000000,
         "1..40 (rarely 3000) operations: add a sink (alone or with others), remove one, set the level, toggle one level, log at a level with 0..3 arguments (text with braces, some of up to 70000 characters), hex dump; "
         "non-trivial: a removal, two sinks, both a delivered and a suppressed record") {
    namespace log = wf::log;
    auto reset = [](auto& o) {
        if constexpr (requires { o.sinks.clear(); }) o.sinks.clear();
    };
    reset(log::out);
    bool enabled[5] = {};
    auto setLevel = [&](int l) {
        switch (l) {
        case 0: log::setLogLevel(log::Disabled); break;
        case 1: log::setLogLevel(log::Error); break;
        case 2: log::setLogLevel(log::Warn); break;
        case 3: log::setLogLevel(log::Info); break;
        default: log::setLogLevel(log::Debug);
        }
        for (int i = 1; i <= 4; ++i) enabled[i] = i <= l;
    };
    setLevel(0);
    std::vector<std::unique_ptr<Sink>> sinks;
    auto sinkFunction = [&](Sink* k) { return [k](std::string_view t) { k->got.emplace_back(t); }; };
    size_t delivered = 0, suppressed = 0, removals = 0;

    auto emit = [&](int level, const std::string& expectedText, auto&& call) {
        std::vector<size_t> before;
        for (auto& k : sinks) before.push_back(k->got.size());
        call();
        for (size_t i = 0; i < sinks.size(); ++i) {
            auto& k = *sinks[i];
            auto n = k.got.size() - before[i];
            if (!k.active || !enabled[level]) {
                CHECK(n == 0, "sink ", i, k.active ? " got a record of a disabled level" : " got a record after its removal");
                continue;
            }
            CHECK(n == 1, "sink ", i, " got ", n, " deliveries of one record");
            auto& t = k.got.back();
            CHECK(t.size() >= expectedText.size() && t.substr(t.size() - expectedText.size()) == expectedText, "record ", printable(t), " does not carry ",
                  printable(expectedText));
            CHECK(t.size() >= 3 && t.substr(0, 3) == std::string("[") + "?EWID"[level] + "]", "record ", printable(t), " of level ", level);
            // nothing but the prefix ("[L] time | [file : line | ]") comes before the text
            auto prefix = t.substr(0, t.size() - expectedText.size());
            CHECK(prefix.size() < 120 && prefix.substr(prefix.size() - std::min<size_t>(2, prefix.size())) == "| ", "record ", printable(t), " for text ",
                  printable(expectedText));
        }
        (enabled[level] ? delivered : suppressed) += 1;
    };

    auto ops = s.many(41, 3000, 400);
    for (size_t o = 0; o < ops; ++o) {
        switch (s.weighted({3, 2, 2, 1, 8, 1})) {
        case 0: {
            auto n = 1 + (s.chance(1, 4) ? s.draw(2) : 0);
            std::vector<Sink*> added;
            for (size_t i = 0; i < n; ++i) {
                sinks.push_back(std::make_unique<Sink>());
                added.push_back(sinks.back().get());
            }
            size_t id = n == 1   ? log::addSinks(sinkFunction(added[0]))
                        : n == 2 ? log::addSinks(sinkFunction(added[0]), sinkFunction(added[1]))
                                 : log::addSinks(sinkFunction(added[0]), sinkFunction(added[1]), sinkFunction(added[2]));
            added.back()->id = id;
            added.back()->managed = true;
            for (auto& k : sinks)
                if (k.get() != added.back() && k->managed && k->active) CHECK(k->id != id, "two active sinks have the identifier ", id);
            if (c.describing()) c.describe(cat("add ", n, " -> ", id, "; "));
        } break;
        case 1: {
            std::vector<Sink*> candidates;
            for (auto& k : sinks)
                if (k->managed && k->active) candidates.push_back(k.get());
            if (candidates.empty()) break;
            auto k = candidates[s.index(candidates.size())];
            if (candidates.size() > 1 && s.chance(1, 4)) {
                auto k2 = candidates[s.index(candidates.size())];
                if (k2 != k) {
                    log::removeSinks(k->id, k2->id);
                    k2->active = false;
                }
                else
                    log::removeSinks(k->id);
            }
            else
                log::removeSinks(k->id);
            k->active = false;
            ++removals;
            if (c.describing()) c.describe(cat("remove ", k->id, "; "));
        } break;
        case 2: {
            auto l = static_cast<int>(s.draw(4));
            setLevel(l);
            if (c.describing()) c.describe(cat("level ", l, "; "));
        } break;
        case 3: {
            auto l = static_cast<int>(s.range(1, 4));
            bool on = s.coin();
            if (l == 1) log::set(log::Error, on);
            if (l == 2) log::set(log::Warn, on);
            if (l == 3) log::set(log::Info, on);
            if (l == 4) log::set(log::Debug, on);
            enabled[l] = on;
            if (c.describing()) c.describe(cat("set ", l, "=", on, "; "));
        } break;
        case 4: {
            auto level = static_cast<int>(s.range(1, 4));
            auto a = bracedText(s, 40), b = s.coin() ? std::string("{}") : s.utf8(s.small(30));
            auto n = static_cast<int64_t>(s.draw(UINT64_MAX));
            auto head = s.text(s.small(10), "abc 123|[]");
            if (s.chance(1, 20)) (s.coin() ? a : head).append(s.magnitude(70000), s.coin() ? 'x' : '|');
            std::string mid = s.oneOf<const char*>({"", " ", "|", "{{", "}}"});
            std::string midText = mid == "{{" ? "{" : mid == "}}" ? "}" : mid;
            auto args = s.draw(3);
            std::string fmt, text;
            switch (args) {
            case 0: fmt = text = head + s.text(s.small(8), "abc|. "); break;
            case 1:
                fmt = head + mid + "{}";
                text = head + midText + a;
                break;
            case 2:
                fmt = head + "{}" + mid + "{}";
                text = head + a + midText + std::to_string(n);
                break;
            default:
                fmt = head + "{1}" + mid + "{0}{2}";
                text = head + std::to_string(n) + midText + a + b;
            }
            if (c.describing()) c.describe(cat("log ", level, " ", printable(fmt), " -> ", printable(text), "; "));
            auto send = [&](auto&& f) {
                emit(level, text, [&] {
                    switch (args) {
                    case 0: f(std::string_view(fmt)); break;
                    case 1: f(std::string_view(fmt), a); break;
                    case 2: f(std::string_view(fmt), a, n); break;
                    default: f(std::string_view(fmt), a, n, b);
                    }
                });
            };
            switch (level) {
            case 1: send([](std::string_view t, auto&... x) { log::error(t, x...); }); break;
            case 2: send([](std::string_view t, auto&... x) { log::warn(t, x...); }); break;
            case 3: send([](std::string_view t, auto&... x) { log::info(t, x...); }); break;
            default: send([](std::string_view t, auto&... x) { log::debug(t, x...); }); break;
            }
        } break;
        default: {
            auto text = s.text(s.small(10), "abc def");
            auto bytes = s.blob(s.small(40));
            auto dump = wf::utils::hexDump(bytes);
            std::vector<size_t> before;
            for (auto& k : sinks) before.push_back(k->got.size());
            log::infoHex(text, bytes);
            if (c.describing()) c.describe("infoHex; ");
            for (size_t i = 0; i < sinks.size(); ++i) {
                auto& k = *sinks[i];
                std::string all;
                for (auto j = before[i]; j < k.got.size(); ++j) all += k.got[j] + "\n";
                if (!k.active || !enabled[3]) CHECK(k.got.size() == before[i], "a hex record was delivered to sink ", i);
                else CHECK(all.find("| " + text) != std::string::npos && all.size() >= dump.size() + 1 && all.substr(all.size() - dump.size() - 1, dump.size()) == dump,
                           "hex record incomplete for sink ", i, ": ", printable(all));
            }
        }
        }
        CHECK(log::is(log::Error) == enabled[1] && log::is(log::Warn) == enabled[2] && log::is(log::Info) == enabled[3] && log::is(log::Debug) == enabled[4],
              "is() does not tell the enabled levels");
    }
    c.nontrivial(removals > 0 && sinks.size() >= 2 && delivered > 0 && suppressed > 0);
    c.label(removals > 1, "several removals");
    reset(log::out);
    setLevel(0);
}

// ---------------------------------------------------------------------------------------------------- C31 hex dump
/// Independent reading of a dump: addresses, bytes and text columns
static void checkDump(const std::string& dump, const std::string& bytes, size_t start) {
    std::vector<std::string> lines;
    if (!dump.empty()) {
        size_t pos = 0;
        while (true) {
            auto e = dump.find('\n', pos);
            if (e == std::string::npos) {
                lines.push_back(dump.substr(pos));
                break;
            }
            lines.push_back(dump.substr(pos, e - pos));
            pos = e + 1;
        }
    }
    CHECK(lines.size() == (bytes.size() + 15) / 16, lines.size(), " lines for ", bytes.size(), " bytes");
    for (size_t l = 0; l < lines.size(); ++l) {
        auto& t = lines[l];
        size_t i = 0;
        uint64_t address = 0;
        while (i < t.size() && isxdigit(static_cast<unsigned char>(t[i]))) {
            address = address * 16 + static_cast<uint64_t>(t[i] <= '9' ? t[i] - '0' : (t[i] | 32) - 'a' + 10);
            ++i;
        }
        CHECK(i >= 8 && address == static_cast<uint64_t>(start + 16 * l), "address ", t.substr(0, i), " at line ", l, " of a dump starting at ", start);
        auto group = bytes.substr(16 * l, 16);
        CHECK(t.size() >= i + 50, "short line ", printable(t));
        auto area = t.substr(i, 50);
        std::string seen;
        for (size_t k = 0; k < area.size();) {
            if (area[k] == ' ') {
                ++k;
                continue;
            }
            CHECK(k + 1 < area.size() && isxdigit(static_cast<unsigned char>(area[k])) && isxdigit(static_cast<unsigned char>(area[k + 1])), "hexadecimal columns ",
                  printable(area));
            auto v = [](char d) { return d <= '9' ? d - '0' : (d | 32) - 'a' + 10; };
            seen += static_cast<char>(v(area[k]) * 16 + v(area[k + 1]));
            k += 2;
            CHECK(k == area.size() || area[k] == ' ', "hexadecimal columns ", printable(area));
        }
        CHECK(seen == group, "line ", l, " shows ", printable(seen), " for ", printable(group));
        auto text = t.substr(i + 50);
        CHECK(text.size() == group.size() + 1 && text[0] == ' ', "text columns ", printable(text), " for ", printable(group));
        for (size_t k = 0; k < group.size(); ++k) {
            auto b = static_cast<unsigned char>(group[k]);
            if (b >= 32 && b < 127) CHECK(text[k + 1] == group[k], "character ", printable(group.substr(k, 1)), " shown as ", printable(text.substr(k + 1, 1)));
            else if (b < 32 || b > 127) CHECK(static_cast<unsigned char>(text[k + 1]) >= 32, "control character shown raw");
        }
    }
}
template<typename T>
static std::string bytesOf(const T* p, size_t n) {
    return n ? std::string(reinterpret_cast<const char*>(p), n * sizeof(T)) : std::string{};
}
template<typename T>
static std::vector<T> elements(Src& s, size_t n) {
    auto b = s.blob(n * sizeof(T));
    std::vector<T> v(n);
    if (n) memcpy(v.data(), b.data(), b.size());
    return v;
}
static size_t startAddress(Src& s) {
    switch (s.weighted({4, 3, 2})) {
    case 0: return 0;
    case 1: return s.draw(0xFFFF);
    default: return s.oneOf<size_t>({8, 0xFFFFFFF0u, 0xFFFFFFFFu, 0x100000000u, 0x7FFFFFFFFFFFFF00u, 1, 0x12345678u}) + s.draw(3);
    }
}
template<typename T>
static void dumpOf(Src& s, Ctx& c, const char* name) {
    auto n = s.sized({16 / std::min<size_t>(16, sizeof(T)), 32 / sizeof(T), 48 / sizeof(T), 64}, 300 / sizeof(T));
    if (s.weighted({400, 1}) == 1) n = s.magnitude(150000) / sizeof(T);
    auto v = elements<T>(s, n);
    auto bytes = bytesOf(v.data(), n);
    auto start = startAddress(s);
    auto way = s.draw(5);
    c.nontrivial(bytes.size() > 16);
    c.label(name);
    if (c.describing()) c.describe(cat(name, " x", n, " start ", start, " way ", way, " ", printable(bytes)));
    switch (way) {
    case 0: checkDump(wf::utils::hexDump(v, start), bytes, start); break;
    case 1: checkDump(wf::utils::hexDump(std::span<const T>(v), start), bytes, start); break;
    case 2: checkDump(wf::utils::hexDump(v), bytes, 0); break;
    case 3: { // in two parts
        auto cut = n ? s.draw(n) : 0;
        std::vector<T> a(v.begin(), v.begin() + static_cast<std::ptrdiff_t>(cut));
        std::vector<T> b(v.begin() + static_cast<std::ptrdiff_t>(cut), v.end());
        checkDump(wf::utils::hexDump(a, std::span<const T>(b)), bytes, 0);
        c.label("two parts");
    } break;
    case 4: { // parts of different element types
        auto more = s.blob(s.small(40));
        checkDump(wf::utils::hexDump(v, more), bytes + more, 0);
        checkDump(wf::utils::hexDump(more, v), more + bytes, 0);
        c.label("two parts");
    } break;
    default: { // on a stream with its own formatting
        std::ostringstream os;
        auto formats = s.draw(31);
        if (formats & 1) os << std::oct;
        if (formats & 2) os << std::uppercase;
        if (formats & 4) os << std::showbase;
        if (formats & 8) os << std::left;
        if (formats & 16) os << std::setfill('*') << std::setprecision(3);
        if ((formats & (2 | 4 | 8)) == 0) {
            auto flags = os.flags();
            auto fill = os.fill();
            auto precision = os.precision();
            os << wf::utils::HexDump<std::vector<T>>(v, start);
            checkDump(os.str(), bytes, start);
            CHECK(os.flags() == flags && os.fill() == fill && os.precision() == precision && os.width() == 0, "the formatting of the stream has changed");
            os.str("");
            os << std::setw(6) << 8;
            CHECK(os.str() == std::string(5 - (formats & 1), (formats & 16) ? '*' : ' ') + ((formats & 1) ? "10" : "8"), "number printed after a dump: ", os.str());
        }
        else { // only the formatting left behind is looked at
            auto flags = os.flags();
            auto fill = os.fill();
            os << wf::utils::HexDump<std::vector<T>>(v, start);
            CHECK(os.flags() == flags && os.fill() == fill, "the formatting of the stream has changed");
        }
        c.label("stream");
    }
    }
}
PROPERTY("C31.dump", 600000, 15000000,
         "buffers of 0..300 bytes (rarely 150 000) of 9 element types, as a vector, span, string, array, in one or two parts, with any start address, to a string or a stream with its own "
         "formatting; non-trivial: more than one line") {
    switch (s.draw(9)) {
    case 0: dumpOf<uint8_t>(s, c, "uint8_t"); break;
    case 1: dumpOf<char>(s, c, "char"); break;
    case 2: dumpOf<std::byte>(s, c, "byte"); break;
    case 3: dumpOf<int16_t>(s, c, "int16_t"); break;
    case 4: dumpOf<uint32_t>(s, c, "uint32_t"); break;
    case 5: dumpOf<double>(s, c, "double"); break;
    case 6: dumpOf<uint64_t>(s, c, "uint64_t"); break;
    case 7: dumpOf<std::array<char, 3>>(s, c, "char[3]"); break;
    case 8: {
        auto t = s.blob(s.sized({16, 32, 48}, 200));
        auto start = startAddress(s);
        c.nontrivial(t.size() > 16);
        if (c.describing()) c.describe(printable(t));
        checkDump(wf::utils::hexDump(t, start), t, start);
        checkDump(wf::utils::hexDump(std::string_view(t), start), t, start);
        auto cut = s.draw(t.size());
        checkDump(wf::utils::hexDump(t.substr(0, cut), std::string_view(t).substr(cut)), t, 0);
    } break;
    default: {
        auto v = elements<uint16_t>(s, 11);
        std::array<uint16_t, 11> a;
        std::copy(v.begin(), v.end(), a.begin());
        auto start = startAddress(s);
        c.nontrivial();
        if (c.describing()) c.describe(printable(bytesOf(v.data(), 11)));
        checkDump(wf::utils::hexDump(a, start), bytesOf(v.data(), 11), start);
        checkDump(wf::utils::hexDump(a, a), bytesOf(v.data(), 11) + bytesOf(v.data(), 11), 0);
    }
    }
}

// --------------------------------------------------------------------------------------- C32 type-erased functions
namespace {
struct CallLog {
    std::vector<std::string> calls;
} calls;
template<typename... Ts>
std::string shown(const Ts&... ts) {
    std::ostringstream os;
    os.precision(17);
    (void)((os << ts << "|"), ...);
    return os.str();
}
int freeFunction(int a, double b, const char* t) {
    calls.calls.push_back("free " + shown(a, b, t));
    return a * 3 + static_cast<int>(strlen(t));
}
void freeVoid() { calls.calls.push_back("void "); }
struct Functor {
    int base;
    std::string operator()(int a) const {
        calls.calls.push_back("functor " + shown(base, a));
        return std::to_string(base + a);
    }
};
struct Object {
    int64_t total = 0;
    int64_t add(int a, std::string t) {
        calls.calls.push_back("member " + shown(total, a, t));
        total += a;
        return total;
    }
    bool check(uint8_t v) const {
        calls.calls.push_back("const member " + shown(total, int(v)));
        return v > 10;
    }
};
struct Named {
    std::string name;
    std::string greet(std::string t) const {
        calls.calls.push_back("named " + shown(name, t));
        return t + name;
    }
};
template<typename F>
void mustThrow(F&& f, const char* what) {
    bool thrown = false;
    auto before = calls.calls.size();
    try {
        f();
    }
    catch (const std::exception&) {
        thrown = true;
    }
    CHECK(thrown, what, " did not throw");
    CHECK(calls.calls.size() == before, what, " called something: ", calls.calls.back());
}
void mustCall(const std::string& expected, size_t before) {
    CHECK(calls.calls.size() == before + 1, calls.calls.size() - before, " calls instead of one");
    CHECK(calls.calls.back() == expected, "called with ", calls.calls.back(), " instead of ", expected);
}
} // namespace

PROPERTY("C32.calls", 180000, 4500000,
         "1..12 invocations, with or without result, of functions made from a function pointer, lambda, functor, std::function, member bound to a pointer, a shared pointer, an object "
         "which is copied or moved, by value, by reference, with move-only arguments, held in 1..4 slots, moved, swapped and replaced by others, and invocations with other types; non-trivial: a matching and a mismatching invocation") {
    using F = wf::utils::TypeErasedFunction;
    using namespace std::placeholders;
    calls.calls.clear();
    auto k = static_cast<int>(s.draw(1000));
    Object object;
    object.total = k;
    int64_t total = k;
    auto lambda = [k](std::string t, uint64_t n) {
        calls.calls.push_back("lambda " + shown(k, t, n));
        return t + std::to_string(n);
    };
    auto mutableLambda = [k](int n) mutable { calls.calls.push_back("mutable " + shown(n)); return n + 1; };
    auto make = [&](int which) -> F {
        switch (which) {
        case 0: return F(freeFunction);
        case 1: return F(freeVoid);
        case 2: return F(Functor{k});
        case 3: return F(lambda);
        case 4: return F(mutableLambda);
        case 5: return F(std::function<double(double, bool)>([](double a, bool b) { calls.calls.push_back("std " + shown(a, b)); return b ? a : -a; }));
        case 6: return F(&Object::add, &object, _1, _2);
        case 7: return F(&Object::check, &object, _1);
        case 8: return F([](int& r) { calls.calls.push_back("ref " + shown(r)); return ++r; });
        case 9: return F([](const std::string& t) { calls.calls.push_back("cref " + shown(t)); return t.size(); });
        case 10: return F([](std::unique_ptr<int> p) { calls.calls.push_back("unique " + shown(*p)); return p; });
        case 11: return F(&Named::greet, Named{std::string(40, 'n') + std::to_string(k)}, _1);
        case 12: return F(&Named::greet, std::make_shared<Named>(std::string(40, 'n') + std::to_string(k)), _1);
        default: {
            Named local{std::string(40, 'n') + std::to_string(k)};
            return F(&Named::greet, local, _1); // copied
        }
        }
    };
    std::vector<std::pair<int, F>> slots;
    auto kind = [&] { return static_cast<int>(s.draw(13)); };
    for (auto n = 1 + s.draw(3); n > 0; --n) {
        auto which = kind();
        slots.emplace_back(which, make(which));
    }
    bool good = false, wrong = false;
    for (auto n = 1 + s.draw(11); n > 0; --n) {
        auto& slot = slots[s.index(slots.size())];
        switch (s.weighted({8, 2, 1, 2})) {
        case 0: break;
        case 1: { // functions can be moved
            F moved(std::move(slot.second));
            slot.second = std::move(moved);
        } break;
        case 2: {
            auto& other = slots[s.index(slots.size())];
            if (&other != &slot) std::swap(slot, other);
        } break;
        default: // and replaced
            slot.first = kind();
            slot.second = make(slot.first);
            if (c.describing()) c.describe(cat("slot ", &slot - slots.data(), " = function ", slot.first, "; "));
        }
        auto which = slot.first;
        auto& fn = slot.second;
        auto how = s.draw(3); // 0: no result, 1: result, 2: other argument types, 3: other result type
        auto before = calls.calls.size();
        auto a = static_cast<int>(static_cast<int32_t>(s.draw(UINT32_MAX)));
        auto t = s.utf8(s.small(20));
        for (auto& ch : t)
            if (!ch) ch = '0';
        auto d = static_cast<double>(static_cast<int64_t>(s.draw(1u << 30))) / 7;
        if (c.describing()) c.describe(cat("function ", which, " how ", how, " a=", a, " t=", printable(t), "; "));
        (how < 2 ? good : wrong) = true;
        a = a / 8;
        switch (which) {
        case 0:
            if (how == 0) fn(static_cast<int>(a), static_cast<double>(d), static_cast<const char*>(t.c_str()));
            if (how == 1) CHECK((fn.call<int, int, double, const char*>(static_cast<int>(a), static_cast<double>(d), t.c_str()) == a * 3 + static_cast<int>(t.size())), "result");
            if (how < 2) mustCall("free " + shown(a, d, t), before);
            if (how == 2) mustThrow([&] { fn(static_cast<unsigned>(a), static_cast<double>(d), static_cast<const char*>(t.c_str())); }, "unsigned instead of int");
            if (how == 2) mustThrow([&] { fn(static_cast<int>(a), static_cast<double>(d)); }, "a missing argument");
            if (how == 3) mustThrow([&] { (void)fn.call<double>(static_cast<int>(a), static_cast<double>(d), static_cast<const char*>(t.c_str())); }, "double result");
            break;
        case 1:
            if (how == 0) fn();
            if (how == 1) fn.call<void>();
            if (how < 2) mustCall("void ", before);
            if (how == 2) mustThrow([&] { fn(static_cast<int>(a)); }, "an extra argument");
            if (how == 3) mustThrow([&] { (void)fn.call<int>(); }, "int result");
            break;
        case 2:
            if (how == 0) fn(static_cast<int>(a));
            if (how == 1) CHECK(fn.call<std::string>(static_cast<int>(a)) == std::to_string(k + a), "result");
            if (how < 2) mustCall("functor " + shown(k, a), before);
            if (how == 2) mustThrow([&] { fn(static_cast<long>(a)); }, "long instead of int");
            if (how == 3) mustThrow([&] { (void)fn.call<std::string_view>(static_cast<int>(a)); }, "string_view result");
            break;
        case 3: {
            auto n64 = static_cast<uint64_t>(static_cast<uint32_t>(a)) * 5000000000ull;
            if (how == 0) fn(std::string(t), uint64_t(n64));
            if (how == 1) CHECK((fn.call<std::string>(std::string(t), uint64_t(n64)) == t + std::to_string(n64)), "result");
            if (how < 2) mustCall("lambda " + shown(k, t, n64), before);
            if (how == 2) mustThrow([&] { fn(static_cast<const char*>(t.c_str()), uint64_t(n64)); }, "const char* instead of string");
            if (how == 2) mustThrow([&] { fn(uint64_t(n64), std::string(t)); }, "swapped arguments");
            if (how == 3) mustThrow([&] { fn.call<void>(std::string(t), uint64_t(n64)); }, "void result");
        } break;
        case 4:
            if (how == 0) fn(static_cast<int>(a));
            if (how == 1) CHECK(fn.call<int>(static_cast<int>(a)) == a + 1, "result");
            if (how < 2) mustCall("mutable " + shown(a), before);
            if (how == 2) mustThrow([&] { fn(static_cast<int>(a), static_cast<int>(a)); }, "an extra argument");
            if (how == 3) mustThrow([&] { (void)fn.call<bool>(static_cast<int>(a)); }, "bool result");
            break;
        case 5: {
            bool b = a & 1;
            if (how == 0) fn(static_cast<double>(d), static_cast<bool>(b));
            if (how == 1) CHECK(fn.call<double>(static_cast<double>(d), static_cast<bool>(b)) == (b ? d : -d), "result");
            if (how < 2) mustCall("std " + shown(d, b), before);
            if (how == 2) mustThrow([&] { fn(static_cast<float>(d), static_cast<bool>(b)); }, "float instead of double");
            if (how == 2) mustThrow([&] { fn(); }, "no argument");
            if (how == 3) mustThrow([&] { (void)fn.call<float>(static_cast<double>(d), static_cast<bool>(b)); }, "float result");
        } break;
        case 6:
            if (how == 0) fn(static_cast<int>(a), std::string(t));
            if (how == 1) CHECK(fn.call<int64_t>(static_cast<int>(a), std::string(t)) == total + a, "result");
            if (how < 2) {
                mustCall("member " + shown(total, a, t), before);
                total += a;
                CHECK(object.total == total, "the object bound has ", object.total, " instead of ", total);
            }
            if (how == 2) mustThrow([&] { fn(static_cast<int>(a), std::string_view(t)); }, "string_view instead of string");
            if (how == 3) mustThrow([&] { (void)fn.call<int>(static_cast<int>(a), std::string(t)); }, "int result");
            break;
        case 7: {
            auto v = static_cast<uint8_t>(a);
            if (how == 0) fn(static_cast<uint8_t>(v));
            if (how == 1) CHECK(fn.call<bool>(static_cast<uint8_t>(v)) == (v > 10), "result");
            if (how < 2) mustCall("const member " + shown(total, int(v)), before);
            if (how == 2) mustThrow([&] { fn(static_cast<char>(v)); }, "char instead of uint8_t");
            if (how == 3) mustThrow([&] { (void)fn.call<int>(static_cast<uint8_t>(v)); }, "int result");
        } break;
        case 8: {
            int var = a;
            if (how == 0) fn(var);
            if (how == 1) CHECK(fn.call<int>(var) == a + 1, "result");
            if (how < 2) {
                mustCall("ref " + shown(a), before);
                CHECK(var == a + 1, "the variable given by reference has ", var, " instead of ", a + 1);
            }
            if (how == 2) mustThrow([&] { fn(static_cast<int>(a)); }, "a temporary instead of a reference");
            if (how == 3) mustThrow([&] { (void)fn.call<size_t>(var); }, "size_t result");
        } break;
        case 9: {
            const std::string text = t;
            if (how == 0) fn(text);
            if (how == 1) CHECK(fn.call<size_t>(text) == t.size(), "result");
            if (how < 2) mustCall("cref " + shown(t), before);
            if (how == 2) mustThrow([&] { fn(std::string(t)); }, "a temporary instead of a constant reference");
            if (how == 3) mustThrow([&] { (void)fn.call<int>(text); }, "int result");
        } break;
        case 11:
        case 12:
        case 13: {
            auto name = std::string(40, 'n') + std::to_string(k);
            if (how == 0) fn(std::string(t));
            if (how == 1) CHECK(fn.call<std::string>(std::string(t)) == t + name, "result");
            if (how < 2) mustCall("named " + shown(name, t), before);
            if (how == 2) mustThrow([&] { fn(static_cast<int>(a)); }, "int instead of string");
            if (how == 3) mustThrow([&] { fn.call<void>(std::string(t)); }, "void result");
        } break;
        default: {
            auto p = std::make_unique<int>(a);
            auto raw = p.get();
            if (how == 0) fn(std::move(p));
            if (how == 1) CHECK(fn.call<std::unique_ptr<int>>(std::move(p)).get() == raw, "result");
            if (how < 2) mustCall("unique " + shown(a), before);
            if (how == 2) mustThrow([&] { fn(static_cast<int*>(raw)); }, "a pointer instead of unique_ptr");
            if (how == 3) mustThrow([&] { fn.call<void>(std::move(p)); }, "void result");
        }
        }
    }
    c.nontrivial(good && wrong);
}

// ------------------------------------------------------------------------------------------------------ C33 buffers
namespace {
using N = wf::networking::BasicNetworking<>;
template<typename B, typename T>
void mustView(const B& b, const T* data, size_t count, const char* what) {
    CHECK(b.size() == count * sizeof(T), what, ": views ", b.size(), " bytes instead of ", count * sizeof(T));
    if (count) {
        CHECK(b.data() == static_cast<const void*>(data), what, ": views other memory");
        CHECK(memcmp(b.data(), data, b.size()) == 0, what, ": other bytes");
    }
}
/// a limit to n elements: below, at or above n, up to the largest ones
size_t genLimit(Src& s, size_t n) {
    if (s.weighted({4, 1}) == 0) return s.draw(n + 3);
    auto large = s.oneOf<size_t>({0, n, 100000, size_t{1} << 40, size_t{1} << 60, size_t{1} << 61, size_t{1} << 62, size_t{1} << 63, SIZE_MAX});
    return s.coin() ? large : large > SIZE_MAX - 3 ? large - s.draw(3) : large + s.draw(3);
}
/// advancing, and what a buffer made from a buffer views
template<typename B>
void advance(Src& s, Ctx& c, B b, const char* what) {
    auto base = static_cast<const char*>(b.data());
    auto size = b.size();
    size_t offset = 0;
    N::ConstBuffer asConst = b;
    CHECK(asConst.data() == b.data() && asConst.size() == b.size(), what, ": constant view of a buffer");
    auto copy = N::Buffer(b);
    CHECK(copy.data() == b.data() && copy.size() == b.size(), what, ": buffer of a buffer");
    for (auto n = s.draw(4); n > 0; --n) {
        size_t by = s.weighted({3, 2, 1}) == 0 ? s.draw(size + 2) : s.coin() ? s.draw(8) : s.oneOf<size_t>({SIZE_MAX, size, size + 1, SIZE_MAX / 2 + 1, 0});
        auto& back = (b += by);
        CHECK(&back == &b, what, ": += returns another object");
        offset = by >= size - offset ? size : offset + by;
        CHECK(b.size() == size - offset, what, ": ", b.size(), " bytes left of ", size, " after an advance of ", by, " (", offset, " in all)");
        if (base) CHECK(static_cast<const char*>(b.data()) == base + offset, what, ": moved by ", static_cast<const char*>(b.data()) - base, " instead of ", offset);
        c.label(by > size, "beyond the end");
        auto limit = genLimit(s, size);
        auto part = N::Buffer(b, limit);
        CHECK(part.size() == std::min(limit, b.size()), what, ": limited to ", limit, " views ", part.size(), " of ", b.size());
        if (part.size()) CHECK(part.data() == b.data(), what, ": limited buffer views other memory");
    }
}
template<typename T>
void containers(Src& s, Ctx& c, size_t n) {
    auto v = elements<T>(s, n);
    const auto& cv = v;
    auto limit = genLimit(s, n);
    auto limited = std::min(n, limit);
    if (c.describing()) c.describe(cat("elements of ", sizeof(T), " bytes x", n, " limit ", limit, " "));
    mustView(N::Buffer(v), v.data(), n, "vector");
    mustView(N::Buffer(cv), v.data(), n, "constant vector");
    mustView(N::Buffer(v, limit), v.data(), limited, "limited vector");
    mustView(N::Buffer(cv, limit), v.data(), limited, "limited constant vector");
    mustView(N::Buffer(static_cast<void*>(v.data()), n * sizeof(T)), v.data(), n, "pointer");
    mustView(N::Buffer(static_cast<const void*>(v.data()), n * sizeof(T)), v.data(), n, "constant pointer");
    static_assert(std::is_same_v<decltype(N::Buffer(v)), N::MutableBuffer> && std::is_same_v<decltype(N::Buffer(cv)), N::ConstBuffer>);
    advance(s, c, N::Buffer(v), "vector");
    advance(s, c, N::Buffer(cv), "constant vector");
    c.nontrivial(n > 0 && limit < n);
    c.label(n == 0, "empty");
}
template<typename Char>
void texts(Src& s, Ctx& c, size_t n) {
    auto v = elements<Char>(s, n);
    std::basic_string<Char> t(v.begin(), v.end());
    const auto& ct = t;
    std::basic_string_view<Char> sv = t;
    auto limit = genLimit(s, n);
    auto limited = std::min(n, limit);
    if (c.describing()) c.describe(cat("text of ", sizeof(Char), "-byte characters x", n, " limit ", limit));
    mustView(N::Buffer(t), t.data(), n, "string");
    mustView(N::Buffer(ct), t.data(), n, "constant string");
    mustView(N::Buffer(sv), t.data(), n, "string_view");
    mustView(N::Buffer(t, limit), t.data(), limited, "limited string");
    mustView(N::Buffer(ct, limit), t.data(), limited, "limited constant string");
    mustView(N::Buffer(sv, limit), t.data(), limited, "limited string_view");
    mustView(N::Buffer(std::basic_string_view<Char>{}), t.data(), 0, "empty string_view");
    advance(s, c, N::Buffer(t), "string");
    advance(s, c, N::Buffer(sv), "string_view");
    c.nontrivial(n > 0 && limit < n);
    c.label(n == 0, "empty");
}
template<typename T, size_t S>
void arrays(Src& s, Ctx& c) {
    auto v = elements<T>(s, S);
    T a[S];
    std::copy(v.begin(), v.end(), a);
    const T(&ca)[S] = a;
    std::array<T, S> sa;
    std::copy(v.begin(), v.end(), sa.begin());
    const std::array<T, S>& csa = sa;
    std::array<const T, S> sca = [&]<size_t... I>(std::index_sequence<I...>) { return std::array<const T, S>{v[I]...}; }(std::make_index_sequence<S>());
    auto limit = genLimit(s, S);
    auto limited = std::min(S, limit);
    if (c.describing()) c.describe(cat("arrays of ", S, " elements of ", sizeof(T), " bytes, limit ", limit));
    mustView(N::Buffer(a), a, S, "array");
    mustView(N::Buffer(ca), a, S, "constant array");
    mustView(N::Buffer(sa), sa.data(), S, "std::array");
    mustView(N::Buffer(csa), sa.data(), S, "constant std::array");
    mustView(N::Buffer(sca), sca.data(), S, "std::array of constants");
    mustView(N::Buffer(a, limit), a, limited, "limited array");
    mustView(N::Buffer(ca, limit), a, limited, "limited constant array");
    mustView(N::Buffer(sa, limit), sa.data(), limited, "limited std::array");
    mustView(N::Buffer(csa, limit), sa.data(), limited, "limited constant std::array");
    mustView(N::Buffer(sca, limit), sca.data(), limited, "limited std::array of constants");
    std::array<T, 0> none{};
    CHECK(N::Buffer(none).size() == 0, "empty std::array");
    advance(s, c, N::Buffer(a), "array");
    advance(s, c, N::Buffer(ca), "constant array");
    c.nontrivial(limit < S);
}
} // namespace
PROPERTY("C33.buffers", 600000, 15000000,
         "buffers of vectors, strings, views, arrays, std::arrays, pointers and buffers, of 0..200 (rarely 200 000) elements of 1..8 bytes, with limits below, at and above the size, then advanced "
         "by generated amounts up to the largest; non-trivial: a limit below the size") {
    auto n = s.weighted({300, 1}) == 1 ? s.magnitude(200000) : s.small(200);
    switch (s.draw(11)) {
    case 0: containers<char>(s, c, n); break;
    case 1: containers<uint8_t>(s, c, n); break;
    case 2: containers<std::byte>(s, c, n); break;
    case 3: containers<int32_t>(s, c, n); break;
    case 4: containers<double>(s, c, n); break;
    case 5: texts<char>(s, c, n); break;
    case 6: texts<char16_t>(s, c, n); break;
    case 7: texts<wchar_t>(s, c, n); break;
    case 8: arrays<char, 1>(s, c); break;
    case 9: arrays<uint8_t, 17>(s, c); break;
    case 10: arrays<int16_t, 5>(s, c); break;
    default: arrays<double, 8>(s, c); break;
    }
}

static const bool setup = [] {
    quiet::silence();
    return true;
}();
