// C24 parameters round trip, C25 truncated and corrupted messages
#include "msgref.hpp"
#include "quiet.hpp"
#include "sim.hpp"
#include "wsref.hpp"

#include <http/WebSocket.hpp>
#include <weblink/Messages.hpp>

#include <deque>
#include <variant>

using namespace pbt;
namespace msg = webfront::msg;
using Frame = webfront::websocket::Frame<sim::Net>;
using ref::Value;

// ------------------------------------------------------------------------------------------------- typed parameters
namespace {
using T1 = std::tuple<int, std::string, bool>;
using T2 = std::tuple<double, std::tuple<std::string, bool>, float>;
using T3 = std::tuple<std::tuple<std::tuple<uint8_t, std::string>>>;
using T4 = std::tuple<std::string>;
using T5 = std::tuple<bool, bool, int64_t, std::tuple<int, int, int, int>, std::string, std::string>;
using T6 = std::tuple<>;
struct CText {
    std::string t;
};
struct Literal {
    char t[9];
};
struct View {
    std::string t;
};
struct Err {
    std::runtime_error e;
};
struct Err2 {
    std::out_of_range e;
};
using Param = std::variant<int, double, float, uint8_t, int64_t, uint16_t, int8_t, uint64_t, bool, std::string, CText, Literal, View, Err, Err2, T1, T2, T3, T4, T5, T6>;

Value valueOf(bool b) { return Value::of(b); }
Value valueOf(const std::string& t) { return Value::of(t); }
template<typename T>
    requires(std::is_arithmetic_v<T> && !std::is_same_v<T, bool>)
Value valueOf(T n) {
    return Value::of(static_cast<double>(n));
}
Value valueOf(const CText& t) { return Value::of(t.t); }
Value valueOf(const Literal& t) { return Value::of(std::string(t.t, sizeof(t.t) - 1)); } // arrays have a known size
Value valueOf(const View& t) { return Value::of(t.t); }
Value valueOf(const Err& e) { return Value::err(std::string(e.e.what()).substr(0, 65535)); }
Value valueOf(const Err2& e) { return Value::err(std::string(e.e.what()).substr(0, 65535)); }
template<typename... Ts>
Value valueOf(const std::tuple<Ts...>& t) {
    std::vector<Value> items;
    std::apply([&](auto&... x) { (items.push_back(valueOf(x)), ...); }, t);
    return Value::of(std::move(items));
}

template<typename T>
T gen(Src& s);
std::string genText(Src& s, size_t max) { return s.coin() ? s.utf8(s.small(max)) : s.blob(s.small(max)); }
template<typename T>
T genNumber(Src& s) {
    if constexpr (std::is_integral_v<T>) {
        using L = std::numeric_limits<T>;
        // values a double represents exactly
        int64_t lo = sizeof(T) == 8 ? (std::is_signed_v<T> ? -(1ll << 53) : 0) : static_cast<int64_t>(L::min());
        int64_t hi = sizeof(T) == 8 ? (1ll << 53) : static_cast<int64_t>(L::max());
        switch (s.weighted({3, 2, 2})) {
        case 0: return static_cast<T>(s.draw(100));
        case 1: return static_cast<T>(s.oneOf<int64_t>({lo, hi, hi - 1, lo + 1, 0, 1}));
        default: return static_cast<T>(lo + static_cast<int64_t>(s.draw(static_cast<uint64_t>(hi - lo))));
        }
    }
    else {
        using L = std::numeric_limits<T>;
        switch (s.weighted({3, 2, 2})) {
        case 0: return static_cast<T>(static_cast<int64_t>(s.draw(2000)) - 1000) / 8;
        case 1: return s.oneOf<T>({0, -T{0}, L::infinity(), -L::infinity(), L::quiet_NaN(), L::max(), L::lowest(), L::denorm_min(), L::epsilon(), T(1e-30)});
        default: {
            if constexpr (sizeof(T) == 8) {
                auto b = s.draw(UINT64_MAX);
                double d;
                memcpy(&d, &b, 8);
                return d;
            }
            else {
                auto b = static_cast<uint32_t>(s.draw(UINT32_MAX));
                float f;
                memcpy(&f, &b, 4);
                return f;
            }
        }
        }
    }
}
template<typename T>
struct Gen {
    static T make(Src& s) {
        if constexpr (std::is_same_v<T, bool>) return s.coin();
        else if constexpr (std::is_same_v<T, std::string>) return genText(s, 40);
        else return genNumber<T>(s);
    }
};
template<typename... Ts>
struct Gen<std::tuple<Ts...>> {
    static std::tuple<Ts...> make(Src& s) { return std::tuple<Ts...>{Gen<Ts>::make(s)...}; }
};
std::string longText(Src& s) {
    auto n = s.weighted({8, 2, 1});
    if (n == 0) return genText(s, 60);
    if (n == 1) return s.blob(s.oneOf<size_t>({254, 255, 256, 257, 1000}) + s.draw(1));
    return s.blob(s.oneOf<size_t>({65533, 65534, 65535, 32767, 32768, 10000}));
}
std::string noNul(std::string t) {
    for (auto& ch : t)
        if (!ch) ch = '0';
    return t;
}
Param genParam(Src& s) {
    switch (s.weighted({4, 4, 2, 2, 2, 1, 1, 1, 4, 6, 2, 1, 2, 2, 1, 2, 2, 1, 1, 2, 1})) {
    case 0: return genNumber<int>(s);
    case 1: return genNumber<double>(s);
    case 2: return genNumber<float>(s);
    case 3: return genNumber<uint8_t>(s);
    case 4: return genNumber<int64_t>(s);
    case 5: return genNumber<uint16_t>(s);
    case 6: return genNumber<int8_t>(s);
    case 7: return genNumber<uint64_t>(s);
    case 8: return s.coin();
    case 9: return longText(s);
    case 10: return CText{noNul(longText(s))};
    case 11: {
        Literal l{};
        auto t = s.blob(8);
        std::copy(t.begin(), t.end(), l.t);
        return l;
    }
    case 12: return View{longText(s)};
    case 13: return Err{std::runtime_error(noNul(s.chance(1, 12) ? s.blob(65535 + s.draw(40)) : longText(s)))};
    case 14: return Err2{std::out_of_range(noNul(longText(s)))};
    case 15: return Gen<T1>::make(s);
    case 16: return Gen<T2>::make(s);
    case 17: return Gen<T3>::make(s);
    case 18: return Gen<T4>::make(s);
    case 19: return Gen<T5>::make(s);
    default: return T6{};
    }
}
template<typename M>
void encode(M& message, const Param& p, Frame& frame) {
    std::visit(
      [&](auto& v) {
          using V = std::decay_t<decltype(v)>;
          if constexpr (std::is_same_v<V, CText>) {
              const char* t = v.t.c_str();
              message.encodeParameter(t, frame);
          }
          else if constexpr (std::is_same_v<V, Literal>) message.encodeParameter(v.t, frame);
          else if constexpr (std::is_same_v<V, View>) message.encodeParameter(std::string_view(v.t), frame);
          else if constexpr (std::is_same_v<V, Err> || std::is_same_v<V, Err2>) message.encodeParameter(v.e, frame);
          else message.encodeParameter(v, frame);
      },
      p);
}
/// decodes one parameter in its own type and gives it back as a Value
template<typename M>
Value decode(const M& message, const Param& p, std::span<const std::byte>& data) {
    return std::visit(
      [&](auto& v) {
          using V = std::decay_t<decltype(v)>;
          if constexpr (std::is_same_v<V, CText> || std::is_same_v<V, Literal> || std::is_same_v<V, View>) {
              std::string t = "previous";
              message.decodeParameter(t, data);
              return Value::of(t);
          }
          else if constexpr (std::is_same_v<V, Err> || std::is_same_v<V, Err2>) {
              std::string t = "previous";
              message.decodeParameter(t, data);
              return Value::err(t);
          }
          else {
              V t{};
              message.decodeParameter(t, data);
              return valueOf(t);
          }
      },
      p);
}
std::string wire(const Frame& f) {
    std::string out;
    for (auto& b : f.toBuffers())
        if (b.size()) out.append(static_cast<const char*>(b.data()), b.size());
    return out;
}
std::vector<std::byte> block(std::string_view t) { // exactly sized heap block
    std::vector<std::byte> v(t.size());
    if (!t.empty()) memcpy(v.data(), t.data(), t.size());
    return v;
}

template<typename M>
void roundTrip(Src& s, Ctx& c, int command) {
    std::deque<Param> params;
    std::vector<Value> values;
    size_t coded = 0;
    auto wanted = s.weighted({8, 2, 1}) == 0 ? s.small(10) : s.draw(255);
    bool full = s.chance(1, 10);
    while (params.size() < wanted || (full && coded < 255)) {
        auto p = full && params.size() >= wanted ? Param(genNumber<double>(s)) : genParam(s);
        auto v = std::visit([](auto& x) { return valueOf(x); }, p);
        if (coded + ref::codedCount(v) > 255) break;
        coded += ref::codedCount(v);
        params.push_back(std::move(p));
        values.push_back(std::move(v));
    }
    if (c.describing()) {
        std::string d = command == 3 ? "call(" : "return(";
        for (auto& v : values) d += ref::show(v) + ", ";
        c.describe(d + ")");
    }
    M message;
    Frame frame{std::span(message.header().data(), message.header().size())};
    bool moved = s.coin();
    for (auto& p : params) encode(message, p, frame);
    Frame other = moved ? std::move(frame) : Frame(std::string_view{});
    auto frames = ref::serverFrames(wire(moved ? other : frame));
    CHECK(frames.size() == 1 && frames[0].opcode == 2, "not carried by one binary frame");
    // independent reading
    auto call = ref::readCall(frames[0].data);
    CHECK(call.command == command, "command ", call.command, " instead of ", command);
    CHECK(call.count == coded, "declared count ", call.count, " for ", coded, " coded parameters");
    CHECK(call.values.size() == values.size(), call.values.size(), " values read instead of ", values.size());
    for (size_t i = 0; i < values.size(); ++i)
        CHECK(ref::same(call.values[i], values[i]), "parameter ", i, " is encoded as ", ref::show(call.values[i]), " instead of ", ref::show(values[i]));
    // the library's own reading, from exactly the bytes of the message
    auto raw = block(frames[0].data);
    auto received = M::castFromRawData(raw);
    CHECK(received->getParametersCount() == coded, "received count");
    CHECK(received->getPayloadSize() == raw.size() - 8, "received size ", received->getPayloadSize());
    auto data = received->payload();
    CHECK(data.size() == raw.size() - 8 && (data.empty() || data.data() == raw.data() + 8), "payload");
    for (size_t i = 0; i < params.size(); ++i) {
        auto before = data.size();
        auto v = decode(*received, params[i], data);
        CHECK(ref::same(v, values[i]), "parameter ", i, " decodes to ", ref::show(v), " instead of ", ref::show(values[i]));
        std::string enc;
        ref::put(enc, values[i]);
        CHECK(before - data.size() == enc.size(), "parameter ", i, " (", ref::show(values[i]), ") consumed ", before - data.size(), " bytes of ", enc.size());
    }
    CHECK(data.empty(), data.size(), " bytes left");
    bool mixed = false;
    for (auto& v : values) mixed = mixed || v.kind == Value::list || v.t.size() > 255;
    c.nontrivial(values.size() >= 2);
    c.label(mixed, "tuple or long text");
    c.label(coded == 255, "255 parameters");
}
} // namespace

PROPERTY("C24.roundtrip", 24000, 1200000,
         "0..255 parameters of 21 types (integers and floating point numbers with their extremes, booleans, texts of 0..65535 bytes as string, view, pointer, array, exceptions, nested "
         "tuples) encoded in a call or return message, framed, read by an independent decoder and by the library from an exactly sized block; non-trivial: at least two parameters") {
    if (s.coin()) {
        c.label("call");
        roundTrip<msg::FunctionCall>(s, c, 3);
    }
    else {
        c.label("return");
        roundTrip<msg::FunctionReturn>(s, c, 4);
    }
}

// -------------------------------------------------------------------------------------- C25 truncated and corrupted
namespace {
Value genValue(Src& s, size_t depth) {
    switch (s.weighted({4, 2, 5, 1, depth ? 3u : 0u})) {
    case 0: return Value::of(genNumber<double>(s));
    case 1: return Value::of(s.coin());
    case 2: return Value::of(s.chance(1, 6) ? s.blob(s.oneOf<size_t>({255, 256, 300, 5000})) : genText(s, 20));
    case 3: return Value::err(genText(s, 20));
    default: {
        std::vector<Value> items;
        for (auto n = s.draw(4); n > 0; --n) items.push_back(genValue(s, depth - 1));
        return Value::of(std::move(items));
    }
    }
}
template<typename T>
void tryDecode(std::span<const std::byte>& data, size_t& decoded) {
    auto before = data;
    T t{};
    msg::FunctionCall::decodeParameter(t, data);
    CHECK(data.size() <= before.size() && (data.empty() || data.data() + data.size() == before.data() + before.size()), "decoding left the bytes of the message");
    ++decoded;
    // whatever is decoded can be used
    if constexpr (std::is_same_v<T, std::string>) CHECK(t.size() <= 65535, "text of ", t.size(), " bytes");
}
std::string corrupt(Src& s, std::string m, std::string* notes) {
    for (auto n = s.draw(3); n > 0; --n) {
        if (m.empty()) break;
        switch (s.draw(6)) {
        case 0: {
            auto k = s.draw(m.size());
            m.resize(m.size() - k);
            *notes += cat(" cut to ", m.size());
        } break;
        case 1: {
            auto i = s.index(m.size());
            m[i] = static_cast<char>(s.coin() ? s.draw(255) : s.oneOf<int>({0, 1, 3, 4, 5, 6, 18, 255, 128, 127}));
            *notes += cat(" [", i, "]=", static_cast<unsigned>(static_cast<unsigned char>(m[i])));
        } break;
        case 2: {
            if (m.size() < 8) break;
            auto declared = static_cast<uint32_t>(s.oneOf<uint64_t>({0, 1, m.size() - 8, m.size(), m.size() + 100, 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, m.size() - 9, m.size() - 7}));
            memcpy(m.data() + 4, &declared, 4);
            *notes += cat(" declares ", declared);
        } break;
        case 3: m[1 % m.size()] = static_cast<char>(s.draw(255)); break;
        case 4: {
            auto extra = s.blob(s.small(20));
            m.insert(s.draw(m.size()), extra);
            *notes += cat(" +", extra.size());
        } break;
        case 5: {
            auto i = s.index(m.size());
            m.erase(i, 1 + s.draw(8));
            *notes += cat(" -@", i);
        } break;
        default: { // keeps the header consistent, so that parameters are reached
            if (m.size() < 8) break;
            auto keep = 8 + s.draw(m.size() - 8);
            m.resize(keep);
            auto declared = static_cast<uint32_t>(keep - 8);
            memcpy(m.data() + 4, &declared, 4);
            *notes += cat(" consistent cut to ", keep);
        }
        }
    }
    return m;
}
} // namespace
PROPERTY("C25.corrupted", 250000, 5000000,
         "a call or return message of 0..6 values (nested arrays included), cut, lengthened, with bytes, sizes, counts and types changed, in an exactly sized block, read as a handshake, call or return "
         "and decoded into generated sequences of parameter types; only standard exceptions, no read outside (address sanitizer); non-trivial: the message was changed and a parameter was decoded or refused") {
    std::vector<Value> values;
    for (auto n = s.draw(6); n > 0; --n) values.push_back(genValue(s, 3));
    auto m = s.chance(1, 20) ? s.blob(s.small(40)) : s.coin() ? ref::callMessage(genText(s, 12), values) : [&] {
        auto p = ref::parameters(values);
        return ref::message(4, values.size(), p, static_cast<uint32_t>(p.size()));
    }();
    std::string notes;
    auto original = m;
    m = corrupt(s, m, &notes);
    if (c.describing()) {
        std::string d;
        for (auto& v : values) d += ref::show(v) + ", ";
        c.describe(d + notes + " " + printable(m) + " ");
    }
    auto raw = block(m);
    size_t decoded = 0, refused = 0;
    auto guarded = [&](auto&& f) {
        try {
            f();
        }
        catch (const std::exception&) {
            ++refused;
        }
    };
    guarded([&] {
        auto h = msg::Handshake::castFromRawData(raw);
        CHECK(raw.size() >= 2, "a handshake of ", raw.size(), " bytes was accepted");
        (void)h->getEndian();
        CHECK(h->header().size() == 2 && h->payload().size() <= raw.size() - 2, "handshake");
    });
    auto decodeAll = [&](auto* message) {
        CHECK(raw.size() >= 8 && message->getPayloadSize() <= raw.size() - 8, "a message of ", raw.size(), " bytes declaring ", message->getPayloadSize(), " was accepted");
        (void)message->getParametersCount();
        auto payload = message->payload();
        CHECK(payload.size() <= raw.size() - 8, "payload longer than the message");
        std::span<const std::byte> data;
        if (s.coin()) {
            auto [name, rest] = message->getFunctionName();
            CHECK(name.size() <= raw.size(), "name longer than the message");
            data = rest;
            ++decoded;
        }
        else
            data = payload;
        for (auto n = 1 + s.draw(7); n > 0; --n) {
            auto type = s.draw(13);
            if (c.describing()) c.describe(cat(" type", type));
            switch (type) {
            case 0: tryDecode<std::string>(data, decoded); break;
            case 1: tryDecode<double>(data, decoded); break;
            case 2: tryDecode<int>(data, decoded); break;
            case 3: tryDecode<bool>(data, decoded); break;
            case 4: tryDecode<uint8_t>(data, decoded); break;
            case 5: tryDecode<uint64_t>(data, decoded); break;
            case 6: tryDecode<float>(data, decoded); break;
            case 7: tryDecode<std::tuple<std::string, std::string>>(data, decoded); break;
            case 8: tryDecode<std::tuple<int>>(data, decoded); break;
            case 9: tryDecode<std::tuple<double, std::tuple<bool, std::string>, int>>(data, decoded); break;
            case 10: tryDecode<std::tuple<>>(data, decoded); break;
            case 11: tryDecode<size_t>(data, decoded); break;
            case 12: tryDecode<int64_t>(data, decoded); break;
            default: tryDecode<int8_t>(data, decoded);
            }
        }
    };
    guarded([&] { decodeAll(msg::FunctionCall::castFromRawData(raw)); });
    guarded([&] { decodeAll(msg::FunctionReturn::castFromRawData(raw)); });
    c.nontrivial(m != original && decoded + refused > 0);
    c.label(decoded > 0, "decoded");
    c.label(refused > 0, "refused");
}

static const bool setup = [] {
    quiet::silence();
    return true;
}();
