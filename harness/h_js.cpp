// C22 C++ -> JavaScript calls, C23 JavaScript -> C++ calls, C28 injected scripts: the application against the very client script it serves, run by node
#include "client.hpp"
#include "node.hpp"

#include <variant>

using namespace pbt;
using app::App;
using app::Client;
using ref::Value;

namespace {

/// the client script, obtained from the server as a browser does
void loadClientScript() {
    auto& child = node::Child::get();
    if (!child.loaded.empty()) return;
    App a(nullptr);
    Client c(a.world);
    c.send("GET /WebFront.js HTTP/1.1\r\nHost: localhost\r\nAccept-Encoding: gzip, deflate, br\r\n\r\n");
    a.settle();
    auto& r = c.conn->toClient;
    auto end = r.find("\r\n\r\n");
    CHECK(r.starts_with("HTTP/1.1 200 ") && end != std::string::npos, "no client script: ", printable(r, 80));
    std::string coding = "none", head = r.substr(0, end);
    for (auto& ch : head) ch = static_cast<char>(tolower(static_cast<unsigned char>(ch)));
    if (auto p = head.find("content-encoding:"); p != std::string::npos) {
        p = head.find_first_not_of(' ', p + 17);
        coding = head.substr(p, head.find("\r\n", p) - p);
    }
    child.ask("script " + coding + " " + node::hex(std::string_view(r).substr(end + 4)));
    child.loaded = coding;
}

struct Browser {
    Client client;
    std::string id;
    bool opened = false, linked = false;
    std::vector<std::pair<std::string, std::vector<Value>>> calls; // of recording functions
    std::vector<std::string> scripts, logs, errors, thrown, order; // order: "call"/"script" in order of arrival
    size_t acks = 0;
    Browser(App& a, std::string name) : client(a.world), id(std::move(name)) {
        client.send(app::upgradeRequest);
    }
    void take(Src& s, const std::vector<node::Event>& events) {
        for (auto& e : events) {
            CHECK(e.page == id, "harness: event of page ", e.page);
            if (e.kind == "sent") {
                CHECK(e.args[0] == "b", "the client script sends a text");
                auto data = e.text(1);
                auto mask = static_cast<uint32_t>(s.draw(UINT32_MAX));
                if (data.size() > 1 && s.chance(1, 8)) { // browsers may fragment
                    auto cut = 1 + s.draw(data.size() - 2);
                    client.send(ref::clientFrame(2, data.substr(0, cut), mask, false));
                    client.send(ref::clientFrame(0, data.substr(cut), ~mask, true));
                }
                else
                    client.send(ref::clientFrame(2, data, mask));
            }
            else if (e.kind == "called") {
                size_t pos = 1;
                calls.emplace_back(e.text(), node::valuesOf(e.args, pos));
                order.push_back("call");
            }
            else if (e.kind == "script") {
                scripts.push_back(e.text());
                order.push_back("script");
            }
            else if (e.kind == "log") {
                auto t = e.text();
                logs.push_back(t);
            }
            else if (e.kind == "error") errors.push_back(e.text());
            else if (e.kind == "uncaught") errors.push_back("uncaught " + e.text());
            else if (e.kind == "thrown") thrown.push_back(e.text());
        }
    }
    /// what has reached the browser is given to the client script. @return true if something was
    bool pump(Src& s) {
        if (!opened) {
            if (!client.upgraded()) return false;
            opened = true;
            take(s, node::Child::get().ask("open " + id));
        }
        auto frames = client.newFrames();
        for (auto& f : frames) {
            auto m = app::decode(f); // every message is also well-formed for an independent reader
            if (m.kind == app::ServerMessage::ack) ++acks;
            take(s, node::Child::get().ask(cat("recv ", id, f.opcode == 1 ? " t " : " b ", node::hex(f.data))));
        }
        return !frames.empty();
    }
};

struct World {
    App app;
    std::vector<std::unique_ptr<Browser>> browsers;
    std::vector<app::UI> uis;   // in order of announcement
    explicit World(Src* s) : app(s) {
        loadClientScript();
        node::Child::get().ask("reset 0");
    }
    Browser& open() {
        auto id = std::to_string(browsers.size());
        node::Child::get().ask("new " + id);
        browsers.push_back(std::make_unique<Browser>(app, id));
        return *browsers.back();
    }
    void some(Src& s) {
        app.someSteps(s, 6);
        if (s.coin())
            for (auto& b : browsers) b->pump(s);
    }
    void settle(Src& s) {
        for (size_t i = 0;; ++i) {
            CHECK(i < 10000, "the exchange does not settle");
            app.settle();
            bool any = false;
            for (auto& b : browsers) any = b->pump(s) || any;
            if (!any && app.world.idle()) break;
        }
    }
};

std::string text(Src& s, size_t max = 65535) {
    size_t n = 0;
    switch (s.weighted({8, 4, 1})) {
    case 0: n = s.draw(12); break;
    case 1: n = s.oneOf<size_t>({0, 1, 100, 125, 126, 127, 128, 129, 200, 253, 254, 255, 256, 257, 300, 1000}) + s.draw(2); break;
    default: n = s.oneOf<size_t>({4096, 8192, 20000, 32767, 32768, 65000, 65533}) + s.draw(2);
    }
    auto t = s.utf8(std::min(n, max));
    if (t.starts_with("\xEF\xBB\xBF")) t[0] = t[1] = t[2] = '?'; // the client script drops a leading byte order mark: known finding KF-2
    return t;
}
double number(Src& s) {
    switch (s.weighted({4, 3, 3, 2})) {
    case 0: return static_cast<double>(s.draw(200)) - 100;
    case 1: return s.oneOf<double>({0., -0., 1., 0.1, 1e300, -1e300, 5e-324, 1.7976931348623157e308, 9007199254740993., 4294967296., 2147483648., -2147483649., std::numeric_limits<double>::infinity(),
                                    -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()});
    case 2: return static_cast<double>(static_cast<int64_t>(s.draw(UINT64_MAX))) / 1000.;
    default: {
        auto bits = s.draw(UINT64_MAX);
        double d;
        memcpy(&d, &bits, 8);
        return d;
    }
    }
}
std::string functionName(Src& s, size_t k) {
    std::string base = cat("f", k);
    switch (s.weighted({5, 3, 1, 1, 1})) {
    case 0: return base + s.text(s.draw(8), "abcXYZ_$09");
    case 1: return "ns" + s.text(s.draw(2), "ab") + "." + (s.coin() ? "inner." : "") + base;
    case 2: return base + s.text(s.oneOf<size_t>({120, 125, 126, 127, 128, 253, 254, 255, 256, 300}) + s.draw(3), "abcdefghij_");
    case 3: return base + "\xC3\xA9\xE2\x82\xAC" + s.text(s.draw(4), " -+'\"<>");
    default: return base + s.text(s.oneOf<size_t>({5000, 60000}), "abcdef");
    }
}

Value valueOf(bool b) { return Value::of(b); }
Value valueOf(const std::string& t) { return Value::of(t); }
Value valueOf(std::string_view t) { return Value::of(std::string(t)); }
Value valueOf(const char* t) { return Value::of(std::string(t)); }
template<typename T>
    requires(std::is_arithmetic_v<T> && !std::is_same_v<T, bool>)
Value valueOf(T n) {
    return Value::of(static_cast<double>(n));
}
template<typename... Ts>
Value valueOf(const std::tuple<Ts...>& t) {
    std::vector<Value> items;
    std::apply([&](auto&... x) { (items.push_back(valueOf(x)), ...); }, t);
    return Value::of(std::move(items));
}

template<typename T>
struct Make;
template<>
struct Make<bool> {
    static bool from(Src& s) { return s.coin(); }
};
template<>
struct Make<std::string> {
    static std::string from(Src& s) { return text(s); }
};
template<typename T>
    requires std::is_floating_point_v<T>
struct Make<T> {
    static T from(Src& s) {
        auto d = number(s);
        if (sizeof(T) < 8 && std::abs(d) > 1e30) d = std::isinf(d) ? d : 3.5;
        return static_cast<T>(d);
    }
};
template<typename T>
    requires std::is_integral_v<T>
struct Make<T> {
    static T from(Src& s) {
        switch (s.weighted({3, 1, 1})) {
        case 0: return static_cast<T>(s.draw(100));
        case 1: return s.coin() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
        default: return static_cast<T>(s.draw(UINT64_MAX));
        }
    }
};
template<typename... Ts>
struct Make<std::tuple<Ts...>> {
    static std::tuple<Ts...> from(Src& s) { return std::tuple<Ts...>{Make<Ts>::from(s)...}; } // braces: in order
};

using T1 = std::tuple<int, std::string>;
using T2 = std::tuple<double, std::tuple<bool, std::string, std::tuple<>>, int>;
using T3 = std::tuple<std::tuple<T1, bool>, std::tuple<std::string>>;
struct Literal {};
struct CText {
    std::string t;
};
struct View {
    std::string t;
};
using Arg = std::variant<int, double, bool, std::string, CText, Literal, View, T1, T2, float, uint16_t, int64_t, T3, uint8_t>;

Arg makeArg(Src& s) {
    switch (s.weighted({3, 3, 3, 4, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1})) {
    case 0: return Make<int>::from(s);
    case 1: return Make<double>::from(s);
    case 2: return s.coin();
    case 3: return text(s);
    case 4: {
        auto t = text(s, 5000);
        std::erase(t, '\0');
        return CText{t};
    }
    case 5: return Literal{};
    case 6: return View{text(s, 5000)};
    case 7: return Make<T1>::from(s);
    case 8: return Make<T2>::from(s);
    case 9: return Make<float>::from(s);
    case 10: return Make<uint16_t>::from(s);
    case 11: return Make<int64_t>::from(s);
    case 12: return Make<T3>::from(s);
    default: return Make<uint8_t>::from(s);
    }
}
const char literal[] = "literal \xC3\xA9";
Value argValue(const Arg& a) {
    return std::visit(
      [](auto& x) {
          using T = std::decay_t<decltype(x)>;
          if constexpr (std::is_same_v<T, Literal>) return Value::of(std::string(literal));
          else if constexpr (std::is_same_v<T, CText> || std::is_same_v<T, View>) return Value::of(x.t);
          else return valueOf(x);
      },
      a);
}
/// the argument as an application would write it
template<typename F>
void spread(const Arg& a, F&& f) {
    std::visit(
      [&](auto& x) {
          using T = std::decay_t<decltype(x)>;
          if constexpr (std::is_same_v<T, Literal>) f(literal);
          else if constexpr (std::is_same_v<T, CText>) f(x.t.c_str());
          else if constexpr (std::is_same_v<T, View>) f(std::string_view(x.t));
          else f(x);
      },
      a);
}

struct Call {
    std::string name;
    std::vector<Value> args;
    bool refused = false;
};

template<size_t... Is>
void callMany(app::JsFunction& f, const std::vector<int>& v, std::index_sequence<Is...>) {
    f(v[Is]...);
}

/// makes one call with generated arguments. @return what the browser has to see
Call makeCall(Src& s, app::JsFunction& f, const std::string& name) {
    Call call{name, {}, false};
    auto guarded = [&](auto&& action) {
        size_t coded = 1;
        bool tooLong = name.size() > 65535;
        for (auto& v : call.args) coded += ref::codedCount(v);
        std::function<void(const Value&)> look = [&](const Value& v) {
            if (v.kind == Value::text && v.t.size() > 65535) tooLong = true;
            for (auto& i : v.items) look(i);
        };
        for (auto& v : call.args) look(v);
        call.refused = coded > 255 || tooLong;
        bool thrown = false;
        try {
            action();
        }
        catch (const std::exception&) {
            thrown = true;
        }
        CHECK(thrown == call.refused, call.refused ? "a call that cannot be represented is not refused" : "a valid call is refused", " (", coded, " parameters)");
    };
    switch (s.weighted({2, 5, 6, 3, 3, 2, 2, 1})) {
    case 0: guarded([&] { f(); }); break;
    case 1: {
        auto a = makeArg(s);
        call.args = {argValue(a)};
        guarded([&] { spread(a, [&](auto&& x) { f(x); }); });
    } break;
    case 2: {
        auto a = makeArg(s), b = makeArg(s);
        auto d = text(s);
        auto e = s.coin();
        switch (s.draw(2)) { // not every pair of types: they are all encoded one at a time
        case 0:
            call.args = {argValue(a), valueOf(d)};
            guarded([&] { spread(a, [&](auto&& x) { f(x, d); }); });
            break;
        case 1:
            call.args = {valueOf(d), argValue(a), valueOf(e)};
            guarded([&] { spread(a, [&](auto&& x) { f(d, x, e); }); });
            break;
        default:
            call.args = {valueOf(e), argValue(b), valueOf(2)};
            guarded([&] { spread(b, [&](auto&& x) { f(e, x, 2); }); });
        }
    } break;
    case 3: {
        auto a = Make<std::string>::from(s);
        auto b = Make<double>::from(s);
        auto d = s.coin();
        auto e = Make<std::string>::from(s);
        auto g = Make<T1>::from(s);
        call.args = {valueOf(a), valueOf(b), valueOf(d), valueOf(e), valueOf(g)};
        guarded([&] { f(a, b, d, e, g); });
    } break;
    case 4: {
        auto a = Make<T1>::from(s);
        auto b = Make<T2>::from(s);
        auto d = Make<int>::from(s);
        call.args = {valueOf(a), valueOf(b), valueOf(d), valueOf("end"), valueOf(2.5)};
        guarded([&] { f(a, std::move(b), d, "end", 2.5); });
    } break;
    case 5: {
        std::vector<int> v(30);
        for (auto& x : v) x = static_cast<int>(s.draw(9));
        for (auto x : v) call.args.push_back(valueOf(x));
        guarded([&] { callMany(f, v, std::make_index_sequence<30>{}); });
    } break;
    case 6: { // around the largest number of parameters
        std::vector<int> v(300);
        auto base = static_cast<int>(s.draw(1000));
        for (size_t i = 0; i < v.size(); ++i) v[i] = base + static_cast<int>(i);
        auto many = [&](auto n) {
            for (size_t i = 0; i < n; ++i) call.args.push_back(valueOf(v[i]));
            guarded([&] { callMany(f, v, std::make_index_sequence<n>{}); });
        };
        switch (s.draw(4)) {
        case 0: many(std::integral_constant<size_t, 254>{}); break;
        case 1: many(std::integral_constant<size_t, 255>{}); break;
        case 2: many(std::integral_constant<size_t, 256>{}); break;
        case 3: many(std::integral_constant<size_t, 127>{}); break;
        default: many(std::integral_constant<size_t, 300>{});
        }
    } break;
    default: { // around the longest text
        auto a = std::string(65534 + s.draw(3), 'x');
        auto b = s.draw(9);
        call.args = {valueOf(b), valueOf(a), valueOf(true)};
        guarded([&] { f(b, a, true); });
    }
    }
    return call;
}

void enableLogs(Src& s, Ctx& c) {
    if (!s.chance(1, 6)) return;
    webfront::log::setLogLevel(s.coin() ? webfront::log::Info : webfront::log::Error);
    c.label("with logs");
}

void sameCalls(const Browser& b, const std::vector<Call>& expected) {
    for (size_t i = 0; i < std::min(b.calls.size(), expected.size()); ++i) {
        auto& [name, args] = b.calls[i];
        CHECK(name == expected[i].name, "call #", i, " runs ", printable(name, 60), " instead of ", printable(expected[i].name, 60));
        CHECK(args.size() == expected[i].args.size(), "call #", i, ": ", args.size(), " arguments instead of ", expected[i].args.size());
        for (size_t k = 0; k < args.size(); ++k)
            CHECK(ref::same(args[k], expected[i].args[k]), "call #", i, " argument #", k, " is ", ref::show(args[k]), " instead of ", ref::show(expected[i].args[k]));
    }
    CHECK(b.calls.size() == expected.size(), b.calls.size(), " calls instead of ", expected.size(), b.errors.empty() ? "" : " - the client script reports: ",
          b.errors.empty() ? "" : b.errors[0].substr(0, 200));
    CHECK(b.errors.empty(), "the client script reports: ", b.errors[0].substr(0, 200));
}

} // namespace

PROPERTY("C22.calls", 15000, 150000,
         "1..3 browsers running the client script served by the application in node; histories of 1..15 (rarely 600) calls from C++ through function objects created once, reused, copied, with 0..300 arguments of every "
         "supported type (texts around 255/256/65535, special numbers, nested tuples), under generated transport schedules, optional log traffic; each recording JavaScript function must run once per "
         "call, in order, with equal values; unrepresentable calls must throw and send nothing; non-trivial: at least 2 calls delivered, one with a text, tuple or several arguments") {
    app::resetLibrary();
    World w(&s);
    std::vector<std::vector<Call>> expected;
    std::vector<size_t> announcedTo;
    w.app.wf.onUIStarted([&](app::UI ui) { w.uis.push_back(ui); });
    enableLogs(s, c);
    auto nb = 1 + s.weighted({5, 2, 1});
    struct Fn {
        std::string name;
        size_t browser;
        app::JsFunction f;
    };
    std::vector<std::unique_ptr<Fn>> functions;
    for (size_t i = 0; i < nb; ++i) {
        auto& b = w.open();
        w.settle(s); // one at a time: the handle announced is the one of this browser
        CHECK(w.uis.size() == i + 1, "the application knows ", w.uis.size(), " user interfaces instead of ", i + 1, "; acks ", b.acks);
        expected.emplace_back();
    }
    size_t delivered = 0;
    bool rich = false;
    auto n = s.many(15, 600, 300);
    for (size_t i = 0; i < n; ++i) {
        if (functions.empty() || s.chance(1, 3)) {
            auto b = s.index(nb);
            auto name = functionName(s, functions.size());
            node::Child::get().ask("define " + std::to_string(b) + " " + node::hex(name));
            functions.push_back(std::make_unique<Fn>(name, b, w.uis[b].jsFunction(name)));
        }
        auto& fn = *functions[s.index(functions.size())];
        Call call;
        if (s.chance(1, 6)) {
            auto copy = fn.f;
            call = makeCall(s, copy, fn.name);
        }
        else
            call = makeCall(s, fn.f, fn.name);
        if (c.describing()) {
            c.describe(cat(i ? "; " : "", "browser ", fn.browser, " ", printable(fn.name, 30), "("));
            for (size_t k = 0; k < std::min<size_t>(call.args.size(), 6); ++k) c.describe((k ? ", " : "") + ref::show(call.args[k]));
            c.describe(cat(call.args.size() > 6 ? ", ..." : "", ")", call.refused ? " refused" : ""));
        }
        c.label(call.refused, "refused");
        for (auto& a : call.args) c.label(a.kind == Value::list, "tuple");
        if (!call.refused) {
            ++delivered;
            rich = rich || call.args.size() > 1 || (call.args.size() == 1 && call.args[0].kind >= Value::text);
            expected[fn.browser].push_back(std::move(call));
        }
        if (s.coin()) w.some(s);
    }
    w.settle(s);
    for (size_t i = 0; i < nb; ++i) sameCalls(*w.browsers[i], expected[i]);
    c.nontrivial(delivered >= 2 && rich);
    c.label(nb > 1, "several browsers");
}

PROPERTY("C22.bom", 20, 100, "a text argument starting with U+FEFF (known finding KF-2: the client script's text decoder drops it); non-trivial: all") {
    app::resetLibrary();
    World w(&s);
    w.app.wf.onUIStarted([&](app::UI ui) { w.uis.push_back(ui); });
    auto& b = w.open();
    w.settle(s);
    CHECK(w.uis.size() == 1, "no user interface");
    node::Child::get().ask("define 0 " + node::hex("f"));
    auto rest = s.utf8(s.draw(20));
    if (rest.starts_with("\xEF\xBB\xBF")) throw Reject{};
    auto whole = "\xEF\xBB\xBF" + rest;
    c.describe(printable(whole));
    w.uis[0].jsFunction("f")(whole);
    w.settle(s);
    CHECK(b.calls.size() == 1 && b.calls[0].second.size() == 1 && b.calls[0].second[0].kind == Value::text, "not called with a text");
    auto& got = b.calls[0].second[0].t;
    c.nontrivial();
    if (got == whole) return;
    CHECK_EQ_TEXT(got, rest, "neither the text nor the text without its byte order mark");
    c.knownFinding("KF-2", "a text argument starting with U+FEFF reaches the JavaScript function without it (TextDecoder of the embedded client script)");
}

// ------------------------------------------------------------------------------------------------------ C23
namespace {
struct Received {
    std::string name;
    std::vector<Value> args;
};
struct Registry {
    std::vector<Received> received;
    struct Entry {
        std::string name;
        size_t signature;
    };
    std::vector<Entry> entries;
};
template<typename... Args>
struct Recorder {
    Registry* r;
    std::string name;
    void operator()(const Args&... a) const { r->received.push_back({name, {valueOf(a)...}}); }
};
template<typename... Args>
struct MoveOnly {
    Recorder<Args...> r;
    std::unique_ptr<int> p = std::make_unique<int>(1);
    void operator()(Args... a) {
        if (*p == 1) r(a...);
    }
};
Registry* plainRegistry = nullptr;
std::string plainName;
template<typename... Args>
void plain(Args... a) {
    plainRegistry->received.push_back({plainName, {valueOf(a)...}});
}
template<typename... Args>
int returning(const Args&... a) {
    plainRegistry->received.push_back({plainName, {valueOf(a)...}});
    return 3;
}

using Maker = std::function<std::vector<Value>(Src&)>;
template<typename... Args>
std::vector<Value> makeValues(Src& s) {
    std::tuple<Args...> t{Make<Args>::from(s)...};
    std::vector<Value> out;
    std::apply([&](auto&... x) { (out.push_back(valueOf(x)), ...); }, t);
    return out;
}
/// 64-bit integers beyond what a double holds are not values of the browser
template<>
struct Make<long long> {
    static long long from(Src& s) { return static_cast<long long>(s.draw(1ull << 53)) - (1ll << 52); }
};

/// Kind: the way the callable is provided (several signatures for each)
template<int Kind, typename... Args>
Maker registerFunction(app::WF& wf, Registry& r, const std::string& name) {
    auto rec = Recorder<Args...>{&r, name};
    if constexpr (Kind == 0) wf.cppFunction<void, Args...>(name, [rec](Args... a) { rec(a...); });
    else if constexpr (Kind == 1) wf.cppFunction<void, Args...>(name, rec); // lvalue
    else if constexpr (Kind == 2) {
        std::function<void(Args...)> f = rec;
        wf.cppFunction<void, Args...>(name, f);
        f = nullptr; // the library has its own
    }
    else if constexpr (Kind == 3) wf.cppFunction<void, Args...>(name, [rec, n = 0](const Args&... a) mutable { if (++n > 0) rec(a...); });
    else if constexpr (Kind == 4) wf.cppFunction<void, Args...>(name, MoveOnly<Args...>{rec});
    else if constexpr (Kind == 5) {
        auto f = std::make_shared<Recorder<Args...>>(rec);
        wf.cppFunction<int, Args...>(name, [f](Args&... a) { (*f)(a...); return 1; });
    }
    else if constexpr (Kind == 6) {
        const auto f = [rec](Args... a) { rec(a...); return std::string("result"); };
        wf.cppFunction<std::string, Args...>(name, f);
    }
    else if (!plainName.empty()) wf.cppFunction<void, Args...>(name, rec); // one plain function per case
    else {
        plainRegistry = &r;
        plainName = name;
        if constexpr (Kind == 7) wf.cppFunction<void, Args...>(name, plain<Args...>);
        else wf.cppFunction<int, Args...>(name, &returning<Args...>);
    }
    return [](Src& src) { return makeValues<Args...>(src); };
}
using P1 = std::tuple<int, std::string, bool>;
using P2 = std::tuple<double>;
using P3 = std::tuple<std::string, std::string, double, int>;
Maker registerAny(Src& s, app::WF& wf, Registry& r, const std::string& n) {
    switch (s.draw(20)) {
    case 0: return registerFunction<0>(wf, r, n);
    case 1: return registerFunction<1, std::string>(wf, r, n);
    case 2: return registerFunction<7, std::string>(wf, r, n);
    case 3: return registerFunction<2, int>(wf, r, n);
    case 4: return registerFunction<3, double, bool>(wf, r, n);
    case 5: return registerFunction<8, double, bool>(wf, r, n);
    case 6: return registerFunction<4, std::string, std::string, std::string>(wf, r, n);
    case 7: return registerFunction<5, bool, bool, bool, bool, std::string>(wf, r, n);
    case 8: return registerFunction<6, P1>(wf, r, n);
    case 9: return registerFunction<4, P1>(wf, r, n);
    case 10: return registerFunction<0, std::string, P2, P3, int>(wf, r, n);
    case 11: return registerFunction<1, uint8_t, int16_t, float, long long>(wf, r, n);
    case 12: return registerFunction<2, uint32_t, std::string, P1, bool>(wf, r, n);
    case 13: return registerFunction<3, std::string, double, double, double, double, double, double, double, bool, std::string, int>(wf, r, n);
    case 14: return registerFunction<5, std::tuple<>, std::string>(wf, r, n);
    case 15: return registerFunction<7, int8_t, uint16_t, std::tuple<bool, bool>>(wf, r, n);
    case 16: return registerFunction<6, std::string, bool>(wf, r, n);
    case 17: return registerFunction<2, std::string, std::string>(wf, r, n);
    case 18: return registerFunction<1, std::tuple<double, double, double>, P2>(wf, r, n);
    case 19: return registerFunction<3, int>(wf, r, n);
    default: return registerFunction<4, double>(wf, r, n);
    }
}
size_t payload(const std::vector<Value>& v) { return ref::parameters(v).size(); }
std::string callLine(const std::string& page, const std::string& name, const std::vector<Value>& args) {
    auto line = cat("call ", page, " ", node::hex(name));
    for (auto& v : args) line += " " + node::valueText(v);
    return line;
}
} // namespace

PROPERTY("C23.calls", 15000, 150000,
         "1..8 (rarely 300) functions registered from C++ (lambdas, mutable and move-only functors, lvalues, std::function, function pointers; 14 signatures with numbers of every width, booleans, texts, tuples) before or "
         "after the link; histories of 1..15 (rarely 600) calls by 1..3 browsers running the client script in node, fragmented and cut by the transport; each function must run once per call, in each browser's order, with equal "
         "values; some functions call back the browser; non-trivial: at least 2 calls, one with arguments") {
    app::resetLibrary();
    plainName.clear();
    Registry r;
    World w(&s);
    w.app.wf.onUIStarted([&](app::UI ui) { w.uis.push_back(ui); });
    enableLogs(s, c);
    std::vector<std::pair<std::string, Maker>> functions;
    auto add = [&] {
        auto name = functionName(s, functions.size());
        functions.emplace_back(name, registerAny(s, w.app.wf, r, name));
    };
    add();
    if (s.chance(1, 40)) { // an application with many functions
        for (auto n = s.draw(300); n > 0; --n) add();
        c.label("many functions");
    }
    auto nb = 1 + s.weighted({5, 2, 1});
    for (size_t i = 0; i < nb; ++i) {
        w.open();
        w.settle(s);
        CHECK(w.uis.size() == i + 1, "the application knows ", w.uis.size(), " user interfaces instead of ", i + 1);
    }
    size_t backs = 0;
    w.app.wf.cppFunction<void, std::string, double>("back", [&](std::string t, double d) {
        r.received.push_back({"back", {valueOf(t), valueOf(d)}});
        w.uis[0].jsFunction("answer")(d, t);
    });
    node::Child::get().ask("define 0 " + node::hex("answer"));
    std::vector<std::vector<Received>> sent(nb);
    std::vector<Call> answers;
    size_t calls = 0;
    bool withArguments = false;
    for (auto n = nb == 1 ? s.many(15, 600, 300) : s.many(15, 15); n > 0; --n) {
        if (functions.size() < 8 && s.chance(1, 4)) add();
        auto b = s.index(nb);
        Received call;
        if (nb == 1 && s.chance(1, 8)) {
            call = {"back", {valueOf(text(s, 3000)), valueOf(number(s))}};
            answers.push_back({"answer", {call.args[1], call.args[0]}, false});
            ++backs;
        }
        else {
            auto& [name, make] = functions[s.index(functions.size())];
            call = {name, make(s)};
        }
        if (payload(call.args) + call.name.size() > 60000) continue; // the client script's own traces limit the size of a call: known finding KF-3
        if (c.describing()) {
            c.describe(cat("; browser ", b, " ", printable(call.name, 30), "("));
            for (size_t k = 0; k < call.args.size(); ++k) c.describe((k ? ", " : "") + ref::show(call.args[k]));
            c.describe(")");
        }
        auto events = node::Child::get().ask(callLine(std::to_string(b), call.name, call.args));
        w.browsers[b]->take(s, events);
        CHECK(w.browsers[b]->thrown.empty(), "the client script throws: ", w.browsers[b]->thrown[0].substr(0, 200));
        ++calls;
        withArguments = withArguments || !call.args.empty();
        for (auto& v : call.args) c.label(v.kind == Value::list, "tuple");
        sent[b].push_back(std::move(call));
        if (s.coin()) w.some(s);
    }
    w.settle(s);
    // each browser's calls are a subsequence, in order, and nothing else is received
    size_t total = 0;
    for (auto& v : sent) total += v.size();
    auto equal = [](const Received& a, const Received& b) {
        if (a.name != b.name || a.args.size() != b.args.size()) return false;
        for (size_t i = 0; i < a.args.size(); ++i)
            if (!ref::same(a.args[i], b.args[i])) return false;
        return true;
    };
    if (nb == 1) {
        for (size_t i = 0; i < std::min(sent[0].size(), r.received.size()); ++i) {
            CHECK(r.received[i].name == sent[0][i].name, "call #", i, " runs ", printable(r.received[i].name, 40), " instead of ", printable(sent[0][i].name, 40));
            for (size_t k = 0; k < sent[0][i].args.size(); ++k)
                CHECK(ref::same(r.received[i].args[k], sent[0][i].args[k]), "call #", i, " argument #", k, " is ", ref::show(r.received[i].args[k]), " instead of ", ref::show(sent[0][i].args[k]));
        }
    }
    CHECK(r.received.size() == total, r.received.size(), " calls of C++ functions instead of ", total);
    std::vector<size_t> next(nb);
    if (nb > 1) { // merge of the sequences: search with backtracking over equal calls (small)
        std::set<std::vector<size_t>> states{next};
        for (auto& got : r.received) {
            std::set<std::vector<size_t>> after;
            for (auto& st : states)
                for (size_t b = 0; b < nb; ++b)
                    if (st[b] < sent[b].size() && equal(sent[b][st[b]], got)) {
                        auto t = st;
                        ++t[b];
                        after.insert(t);
                    }
            CHECK(!after.empty(), "call of ", printable(got.name, 40), " received out of order, altered or twice");
            states = after;
        }
    }
    if (nb == 1) sameCalls(*w.browsers[0], answers);
    for (auto& b : w.browsers) CHECK(b->errors.empty(), "the client script reports: ", b->errors[0].substr(0, 200));
    c.nontrivial(calls >= 2 && withArguments);
    c.label(nb > 1, "several browsers");
    c.label(backs > 0, "call back");
}

PROPERTY("C23.nested", 20, 200, "an array holding arrays passed for a tuple holding tuples (known finding KF-1: encodeParameter of the client script ignores its offset); non-trivial: all") {
    app::resetLibrary();
    World w(&s);
    using Inner = std::tuple<int, int>;
    std::vector<Value> got;
    size_t called = 0;
    w.app.wf.cppFunction<void, std::tuple<int, Inner>>("f", [&](std::tuple<int, Inner> t) {
        ++called;
        got = {valueOf(t)};
    });
    w.open();
    w.settle(s);
    auto v = valueOf(std::tuple<int, Inner>{static_cast<int>(1 + s.draw(9)), {static_cast<int>(10 + s.draw(9)), static_cast<int>(20 + s.draw(9))}});
    c.describe(ref::show(v));
    auto events = node::Child::get().ask(callLine("0", "f", {v}));
    std::string raw;
    for (auto& e : events)
        if (e.kind == "sent") raw = e.text(1);
    w.browsers[0]->take(s, events);
    w.settle(s);
    c.nontrivial();
    if (called == 1 && got.size() == 1 && ref::same(got[0], v)) return;
    // exactly the listed defect: the message built by the client script is not the encoding of the arguments
    CHECK(raw != ref::callMessage("f", {v}), "the message of the client script is right and the function receives ", got.empty() ? "nothing" : ref::show(got[0]));
    c.knownFinding("KF-1", "an array inside an array is encoded over the outer one by the embedded client script (encodeParameter ignores offset), the C++ function gets other values or is not called");
}
PROPERTY("C23.large", 4, 30, "a call whose message exceeds 200000 bytes (known finding KF-3: the client script passes every byte as an argument to console.log); non-trivial: all") {
    app::resetLibrary();
    World w(&s);
    size_t called = 0;
    std::vector<Value> got;
    w.app.wf.cppFunction<void, std::string, std::string, std::string, std::string, std::string>("f", [&](const std::string& a, const std::string& b, const std::string& d, const std::string& e, const std::string& f) {
        ++called;
        got = {valueOf(a), valueOf(b), valueOf(d), valueOf(e), valueOf(f)};
    });
    w.open();
    w.settle(s);
    std::vector<Value> args;
    for (int i = 0; i < 5; ++i) args.push_back(valueOf(std::string(60000 + s.draw(5000), static_cast<char>('a' + i))));
    c.describe("five texts of more than 60000 bytes");
    auto& b = *w.browsers[0];
    b.take(s, node::Child::get().ask(callLine("0", "f", args)));
    w.settle(s);
    c.nontrivial();
    if (!b.thrown.empty()) {
        CHECK(called == 0 && b.thrown[0].find("RangeError") != std::string::npos, "throws ", b.thrown[0].substr(0, 100));
        c.knownFinding("KF-3", "a call of more than about 100 kB throws a RangeError in the embedded client script (its trace passes each byte of the message as an argument of console.log)");
        return;
    }
    CHECK(called == 1 && got.size() == 5, "the function runs ", called, " times");
    for (size_t i = 0; i < 5; ++i) CHECK(ref::same(got[i], args[i]), "argument #", i, " differs");
}

// ------------------------------------------------------------------------------------------------------ C28
PROPERTY("C28.browser", 15000, 120000,
         "1..11 (rarely 600) scripts (UTF-8 text of 0..65535 bytes, sizes around 125/126/255/256/65535) injected into 1..2 browsers running the client script in node, mixed with function calls and log traffic under generated "
         "transport schedules; each script element must carry exactly the text, in order with the calls; non-trivial: at least 2 messages and one non-empty script") {
    app::resetLibrary();
    World w(&s);
    w.app.wf.onUIStarted([&](app::UI ui) { w.uis.push_back(ui); });
    enableLogs(s, c);
    auto nb = 1 + s.draw(1);
    struct Expected {
        std::vector<std::string> scripts, order;
        std::vector<Call> calls;
    };
    std::vector<Expected> expected(nb);
    for (size_t i = 0; i < nb; ++i) {
        w.open();
        w.settle(s);
        CHECK(w.uis.size() == i + 1, "the application knows ", w.uis.size(), " user interfaces instead of ", i + 1);
        node::Child::get().ask(cat("define ", i, " ", node::hex("f")));
    }
    bool some = false;
    size_t messages = 0;
    for (auto n = s.many(11, 600, 300); n > 0; --n) {
        auto b = s.index(nb);
        if (s.chance(2, 3)) {
            std::string script;
            if (s.chance(1, 12)) {
                script = std::string(65536 + s.small(70000), ' ');
                bool thrown = false;
                try {
                    w.uis[b].addScript(script);
                }
                catch (const std::exception&) {
                    thrown = true;
                }
                CHECK(thrown, "a script of ", script.size(), " bytes is not refused");
                c.label("refused");
                continue;
            }
            script = "//" + text(s, 65533);
            if (s.chance(1, 4)) script.clear();
            if (s.chance(1, 4)) script = cat("f(", messages, ", 'from script')");
            if (c.describing()) c.describe(cat("; browser ", b, " script ", printable(script, 40), " of ", script.size()));
            w.uis[b].addScript(script);
            expected[b].scripts.push_back(script);
            expected[b].order.push_back("script");
            if (script.starts_with("f(")) {
                expected[b].calls.push_back({"f", {valueOf(static_cast<double>(messages)), valueOf("from script")}, false});
                expected[b].order.push_back("call");
            }
            some = some || !script.empty();
        }
        else {
            auto t = text(s, 2000);
            if (c.describing()) c.describe(cat("; browser ", b, " call ", printable(t, 40)));
            w.uis[b].jsFunction("f")(t, messages);
            expected[b].calls.push_back({"f", {valueOf(t), valueOf(static_cast<double>(messages))}, false});
            expected[b].order.push_back("call");
        }
        ++messages;
        if (s.coin()) w.some(s);
    }
    w.settle(s);
    for (size_t i = 0; i < nb; ++i) {
        auto& b = *w.browsers[i];
        for (auto& e : b.errors) // a comment may hold a line end: the rest is not JavaScript
            if (!e.starts_with("uncaught")) CHECK(e.find("SyntaxError") != std::string::npos || e.find("ReferenceError") != std::string::npos, "the client script reports: ", e.substr(0, 200));
        b.errors.clear();
        CHECK(b.scripts.size() == expected[i].scripts.size(), b.scripts.size(), " scripts instead of ", expected[i].scripts.size());
        for (size_t k = 0; k < b.scripts.size(); ++k) CHECK_EQ_TEXT(b.scripts[k], expected[i].scripts[k], "script #", k);
        sameCalls(b, expected[i].calls);
        CHECK(b.order == expected[i].order, "scripts and calls arrive in another order");
    }
    c.nontrivial(messages >= 2 && some);
    c.label(nb > 1, "several browsers");
}
