// C19 hostile clients, C26 links (long histories in h_reuse), C27 failing calls, C28 injected scripts (any bytes), C30 forwarded logs, C34 failing clients: whole applications on the simulated network
#include "client.hpp"

using namespace pbt;
using app::App;
using app::Client;
using app::ServerMessage;
using ref::Value;

extern "C" size_t __sanitizer_get_current_allocated_bytes();

namespace {

const std::string homeRequest = "GET / HTTP/1.1\r\nHost: localhost\r\nAccept-Encoding: gzip, br\r\n\r\n";
/// what a client alone on a fresh server gets
const std::string& homeAlone() {
    static std::string r = [] {
        App a(nullptr);
        Client c(a.world);
        c.send(homeRequest);
        a.settle();
        CHECK(c.conn->toClient.starts_with("HTTP/1.1 200 OK\r\n"), "no home page");
        return c.conn->toClient;
    }();
    return r;
}

const char* endName(int how) {
    static const char* names[] = {"close frame", "end of stream", "reset", "failed read", "failed write", "close frame then end", "gone", "close frame without status"};
    return names[how];
}
constexpr int endKinds = 8;
/// the client ends its connection
void endClient(Src& s, Client& c, int how) {
    switch (how) {
    case 0: c.sendFrame(s, 8, "\x03\xe8" + s.text(s.draw(5), "abc")); break;
    case 1: c.conn->clientEof = true; break;
    case 2: c.conn->clientReset = true; break;
    case 3: c.conn->readFault = sim::timedOut(); break;
    case 4: // noticed when the server writes: a ping makes it
        c.conn->writeFault = sim::brokenPipe();
        c.sendFrame(s, 9, "p");
        break;
    case 5:
        c.sendFrame(s, 8, "\x03\xe9");
        c.conn->clientEof = true;
        break;
    case 6:
        c.conn->clientGone = true;
        c.conn->clientEof = true;
        break;
    default: c.sendFrame(s, 8, ""); break;
    }
}

bool throws(auto&& f) {
    try {
        f();
    }
    catch (const std::exception&) {
        return true;
    }
    return false;
}

} // namespace

// --------------------------------------------------------------------------------------------------------------- C26
namespace {
struct Peer {
    Client client;
    size_t handshakes = 0;
    bool ending = false, ended = false;
    int handle = -1;                    // announced to the application
    explicit Peer(sim::World& w) : client(w) {}
};
struct Handle {
    app::UI ui;
    std::vector<std::string> sent; // texts sent through the handle, scripts and calls
    bool uncertain = false;        // messages may have been sent while the link was ending
};
} // namespace

PROPERTY("C26.links", 60000, 500000,
         "histories of 1..40 steps over up to 6 browsers (rarely thousands of steps over hundreds of browsers): connecting, handshaking (both byte orders, repeated, too short), sending through the handles (scripts, calls), ending in 8 ways, "
         "using handles of ended links, under generated transport schedules; acks, announcements, addressing and release are compared with a model; non-trivial: 2 links or a handle used after the end") {
    app::resetLibrary();
    std::vector<std::unique_ptr<Peer>> peers;
    std::vector<Handle> handles;
    bool staleUse = false;
    {
        App a(&s);
        a.wf.onUIStarted([&](app::UI ui) {
            handles.push_back({ui, {}, false});
            auto t = cat("announce ", handles.size() - 1);
            ui.addScript(t);
            handles.back().sent.push_back(t);
        });
        auto check = [&] { // everything has settled
            size_t handshaken = 0;
            for (size_t i = 0; i < peers.size(); ++i) {
                auto& p = *peers[i];
                if (p.ending) p.ended = true;
                auto frames = p.client.frames();
                size_t acks = 0;
                std::vector<std::string> texts;
                for (auto& f : frames) {
                    auto m = app::decode(f);
                    switch (m.kind) {
                    case ServerMessage::ack:
                        CHECK(m.endian == (std::endian::native == std::endian::little ? 0 : 1), "browser ", i, ": byte order ", m.endian);
                        ++acks;
                        break;
                    case ServerMessage::script: texts.push_back(m.text); break;
                    case ServerMessage::call:
                        CHECK(m.content.values.size() == 2 && m.content.values[0].t == "fn", "browser ", i, ": unexpected call");
                        texts.push_back(m.content.values[1].t);
                        break;
                    case ServerMessage::pong: CHECK(p.ending, "browser ", i, ": pong"); break;
                    default: CHECK(false, "browser ", i, ": unexpected message of kind ", static_cast<int>(m.kind));
                    }
                    if (!texts.empty()) CHECK(acks >= 1, "browser ", i, ": message before the acknowledgement");
                }
                if (!texts.empty()) {
                    CHECK(texts[0].starts_with("announce "), "browser ", i, " first receives ", printable(texts[0]));
                    auto h = std::stoi(texts[0].substr(9));
                    CHECK(p.handle < 0 || p.handle == h, "browser ", i, " is announced as ", h, " and ", p.handle);
                    for (auto& q : peers) CHECK(q.get() == &p || q->handle != h, "two browsers get the messages of handle ", h);
                    p.handle = h;
                    auto& sent = handles[static_cast<size_t>(h)].sent;
                    CHECK(texts.size() <= sent.size(), "browser ", i, " receives ", texts.size(), " messages, ", sent.size(), " were sent to it");
                    for (size_t k = 0; k < texts.size(); ++k) CHECK_EQ_TEXT(texts[k], sent[k], "browser ", i, " message ", k);
                }
                if (!p.ending) {
                    CHECK(p.client.upgraded(), "browser ", i, " is not upgraded");
                    CHECK(acks == p.handshakes, "browser ", i, ": ", acks, " acknowledgements of ", p.handshakes, " handshakes");
                    CHECK((p.handle >= 0) == (p.handshakes > 0), "browser ", i, p.handle >= 0 ? " announced without a handshake" : " handshaken and not announced");
                    if (p.handle >= 0)
                        CHECK(texts.size() == handles[static_cast<size_t>(p.handle)].sent.size(), "browser ", i, " receives ", texts.size(), " messages out of ",
                              handles[static_cast<size_t>(p.handle)].sent.size());
                    CHECK(!p.client.conn->closedForClient(), "browser ", i, " disconnected");
                    handshaken += p.handshakes > 0;
                }
                else
                    CHECK(!p.client.conn->serverOpen, "browser ", i, ": connection kept after the end of the link");
            }
            CHECK(app::liveSinks(handshaken) <= std::max<size_t>(handshaken, 1), app::liveSinks(handshaken), " log sinks for ", handshaken, " links");
            std::set<int> announced;
            size_t started = 0, maybe = 0;
            for (auto& p : peers) {
                if (p->handle >= 0) ++started;
                else if (p->ending && p->handshakes) ++maybe;
            }
            CHECK(handles.size() >= started && handles.size() <= started + maybe, handles.size(), " announcements for ", started, " browsers");
        };
        auto n = 1 + s.draw(39);
        size_t serial = 0, most = 6;
        if (s.weighted({250, 1}) == 1) { // many steps, many browsers
            n += s.magnitude(3000);
            most += s.magnitude(300);
        }
        for (size_t step = 0; step < n; ++step) {
            std::string d;
            std::vector<Peer*> live;
            for (auto& p : peers)
                if (!p->ending) live.push_back(p.get());
            switch (live.size() < 2 && s.coin() ? 0 : s.weighted({3, 5, 6, 2, 4, 4})) {
            case 0:
                if (live.size() >= most) break;
                peers.push_back(std::make_unique<Peer>(a.world));
                peers.back()->client.send(app::upgradeRequest);
                if (s.chance(2, 3)) {
                    a.settle();
                    if (s.chance(3, 4)) {
                        peers.back()->client.sendFrame(s, 2, app::handshakeMessage(s.chance(1, 4)));
                        ++peers.back()->handshakes;
                    }
                }
                d = "connect";
                break;
            case 1:
                if (live.empty()) break;
                {
                    auto& p = *live[s.index(live.size())];
                    if (!p.client.upgraded()) break;
                    if (s.chance(1, 6)) {
                        p.client.sendFrame(s, 2, s.coin() ? std::string() : std::string(1, '\0'));
                        d = "short handshake";
                    }
                    else {
                        auto m = app::handshakeMessage(s.chance(1, 4));
                        if (s.chance(1, 6)) m += s.blob(s.draw(5));
                        p.client.sendFrame(s, 2, m);
                        ++p.handshakes;
                        d = "handshake";
                    }
                }
                break;
            case 2: { // use of a handle
                if (handles.empty()) break;
                auto h = s.index(handles.size());
                Peer* owner = nullptr;
                for (auto& p : peers)
                    if (p->handle == static_cast<int>(h)) owner = p.get();
                auto t = cat("message ", serial++, " to ", h, " ", s.text(s.small(200), "xyz"));
                bool call = s.coin();
                bool thrown = throws([&] {
                    if (call) handles[h].ui.jsFunction("fn")(t);
                    else handles[h].ui.addScript(t);
                });
                d = cat(call ? "call" : "script", " through handle ", h, thrown ? " throws" : "");
                if (owner && owner->ended) {
                    CHECK(thrown, "the handle of an ended link is used without an exception");
                    staleUse = true;
                }
                if (owner && !owner->ending) CHECK(!thrown, "the handle of a living link throws");
                if (!thrown) handles[h].sent.push_back(t);
                break;
            }
            case 3: {
                if (live.empty()) break;
                auto& p = *live[s.index(live.size())];
                if (!p.client.upgraded()) break;
                p.ending = true;
                auto how = static_cast<int>(s.draw(endKinds - 1));
                endClient(s, p.client, how);
                d = cat("end by ", endName(how));
                c.label(d);
            } break;
            case 4: a.someSteps(s, 12); break;
            default:
                a.settle();
                check();
                d = "settle";
            }
            if (!d.empty() && c.describing()) c.describe(d + "; ");
        }
        a.settle();
        check();
        // handles of every ended link
        for (size_t h = 0; h < handles.size(); ++h) {
            Peer* owner = nullptr;
            for (auto& p : peers)
                if (p->handle == static_cast<int>(h)) owner = p.get();
            bool dead = !owner || owner->ended; // no owner: ended before it received anything
            bool viaScript = throws([&] { handles[h].ui.addScript("late"); }), viaCall = throws([&] { handles[h].ui.jsFunction("fn")("late"); });
            if (dead) {
                CHECK(viaScript && viaCall, "the handle of an ended link is used without an exception");
                staleUse = true;
            }
            else {
                CHECK(!viaScript && !viaCall, "the handle of a living link throws");
                handles[h].sent.insert(handles[h].sent.end(), {"late", "late"});
            }
        }
        a.settle();
        check();
    }
    CHECK(app::liveSinks(0) == 0, "log sinks left after the end of the application");
    c.nontrivial(handles.size() >= 2 || staleUse);
    c.label(staleUse, "handle used after the end");
}

PROPERTY("C26.reclaim", 240, 3000,
         "80 successive links (connect, handshake, messages both ways, ended in the same generated way) on one application: the memory allocated grows by less than 1200 bytes per link once warm; "
         "non-trivial: all") {
    app::resetLibrary();
    auto how = static_cast<int>(s.draw(endKinds - 1));
    auto handshake = s.weighted({1, 5}), texts = s.draw(3), calls = s.draw(2);
    bool pending = s.coin();
    c.describe(cat("ended by ", endName(how), handshake ? "" : ", no handshake", ", ", texts, " texts, ", calls, " calls", pending ? ", ends with writes pending" : ""));
    App a(nullptr);
    std::optional<app::UI> ui;
    if (s.weighted({1, 5})) a.wf.onUIStarted([&](app::UI u) { ui.emplace(u); });
    else c.describe(", no start handler");
    a.wf.cppFunction<void, std::string>("f", [](std::string) {});
    auto cycle = [&] {
        Client k(a.world);
        k.send(app::upgradeRequest);
        a.settle();
        CHECK(k.upgraded(), "not upgraded");
        if (handshake) k.sendFrame(s, 2, app::handshakeMessage());
        for (size_t i = 0; i < texts; ++i) k.sendFrame(s, 1, "some text");
        for (size_t i = 0; i < calls; ++i) k.sendFrame(s, 2, ref::callMessage(i ? "unknown" : "f", {Value::of(std::string(300, 'x'))}));
        a.settle();
        auto frames = k.frames();
        CHECK(!handshake || (!frames.empty() && app::decode(frames[0]).kind == ServerMessage::ack), "a handshake is not acknowledged");
        if (pending && ui && handshake) {
            k.conn->stallWritesUntil = k.conn->toClient.size() + 1;
            for (int i = 0; i < 5; ++i) ui->addScript(std::string(2000, 's'));
        }
        endClient(s, k, how);
        a.settle();
        k.conn->stallWritesUntil = 0;
        a.settle();
        CHECK(!k.conn->serverOpen, "connection kept after the end of the link");
    };
    for (int i = 0; i < 20; ++i) cycle();
    s.record.reserve(s.record.size() + 4000);
    auto before = __sanitizer_get_current_allocated_bytes();
    for (int i = 0; i < 60; ++i) cycle();
    auto after = __sanitizer_get_current_allocated_bytes();
    CHECK(after < before + 60 * 1200, "60 links left ", after - before, " bytes allocated");
    CHECK(app::liveSinks(0) == 0, app::liveSinks(0), " log sinks left");
    c.nontrivial();
}

// --------------------------------------------------------------------------------------------------------------- C27
namespace {
struct Calls {
    std::vector<std::string> log;
    static std::string line(const std::string& f, const std::vector<Value>& v) {
        auto t = f;
        for (auto& x : v) t += " " + ref::show(x);
        return t;
    }
};
struct Ghost {}; // thrown, derives from nothing
void registerFailing(app::WF& wf, Calls& calls) {
    wf.cppFunction<void, double>("good", [&](double d) { calls.log.push_back(cat("good ", d)); });
    wf.cppFunction<void, std::string, int>("two", [&](std::string t, int i) { calls.log.push_back(cat("two ", t, " ", i)); });
    wf.cppFunction<void, std::tuple<int, std::string>, bool>("tuple", [&](std::tuple<int, std::string> t, bool b) { calls.log.push_back(cat("tuple ", std::get<0>(t), std::get<1>(t), b)); });
    wf.cppFunction<void, std::tuple<std::tuple<int>, int>>("deep", [&](std::tuple<std::tuple<int>, int>) { calls.log.push_back("deep"); });
    wf.cppFunction<void, int>("throws", [&](int kind) {
        calls.log.push_back(cat("throws ", kind));
        switch (kind) {
        case 0: throw std::runtime_error("failure {} of the body {:d} \xC3");
        case 1: throw std::logic_error("");
        case 2: throw std::out_of_range("out of range {0}");
        case 3: throw Ghost{};
        case 4: throw 42;
        case 5: throw "text";
        case 6: throw std::bad_alloc();
        case 7: throw std::system_error(std::make_error_code(std::errc::connection_reset), "system");
        case 8: throw std::runtime_error(std::string(70000, 'e'));
        case 9: throw std::out_of_range(std::string(70000, 'r'));
        case 10: throw std::string("a string");
        default: std::ignore = std::map<int, int>{}.at(3);
        }
    });
    wf.cppFunction<void>("none", [&] { calls.log.push_back("none"); });
}
} // namespace

PROPERTY("C27.contained", 60000, 500000,
         "2..4 browsers making histories of 2..22 (rarely 2000) calls, good ones mixed with failing ones (unknown names of any bytes and length, missing arguments, tuples of a wrong size, bodies throwing 12 kinds of "
         "exceptions, standard or not, of any length), under generated schedules, with or without log traffic; nothing escapes, an unknown name gets exactly one error return, every good call of every "
         "browser runs once, in order; non-trivial: a failing call followed by a good one") {
    app::resetLibrary();
    App a(&s);
    Calls calls;
    registerFailing(a.wf, calls);
    if (s.chance(1, 5)) webfront::log::setLogLevel(s.coin() ? webfront::log::Info : webfront::log::Debug);
    bool logging = webfront::log::is(webfront::log::Info);
    auto n = 2 + s.draw(2);
    std::vector<std::unique_ptr<Client>> clients;
    for (size_t i = 0; i < n; ++i) {
        clients.push_back(std::make_unique<Client>(a.world));
        clients[i]->send(app::upgradeRequest);
    }
    a.settle();
    std::vector<std::vector<std::string>> goods(n); // good calls of each client
    std::vector<size_t> unknown(n), optional(n);
    std::vector<bool> handshaken(n);
    for (size_t i = 0; i < n; ++i)
        if (!s.chance(1, 5)) {
            clients[i]->sendFrame(s, 2, app::handshakeMessage());
            handshaken[i] = true;
        }
    size_t serial = 0;
    bool failedOnce = false, goodAfter = false;
    std::vector<std::string> tolerated; // bodies that ran before they failed
    for (auto steps = 1 + s.many(21, 2000, 300); steps > 0; --steps) {
        auto i = s.index(n);
        auto& k = *clients[i];
        std::string what;
        auto good = [&] {
            auto d = static_cast<double>(++serial);
            if (s.coin()) {
                k.sendFrame(s, 2, ref::callMessage("good", {Value::of(d)}));
                goods[i].push_back(cat("good ", d));
            }
            else {
                auto t = s.text(s.small(30), "abcdef");
                k.sendFrame(s, 2, ref::callMessage("two", {Value::of(t), Value::of(d)}));
                goods[i].push_back(cat("two ", t, " ", d));
            }
            what = "good";
            goodAfter = goodAfter || failedOnce;
        };
        switch (s.weighted({6, 3, 3, 3, 4, 1})) {
        case 0: good(); break;
        case 1: { // unknown name
            std::string name = s.oneOf<const char*>({"", "Good", "goo", "good ", "unknown", "two\x01", "{}", "{:d}", "%s%n", "none.x"});
            if (s.chance(1, 3)) name = "?" + s.blob(s.sized({255, 256, 65534}, 65534));
            std::vector<Value> args;
            for (auto m = s.draw(3); m > 0; --m) args.push_back(Value::of(static_cast<double>(m)));
            k.sendFrame(s, 2, ref::callMessage(name, args));
            ++unknown[i];
            what = "unknown " + printable(name, 30);
            failedOnce = true;
        } break;
        case 2: { // missing arguments
            switch (s.draw(4)) {
            case 0: k.sendFrame(s, 2, ref::callMessage("good", {})); break;
            case 1: k.sendFrame(s, 2, ref::callMessage("two", {})); break;
            case 2: k.sendFrame(s, 2, ref::callMessage("two", {Value::of(s.text(s.small(300), "ab"))})); break;
            case 3: k.sendFrame(s, 2, ref::callMessage("tuple", {Value::of(std::vector<Value>{Value::of(1.), Value::of(std::string("t"))})})); break;
            default: k.sendFrame(s, 2, ref::callMessage("throws", {}));
            }
            what = "missing arguments";
            failedOnce = true;
        } break;
        case 3: { // arrays of a wrong size
            std::vector<Value> items;
            auto m = s.oneOf<size_t>({0, 1, 3, 4, 7, 100});
            for (size_t q = 0; q < m; ++q) items.push_back(q == 1 ? Value::of(std::string("t")) : Value::of(1.));
            if (s.chance(1, 4)) k.sendFrame(s, 2, ref::callMessage("deep", {Value::of(std::vector<Value>{Value::of(items), Value::of(2.)})})), what = "inner array";
            else k.sendFrame(s, 2, ref::callMessage("tuple", {Value::of(items), Value::of(true)})), what = "array";
            if (what == "inner array" && m == 1) goods[i].push_back("deep");
            what += cat(" of ", m);
            failedOnce = true;
        } break;
        case 4: {
            auto kind = s.draw(11);
            k.sendFrame(s, 2, ref::callMessage("throws", {Value::of(static_cast<double>(kind))}));
            goods[i].push_back(cat("throws ", kind));
            if (kind == 2 || kind == 9 || kind == 11) ++optional[i]; // the error of the body may be reported too
            what = cat("body throws #", kind);
            failedOnce = true;
        } break;
        default:
            k.sendFrame(s, 2, ref::callMessage("none", {}));
            goods[i].push_back("none");
            what = "none";
        }
        if (c.describing()) c.describe(cat("browser ", i, " ", what, "; "));
        if (s.coin()) a.someSteps(s, 10);
    }
    a.settle();
    for (size_t i = 0; i < n; ++i) {
        auto d = static_cast<double>(++serial);
        clients[i]->sendFrame(s, 2, ref::callMessage("good", {Value::of(d)}));
        goods[i].push_back(cat("good ", d));
    }
    a.settle();
    // every good call once, in the order of its browser
    size_t total = 0;
    for (auto& g : goods) total += g.size();
    std::set<std::vector<size_t>> states{std::vector<size_t>(n)};
    for (auto& got : calls.log) {
        std::set<std::vector<size_t>> after;
        for (auto& st : states)
            for (size_t b = 0; b < n; ++b)
                if (st[b] < goods[b].size() && goods[b][st[b]] == got) {
                    auto t = st;
                    ++t[b];
                    after.insert(t);
                    if (after.size() > 200) break;
                }
        CHECK(!after.empty(), "unexpected run of ", printable(got, 60));
        states = after;
    }
    CHECK(calls.log.size() == total, calls.log.size(), " calls have run out of ", total);
    for (size_t i = 0; i < n; ++i) {
        size_t returns = 0;
        for (auto& f : clients[i]->frames()) {
            auto m = app::decode(f);
            switch (m.kind) {
            case ServerMessage::ret:
                CHECK(m.content.values.size() == 1 && m.content.values[0].kind == Value::error, "browser ", i, ": return message without an error");
                CHECK(!m.content.values[0].t.empty() || optional[i], "browser ", i, ": empty error");
                ++returns;
                break;
            case ServerMessage::ack: CHECK(handshaken[i], "browser ", i, ": acknowledgement of nothing"); break;
            case ServerMessage::log: CHECK(logging && handshaken[i], "browser ", i, ": log record"); break;
            default: CHECK(false, "browser ", i, ": unexpected message");
            }
        }
        CHECK(returns >= unknown[i] && returns <= unknown[i] + optional[i], "browser ", i, ": ", returns, " error returns for ", unknown[i], " unknown functions");
        CHECK(!clients[i]->conn->closedForClient(), "browser ", i, " disconnected");
    }
    c.nontrivial(failedOnce && goodAfter);
    c.label(logging, "with logs");
}

// --------------------------------------------------------------------------------------------------------------- C28
PROPERTY("C28.frames", 60000, 500000,
         "scripts (1..13, rarely 2000) of any bytes (0..65535 bytes, sizes around 125/126/255/256/65535) and longer ones, injected into 1..3 browsers from the start handler or later, mixed with calls, the text memory being "
         "overwritten as soon as addScript() returns; each browser receives its scripts exactly, once, in order with its calls; longer ones throw and send nothing; non-trivial: two messages") {
    app::resetLibrary();
    App a(&s);
    if (s.chance(1, 6)) webfront::log::setLogLevel(webfront::log::Info);
    auto n = 1 + s.draw(2);
    std::vector<std::unique_ptr<Client>> clients;
    std::vector<app::UI> uis;
    std::vector<std::vector<std::string>> expected(n);
    size_t count = 0;
    auto script = [&](size_t b, app::UI& ui) {
        auto size = count > 50 ? s.small(300) : s.weighted({6, 1}) == 0 ? s.sized({125, 126, 127, 255, 256, 1000, 8192}, 9000) : s.oneOf<size_t>({65531, 65532, 65535, 65536, 65537, 70000, 131071, 131072});
        auto t = s.blob(size);
        bool thrown = throws([&] {
            std::string buffer = t;
            struct Overwrite {
                std::string& b;
                ~Overwrite() { std::fill(b.begin(), b.end(), '#'); }
            } o{buffer};
            ui.addScript(buffer);
        });
        if (c.describing()) c.describe(cat("; browser ", b, " script of ", size, thrown ? " refused" : ""));
        CHECK(thrown == (size > 65535), thrown ? "a script is refused" : "a script is accepted", " (", size, " bytes)");
        if (!thrown) expected[b].push_back("script " + t);
        c.label(thrown, "refused");
    };
    auto call = [&](size_t b, app::UI& ui) {
        auto t = s.blob(s.small(300));
        ui.jsFunction("fn")(t);
        expected[b].push_back("call " + t);
        if (c.describing()) c.describe(cat("; browser ", b, " call"));
    };
    a.wf.onUIStarted([&](app::UI ui) {
        uis.push_back(ui);
        for (auto k = s.draw(2); k > 0; --k) script(uis.size() - 1, ui);
    });
    for (size_t i = 0; i < n; ++i) {
        clients.push_back(std::make_unique<Client>(a.world));
        clients[i]->send(app::upgradeRequest);
        a.settle();
        clients[i]->sendFrame(s, 2, app::handshakeMessage());
        a.settle();
        CHECK(uis.size() == i + 1, "not announced");
    }
    count = s.many(13, 2000, 300);
    for (auto k = count; k > 0; --k) {
        auto b = s.index(n);
        if (s.chance(2, 3)) script(b, uis[b]);
        else call(b, uis[b]);
        if (s.coin()) a.someSteps(s, 8);
    }
    a.settle();
    size_t total = 0;
    for (size_t i = 0; i < n; ++i) {
        std::vector<std::string> got;
        for (auto& f : clients[i]->frames()) {
            auto m = app::decode(f);
            if (m.kind == ServerMessage::script) got.push_back("script " + m.text);
            else if (m.kind == ServerMessage::call) {
                CHECK(m.content.values.size() == 2, "call of ", m.content.values.size(), " values");
                got.push_back("call " + m.content.values[1].t);
            }
            else CHECK(m.kind == ServerMessage::ack || m.kind == ServerMessage::log, "unexpected message");
        }
        for (size_t k = 0; k < std::min(got.size(), expected[i].size()); ++k) CHECK_EQ_TEXT(got[k], expected[i][k], "browser ", i, " message ", k);
        CHECK(got.size() == expected[i].size(), "browser ", i, ": ", got.size(), " messages instead of ", expected[i].size());
        total += got.size();
    }
    c.nontrivial(total >= 2);
}

// --------------------------------------------------------------------------------------------------------------- C30
PROPERTY("C30.forwarded", 60000, 500000,
         "1..4 (rarely 100) browsers linking and ending at generated moments while the application and the library itself log records (all levels, texts of 0..140000 bytes of any content, level changed on the way); a "
         "reference sink sees every record; a linked browser receives exactly the records emitted since it was linked, cut at 65535 bytes at most, an ended one a prefix of them, others nothing; "
         "non-trivial: a record emitted with a linked browser") {
    app::resetLibrary();
    struct Link {
        Client client;
        bool handshake = false, ending = false, answered = false;
        size_t expectedLinks = 0;
        explicit Link(sim::World& w) : client(w) {}
    };
    std::vector<std::string> records;
    std::vector<size_t> starts; // number of records when each link was announced
    std::vector<std::unique_ptr<Link>> links;
    size_t forwarded = 0;
    // the reference is the first sink of the program, or comes after the sink of the first browser (nothing is emitted before)
    bool first = s.chance(3, 4), recording = first;
    auto reference = [&](std::string_view t) { records.emplace_back(t); };
    if (first) webfront::log::addSinks(reference);
    {
        App a(&s);
        if (first && s.chance(3, 4)) webfront::log::setLogLevel(s.oneOf<uint8_t>({webfront::log::Error, webfront::log::Info, webfront::log::Info, webfront::log::Debug}));
        a.wf.onUIStarted([&](app::UI ui) {
            starts.push_back(records.size());
            ui.addScript(cat(starts.size() - 1)); // tells which browser it is
            if (!recording) {
                recording = true;
                webfront::log::addSinks(reference);
                webfront::log::setLogLevel(webfront::log::Info);
            }
        });
        a.wf.cppFunction<void, std::string>("log", [](std::string t) { webfront::log::info("{}", t); });
        auto check = [&] {
            for (size_t i = 0; i < links.size(); ++i) {
                auto& l = *links[i];
                std::vector<std::string> got;
                int link = -1;
                for (auto& f : l.client.frames()) {
                    auto m = app::decode(f);
                    if (m.kind == ServerMessage::log) {
                        CHECK(l.handshake, "browser ", i, " receives a record without a handshake");
                        got.push_back(m.text);
                    }
                    else if (m.kind == ServerMessage::script) {
                        CHECK(link < 0, "browser ", i, " announced twice");
                        link = std::stoi(m.text);
                        CHECK(got.empty(), "browser ", i, " receives records emitted before its announcement"); // see below
                    }
                    else CHECK(m.kind == ServerMessage::ack || m.kind == ServerMessage::pong || m.kind == ServerMessage::ret, "browser ", i, " unexpected message");
                }
                if (link < 0) {
                    CHECK(got.empty(), "browser ", i, " receives records and no announcement");
                    CHECK(!l.handshake || l.ending, "browser ", i, " not announced");
                    continue;
                }
                size_t from = starts.at(static_cast<size_t>(link)), available = records.size() - from;
                CHECK(got.size() <= available, "browser ", i, " receives ", got.size(), " records, ", available, " were emitted");
                for (size_t k = 0; k < got.size(); ++k) CHECK_EQ_TEXT(got[k], records[from + k].substr(0, 65535), "browser ", i, " record ", k);
                if (!l.ending) CHECK(got.size() == available, "browser ", i, " receives ", got.size(), " records out of ", available);
                forwarded += got.size();
            }
        };
        auto n = 2 + s.draw(25);
        size_t most = 4;
        bool longer = s.weighted({300, 1}) == 1;
        if (longer) {
            n += s.magnitude(2000);
            most += s.magnitude(100);
        }
        for (size_t step = 0; step < n; ++step) {
            std::vector<Link*> live;
            for (auto& l : links)
                if (!l->ending) live.push_back(l.get());
            std::string d;
            switch (links.empty() ? 0 : s.weighted({2, 3, 7, 2, 1, 4, 2})) {
            case 0:
                if (links.size() >= most) break;
                links.push_back(std::make_unique<Link>(a.world));
                links.back()->client.send(app::upgradeRequest);
                if (s.chance(2, 3)) {
                    a.settle();
                    if (s.chance(3, 4)) {
                        links.back()->client.sendFrame(s, 2, app::handshakeMessage());
                        links.back()->handshake = true;
                        if (s.coin()) a.settle();
                    }
                }
                d = "connect";
                break;
            case 1: {
                if (live.empty()) break;
                auto& l = *live[s.index(live.size())];
                if (!l.client.upgraded()) break;
                l.client.sendFrame(s, 2, app::handshakeMessage());
                l.handshake = true;
                d = "handshake";
            } break;
            case 2: {
                auto size = longer || s.weighted({8, 1}) == 0 ? s.small(300) : s.oneOf<size_t>({65000, 65480, 65500, 65519, 65520, 65536, 70000, 140000}) + s.draw(40);
                auto t = s.chance(1, 3) ? std::string("{} {:d} }{ %s") : s.blob(size);
                switch (s.draw(3)) {
                case 0: webfront::log::error("{}", t); break;
                case 1: webfront::log::warn("{}", t); break;
                case 2: webfront::log::info("{}", t); break;
                default: webfront::log::debug("{}", t);
                }
                d = cat("record of ", t.size());
            } break;
            case 3:
                if (!recording) break;
                webfront::log::setLogLevel(s.oneOf<uint8_t>({webfront::log::Disabled, webfront::log::Error, webfront::log::Warn, webfront::log::Info, webfront::log::Debug, webfront::log::Info}));
                d = "level";
                break;
            case 4: {
                if (live.empty()) break;
                auto& l = *live[s.index(live.size())];
                if (!l.client.upgraded()) break;
                l.ending = true;
                auto how = static_cast<int>(s.draw(endKinds - 1));
                endClient(s, l.client, how);
                d = cat("end by ", endName(how));
            } break;
            case 5: a.someSteps(s, 12); break;
            default: {
                if (live.empty()) break;
                auto& l = *live[s.index(live.size())];
                if (!l.client.upgraded()) break;
                auto t = s.blob(s.small(100));
                l.client.sendFrame(s, 2, ref::callMessage(s.coin() ? "log" : "unknown log", {Value::of(t)}));
                // an unknown function is answered: not a record
                d = "call";
            }
            }
            if (!d.empty() && c.describing()) c.describe(d + "; ");
            if (s.chance(1, 8)) {
                a.settle();
            }
        }
        a.settle();
        check();
    }
    webfront::log::setLogLevel(webfront::log::Info);
    webfront::log::info("after the end");
    CHECK(app::liveSinks(recording) == recording, app::liveSinks(recording), " log sinks left after the end of the application");
    c.nontrivial(forwarded > 0);
    c.label(links.size() > 1, "several browsers");
    c.label(!first && recording, "a browser has the first sink");
}

// --------------------------------------------------------------------------------------------------------- C19, C34
namespace {
/// A client which behaves and whose service is checked: HTTP requests, or a link making calls which are answered by calls
struct Healthy {
    App& a;
    std::unique_ptr<Client> link;
    std::vector<double> answered;
    double serial = 0;
    std::vector<std::unique_ptr<Client>> pages;
    explicit Healthy(App& app) : a(app) {
        link = std::make_unique<Client>(a.world);
        link->send(app::upgradeRequest);
        a.settle();
        CHECK(link->upgraded(), "the healthy browser is not upgraded");
        link->send(ref::clientFrame(2, app::handshakeMessage(), 0x01020304));
        a.settle();
    }
    void ask(Src& s) {
        if (s.chance(1, 3) && pages.size() < 40) {
            pages.push_back(std::make_unique<Client>(a.world));
            pages.back()->send(homeRequest);
        }
        else {
            serial += 1;
            link->sendFrame(s, 2, ref::callMessage("echo", {Value::of(serial)}));
        }
    }
    void check() {
        std::vector<double> got;
        bool acked = false, announced = false;
        for (auto& f : link->frames()) {
            auto m = app::decode(f);
            if (m.kind == ServerMessage::ack) acked = true;
            if (m.kind == ServerMessage::script && m.text == "healthy") announced = true;
            if (m.kind == ServerMessage::call) {
                CHECK(m.content.values.size() == 2 && m.content.values[0].t == "answer", "the healthy browser receives another call");
                got.push_back(m.content.values[1].n);
            }
            CHECK(m.kind != ServerMessage::ret, "the healthy browser receives an error");
        }
        CHECK(acked && announced, "the healthy browser is not linked");
        CHECK(got.size() == static_cast<size_t>(serial), "the healthy browser gets ", got.size(), " answers out of ", serial);
        for (size_t i = 0; i < got.size(); ++i) CHECK(got[i] == static_cast<double>(i + 1), "the healthy browser gets a wrong answer");
        CHECK(!link->conn->closedForClient(), "the healthy browser is disconnected");
        for (auto& p : pages) CHECK_EQ_TEXT(p->conn->toClient, homeAlone(), "page of a healthy client");
    }
};
struct Service {
    std::vector<app::UI> uis;
    size_t hostileCalls = 0;
    Service(App& a, bool greet) {
        a.wf.onUIStarted([this, greet](app::UI ui) {
            uis.push_back(ui);
            if (uis.size() == 1) ui.addScript("healthy");
            else if (greet) {
                ui.addScript("hello");
                ui.jsFunction("start")(1, "two", std::tuple<bool, int>{true, 3});
            }
        });
        a.wf.cppFunction<void, double>("echo", [this](double d) { uis.at(0).jsFunction("answer")(d); });
        a.wf.cppFunction<void, std::string>("text", [this](std::string) { ++hostileCalls; });
        a.wf.cppFunction<void, int, unsigned, int8_t, uint16_t, int64_t, uint64_t, float>("ints", [this](int, unsigned, int8_t, uint16_t, int64_t, uint64_t, float) { ++hostileCalls; });
        a.wf.cppFunction<void, bool, std::string>("bool", [this](bool, std::string) { ++hostileCalls; });
        a.wf.cppFunction<void, std::tuple<int, std::tuple<std::string, bool>>, std::string>("tuple", [this](auto&&...) { ++hostileCalls; });
        a.wf.cppFunction<void, std::tuple<>>("empty", [this](std::tuple<>) { ++hostileCalls; });
        a.wf.cppFunction<void, int>("throws", [](int) { throw std::runtime_error("body"); });
    }
};

std::string mutate(Src& s, std::string t) {
    for (auto n = s.draw(4); n > 0 && !t.empty(); --n) {
        auto at = s.index(t.size());
        switch (s.draw(7)) {
        case 0: t[at] = static_cast<char>(s.draw(255)); break;
        case 1: t[at] = static_cast<char>(t[at] ^ (1 << s.draw(7))); break;
        case 2: t.erase(at, 1 + s.small(20)); break;
        case 3: t.insert(at, s.blob(1 + s.small(20))); break;
        case 4: t.resize(at); break;
        case 5: t.insert(at, t.substr(at, 1 + s.small(30))); break;
        case 6: t[at] = s.oneOf<char>({'\0', '\xff', '\x7f', '\x80', '\n', '\r', ' ', '%', '{', '\x12'}); break;
        default: t.insert(at, std::string(1 + s.draw(9000), t[at]));
        }
    }
    return t;
}
std::string hostileHttp(Src& s) {
    std::string t;
    switch (s.weighted({5, 2, 2, 1, 1})) {
    case 0: {
        t = s.oneOf<const char*>({"GET", "HEAD", "POST", "get", "G\0T", "{}", ""}) + std::string(" ");
        t += s.oneOf<const char*>({"/", "/index.html", "/WebFront.js", "/%", "/%0", "/%00", "/../../etc/passwd", "/..%2f", "//", "*", "", "/{}", "/%7b%7d", "http://h/"});
        if (s.chance(1, 6)) t += std::string(s.oneOf<size_t>({100, 300, 5000, 9000, 40000}), s.oneOf<char>({'a', '/', '%', '.', '\xff'}));
        t += s.oneOf<const char*>({" HTTP/1.1\r\n", " HTTP/1.0\r\n", " HTTP/9.9\r\n", " HTTP/1.1\n", "\r\n", " HTTP/99999999999.1\r\n", " HTTP/1.99999999999\r\n"});
        for (auto n = s.draw(6); n > 0; --n)
            t += s.oneOf<const char*>({"Host: x\r\n", "Upgrade: websocket\r\n", "Connection: Upgrade\r\n", "Sec-WebSocket-Key: x\r\n", "Sec-WebSocket-Key: \r\n", "Accept-Encoding: gzip\r\n", " folded\r\n",
                                       "\tfolded\r\n", "A:\r\n", ": v\r\n", "NoColon\r\n", "Content-Length: 18446744073709551616\r\n", "X: \x01\r\n", "X: \x80\xff\r\n", "\r\n"});
        if (s.chance(1, 8)) t += "Sec-WebSocket-Key: " + std::string(s.oneOf<size_t>({60, 119, 120, 200, 10000}), 'k') + "\r\n";
        t += "\r\n";
    } break;
    case 1: t = app::upgradeRequest; break;
    case 2: t = s.blob(s.sized({8191, 8192, 8193}, 20000)); break;
    case 3: t = homeRequest + homeRequest; break;
    default: t = std::string(s.draw(30000), s.oneOf<char>({'\r', '\n', 'A', ' ', '\0'}));
    }
    return mutate(s, t);
}
Value anyValue(Src& s, int depth = 0) {
    switch (s.weighted({4, 2, 4, 1, depth < 3 ? 3u : 0u})) {
    case 0: return Value::of(s.oneOf<double>({0., 1., -1., 255., 256., 65536., 2147483647., 2147483648., -2147483649., 9.3e18, 1.9e19, 1e300, -1e300, std::numeric_limits<double>::quiet_NaN(),
                                              std::numeric_limits<double>::infinity(), 0.5}));
    case 1: return Value::of(s.coin());
    case 2: return Value::of(s.blob(s.sized({255, 256}, 400)));
    case 3: return Value::err(s.blob(s.small(50)));
    default: {
        std::vector<Value> v;
        for (auto n = s.draw(4); n > 0; --n) v.push_back(anyValue(s, depth + 1));
        return Value::of(std::move(v));
    }
    }
}
std::string hostileMessage(Src& s) {
    switch (s.weighted({6, 2, 2, 1})) {
    case 0: {
        std::vector<Value> all;
        if (s.chance(1, 10)) all.push_back(anyValue(s));
        else all.push_back(Value::of(std::string(s.oneOf<const char*>({"text", "ints", "bool", "tuple", "empty", "throws", "nothing", "", "{}"}))));
        for (auto n = s.draw(8); n > 0; --n) all.push_back(anyValue(s));
        auto p = ref::parameters(all);
        auto declared = s.chance(1, 4) ? s.oneOf<uint32_t>({0, 1, static_cast<uint32_t>(p.size()) + 1, 0xFFFFFFFF, 0x80000000, 0xFFFFFFF8}) : static_cast<uint32_t>(p.size());
        auto m = ref::message(static_cast<int>(s.weighted({0, 0, 0, 8, 1})), s.chance(1, 4) ? s.draw(255) : all.size(), p, declared);
        return s.coin() ? mutate(s, m) : m;
    }
    case 1: return mutate(s, app::handshakeMessage(s.coin()));
    case 2: return std::string(1, static_cast<char>(s.draw(6))) + s.blob(s.small(40));
    default: return s.blob(s.sized({8, 255}, 3000));
    }
}
std::string hostileFrames(Src& s) {
    std::string t;
    for (auto n = 1 + s.draw(5); n > 0; --n) {
        int opcode = static_cast<int>(s.weighted({2, 3, 8, 1, 0, 0, 0, 0, 1, 2, 1, 1, 0, 0, 0, 1}));
        auto data = opcode == 2 || s.coin() ? hostileMessage(s) : s.blob(s.small(200));
        auto f = ref::clientFrame(opcode, data, static_cast<uint32_t>(s.draw(UINT32_MAX)), !s.chance(1, 6), s.chance(1, 10) ? static_cast<int>(s.draw(7)) : 0);
        switch (s.weighted({10, 1, 1, 1, 1})) {
        case 0: break;
        case 1: f[1] = static_cast<char>(f[1] & 0x7F); break; // not masked
        case 2: // huge declared length
            f = std::string{static_cast<char>(0x80 | opcode), '\xff'};
            for (int i = 0; i < 8; ++i) f += static_cast<char>(s.oneOf<int>({0, 0x7f, 0x80, 0xff, 1}));
            f += data;
            break;
        case 3: f[1] = static_cast<char>((f[1] & 0x80) | static_cast<int>(s.oneOf<int>({126, 127, 0, 125}))); break;
        default: f = mutate(s, f);
        }
        t += f;
    }
    return t;
}
} // namespace

PROPERTY("C19.hostile", 60000, 600000,
         "1..4 hostile clients, each sending at a generated stage (HTTP, WebSocket framing, application messages) mutated or random bytes, in pieces, then staying, leaving or resetting, next to a healthy link "
         "and healthy page requests, with or without log traffic; no sanitizer report, no exception out of the event loop, no endless processing, every healthy client gets its exact answers; non-trivial: the "
         "hostile bytes passed the HTTP stage or a healthy request was served between hostile reads") {
    app::resetLibrary();
    App a(&s);
    Service service(a, s.coin());
    Healthy healthy(a);
    if (s.chance(1, 5)) webfront::log::setLogLevel(s.coin() ? webfront::log::Info : webfront::log::Debug);
    c.label(webfront::log::is(webfront::log::Error), "with logs");
    struct Hostile {
        Client client;
        std::string bytes;
        size_t sent = 0, stage = 0;
        explicit Hostile(sim::World& w) : client(w) {}
    };
    std::vector<std::unique_ptr<Hostile>> hostiles;
    for (auto n = 1 + s.draw(3); n > 0; --n) {
        auto h = std::make_unique<Hostile>(a.world);
        h->stage = s.draw(2);
        if (h->stage == 0) h->bytes = hostileHttp(s);
        else {
            h->client.send(app::upgradeRequest);
            if (s.coin()) a.settle(); // else the frames may come with the request
            if (s.coin()) h->bytes += ref::clientFrame(2, app::handshakeMessage(), 7);
            h->bytes += h->stage == 1 ? hostileFrames(s) : std::string();
            if (h->stage == 2)
                for (auto k = 1 + s.draw(4); k > 0; --k) h->bytes += ref::clientFrame(s.chance(1, 8) ? 1 : 2, hostileMessage(s), static_cast<uint32_t>(s.draw(UINT32_MAX)));
        }
        if (c.describing()) c.describe(cat("hostile client at stage ", h->stage, ": ", printable(h->bytes, 300), "\n"));
        c.label(cat("stage ", h->stage));
        hostiles.push_back(std::move(h));
    }
    bool between = false;
    for (size_t guard = 0; guard < 400; ++guard) {
        std::vector<Hostile*> sending;
        for (auto& h : hostiles)
            if (h->sent < h->bytes.size()) sending.push_back(h.get());
        if (sending.empty()) break;
        auto& h = *sending[s.index(sending.size())];
        auto left = h.bytes.size() - h.sent;
        auto n = s.chance(1, 3) && guard < 300 ? std::min<size_t>(left, 1 + s.draw(40)) : left - (s.coin() ? 0 : s.draw(left - 1));
        h.client.send(std::string_view(h.bytes).substr(h.sent, n));
        h.sent += n;
        if (h.sent == h.bytes.size()) {
            switch (s.draw(3)) {
            case 1: h.client.conn->clientEof = true; break;
            case 2: h.client.conn->clientReset = true; break;
            default: break;
            }
        }
        if (s.chance(1, 3)) {
            healthy.ask(s);
            between = true;
        }
        a.someSteps(s, 8);
    }
    a.settle();
    healthy.ask(s);
    a.settle();
    healthy.check();
    bool passed = false;
    for (auto& h : hostiles) passed = passed || (h->stage > 0 && h->client.upgraded());
    c.nontrivial(passed || between);
    c.label(service.hostileCalls > 0, "a hostile call ran a function");
}

PROPERTY("C34.faults", 60000, 600000,
         "2..6 (rarely 200) clients (page requests, refused requests, links making calls) each failing at a generated moment in one of 9 ways (end of stream, half-close, reset, gone, stalled reading, failed read, failed write, failed "
         "accept, partial request) under generated schedules, next to a healthy link and healthy page requests; the event loop keeps running, every healthy client gets its exact answers, the failed "
         "connections are released, new clients are served; non-trivial: a client failed with an operation pending") {
    app::resetLibrary();
    App a(&s);
    Service service(a, s.coin());
    Healthy healthy(a);
    struct Victim {
        std::unique_ptr<Client> client;
        std::string toSend;
        size_t sent = 0;
        int fate = -1; // not yet
        bool isLink = false, halfClosed = false, http = false;
    };
    std::vector<Victim> victims;
    auto n = 2 + s.draw(4);
    bool many = s.weighted({250, 1}) == 1;
    if (many) n += s.magnitude(200);
    for (size_t i = 0; i < n; ++i) {
        Victim v;
        v.client = std::make_unique<Client>(a.world);
        switch (s.weighted({4, 1, 4})) {
        case 0:
            v.toSend = homeRequest;
            v.http = true;
            break;
        case 1: v.toSend = s.oneOf<const char*>({"BAD\x01\r\n\r\n", "GET /none HTTP/1.1\r\n\r\n", "POST / HTTP/1.1\r\n\r\n", "GET /.. HTTP/1.1\r\n\r\n"}); break;
        default:
            v.isLink = true;
            v.toSend = app::upgradeRequest;
            if (s.coin()) { // the frames may follow at once
                v.toSend += ref::clientFrame(2, app::handshakeMessage(), 0x55667788);
                v.toSend += ref::clientFrame(2, ref::callMessage("text", {Value::of(s.blob(s.draw(300)))}), 0x11223344);
            }
        }
        victims.push_back(std::move(v));
    }
    bool pendingFailure = false;
    size_t healthyAsks = 0;
    auto steps = 5 + s.draw(60);
    if (many) steps += n * 8;
    for (size_t k = 0; k < steps; ++k) {
        auto& v = victims[s.index(victims.size())];
        auto& conn = *v.client->conn;
        switch (s.weighted({5, 3, 5, 2, 1})) {
        case 0: // progress of the client
            if (v.fate >= 0) break;
            if (v.sent < v.toSend.size()) {
                auto left = v.toSend.size() - v.sent;
                auto bytes = s.coin() ? left : left - s.draw(left - 1);
                v.client->send(std::string_view(v.toSend).substr(v.sent, bytes));
                v.sent += bytes;
            }
            else if (v.isLink && v.client->upgraded()) {
                switch (s.draw(3)) {
                case 0: v.client->sendFrame(s, 2, app::handshakeMessage()); break;
                case 1: v.client->sendFrame(s, 2, ref::callMessage(s.coin() ? "text" : "nothing", {Value::of(s.blob(s.draw(200)))})); break;
                case 2: v.client->sendFrame(s, 9, "ping"); break;
                default: v.client->sendFrame(s, 1, "text");
                }
            }
            break;
        case 1: { // failure
            if (v.fate >= 0) break;
            v.fate = static_cast<int>(s.draw(8));
            size_t pending = 0;
            for (auto& op : a.world.ops) pending += op.conn == v.client->conn;
            if (pending && v.sent) pendingFailure = true;
            static const char* names[] = {"end of stream", "half-close", "reset", "gone", "stalled", "failed read", "failed write", "failed accept", "silent"};
            if (c.describing()) c.describe(cat("client ", &v - victims.data(), v.isLink ? " (link)" : "", " ", names[v.fate], " after ", v.sent, " bytes; "));
            c.label(names[v.fate]);
            switch (v.fate) {
            case 0: conn.clientEof = true; break;
            case 1: // everything is sent, then the sending direction is closed: the answer still goes out
                v.client->send(std::string_view(v.toSend).substr(v.sent));
                v.sent = v.toSend.size();
                conn.clientEof = true;
                v.halfClosed = true;
                break;
            case 2: conn.clientReset = true; break;
            case 3:
                conn.clientGone = true;
                conn.clientEof = true;
                break;
            case 4: conn.stallWritesUntil = std::max<size_t>(1, conn.toClient.size() + s.draw(3)); break;
            case 5: conn.readFault = s.oneOf<std::error_code>({sim::timedOut(), sim::resetByPeer(), std::make_error_code(std::errc::bad_message)}); break;
            case 6: conn.writeFault = s.oneOf<std::error_code>({sim::timedOut(), sim::brokenPipe(), sim::resetByPeer()}); break;
            case 7: a.world.acceptFault = s.oneOf<std::error_code>({std::make_error_code(std::errc::too_many_files_open), std::make_error_code(std::errc::connection_aborted)}); break;
            default: break;
            }
        } break;
        case 2: a.someSteps(s, 10); break;
        case 3:
            healthy.ask(s);
            ++healthyAsks;
            break;
        default: // the application talks to a link, which may be ended
            if (service.uis.size() > 1) {
                auto& ui = service.uis[1 + s.index(service.uis.size() - 1)];
                throws([&] { ui.addScript("from the application " + s.text(s.small(500), "ab")); });
            }
        }
    }
    healthy.ask(s);
    a.settle();
    healthy.check();
    // complete answers for those which only closed their sending direction
    for (size_t i = 0; i < victims.size(); ++i) {
        auto& v = victims[i];
        if (v.http && (v.halfClosed || (v.fate == 7 && v.sent == v.toSend.size()) || (v.fate < 0 && v.sent == v.toSend.size())))
            CHECK_EQ_TEXT(v.client->conn->toClient, homeAlone(), "page of client ", i);
        else if (v.http)
            CHECK(std::string_view(homeAlone()).starts_with(v.client->conn->toClient), "client ", i, " receives something else than a part of the page");
    }
    for (size_t i = 0; i < victims.size(); ++i)
        if (auto& v = victims[i]; v.fate == 6 && !v.client->conn->writeFault)
            CHECK(!v.client->conn->serverOpen, "the connection of client ", i, " stays open although writing to it failed");
    // those still there leave: everything is released
    for (auto& v : victims) {
        v.client->conn->clientReset = true;
        v.client->conn->stallWritesUntil = 0;
    }
    a.settle();
    for (size_t i = 0; i < victims.size(); ++i) CHECK(!victims[i].client->conn->serverOpen || !victims[i].client->conn->accepted, "the connection of client ", i, " is kept after its end");
    for (auto& op : a.world.ops) CHECK(op.conn == healthy.link->conn, "an operation of an ended connection is still pending");
    for (size_t i = 1; i < service.uis.size(); ++i) CHECK(throws([&] { service.uis[i].addScript("late"); }), "the link of a failed client is still there");
    Client fresh(a.world);
    fresh.send(homeRequest);
    a.settle();
    CHECK_EQ_TEXT(fresh.conn->toClient, homeAlone(), "page of a new client");
    healthy.ask(s);
    a.settle();
    healthy.check();
    c.nontrivial(pendingFailure);
    c.label(healthyAsks > 0, "healthy traffic meanwhile");
}

PROPERTY("C34.reclaim", 240, 3000,
         "80 successive connections failing in the same generated way at the same stage (nothing sent, part of the request, answer refused, answer half written, upgraded): the memory allocated grows by less than 300 bytes per "
         "connection (1200 when upgraded) once warm and the connection is closed; non-trivial: all") {
    app::resetLibrary();
    auto stage = s.draw(4), how = s.draw(3);
    c.describe(cat("stage ", stage, " failure ", how));
    App a(nullptr);
    auto cycle = [&] {
        Client k(a.world);
        if (stage == 4) k.send(app::upgradeRequest);
        else if (stage == 1) k.send(std::string_view(homeRequest).substr(0, 30));
        if (stage == 3) k.conn->stallWritesUntil = 20;
        if (stage == 2 || stage == 3) k.send(stage == 2 ? "GET /%00 HTTP/1.1\r\n\r\n" : homeRequest);
        if (stage != 2) a.settle();
        switch (how) {
        case 0: k.conn->clientEof = true; break;
        case 1: k.conn->clientReset = true; break;
        case 2: (stage == 2 || stage == 3 ? k.conn->writeFault : k.conn->readFault) = sim::timedOut(); break;
        default:
            k.conn->clientEof = true;
            k.conn->clientGone = true;
        }
        a.settle();
        k.conn->stallWritesUntil = 0;
        a.settle();
        CHECK(!k.conn->serverOpen, "connection kept after its end");
    };
    for (int i = 0; i < 20; ++i) cycle();
    auto before = __sanitizer_get_current_allocated_bytes();
    for (int i = 0; i < 60; ++i) cycle();
    auto after = __sanitizer_get_current_allocated_bytes();
    CHECK(after < before + 60 * (stage == 4 ? 1200 : 300), "60 connections left ", after - before, " bytes allocated");
    c.nontrivial();
}

// --------------------------------------------------------------------------------------------------------------- C40
namespace {
struct Program { // an application with the same names as the others
    struct Browser {
        Client client;
        size_t serial;                  // in the process
        size_t handshakes = 0, errors = 0; // expected
        bool ending = false;
        int handle = -1;
        std::vector<std::string> calls; // made, in order
        Browser(sim::World& w, size_t n) : client(w), serial(n) {}
    };
    struct Handle {
        app::UI ui;
        std::vector<std::string> sent;
        size_t firstRecord;
    };
    std::shared_ptr<std::optional<App>> place;
    App& a;
    size_t serial;
    std::set<std::string> known; // functions
    std::vector<std::string> runs;
    std::vector<Handle> handles;
    std::vector<std::unique_ptr<Browser>> browsers;
    ~Program() { place->reset(); }
    Program(Src& s, std::shared_ptr<std::optional<App>> p, size_t n, const std::vector<std::string>& records, size_t kind) : place(p), a(place->emplace(&s)), serial(n) {
        a.wf.onUIStarted([this, &records](app::UI ui) {
            handles.push_back({ui, {}, records.size()});
            script(handles.size() - 1, cat("announce ", serial, " ", handles.size() - 1));
        });
        for (size_t f = 0; f < 2; ++f)
            if (kind != f) {
                std::string name = f ? "special" : "common";
                known.insert(name);
                a.wf.cppFunction<void, std::string>(name, [this, name](std::string t) { runs.push_back(name + " " + t); });
            }
    }
    void script(size_t h, const std::string& t) {
        handles[h].ui.addScript(t);
        handles[h].sent.push_back(t);
    }
};
} // namespace

PROPERTY("C40.apps", 48000, 800000,
         "histories of 3..40 (rarely 1000) steps over up to 3 (rarely 20) applications of one process, made and destroyed on the way (new ones where others were) with everything pending, with functions of the same names: browsers connecting, "
         "linking, calling, loading the page and ending on each, scripts and calls through handles, log records; each application gets the calls of its browsers only, each browser the messages "
         "of its application only, and every linked browser every record; non-trivial: two applications with a link at the same time") {
    app::resetLibrary();
    std::vector<std::string> records;
    webfront::log::addSinks([&](std::string_view t) { records.emplace_back(t); });
    if (s.chance(1, 3)) webfront::log::setLogLevel(s.oneOf<uint8_t>({webfront::log::Warn, webfront::log::Info, webfront::log::Debug}));
    auto& home = homeAlone();
    bool together = false;
    size_t programs = 0, clients = 0, texts = 0, destroyed = 0;
    {
        std::vector<std::unique_ptr<Program>> all;
        std::vector<std::pair<std::shared_ptr<sim::Conn>, Program*>> pages;
        bool again = s.coin(); // applications are made where destroyed ones were
        std::vector<std::shared_ptr<std::optional<App>>> places;
        auto make = [&] {
            auto free = std::find_if(places.begin(), places.end(), [](auto& o) { return !*o; });
            if (!again || free == places.end()) free = places.insert(places.end(), std::make_shared<std::optional<App>>());
            all.push_back(std::make_unique<Program>(s, *free, programs++, records, s.draw(3)));
            if (!again) places.clear();
            if (c.describing()) c.describe(cat("application ", all.back()->serial, "; "));
        };
        auto check = [&](Program& p) { // has settled
            std::map<size_t, std::vector<std::string>> runs; // by browser
            for (auto& r : p.runs) {
                auto e = r.rfind(" from ");
                CHECK(e != std::string::npos, "unexpected run of ", printable(r, 60));
                runs[std::stoul(r.substr(e + 6))].push_back(r);
            }
            size_t linked = 0;
            for (auto& b : p.browsers) {
                auto name = cat("browser ", b->serial, " of application ", p.serial, ": ");
                std::vector<std::string> got, seen;
                size_t acks = 0, errors = 0;
                for (auto& f : b->client.frames()) {
                    auto m = app::decode(f);
                    switch (m.kind) {
                    case ServerMessage::ack: ++acks; break;
                    case ServerMessage::script: got.push_back(m.text); break;
                    case ServerMessage::call:
                        CHECK(m.content.values.size() == 2 && m.content.values[0].t == "fn", name, "unexpected call");
                        got.push_back(m.content.values[1].t);
                        break;
                    case ServerMessage::log: seen.push_back(m.text); break;
                    case ServerMessage::ret: ++errors; break;
                    case ServerMessage::pong: CHECK(b->ending, name, "pong"); break;
                    default: CHECK(false, name, "unexpected message of kind ", static_cast<int>(m.kind));
                    }
                }
                size_t announced = 0;
                if (!got.empty()) {
                    CHECK(got[0].starts_with(cat("announce ", p.serial, " ")), name, "first receives ", printable(got[0]));
                    announced = std::stoul(got[0].substr(got[0].rfind(' ')));
                    CHECK(b->handle < 0 || b->handle == static_cast<int>(announced), name, "announced as ", announced, " and ", b->handle);
                    for (auto& o : p.browsers) CHECK(o.get() == b.get() || o->handle != static_cast<int>(announced), name, "receives the messages of another one");
                    b->handle = static_cast<int>(announced);
                    auto& h = p.handles.at(announced);
                    CHECK(got.size() <= h.sent.size(), name, "receives ", got.size(), " messages of ", h.sent.size());
                    for (size_t k = 0; k < got.size(); ++k) CHECK_EQ_TEXT(got[k], h.sent[k], name, "message ", k);
                    CHECK(seen.size() <= records.size() - h.firstRecord, name, "receives too many records");
                    for (size_t k = 0; k < seen.size(); ++k) CHECK_EQ_TEXT(seen[k], records[h.firstRecord + k].substr(0, 65535), name, "record ", k);
                    if (!b->ending) {
                        CHECK(got.size() == h.sent.size(), name, "receives ", got.size(), " messages out of ", h.sent.size());
                        CHECK(seen.size() == records.size() - h.firstRecord, name, "receives ", seen.size(), " records out of ", records.size() - h.firstRecord);
                    }
                }
                else
                    CHECK(seen.empty(), name, "receives records and no announcement");
                auto& r = runs[b->serial];
                CHECK(r.size() <= b->calls.size(), name, "made ", b->calls.size(), " calls, ", r.size(), " have run");
                for (size_t k = 0; k < r.size(); ++k) CHECK_EQ_TEXT(r[k], b->calls[k], name, "call ", k);
                CHECK(errors <= b->errors, name, errors, " errors of ", b->errors, " unknown calls");
                if (b->ending) {
                    CHECK(!b->client.conn->serverOpen, name, "connection kept after the end of the link");
                    continue;
                }
                CHECK(b->client.upgraded() && !b->client.conn->closedForClient(), name, "disconnected");
                CHECK(acks == b->handshakes && got.empty() == (acks == 0), name, acks, " acknowledgements of ", b->handshakes, " handshakes, ", got.size(), " messages");
                CHECK(r.size() == b->calls.size() && errors == b->errors, name, r.size(), " calls have run and ", errors, " were answered out of ", b->calls.size(), " and ", b->errors);
                linked += b->handshakes > 0;
                runs.erase(b->serial);
            }
            for (auto& b : p.browsers) runs.erase(b->serial);
            CHECK(runs.empty(), "application ", p.serial, " runs the call of a browser which is not its own");
            size_t handshaken = 0;
            for (auto& b : p.browsers) handshaken += b->handshakes > 0;
            CHECK(p.handles.size() <= handshaken && p.handles.size() >= linked, "application ", p.serial, ": ", p.handles.size(), " announcements for ", handshaken, " browsers");
            return linked;
        };
        auto checkAll = [&] {
            for (bool busy = true; busy;) { // a record of one is sent by the others
                busy = false;
                for (auto& p : all) {
                    busy = busy || !p->a.world.idle();
                    p->a.settle();
                }
            }
            size_t applications = 0, links = 0;
            for (auto& p : all) {
                auto n = check(*p);
                links += n;
                applications += n > 0;
            }
            together = together || applications >= 2;
            CHECK(app::liveSinks(links + 1) == links + 1, app::liveSinks(links + 1), " log sinks for ", links, " links and the reference");
            for (auto& [conn, p] : pages) CHECK(conn->toClient == home && conn->closedForClient(), "the page of application ", p->serial, " is ", printable(conn->toClient, 100));
        };
        make();
        make();
        size_t most = s.weighted({200, 1}) == 1 ? 20 : 3;
        for (auto steps = 3 + s.many(37, 1000, 300); steps > 0; --steps) {
            std::string d;
            if (all.empty()) make();
            auto at = s.index(all.size());
            auto& p = *all[at];
            std::vector<Program::Browser*> live;
            for (auto& b : p.browsers)
                if (!b->ending && b->client.upgraded()) live.push_back(b.get());
            switch (live.empty() && s.coin() ? 0 : s.weighted({3, 3, 6, 5, 1, 2, 6, 3, 1, 1, 1})) {
            case 0:
                if (p.browsers.size() > 12) break;
                p.browsers.push_back(std::make_unique<Program::Browser>(p.a.world, clients++));
                p.browsers.back()->client.send(app::upgradeRequest);
                d = cat("browser ", p.browsers.back()->serial, " connects");
                if (s.chance(2, 3)) {
                    p.a.settle();
                    p.browsers.back()->client.sendFrame(s, 2, app::handshakeMessage());
                    ++p.browsers.back()->handshakes;
                    d += " and links";
                }
                break;
            case 1: {
                if (live.empty()) break;
                auto& b = *s.pick(live);
                b.client.sendFrame(s, 2, app::handshakeMessage());
                ++b.handshakes;
                d = cat("browser ", b.serial, " links");
            } break;
            case 2: {
                if (live.empty()) break;
                auto& b = *s.pick(live);
                std::string f = s.oneOf<const char*>({"common", "special", "common", "other"});
                auto t = cat(s.text(s.small(20), "abc"), " ", texts++, " from ", b.serial);
                b.client.sendFrame(s, 2, ref::callMessage(f, {Value::of(t)}));
                if (p.known.count(f)) b.calls.push_back(f + " " + t);
                else ++b.errors;
                d = cat("browser ", b.serial, " calls ", f);
            } break;
            case 3: {
                if (p.handles.empty()) break;
                auto h = s.index(p.handles.size());
                auto t = cat("message ", texts++, " of ", p.serial);
                bool call = s.coin();
                bool thrown = throws([&] {
                    if (call) p.handles[h].ui.jsFunction("fn")(t);
                    else p.handles[h].ui.addScript(t);
                });
                if (!thrown) p.handles[h].sent.push_back(t);
                bool alive = false, known = false;
                for (auto& b : p.browsers)
                    if (b->handle == static_cast<int>(h)) known = true, alive = !b->ending;
                CHECK(!known || !alive || !thrown, "the handle of a living link throws");
                d = cat("message through handle ", h, thrown ? " throws" : "");
            } break;
            case 4: {
                if (live.empty()) break;
                auto& b = *s.pick(live);
                b.ending = true;
                auto how = static_cast<int>(s.draw(endKinds - 1));
                endClient(s, b.client, how);
                d = cat("browser ", b.serial, " ends by ", endName(how));
            } break;
            case 5: {
                Client k(p.a.world);
                k.send(homeRequest);
                pages.emplace_back(k.conn, &p);
                d = "page";
            } break;
            case 6: p.a.someSteps(s, 12); break;
            case 7:
                p.a.settle();
                d = "settle";
                break;
            case 8:
                webfront::log::warn("record {}", s.text(s.small(100), "abc\n{}"));
                d = "record";
                break;
            case 9:
                if (all.size() < most) make();
                break;
            default:
                if (all.size() < 2) break;
                d = "destroyed";
                ++destroyed;
                std::erase_if(pages, [&](auto& e) { return e.second == &p; });
                if (c.describing()) c.describe(cat("application ", p.serial, ": destroyed; "));
                all.erase(all.begin() + static_cast<std::ptrdiff_t>(at));
                if (s.coin()) make();
                if (s.coin()) checkAll();
                continue;
            }
            if (!d.empty() && c.describing()) c.describe(cat("application ", p.serial, ": ", d, "; "));
            if (s.chance(1, 8)) checkAll();
        }
        checkAll();
        while (!all.empty()) {
            all.erase(all.begin() + static_cast<std::ptrdiff_t>(s.index(all.size())));
            pages.clear();
            if (s.coin()) {
                webfront::log::error("an application less");
                checkAll();
            }
        }
    }
    CHECK(app::liveSinks(1) == 1, "log sinks left after the end of the applications");
    c.nontrivial(together);
    c.label(destroyed > 0, "destroyed on the way");
}

// --------------------------------------------------------------------------------------------------------------- C41
PROPERTY("C41.nested", 40000, 400000,
         "2..5 links making histories of 3..40 calls of functions which themselves run the event loop (0..12 events, nested up to 5 deep), then return or fail in 3 ways, next to start handlers doing the same and to page "
         "requests; some links end in 8 ways at generated moments, in the middle of a function included, their own one too; every call of the others runs once, in order, never two of the same browser at once, the texts "
         "sent by the functions arrive once, in order, pages are exact, ended links are released; non-trivial: an event was processed inside a function") {
    app::resetLibrary();
    App a(&s);
    enum { returns, fails, isUnknown, throwsAny };
    struct Link {
        std::unique_ptr<Client> client;
        std::vector<std::string> sent, scripts;
        size_t errors = 0, runs = 0;
        int handle = -1;
        bool ending = false, running = false;
    };
    std::vector<Link> links;
    std::vector<app::UI> uis;
    std::vector<std::unique_ptr<Client>> pages;
    size_t depth = 0, serial = 0;
    bool inside = false, endedInside = false, endedItself = false;
    auto end = [&](size_t i) {
        auto& l = links[i];
        if (l.ending || l.handle < 0) return;
        l.ending = true;
        auto how = static_cast<int>(s.draw(endKinds - 1));
        endClient(s, *l.client, how);
        c.describe(cat("; link ", i, " ends (", endName(how), ")", depth ? cat(" at depth ", depth) : ""));
        if (depth) endedInside = true;
        if (depth && l.running) endedItself = true;
    };
    auto loop = [&](size_t events) {
        if (depth >= 5) return;
        struct Deeper {
            size_t& d;
            explicit Deeper(size_t& depth) : d(depth) { ++d; }
            ~Deeper() { --d; }
        } deeper(depth);
        for (; events > 0 && !a.world.idle(); --events) {
            auto before = a.world.steps;
            a.wf.runOne();
            CHECK(a.world.steps > before, "the event loop does not run inside a function");
            inside = true;
        }
    };
    auto talk = [&](size_t i, const std::string& text) {
        auto& l = links[i];
        if (l.handle < 0) return;
        bool refused = throws([&] { uis[static_cast<size_t>(l.handle)].addScript(text); });
        CHECK(!refused || l.ending, "a script is refused for link ", i, ", which has not ended");
        if (!refused) l.scripts.push_back(text);
    };
    a.wf.onUIStarted([&](app::UI ui) {
        uis.push_back(ui);
        auto hello = cat("hello ", uis.size() - 1);
        if (s.coin()) loop(s.draw(6)); // other links may be announced meanwhile
        CHECK(!throws([&] { ui.addScript(hello); }), "a script is refused for a new link");
    });
    a.wf.cppFunction<void, int, std::string, int, int, int>("work", [&](const int& i, const std::string& tag, int events, int talks, int outcome) {
        const auto who = i;
        auto& l = links[static_cast<size_t>(i)];
        CHECK(!l.running, "two functions called by browser ", i, " are running at once");
        struct Running {
            bool& r;
            explicit Running(bool& b) : r(b) { r = true; }
            ~Running() { r = false; }
        } running(l.running);
        CHECK(l.runs < l.sent.size() && l.sent[l.runs] == tag, "browser ", i, ": call ", printable(tag, 40), " runs instead of call #", l.runs);
        ++l.runs;
        auto copy = tag;
        for (int t = 0; t < talks; ++t) talk(static_cast<size_t>(i), cat("text ", ++serial));
        if (s.chance(1, 5)) end(s.coin() ? static_cast<size_t>(i) : s.index(links.size()));
        loop(static_cast<size_t>(events));
        CHECK_EQ_TEXT(tag, copy, "argument of a running function");
        CHECK(i == who, "an argument of a running function becomes ", i);
        switch (outcome) {
        case fails: throw std::runtime_error("failure");
        case isUnknown: throw std::out_of_range(tag);
        case throwsAny: throw Ghost{};
        default: break;
        }
    });
    auto open = [&](size_t count) {
        auto first = links.size();
        for (size_t k = 0; k < count; ++k) {
            c.describe(cat("; link ", links.size(), " opens"));
            links.emplace_back();
            links.back().client = std::make_unique<Client>(a.world);
            links.back().client->send(app::upgradeRequest);
        }
        a.settle();
        for (auto i = first; i < links.size(); ++i) {
            CHECK(links[i].client->upgraded(), "a browser is not upgraded");
            links[i].client->sendFrame(s, 2, app::handshakeMessage());
        }
        a.settle();
        for (auto i = first; i < links.size(); ++i) {
            for (auto& f : links[i].client->frames())
                if (auto m = app::decode(f); m.kind == ServerMessage::script) links[i].scripts.push_back(m.text);
            auto& texts = links[i].scripts;
            CHECK(texts.size() == 1 && texts[0].starts_with("hello "), "browser ", i, " receives ", texts.size(), " texts instead of one when it is announced");
            links[i].handle = std::stoi(texts[0].substr(6));
            for (size_t j = 0; j < i; ++j) CHECK(links[j].handle != links[i].handle, "two browsers are announced as the same one");
        }
        CHECK(uis.size() == links.size(), uis.size(), " announcements for ", links.size(), " links");
    };
    open(2 + s.draw(3));
    for (auto steps = 3 + s.draw(37); steps > 0; --steps) {
        auto i = s.index(links.size());
        auto& l = links[i];
        switch (s.weighted({8, 6, 1, 1, 1})) {
        case 0: {
            if (l.ending) break;
            auto outcome = static_cast<int>(s.weighted({5, 1, 1, 1}));
            auto tag = cat(i, ":", l.sent.size(), std::string(s.small(300), 'x'));
            l.sent.push_back(tag);
            if (outcome == isUnknown) ++l.errors;
            auto events = s.draw(12), talks = s.draw(2);
            c.describe(cat("; call of link ", i, " events ", events, " talks ", talks, " outcome ", outcome));
            l.client->sendFrame(s, 2,
                                ref::callMessage("work", {Value::of(static_cast<double>(i)), Value::of(tag), Value::of(static_cast<double>(events)), Value::of(static_cast<double>(talks)),
                                                          Value::of(static_cast<double>(outcome))}));
        } break;
        case 1: a.someSteps(s, 6); break;
        case 2: end(i); break;
        case 3:
            pages.push_back(std::make_unique<Client>(a.world));
            pages.back()->send(homeRequest);
            break;
        default:
            if (links.size() < 8) open(1 + s.draw(1));
        }
    }
    a.settle();
    for (size_t i = 0; i < links.size(); ++i) {
        auto& l = links[i];
        std::vector<std::string> scripts;
        size_t errors = 0;
        for (auto& f : l.client->frames()) {
            if (l.ending && f.opcode == 10) continue;
            auto m = app::decode(f);
            if (m.kind == ServerMessage::script) scripts.push_back(m.text);
            if (m.kind == ServerMessage::ret) ++errors;
            CHECK(m.kind == ServerMessage::script || m.kind == ServerMessage::ret || m.kind == ServerMessage::ack, "unexpected message for browser ", i);
        }
        CHECK(scripts.size() <= l.scripts.size() && std::equal(scripts.begin(), scripts.end(), l.scripts.begin()), "browser ", i, ": texts altered, repeated or out of order");
        CHECK(errors <= l.errors, "browser ", i, ": ", errors, " errors for ", l.errors, " failures");
        if (l.ending) {
            CHECK(!l.client->conn->serverOpen || l.client->conn->writeFault || l.client->conn->readFault, "the connection of browser ", i, " is kept after its end");
            if (!l.client->conn->serverOpen) CHECK(throws([&] { uis[static_cast<size_t>(l.handle)].addScript("late"); }), "the link of browser ", i, " is still there after its end");
            continue;
        }
        CHECK(l.runs == l.sent.size(), "browser ", i, ": ", l.runs, " calls have run out of ", l.sent.size());
        CHECK(scripts.size() == l.scripts.size(), "browser ", i, ": ", scripts.size(), " texts received out of ", l.scripts.size());
        CHECK(errors == l.errors, "browser ", i, ": ", errors, " errors for ", l.errors, " failures");
        CHECK(!l.client->conn->closedForClient(), "browser ", i, " disconnected");
    }
    for (auto& p : pages) CHECK_EQ_TEXT(p->conn->toClient, homeAlone(), "page of a client");
    c.nontrivial(inside);
    c.label(endedInside, "a link ends inside a function");
    c.label(endedItself, "a link ends inside its own function");
}
