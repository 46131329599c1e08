// C17 outbound frames, C18 inbound messages, C20 outbound order, C21 end of a WebSocket, C36 control frames
#include "quiet.hpp"
#include "sim.hpp"
#include "wsref.hpp"

#include <http/WebSocket.hpp>

using namespace pbt;
namespace ws = webfront::websocket;
using Frame = ws::Frame<sim::Net>;
using Socket = ws::WebSocket<sim::Net>;

static std::span<const std::byte> bytes(const std::string& t) { return {reinterpret_cast<const std::byte*>(t.data()), t.size()}; }
static std::string textOf(std::span<const std::byte> b) { return b.empty() ? std::string{} : std::string(reinterpret_cast<const char*>(b.data()), b.size()); }

// ------------------------------------------------------------------------------------------------------ C17 frames
static std::string wire(const Frame& f) {
    std::string out;
    for (auto& b : f.toBuffers())
        if (b.size()) out.append(static_cast<const char*>(b.data()), b.size());
    return out;
}
static void mustBeFrame(const std::string& raw, bool text, const std::string& data, const char* what) {
    auto frames = ref::serverFrames(raw);
    CHECK(frames.size() == 1, what, ": ", frames.size(), " frames instead of one");
    CHECK(frames[0].opcode == (text ? 1 : 2), what, ": opcode ", frames[0].opcode);
    CHECK_EQ_TEXT(frames[0].data, data, what);
}
PROPERTY("C17.compose", 100000, 800000,
         "a frame composed from a text, one block, two blocks or a head block followed by 0..12 (rarely 3000) appended blocks (total sizes around 125, 126, 65535, 65536), moved (constructed, assigned, "
         "in a container) between the appends; the buffers joined are parsed by an independent strict parser; non-trivial: an extended length or an append") {
    std::vector<std::unique_ptr<std::string>> parts;
    auto part = [&](size_t n) -> const std::string& {
        parts.push_back(std::make_unique<std::string>(s.blob(n)));
        return *parts.back();
    };
    std::string data;
    bool text = false;
    size_t appended = 0;
    auto build = [&]() -> Frame {
        switch (s.draw(3)) {
        case 0: {
            text = true;
            auto& t = part(ref::payloadSize(s, 70000));
            data = t;
            return Frame(std::string_view(t));
        }
        case 1: {
            auto& t = part(ref::payloadSize(s, 70000));
            data = t;
            return Frame(bytes(t));
        }
        default: {
            auto& a = part(ref::payloadSize(s, 70000));
            auto& b = part(ref::payloadSize(s, 70000));
            data = a + b;
            return Frame(bytes(a), bytes(b));
        }
        }
    };
    Frame f = build();
    if (c.describing()) c.describe(cat(text ? "text" : "binary", " of ", data.size(), " bytes"));
    if (!text) {
        auto n = s.many(13, 3000, 300) - 1;
        bool many = n > 40;
        for (; n > 0; --n) {
            auto target = many ? 0 : s.weighted({3, 1, 1});
            size_t size = target == 0 ? s.small(60) : ref::payloadSize(s, 66000);
            if (target == 2 && data.size() < 65536) size = (data.size() < 126 ? 126 : 65536) - data.size() + s.draw(2) - 1; // reaches a boundary
            auto& t = part(size);
            auto added = f.addBuffer(bytes(t));
            CHECK(added == t.size(), "addBuffer() returned ", added, " for ", t.size(), " bytes");
            data += t;
            ++appended;
            if (c.describing()) c.describe(cat(" +", t.size()));
            if (s.chance(1, 4)) {
                if (c.describing()) c.describe(" moved");
                Frame other(std::move(f));
                if (s.coin()) mustBeFrame(wire(other), false, data, "moved frame");
                f = std::move(other);
            }
            if (s.chance(1, many ? 200 : 6)) mustBeFrame(wire(f), false, data, "frame while being composed");
        }
    }
    CHECK(f.size() == data.size(), "size() is ", f.size(), " instead of ", data.size());
    if (s.coin()) {
        std::vector<Frame> all;
        all.push_back(std::move(f));
        for (auto n = s.draw(3); n > 0; --n) all.push_back(Frame(std::string_view("x")));
        mustBeFrame(wire(all[0]), text, data, "frame in a container");
    }
    else
        mustBeFrame(wire(f), text, data, "frame");
    c.nontrivial(data.size() >= 126 || appended > 0);
    c.label(data.size() >= 65536, "64-bit length");
    c.label(data.size() >= 126 && data.size() < 65536, "16-bit length");
    c.label(appended > 0, "appended");
}

PROPERTY("C17.header", 600000, 12000000,
         "headers given any opcode, FIN flag and payload size up to 2^63 (boundaries, then changed again), and frames over blocks of more than 4 GB (header only): length encoded in its "
         "shortest form and read back; non-trivial: more than 125") {
    auto size = [&]() -> uint64_t {
        switch (s.weighted({3, 4, 3})) {
        case 0: return s.draw(200);
        case 1: return s.oneOf<uint64_t>({0, 125, 126, 127, 128, 255, 256, 65535, 65536, 65537, (1ull << 24), (1ull << 31), (1ull << 32), (1ull << 40), (1ull << 56), (1ull << 63) - 4}) + s.draw(3);
        default: return s.draw(UINT64_MAX >> (1 + s.draw(62)));
        }
    };
    ws::Header h;
    uint64_t n = 0;
    for (auto k = 1 + s.draw(3); k > 0; --k) {
        bool fin = s.coin();
        auto opcode = static_cast<int>(s.draw(15));
        n = size();
        h.setFIN(fin);
        h.setOpcode(static_cast<ws::Header::Opcode>(opcode));
        h.setPayloadSize(static_cast<size_t>(n));
        if (c.describing()) c.describe(cat("opcode ", opcode, " fin ", fin, " size ", n, "; "));
        auto expected = ref::serverHeaderSize(n);
        CHECK(h.headerSize() == expected, "header of ", h.headerSize(), " bytes for a size of ", n);
        CHECK(h.payloadSize() == n && h.getFrameSize() == n + expected, "size ", n, " read back as ", h.payloadSize());
        CHECK(h.FIN() == fin && static_cast<int>(h.opcode()) == opcode && !h.MASK() && !h.RSV1() && !h.RSV2() && !h.RSV3(), "flags altered");
        auto b = [&](size_t i) { return std::to_integer<unsigned>(h.raw[i]); };
        CHECK(b(0) == ((fin ? 0x80u : 0u) | static_cast<unsigned>(opcode)), "first byte ", b(0));
        CHECK(b(1) == (expected == 2 ? n : expected == 4 ? 126 : 127), "second byte ", b(1), " for a size of ", n);
        for (size_t i = 2; i < expected; ++i) CHECK(b(i) == ((n >> (8 * (expected - 1 - i))) & 255), "length byte ", i, " is ", b(i), " for a size of ", n);
    }
    c.nontrivial(n > 125);
    // the header of a frame over a block which is not read
    auto block = reinterpret_cast<const std::byte*>(&h);
    auto big = size() & 0xFFFFFFFFFFull;
    Frame f(std::span<const std::byte>(block, big));
    auto buffers = f.toBuffers();
    std::string head(static_cast<const char*>(buffers[0].data()), buffers[0].size());
    CHECK(head.size() == ref::serverHeaderSize(big), "frame header of ", head.size(), " bytes for ", big);
    uint64_t total = 0;
    for (size_t i = 1; i < buffers.size(); ++i) total += buffers[i].size();
    CHECK(total == big, "the blocks of the frame have ", total, " bytes instead of ", big);
    CHECK(static_cast<unsigned char>(head[0]) == 0x82, "first byte of the frame");
    uint64_t announced = static_cast<unsigned char>(head[1]);
    if (head.size() > 2) {
        announced = 0;
        for (size_t i = 2; i < head.size(); ++i) announced = announced << 8 | static_cast<unsigned char>(head[i]);
    }
    CHECK(announced == big, "the frame announces ", announced, " bytes instead of ", big);
}

// ------------------------------------------------------------------------------------------- a WebSocket and its peer
namespace {
struct Peer {
    sim::World world;
    std::shared_ptr<sim::Conn> conn = world.established();
    std::unique_ptr<Socket> socket;
    std::vector<ref::WsMessage> got;
    std::vector<ws::CloseEvent> closings;
    sim::Pending pendingInput; // bytes the client has still to send
    std::function<void(const ref::WsMessage&)> reaction;
    std::function<void()> closeReaction;
    size_t afterEnd = 0;
    explicit Peer(Src& s, bool startAgain = true) {
        world.src = &s;
        socket = std::make_unique<Socket>(sim::Socket(conn));
        socket->onMessage([this](std::string_view t) { receive({true, std::string(t)}); });
        socket->onMessage([this](std::span<const std::byte> b) { receive({false, textOf(b)}); });
        socket->onClose([this](ws::CloseEvent e) {
            closings.push_back(std::move(e));
            if (closeReaction) closeReaction();
        });
        if (startAgain) socket->start();
    }
    void receive(ref::WsMessage m) {
        if (!closings.empty()) ++afterEnd;
        got.push_back(std::move(m));
        if (reaction) {
            auto copy = got.back();
            reaction(copy);
        }
    }
    /// some generated progress: bytes given to the connection, operations completed
    void progress(Src& s) {
        if (!pendingInput.empty() && (world.idle() || s.coin())) {
            auto n = s.weighted({2, 2, 2}) == 0 ? pendingInput.size() : std::min(pendingInput.size(), size_t{1} + s.draw(s.coin() ? 12 : 9000));
            conn->toServer += pendingInput.view().substr(0, n);
            pendingInput.consume(n);
        }
        else
            world.runOne();
    }
    void settle(Src& s) {
        for (size_t i = 0; !pendingInput.empty() || !world.idle(); ++i) {
            CHECK(i < 500000, "does not settle");
            progress(s);
        }
    }
};
struct Script {
    std::string stream; // client bytes
    std::vector<ref::WsMessage> messages;
    std::vector<std::string> pings;
    bool fragmented = false, control = false, betweenFragments = false;
};
std::string maskedFrame(Src& s, int opcode, std::string_view data, bool fin = true) {
    uint32_t mask = s.weighted({4, 1, 1}) == 0 ? static_cast<uint32_t>(s.draw(UINT32_MAX)) : s.oneOf<uint32_t>({0, 0xFFFFFFFF, 0x80000000, 0x00FF00FF, 0x000000FF});
    return ref::clientFrame(opcode, data, mask, fin);
}
void controlFrame(Src& s, Script& out, std::string* notes) {
    switch (s.weighted({4, 2, 2})) {
    case 0: {
        auto data = s.blob(s.sized({125, 124}, 125));
        out.pings.push_back(data);
        out.stream += maskedFrame(s, 9, data);
        if (notes) *notes += cat(" ping(", data.size(), ")");
    } break;
    case 1: {
        auto data = s.blob(s.sized({125}, 125));
        out.stream += maskedFrame(s, 10, data);
        if (notes) *notes += cat(" pong(", data.size(), ")");
    } break;
    default: {
        auto opcode = s.oneOf<int>({3, 4, 5, 6, 7, 11, 12, 13, 14, 15});
        auto data = s.blob(s.small(125));
        out.stream += maskedFrame(s, opcode, data);
        if (notes) *notes += cat(" reserved", opcode, "(", data.size(), ")");
    }
    }
    out.control = true;
}
/// 1..max messages, in one or several fragments, with or without control frames
Script genScript(Src& s, size_t maxMessages, bool control, std::string* notes, size_t maxSize = 70000) {
    Script out;
    auto count = s.many(maxMessages, 1500, 400);
    if (count > 40) maxSize = 300;
    for (auto n = count; n > 0; --n) {
        ref::WsMessage m;
        m.text = s.coin();
        auto size = ref::payloadSize(s, s.chance(1, 4) ? maxSize : 300);
        if (maxSize > 20000 && s.chance(1, 500)) size = s.magnitude(20000000);
        m.data = m.text ? s.utf8(size) : s.blob(size);
        if (control && s.chance(1, 3)) controlFrame(s, out, notes);
        if (s.chance(1, 3)) {
            auto pieces = count <= 40 && s.weighted({100, 1}) == 1 ? 2 + s.magnitude(1500) : 2 + s.draw(4);
            size_t pos = 0;
            for (size_t i = 0; i < pieces; ++i) {
                bool last = i + 1 == pieces;
                auto len = last ? m.data.size() - pos : pieces > 10 ? std::min<size_t>(m.data.size() - pos, s.draw(2 * m.data.size() / pieces + 1)) : s.draw(m.data.size() - pos);
                out.stream += maskedFrame(s, i == 0 ? (m.text ? 1 : 2) : 0, std::string_view(m.data).substr(pos, len), last);
                if (notes) *notes += cat(i == 0 ? (m.text ? " text" : " bin") : "+", "[", len, last ? "]" : "...");
                pos += len;
                if (!last && control && s.chance(1, 2)) {
                    controlFrame(s, out, notes);
                    out.betweenFragments = true;
                }
            }
            out.fragmented = true;
        }
        else {
            out.stream += maskedFrame(s, m.text ? 1 : 2, m.data);
            if (notes) *notes += cat(m.text ? " text[" : " bin[", m.data.size(), "]");
        }
        out.messages.push_back(std::move(m));
    }
    if (control && s.coin()) controlFrame(s, out, notes);
    return out;
}
std::string unmaskedHeader(int opcode, uint64_t size) {
    std::string f(1, static_cast<char>(0x80 | opcode));
    auto extended = [&](int n) {
        for (int i = n - 1; i >= 0; --i) f += static_cast<char>(size >> (8 * i));
    };
    if (size < 126) f += static_cast<char>(size);
    else if (size < 65536) f += static_cast<char>(126), extended(2);
    else f += static_cast<char>(127), extended(8);
    return f;
}
void mustEqual(const std::vector<ref::WsMessage>& got, const std::vector<ref::WsMessage>& expected) {
    for (size_t i = 0; i < std::min(got.size(), expected.size()); ++i) {
        CHECK(got[i].text == expected[i].text, "message ", i, " of ", expected[i].data.size(), " bytes delivered as ", got[i].text ? "text" : "binary");
        CHECK_EQ_TEXT(got[i].data, expected[i].data, "message ", i);
    }
    CHECK(got.size() == expected.size(), got.size(), " messages delivered instead of ", expected.size());
}
} // namespace

PROPERTY("C18.messages", 75000, 1500000,
         "1..8 (rarely 1500) masked messages of 0..70000 bytes (rarely 20 MB), text or binary, in 1..6 (rarely 1500) fragments (empty ones included), sometimes followed by a message left unfinished, the stream cut at generated points and coalesced by generated reads; "
         "non-trivial: several messages, or fragments, or an extended length") {
    std::string notes;
    auto script = genScript(s, 8, false, c.describing() ? &notes : nullptr);
    c.describe(notes);
    Peer peer(s, s.coin());
    if (s.chance(1, 4)) peer.socket->start();
    auto stream = script.stream;
    bool unfinished = s.chance(1, 6);
    if (unfinished) { // nothing of a message which does not end is delivered
        if (s.coin()) stream += maskedFrame(s, s.coin() ? 1 : 2, s.blob(s.small(300)), false);
        else {
            auto low = s.coin() ? s.small(300) : ref::payloadSize(s, 9000);
            auto high = s.oneOf<uint64_t>({0, 0, uint64_t{1} << 8, uint64_t{1} << 16, uint64_t{1} << 24, uint64_t{1} << 32, uint64_t{1} << 33, uint64_t{1} << 48, uint64_t{1} << 62});
            auto f = unmaskedHeader(s.coin() ? 1 : 2, low + high + (high ? 0 : 1));
            f[1] = static_cast<char>(f[1] | 0x80);
            stream += f + s.text(4, "abcd") + s.blob(low);
        }
    }
    peer.pendingInput = stream;
    bool echo = s.chance(1, 4);
    if (echo) peer.reaction = [&](const ref::WsMessage& m) { m.text ? peer.socket->write(std::string_view(m.data)) : peer.socket->write(bytes(m.data)); };
    peer.settle(s);
    mustEqual(peer.got, script.messages);
    if (!unfinished) CHECK(peer.closings.empty(), "the connection was closed: ", peer.closings.empty() ? "" : peer.closings[0].reason);
    CHECK(peer.conn->maxPendingReads <= 1, peer.conn->maxPendingReads, " reads pending at once in the same buffer");
    c.nontrivial(script.messages.size() > 1 || script.fragmented || script.messages[0].data.size() > 125);
    c.label(script.fragmented, "fragmented");
    c.label(unfinished, "unfinished last message");
    c.label(peer.conn->readsCompleted < script.messages.size(), "coalesced");
    c.label(peer.conn->readsCompleted > 2 * script.messages.size(), "cut");
}

PROPERTY("C36.control", 100000, 2000000,
         "1..6 messages whole or fragmented, with pings (0..125 bytes), pongs and reserved frames before, between, after them and between their fragments, under generated cuts and partial "
         "writes; every ping answered by its pong in order, messages untouched; non-trivial: a ping and a control frame between fragments") {
    std::string notes;
    auto script = genScript(s, 6, true, c.describing() ? &notes : nullptr, 20000);
    c.describe(notes);
    Peer peer(s);
    peer.pendingInput = script.stream;
    bool echo = s.chance(1, 3);
    if (echo) peer.reaction = [&](const ref::WsMessage& m) { m.text ? peer.socket->write(std::string_view(m.data)) : peer.socket->write(bytes(m.data)); };
    peer.settle(s);
    mustEqual(peer.got, script.messages);
    CHECK(peer.closings.empty(), "the connection was closed");
    std::vector<std::string> pongs;
    std::vector<ref::WsMessage> echoed;
    for (auto& f : ref::serverFrames(peer.conn->toClient)) {
        if (f.opcode == 10) pongs.push_back(f.data);
        else {
            CHECK(f.opcode == 1 || f.opcode == 2, "a frame of opcode ", f.opcode, " was sent");
            echoed.push_back({f.opcode == 1, f.data});
        }
    }
    for (size_t i = 0; i < std::min(pongs.size(), script.pings.size()); ++i) CHECK_EQ_TEXT(pongs[i], script.pings[i], "pong ", i);
    CHECK(pongs.size() == script.pings.size(), pongs.size(), " pongs for ", script.pings.size(), " pings");
    mustEqual(echoed, echo ? script.messages : std::vector<ref::WsMessage>{});
    c.nontrivial(!script.pings.empty() && script.betweenFragments);
    c.label(script.betweenFragments, "between fragments");
}

PROPERTY("C20.order", 75000, 1500000,
         "1..20 (rarely 3000) writes (text, block, two blocks, composed frame; 0..70000 bytes) interleaved with partial and stalled transfers, incoming messages answered from their handler and pings; the "
         "memory written from is overwritten and released at once; the peer's stream is parsed strictly; non-trivial: at least two writes queued while one was in progress") {
    Peer peer(s);
    std::vector<ref::WsMessage> expected;
    std::string notes;
    auto send = [&](Src& src) {
        auto size = ref::payloadSize(src, src.chance(1, 5) ? 70000 : 200);
        if (src.chance(1, 500)) size = src.magnitude(20000000);
        switch (src.draw(3)) {
        case 0: {
            auto t = std::make_unique<std::string>(src.utf8(size));
            expected.push_back({true, *t});
            peer.socket->write(std::string_view(*t));
            std::fill(t->begin(), t->end(), '!');
        } break;
        case 1: {
            auto t = std::make_unique<std::string>(src.blob(size));
            expected.push_back({false, *t});
            peer.socket->write(bytes(*t));
            std::fill(t->begin(), t->end(), '!');
        } break;
        case 2: {
            auto a = std::make_unique<std::string>(src.blob(src.small(30)));
            auto b = std::make_unique<std::string>(src.blob(size));
            expected.push_back({false, *a + *b});
            peer.socket->write(bytes(*a), bytes(*b));
            std::fill(a->begin(), a->end(), '!');
            std::fill(b->begin(), b->end(), '!');
        } break;
        default: {
            auto a = std::make_unique<std::string>(src.blob(src.small(30)));
            auto b = std::make_unique<std::string>(src.blob(size));
            auto d = std::make_unique<std::string>(src.blob(src.small(150)));
            Frame f(bytes(*a));
            f.addBuffer(bytes(*b));
            f.addBuffer(bytes(*d));
            expected.push_back({false, *a + *b + *d});
            peer.socket->write(std::move(f));
            std::fill(a->begin(), a->end(), '!');
            std::fill(b->begin(), b->end(), '!');
            std::fill(d->begin(), d->end(), '!');
        }
        }
        if (c.describing()) notes += cat(" write(", expected.back().data.size(), ")");
    };
    size_t fromHandlers = 0;
    peer.reaction = [&](const ref::WsMessage&) {
        for (auto n = s.draw(2); n > 0; --n) {
            send(s);
            ++fromHandlers;
        }
    };
    size_t pings = 0, incoming = 0;
    std::vector<std::string> pongs;
    if (s.chance(1, 3)) peer.conn->stallWritesUntil = 1 + s.draw(300);
    size_t queued = 0, maxQueued = 0;
    auto steps = s.many(20, 3000, 400);
    for (auto n = steps; n > 0; --n) {
        switch (s.weighted({6, steps > 50 ? 1u : 3u, 1, 1})) {
        case 0:
            send(s);
            maxQueued = std::max(maxQueued, ++queued);
            break;
        case 1:
            for (auto k = 1 + s.draw(4); k > 0; --k) peer.progress(s);
            queued = 0;
            break;
        case 2:
            peer.pendingInput += maskedFrame(s, 2, s.blob(s.small(20)));
            ++incoming;
            break;
        default: {
            auto data = s.blob(s.small(20));
            peer.pendingInput += maskedFrame(s, 9, data);
            pongs.push_back(data);
            ++pings;
        }
        }
        if (peer.conn->stallWritesUntil && s.chance(1, 6)) peer.conn->stallWritesUntil = s.coin() ? 0 : peer.conn->stallWritesUntil + 1 + s.draw(500);
    }
    peer.settle(s);
    { // whatever has been received so far is a prefix
        auto soFar = ref::serverFrames(peer.conn->toClient, true);
        CHECK(soFar.size() <= expected.size() + pings, "more frames received than sent");
    }
    peer.conn->stallWritesUntil = 0;
    peer.settle(s);
    c.describe(notes);
    std::vector<ref::WsMessage> received;
    std::vector<std::string> pongsReceived;
    for (auto& f : ref::serverFrames(peer.conn->toClient)) {
        if (f.opcode == 10) pongsReceived.push_back(f.data);
        else {
            CHECK(f.opcode == 1 || f.opcode == 2, "opcode ", f.opcode);
            received.push_back({f.opcode == 1, f.data});
        }
    }
    mustEqual(received, expected);
    CHECK(pongsReceived == pongs, "pongs");
    CHECK(peer.got.size() == incoming, "messages received");
    CHECK(peer.closings.empty(), "the connection was closed");
    c.nontrivial(maxQueued >= 2);
    c.label(fromHandlers > 0, "from handlers");
    c.label(expected.size() > 5, "more than 5 messages");
}

PROPERTY("C21.end", 250000, 5000000,
         "messages sent both ways, then the WebSocket ends: close frames (with or without status and reason, followed by other messages in the same bytes), end of stream, reset, failed read "
         "or write, stop() from outside or from a handler, several of them in generated order; the close handler destroys the WebSocket or not; non-trivial: two causes or more, or messages "
         "after the close frame") {
    std::string notes;
    Peer peer(s);
    bool destroys = s.coin();
    bool stopInHandler = false;
    size_t stopAfter = SIZE_MAX;
    size_t atStop = SIZE_MAX; // messages delivered when stop() was called
    if (destroys)
        peer.closeReaction = [&] { peer.socket.reset(); };
    else if (s.coin())
        peer.closeReaction = [&] {
            peer.socket->write(std::string_view("late"));
            peer.socket->stop();
        };
    peer.reaction = [&](const ref::WsMessage&) {
        CHECK(peer.socket != nullptr, "message delivered once destroyed");
        if (s.chance(1, 3)) peer.socket->write(std::string_view("answer"));
        if (peer.got.size() == stopAfter) {
            peer.socket->stop();
            stopInHandler = true;
            atStop = peer.got.size();
        }
    };
    std::vector<ref::WsMessage> before, after; // sent before and after the first close frame
    bool closeFrame = false;
    uint16_t status = 0;
    std::string reason;
    std::set<std::string> causes;
    auto endOfStream = [&] { // everything sent before it is received first
        peer.conn->toServer += peer.pendingInput.view();
        peer.pendingInput.consume(peer.pendingInput.size());
        peer.conn->clientEof = true;
        causes.insert("end of stream");
        notes += " eof";
    };
    auto message = [&] {
        if (peer.conn->clientEof) return;
        ref::WsMessage m;
        m.text = s.coin();
        m.data = s.utf8(ref::payloadSize(s, 300));
        peer.pendingInput += maskedFrame(s, m.text ? 1 : 2, m.data);
        (closeFrame ? after : before).push_back(m);
        if (c.describing()) notes += " message";
    };
    for (auto n = s.small(5); n > 0; --n) message();
    if (s.chance(1, 4)) {
        stopAfter = 1 + s.draw(3);
        if (c.describing()) notes += cat(" stop() in the handler of message ", stopAfter);
    }
    auto fail = std::make_error_code(std::errc::io_error);
    auto steps = 1 + s.draw(6);
    for (size_t i = 0; i < steps; ++i) {
        switch (s.weighted({4, 2, 2, 2, 2, 2, 3, 3, 6})) {
        case 0: {
            if (peer.conn->clientEof) break;
            auto r = s.chance(1, 4) ? s.utf8(115 + s.draw(8)) : s.utf8(s.small(80));
            while (r.size() > 123) r.pop_back(); // the longest reason a control frame carries
            auto st = static_cast<uint16_t>(s.coin() ? 1000 + s.draw(11) : s.draw(65535));
            std::string payload;
            auto kind = s.draw(2);
            if (kind != 0) payload = std::string{static_cast<char>(st >> 8), static_cast<char>(st)};
            if (kind == 2) payload += r;
            peer.pendingInput += maskedFrame(s, 8, payload);
            if (!closeFrame) {
                closeFrame = true;
                status = kind ? st : 1005;
                reason = kind == 2 ? r : "";
            }
            causes.insert("close frame");
            if (c.describing()) notes += cat(" close-frame(", kind ? std::to_string(st) : "", ",", kind == 2 ? printable(r, 20) : "", ")");
        } break;
        case 1: endOfStream(); break;
        case 2: peer.conn->clientReset = true; causes.insert("reset"); notes += " reset"; break;
        case 3: peer.conn->readFault = fail; causes.insert("failed read"); notes += " read-fault"; break;
        case 4:
            peer.conn->writeFault = fail;
            if (peer.socket) peer.socket->write(std::string_view("x"));
            causes.insert("failed write");
            notes += " write-fault";
            break;
        case 5:
            if (peer.socket) {
                if (peer.closings.empty() && atStop == SIZE_MAX) atStop = peer.got.size();
                peer.socket->stop();
                causes.insert("stop");
                notes += " stop";
            }
            break;
        case 6: message(); break;
        case 7:
            if (peer.socket) {
                peer.socket->write(bytes(s.blob(s.small(300))));
                notes += " write";
            }
            break;
        default:
            for (auto k = 1 + s.draw(6); k > 0; --k) peer.progress(s);
        }
    }
    if (causes.empty() && stopAfter > peer.got.size()) { // it has to end
        peer.settle(s);
        if (peer.closings.empty()) endOfStream();
    }
    c.describe(notes);
    if (!causes.count("close frame") && !causes.count("stop") && !causes.count("reset") && !causes.count("failed read") && !causes.count("end of stream") && !causes.count("failed write")) causes.insert("stop in handler");
    peer.settle(s);
    CHECK(peer.closings.size() == 1, "the close handler ran ", peer.closings.size(), " times");
    CHECK(peer.afterEnd == 0, peer.afterEnd, " messages delivered after the end was notified");
    if (atStop != SIZE_MAX) CHECK(peer.got.size() == atStop, peer.got.size() - atStop, " messages delivered after stop()");
    // what has been delivered is a prefix of what was sent before the close frame
    CHECK(peer.got.size() <= before.size(), peer.got.size(), " messages delivered, ", before.size(), " sent before the close frame");
    mustEqual(peer.got, {before.begin(), before.begin() + static_cast<std::ptrdiff_t>(peer.got.size())});
    bool onlyCloseFrame = causes.size() == 1 && causes.count("close frame") && !stopInHandler;
    if (onlyCloseFrame) {
        CHECK(peer.got.size() == before.size(), "a message sent before the close frame was not delivered");
        CHECK(peer.closings[0].status == status, "status ", peer.closings[0].status, " instead of ", status);
        CHECK_EQ_TEXT(peer.closings[0].reason, reason);
    }
    if (causes.size() == 1 && causes.count("end of stream") && !stopInHandler) CHECK(peer.got.size() == before.size(), "a message sent before the end of the stream was not delivered");
    CHECK(!peer.conn->serverOpen, "the connection was not released");
    // nothing more may happen, whatever is done
    if (peer.socket && s.coin()) {
        peer.socket->write(std::string_view("later"));
        peer.socket->stop();
        peer.settle(s);
        CHECK(peer.closings.size() == 1, "the close handler ran again");
    }
    c.nontrivial(causes.size() >= 2 || !after.empty());
    for (auto& k : causes) c.label(k);
    c.label(stopInHandler, "stop in handler");
    c.label(destroys, "destroyed by its close handler");
}

static const bool setup = [] {
    quiet::silence();
    return true;
}();
