// client.hpp - scripted clients of a whole WebFront application on the simulated network
#pragma once
#include "msgref.hpp"
#include "quiet.hpp"
#include "sim.hpp"
#include "wsref.hpp"

#include <WebFront.hpp>

namespace app {

using WF = webfront::BasicWF<sim::Net, webfront::fs::IndexFS>;
using UI = WF::UI;
using JsFunction = webfront::JsFunction<WF>;

inline const std::string upgradeRequest = "GET / HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n"
                                          "Sec-WebSocket-Version: 13\r\n\r\n";

/// One client connection
struct Client {
    std::shared_ptr<sim::Conn> conn;
    size_t parsedBytes = 0;
    explicit Client(sim::World& w) : conn(w.connect()) {}
    void send(std::string_view raw) { conn->toServer += raw; }
    void sendFrame(pbt::Src& s, int opcode, std::string_view data) { send(ref::clientFrame(opcode, data, static_cast<uint32_t>(s.draw(UINT32_MAX)))); }
    bool upgraded() const { return conn->toClient.starts_with("HTTP/1.1 101 ") && conn->toClient.find("\r\n\r\n") != std::string::npos; }
    std::string_view stream() const {
        auto e = conn->toClient.find("\r\n\r\n");
        return e == std::string::npos ? std::string_view{} : std::string_view(conn->toClient).substr(e + 4);
    }
    /// whole frames received so far
    std::vector<ref::WsFrame> frames() const {
        if (!upgraded()) return {};
        return ref::serverFrames(stream(), true);
    }
    /// frames completed since the previous call
    std::vector<ref::WsFrame> newFrames() {
        if (!upgraded()) return {};
        auto rest = stream().substr(parsedBytes);
        auto out = ref::serverFrames(rest, true);
        for (auto& f : out) parsedBytes += ref::serverHeaderSize(f.data.size()) + f.data.size();
        return out;
    }
};

inline std::string handshakeMessage(bool big = false) { return std::string{'\0', static_cast<char>(big ? 1 : 0)}; }

/// Message of the server, decoded
struct ServerMessage {
    enum Kind { ack, log, script, call, ret, texted, pong, other } kind = other;
    std::string text;        // log, script, text
    int endian = -1;         // ack
    ref::Call content;       // call, ret
};
/// message of the server; a call declares its number of top level parameters
inline ServerMessage decode(const ref::WsFrame& f) {
    ServerMessage m;
    if (f.opcode == 1) {
        m.kind = ServerMessage::texted;
        m.text = f.data;
        return m;
    }
    if (f.opcode == 10) {
        m.kind = ServerMessage::pong;
        m.text = f.data;
        return m;
    }
    CHECK(f.opcode == 2, "unexpected frame of type ", f.opcode, " from the server");
    auto& d = f.data;
    CHECK(!d.empty(), "empty message from the server");
    switch (d[0]) {
    case 1:
        CHECK(d.size() == 2, "acknowledgement of ", d.size(), " bytes");
        m.kind = ServerMessage::ack;
        m.endian = static_cast<unsigned char>(d[1]);
        break;
    case 2: {
        CHECK(d.size() >= 4, "text command without a whole header");
        size_t n = static_cast<size_t>(static_cast<unsigned char>(d[2])) << 8 | static_cast<unsigned char>(d[3]);
        CHECK(d.size() == 4 + n, "text command declaring ", n, " bytes and carrying ", d.size() - 4);
        CHECK(d[1] == 0 || d[1] == 1, "text command of unknown kind ", static_cast<int>(d[1]));
        m.kind = d[1] == 0 ? ServerMessage::log : ServerMessage::script;
        m.text = d.substr(4);
    } break;
    case 3:
    case 4: {
        m.kind = d[0] == 3 ? ServerMessage::call : ServerMessage::ret;
        CHECK(d.size() >= 8, "call message without a whole header");
        uint32_t declared;
        memcpy(&declared, d.data() + 4, 4);
        auto p = std::string_view(d).substr(8);
        CHECK(declared == p.size(), "call message declaring ", declared, " bytes of parameters and carrying ", p.size());
        m.content.command = d[0];
        m.content.count = static_cast<unsigned char>(d[1]);
        while (!p.empty()) m.content.values.push_back(ref::take(p));
        CHECK(m.content.count == m.content.values.size(), "message declaring ", m.content.count, " parameters and carrying ", m.content.values.size());
    } break;
    default: pbt::fail("client.hpp", __LINE__, "unknown message", pbt::printable(d, 40));
    }
    return m;
}

/// An application on a simulated network
struct App {
    sim::World world;
    WF wf;
    explicit App(pbt::Src* s) : wf("80") { world.src = s; }
    void settle(size_t limit = 400000) {
        for (size_t i = 0; !world.idle(); ++i) {
            CHECK(i < limit, "the server does not settle");
            wf.runOne();
        }
    }
    void someSteps(pbt::Src& s, size_t max) {
        for (auto n = s.draw(max); n > 0 && !world.idle(); --n) wf.runOne();
    }
};

/// number of sinks still installed, whatever they are kept in; the expected number when it cannot be known
template<typename Sinks>
size_t countSinks(Sinks& all, size_t expected) {
    if constexpr (requires { all.sinks.begin(); }) {
        size_t n = 0;
        for (auto& sink : all.sinks) {
            if constexpr (requires { static_cast<bool>(sink); }) n += static_cast<bool>(sink) ? 1 : 0;
            else if constexpr (requires { static_cast<bool>(sink.second); }) n += static_cast<bool>(sink.second) ? 1 : 0;
            else return expected;
        }
        return n;
    }
    else
        return expected;
}
inline size_t liveSinks(size_t expected) { return countSinks(webfront::log::out, expected); }
template<typename Sinks>
void clearSinks(Sinks& all) {
    if constexpr (requires { all.sinks.clear(); }) all.sinks.clear();
}
/// state of the library shared by every case
inline void resetLibrary() {
    clearSinks(webfront::log::out);
    webfront::log::setLogLevel(webfront::log::Disabled);
    quiet::silence();
}

} // namespace app
