// host.hpp - an HTTP server on the simulated network
#pragma once
#include "httpref.hpp"
#include "sim.hpp"

#include <http/HTTPServer.hpp>

using pbt::Src;
namespace wf = webfront;

// ------------------------------------------------------------------------------------------------ driving the server
/// A server on a simulated network
template<typename FS>
struct Host {
    sim::World world;
    wf::http::Server<sim::Net, FS> server;
    std::vector<std::unique_ptr<wf::websocket::WebSocket<sim::Net>>> webSockets;
    std::vector<std::string> received;
    explicit Host(Src* s = nullptr, std::filesystem::path root = ".") : server("0.0.0.0", "80", root) {
        world.src = s;
        server.onUpgrade([this](sim::Socket&& socket, wf::http::Protocol protocol) {
            CHECK(protocol == wf::http::Protocol::WebSocket, "upgrade handler called for another protocol");
            webSockets.push_back(std::make_unique<wf::websocket::WebSocket<sim::Net>>(std::move(socket)));
            auto ws = webSockets.back().get();
            ws->onMessage([this, ws](std::string_view t) {
                received.emplace_back(t);
                ws->write(t);
            });
        });
    }
    void settle(size_t limit = 200000) {
        for (size_t i = 0; !world.idle(); ++i) {
            CHECK(i < limit, "the server does not settle");
            server.runOne();
        }
    }
    void someSteps(Src& s, size_t max) {
        for (auto n = s.draw(max); n > 0 && !world.idle(); --n) server.runOne();
    }
};

/// What a client alone on the server gets, everything sent and written in one piece
template<typename FS>
std::string alone(const std::string& bytes, std::filesystem::path root = ".") {
    Host<FS> h(nullptr, root);
    auto c = h.world.connect();
    c->toServer = bytes;
    h.settle();
    return c->toClient;
}
/// Sends bytes cut in generated pieces, with generated scheduling
template<typename FS>
std::string cutExchange(Src& s, const std::string& bytes, std::filesystem::path root, bool* closed = nullptr) {
    Host<FS> h(&s, root);
    auto c = h.world.connect();
    auto mode = s.draw(3);
    for (size_t pos = 0; pos < bytes.size();) {
        size_t n = bytes.size() - pos;
        if (mode == 1) n = 1;
        if (mode == 2) n = std::min<size_t>(n, 1 + s.draw(7));
        if (mode == 3) n = n - s.draw(n - 1);
        c->toServer += bytes.substr(pos, n);
        pos += n;
        h.someSteps(s, 3);
    }
    h.settle();
    if (closed) *closed = c->closedForClient();
    return c->toClient;
}

