// The server on the real network (loopback) through Boost.Asio: C03 isolation, C18/C20 WebSocket messages, C34 failing clients.
// The schedule is the one of the operating system; only outcomes which do not depend on it are decided.
#include "httpref.hpp"
#include "quiet.hpp"
#include "wsref.hpp"

#include <http/HTTPServer.hpp>
#include <networking/TCPNetworkingTS.hpp>

#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>

#include <atomic>
#include <mutex>
#include <thread>

using namespace pbt;
namespace wf = webfront;
using Net = wf::networking::TCPNetworkingTS;
using WS = wf::websocket::WebSocket<Net>;

namespace {
constexpr int patience = 20000; // ms: far more than anything here needs

struct Client {
    int fd = -1;
    std::string out, in; // still to send, received
    bool eof = false, gone = false;
    explicit Client(uint16_t port, int receiveBuffer = 0) {
        fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        if (fd < 0) throw Reject{};
        if (receiveBuffer) setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &receiveBuffer, sizeof receiveBuffer);
        int one = 1;
        setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_port = htons(port);
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (::connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) {
            ::close(fd);
            fd = -1;
            throw Reject{};
        }
    }
    Client(const Client&) = delete;
    ~Client() { leave(true); }
    void leave(bool reset) {
        if (fd < 0) return;
        if (reset) {
            linger l{1, 0};
            setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
        }
        ::close(fd);
        fd = -1;
        gone = true;
    }
    void halfClose() { ::shutdown(fd, SHUT_WR); }
    /// sends at most n of the bytes to send, without blocking
    void push(size_t n) {
        if (fd < 0 || out.empty()) return;
        auto sent = ::send(fd, out.data(), std::min(n, out.size()), MSG_DONTWAIT | MSG_NOSIGNAL);
        if (sent > 0) out.erase(0, static_cast<size_t>(sent));
        else if (sent < 0 && errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR) out.clear(); // refused by the server
    }
    /// receives what is there
    void pull(size_t max = SIZE_MAX) {
        char buffer[16384];
        while (fd >= 0 && !eof && max) {
            auto n = ::recv(fd, buffer, std::min(sizeof buffer, max), MSG_DONTWAIT);
            if (n > 0) {
                in.append(buffer, static_cast<size_t>(n));
                max -= static_cast<size_t>(n);
            }
            else if (n == 0) eof = true;
            else {
                if (errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR) eof = true;
                return;
            }
        }
    }
};

/// pushes and pulls until a condition holds
template<typename Condition>
bool converse(std::vector<Client*> clients, Condition done) {
    timespec start{}, now{};
    clock_gettime(CLOCK_MONOTONIC, &start);
    while (!done()) {
        std::vector<pollfd> fds;
        for (auto c : clients)
            if (c->fd >= 0 && !c->eof) fds.push_back({c->fd, static_cast<short>(POLLIN | (c->out.empty() ? 0 : POLLOUT)), 0});
        ::poll(fds.data(), fds.size(), 2);
        for (auto c : clients) {
            c->push(SIZE_MAX);
            c->pull();
        }
        clock_gettime(CLOCK_MONOTONIC, &now);
        if ((now.tv_sec - start.tv_sec) * 1000 + (now.tv_nsec - start.tv_nsec) / 1000000 > patience) return false;
    }
    return true;
}

/// A server on a port of the loopback, running in its own thread
struct Server {
    uint16_t port = 0;
    std::unique_ptr<wf::http::Server<Net, TestFS>> server;
    std::mutex mutex; // protects what follows
    std::vector<std::string> received;
    std::string escaped;
    std::list<std::unique_ptr<WS>> sockets;
    size_t pushes = 0; // messages sent in addition to each echo
    std::atomic<bool> stopping = false;
    std::thread thread;
    Server() {
        for (int attempt = 0; !server; ++attempt) {
            if (attempt == 50) throw Reject{};
            int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
            sockaddr_in a{};
            a.sin_family = AF_INET;
            a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            socklen_t size = sizeof a;
            bool bound = fd >= 0 && ::bind(fd, reinterpret_cast<sockaddr*>(&a), size) == 0 && ::getsockname(fd, reinterpret_cast<sockaddr*>(&a), &size) == 0;
            if (fd >= 0) ::close(fd);
            if (!bound) continue;
            port = ntohs(a.sin_port);
            try {
                server = std::make_unique<wf::http::Server<Net, TestFS>>("127.0.0.1", std::to_string(port));
            }
            catch (const std::exception&) { // taken meanwhile
            }
        }
        server->onUpgrade([this](Net::Socket&& socket, wf::http::Protocol) {
            sockets.push_back(std::make_unique<WS>(std::move(socket)));
            auto ws = sockets.back().get();
            ws->onMessage([this, ws](std::string_view t) {
                {
                    std::lock_guard lock(mutex);
                    received.emplace_back(t);
                }
                std::string copy(t);
                ws->write(std::string_view(copy));
                for (size_t i = 0; i < pushes; ++i) {
                    copy = "push " + std::to_string(i) + " of " + std::to_string(t.size());
                    ws->write(std::string_view(copy));
                }
            });
            ws->onMessage([ws](std::span<const std::byte> b) {
                std::vector<std::byte> copy(b.begin(), b.end());
                auto half = copy.size() / 2;
                ws->write(std::span(copy).first(half), std::span(copy).subspan(half));
            });
        });
        thread = std::thread([this] {
            while (!stopping) {
                try {
                    server->runOne();
                }
                catch (const std::exception& e) {
                    std::lock_guard lock(mutex);
                    escaped = e.what();
                }
            }
        });
    }
    std::string escapedException() {
        std::lock_guard lock(mutex);
        return escaped;
    }
    ~Server() {
        stopping = true;
        for (int i = 0; i < 3; ++i) { // wakes the event loop
            try {
                Client c(port);
                c.push(0);
            }
            catch (const Reject&) {
            }
        }
        thread.join();
        sockets.clear(); // they use the event loop of the server
        server.reset();
    }
};

std::string httpRequest(Src& s, bool& answered) {
    ref::HttpRequest r;
    r.method = s.oneOf<const char*>({"GET", "GET", "GET", "HEAD", "POST"});
    std::vector<std::string> names;
    for (auto& [n, e] : TestFS::files()) names.push_back(n);
    r.target = s.chance(1, 5) ? s.oneOf<const char*>({"/none", "/..", "x", "/a/"}) : ref::encodeTarget(s, "/" + s.pick(names));
    ref::ordinary(s, r);
    if (s.chance(1, 10)) r.headers.emplace_back("Cookie", "c" + s.text(s.magnitude(20000), "abcdef") + "c");
    answered = true;
    return r.raw();
}
/// what the request gets on the simulated network would be another reference; here the decision table is enough
struct Answer {
    int status = 0;
    std::string body;
};
Answer expectedAnswer(const std::string& raw) {
    auto method = raw.substr(0, raw.find(' '));
    auto target = raw.substr(method.size() + 1, raw.find(' ', method.size() + 1) - method.size() - 1);
    auto path = ref::urlDecode(target);
    if (path.empty() || path[0] != '/' || path.find("..") != std::string::npos) return {400, ""};
    if (method != "GET" && method != "HEAD") return {501, ""};
    path.erase(0, path.find_first_not_of('/') == std::string::npos ? path.size() : path.find_first_not_of('/'));
    if (path.empty() || path.back() == '/') path += "index.html";
    auto it = TestFS::files().find(path);
    if (it == TestFS::files().end()) return {404, ""};
    return {200, method == "HEAD" ? "" : it->second.content};
}
void mustAnswer(const Client& c, const std::string& raw, const char* who) {
    auto e = expectedAnswer(raw);
    auto a = ref::parseResponse(c.in, raw.starts_with("HEAD "));
    CHECK(a.status == e.status, who, ": status ", a.status, " instead of ", e.status);
    if (e.status == 200) CHECK_EQ_TEXT(a.body, e.body, who);
}
void genFiles(Src& s) {
    TestFS::files().clear();
    TestFS::add("index.html", s.blob(s.small(3000)));
    TestFS::add("big.js", s.blob(s.chance(1, 3) ? s.magnitude(3000000) : 1000 + s.small(9000)));
    TestFS::add("a", s.blob(s.small(40)));
}
const std::string upgrade = "GET /chat HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: keep-alive, Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n";
std::string_view afterUpgrade(const Client& c) {
    auto e = c.in.find("\r\n\r\n");
    return e == std::string::npos ? std::string_view{} : std::string_view(c.in).substr(e + 4);
}
} // namespace

PROPERTY("C03.tcp", 5000, 100000,
         "1..8 clients of a server on the loopback (Boost.Asio), sending generated requests in generated pieces, interleaved, small receive buffers, bodies up to 3 MB; each gets the answer of its own request, "
         "complete; non-trivial: at least two clients, one of which sends in several pieces") {
    genFiles(s);
    Server server;
    std::vector<std::unique_ptr<Client>> clients;
    std::vector<std::string> requests;
    bool pieces = false;
    for (auto n = 1 + s.small(7); n > 0; --n) {
        clients.push_back(std::make_unique<Client>(server.port, s.coin() ? 0 : 2048));
        bool answered = false;
        requests.push_back(httpRequest(s, answered));
        clients.back()->out = requests.back();
        c.describe(cat(printable(requests.back(), 200), "\n"));
    }
    for (auto n = s.small(30); n > 0; --n) {
        auto& k = *clients[s.index(clients.size())];
        auto size = 1 + s.draw(s.coin() ? 20 : 9000);
        pieces = pieces || size < k.out.size();
        k.push(size);
        if (s.coin()) k.pull(1 + s.draw(9000));
        if (s.chance(1, 8)) ::usleep(static_cast<useconds_t>(s.draw(300)));
    }
    std::vector<Client*> all;
    for (auto& k : clients) all.push_back(k.get());
    bool done = converse(all, [&] { return std::all_of(all.begin(), all.end(), [](auto k) { return k->eof; }); });
    CHECK(server.escapedException().empty(), "exception out of the event loop: ", server.escapedException());
    CHECK(done, "an answer or the end of its connection did not come");
    for (size_t i = 0; i < clients.size(); ++i) mustAnswer(*clients[i], requests[i], "client");
    c.nontrivial(clients.size() > 1 && pieces);
}

PROPERTY("C20.tcp", 1600, 40000,
         "1..3 WebSockets on the loopback (Boost.Asio), each sending 1..12 messages (text or blocks, 0..70000 bytes, some of up to 3 MB), with generated pieces and receive buffers of 2 KB; texts come back followed by 0..3 other "
         "messages, blocks come back in two parts: each client receives exactly these frames, in order; non-trivial: at least 3 messages, one over 8192 bytes") {
    TestFS::files().clear();
    TestFS::add("index.html", "home");
    Server server;
    server.pushes = s.draw(3);
    struct Talk {
        std::unique_ptr<Client> client;
        std::vector<ref::WsMessage> expected;
        size_t bytes = 0;
    };
    std::vector<Talk> talks;
    bool large = false;
    size_t count = 0;
    for (auto n = 1 + s.small(2); n > 0; --n) {
        Talk t;
        t.client = std::make_unique<Client>(server.port, s.coin() ? 0 : 2048);
        t.client->out = upgrade;
        // the messages follow the answer to the upgrade
        auto* k = t.client.get();
        CHECK(converse({k}, [&] { return !afterUpgrade(*k).empty() || k->in.find("\r\n\r\n") != std::string::npos || k->eof; }), "no answer to the upgrade");
        CHECK(k->in.starts_with("HTTP/1.1 101 ") && !k->eof, "not upgraded: ", printable(k->in));
        for (auto m = 1 + s.small(11); m > 0; --m) {
            bool text = s.coin();
            auto size = s.chance(1, 40) ? s.magnitude(3000000) : ref::payloadSize(s, s.chance(1, 3) ? 70000 : 300);
            auto data = text ? s.text(size, "abcdefgh ijkl") : s.blob(size);
            c.describe(cat(text ? " text " : " block ", size));
            k->out += ref::clientFrame(text ? 1 : 2, data, static_cast<uint32_t>(s.draw(UINT32_MAX)));
            t.expected.push_back({text, data});
            if (text)
                for (size_t i = 0; i < server.pushes; ++i) t.expected.push_back({true, cat("push ", i, " of ", size)});
            large = large || size > 8192;
            ++count;
        }
        for (auto& e : t.expected) t.bytes += ref::serverHeaderSize(e.data.size()) + e.data.size();
        talks.push_back(std::move(t));
    }
    for (auto n = s.small(30); n > 0; --n) {
        auto& k = *talks[s.index(talks.size())].client;
        k.push(1 + s.draw(s.coin() ? 20 : 9000));
        if (s.coin()) k.pull(1 + s.draw(9000));
        if (s.chance(1, 8)) ::usleep(static_cast<useconds_t>(s.draw(300)));
    }
    std::vector<Client*> all;
    for (auto& t : talks) all.push_back(t.client.get());
    bool done = converse(all, [&] { return std::all_of(talks.begin(), talks.end(), [](auto& t) { return t.client->eof || afterUpgrade(*t.client).size() >= t.bytes; }); });
    CHECK(server.escapedException().empty(), "exception out of the event loop: ", server.escapedException());
    for (auto& t : talks) {
        auto frames = ref::serverFrames(afterUpgrade(*t.client), true);
        for (size_t i = 0; i < std::min(frames.size(), t.expected.size()); ++i) {
            CHECK(frames[i].opcode == (t.expected[i].text ? 1 : 2), "frame ", i, " of opcode ", frames[i].opcode);
            CHECK_EQ_TEXT(frames[i].data, t.expected[i].data, "frame ", i);
        }
        CHECK(frames.size() == t.expected.size(), frames.size(), " frames instead of ", t.expected.size());
        CHECK(!t.client->eof, "the connection was closed");
    }
    CHECK(done, "messages missing");
    c.nontrivial(count >= 3 && large);
}

PROPERTY("C34.tcp", 1200, 30000,
         "1..6 clients on the loopback (Boost.Asio), page requests or WebSockets, leaving at a generated byte of their exchange by a reset, a close or a half-close, some with an answer of megabytes half read, next to a healthy WebSocket and healthy "
         "page requests which get their exact answers; non-trivial: at least two clients fail") {
    genFiles(s);
    if (s.coin()) TestFS::add("huge.bin", s.blob(2000000 + s.draw(2000000)));
    Server server;
    Client healthy(server.port);
    healthy.out = upgrade;
    CHECK(converse({&healthy}, [&] { return healthy.in.find("\r\n\r\n") != std::string::npos || healthy.eof; }), "no answer to the upgrade");
    std::vector<std::string> said;
    auto talk = [&] {
        auto text = s.text(s.small(300), "abcdef");
        said.push_back(text);
        healthy.out += ref::clientFrame(1, text, 0x12345678);
        healthy.push(SIZE_MAX);
    };
    auto page = [&] {
        bool answered;
        auto raw = httpRequest(s, answered);
        Client k(server.port);
        k.out = raw;
        CHECK(converse({&k}, [&] { return k.eof; }), "a healthy request is not answered");
        CHECK(server.escapedException().empty(), "exception out of the event loop: ", server.escapedException());
        mustAnswer(k, raw, "healthy client");
    };
    size_t failures = 0;
    std::vector<std::unique_ptr<Client>> others;
    for (auto n = 1 + s.draw(5); n > 0; --n) {
        others.push_back(std::make_unique<Client>(server.port, s.coin() ? 0 : 2048));
        auto& k = *others.back();
        bool answered;
        if (s.coin()) {
            k.out = upgrade;
            for (auto m = s.draw(3); m > 0; --m) k.out += ref::clientFrame(1, s.text(s.coin() ? s.small(300) : 40000, "abc"), 1);
            if (s.chance(1, 3)) k.out += ref::clientFrame(8, std::string("\x03\xe8", 2) + "bye", 7);
        }
        else
            k.out = httpRequest(s, answered);
        k.push(s.draw(k.out.size()));
        if (s.coin()) ::usleep(static_cast<useconds_t>(s.draw(400)));
        if (s.coin()) k.push(s.draw(k.out.size()));
        if (s.coin()) k.pull(s.draw(5000));
        talk();
        if (s.chance(1, 3)) page();
        auto victim = s.index(others.size());
        switch (s.weighted({3, 2, 2, 1})) {
        case 0: others[victim]->leave(true); ++failures; break;
        case 1: others[victim]->leave(false); ++failures; break;
        case 2: if (others[victim]->fd >= 0) others[victim]->halfClose(); ++failures; break;
        default: break; // stays silent
        }
        talk();
    }
    page();
    size_t bytes = 0;
    for (auto& t : said) bytes += ref::serverHeaderSize(t.size()) + t.size();
    bool done = converse({&healthy}, [&] { return healthy.eof || afterUpgrade(healthy).size() >= bytes; });
    CHECK(server.escapedException().empty(), "exception out of the event loop: ", server.escapedException());
    auto frames = ref::serverFrames(afterUpgrade(healthy), true);
    for (size_t i = 0; i < std::min(frames.size(), said.size()); ++i) CHECK_EQ_TEXT(frames[i].data, said[i], "frame ", i);
    CHECK(frames.size() == said.size() && done && !healthy.eof, "the healthy WebSocket received ", frames.size(), " answers out of ", said.size());
    c.nontrivial(failures >= 2);
}

static bool init = [] {
    beforeCase() = [] { quiet::silence(); };
    return true;
}();
