// C38 the network mock of the library, C39 its layer over the sockets of the operating system (POSIX side)
#include "pbt.hpp"
#include "quiet.hpp"
#include "ref.hpp"
#include "wsref.hpp"

#include <functional>
#include <list>
#include <tooling/Logger.hpp>
#include <networking/NetworkingMock.hpp>
#include <networking/TCPSockets.hpp>
#include <http/WebSocket.hpp>

using namespace pbt;
namespace wf = webfront;
using Mock = wf::networking::NetworkingMock;
using wf::networking::SocketMock;

namespace {
constexpr size_t capacity = 8192;
std::string recorded() {
    CHECK(SocketMock::bufferIndex <= capacity, "index ", SocketMock::bufferIndex);
    return {reinterpret_cast<const char*>(SocketMock::debugBuffer.data()), SocketMock::bufferIndex};
}
bool clearAfter(size_t n) {
    return std::all_of(SocketMock::debugBuffer.begin() + static_cast<std::ptrdiff_t>(n), SocketMock::debugBuffer.end(), [](std::byte b) { return b == std::byte{}; });
}
std::span<const std::byte> bytes(const std::string& t) { return std::as_bytes(std::span(t.data(), t.size())); }
std::string header(int opcode, size_t n) {
    std::string h(1, static_cast<char>(0x80 | opcode));
    if (n < 126) h += static_cast<char>(n);
    else {
        h += '\x7e';
        h += static_cast<char>(n >> 8);
        h += static_cast<char>(n & 255);
    }
    return h;
}
} // namespace

PROPERTY("C38.mock", 16000, 300000,
         "histories of 1..12 writes on the mock network (scattered buffers of 0..6 pieces in several containers, direct writes, WebSocket messages of every form, copied sockets, new sockets), rarely filling its "
         "record, in which case the write is cut and fails; non-trivial: two writes one of which is not empty") {
    auto socket = std::make_unique<SocketMock>();
    std::string model;
    bool full = false;
    size_t writes = 0, filled = 0;
    CHECK(recorded().empty() && clearAfter(0), "a new socket has a record");
    auto size = [&] { return s.chance(1, 30) ? s.magnitude(9000) : s.sized({125, 126, 127}, 300); };
    std::unique_ptr<wf::websocket::WebSocket<Mock>> ws;
    size_t closed = 0;
    for (auto n = 1 + s.draw(11); n > 0 && !full; --n) {
        ++writes;
        auto before = model.size();
        std::vector<std::string> parts(s.draw(6));
        std::string all;
        for (auto& p : parts) all += p = s.blob(size());
        auto room = capacity - model.size();
        switch (s.draw(6)) {
        case 0:
            c.describe("new socket\n");
            ws.reset();
            if (s.coin()) socket = std::make_unique<SocketMock>();
            else SocketMock other;
            model.clear();
            CHECK(recorded().empty() && clearAfter(0), "a new socket has the record of another");
            break;
        case 1:
        case 2:
        case 3: {
            c.describe(cat("write ", all.size(), " bytes in ", parts.size(), " buffers\n"));
            size_t calls = 0, told = 0;
            std::error_code error;
            auto done = [&](std::error_code ec, size_t count) {
                ++calls;
                error = ec;
                told = count;
            };
            std::list<Mock::ConstBuffer> buffers;
            for (auto& p : parts) buffers.push_back(Mock::Buffer(std::as_const(p)));
            if (s.coin()) Mock::AsyncWrite(*socket, buffers, done);
            else Mock::AsyncWrite(*socket, std::vector<Mock::ConstBuffer>(buffers.begin(), buffers.end()), done);
            full = all.size() > room;
            model += all.substr(0, room);
            CHECK(calls == 1, calls, " completions");
            CHECK(told == std::min(all.size(), room), "told ", told, " of ", all.size(), " bytes");
            CHECK(static_cast<bool>(error) == full, "error ", error.message());
        } break;
        case 4: {
            c.describe(cat("write_some ", all.size(), " bytes\n"));
            std::error_code ec;
            auto copy = *socket;
            auto count = (s.coin() ? copy : *socket).write_some(Mock::Buffer(std::as_const(all)), ec);
            full = all.size() > room;
            model += all.substr(0, room);
            CHECK(count == std::min(all.size(), room), "wrote ", count, " of ", all.size(), " bytes");
            CHECK(static_cast<bool>(ec) == full, "error ", ec.message());
        } break;
        default: {
            if (!ws) {
                ws = std::make_unique<wf::websocket::WebSocket<Mock>>(*socket);
                ws->onClose([&](wf::websocket::CloseEvent) { ++closed; });
            }
            CHECK(recorded() == model, "a WebSocket over a socket altered its record");
            parts.resize(2);
            std::string out;
            c.describe(cat("WebSocket message of ", parts[0].size(), " and ", parts[1].size(), " bytes\n"));
            switch (s.draw(3)) {
            case 0: ws->write(std::string_view(parts[0])), out = header(1, parts[0].size()) + parts[0]; break;
            case 1: ws->write(bytes(parts[0])), out = header(2, parts[0].size()) + parts[0]; break;
            case 2: ws->write(bytes(parts[0]), bytes(parts[1])), out = header(2, parts[0].size() + parts[1].size()) + parts[0] + parts[1]; break;
            default: ws->write(wf::websocket::Frame<Mock>(std::string_view(parts[1]))), out = header(1, parts[1].size()) + parts[1];
            }
            full = out.size() > room;
            model += out.substr(0, room);
            CHECK(closed == full, closed, " ends of the WebSocket");
        }
        }
        filled += model.size() > before;
        CHECK_EQ_TEXT(recorded(), model);
        CHECK(clearAfter(model.size()), "bytes after the record");
    }
    c.label(full ? "full" : "room left");
    c.nontrivial(writes > 1 && filled > 0);
}

PROPERTY("C38.endpoints", 20000, 400000, "addresses and ports resolved, acceptors opened, given options, bound and put to accept; non-trivial: an address and a port") {
    auto address = s.text(s.small(40), "0123456789.:abcdef"), port = s.text(s.small(8), "0123456789http");
    Mock::IoContext context;
    Mock::Resolver resolver(context);
    auto endpoints = resolver.resolve(address, port);
    CHECK(endpoints.size() == 1, endpoints.size(), " endpoints");
    CHECK_EQ_TEXT(endpoints.begin()->protocol(), port);
    Mock::Acceptor acceptor(context);
    CHECK(!acceptor.is_open());
    acceptor.open(endpoints.begin()->protocol());
    CHECK(acceptor.is_open());
    acceptor.set_option(Mock::Acceptor::reuse_address{s.coin()});
    acceptor.bind(*endpoints.begin());
    acceptor.listen();
    bool accepted = false;
    acceptor.async_accept([&](std::error_code, SocketMock) { accepted = true; });
    CHECK(!accepted && acceptor.is_open());
    c.nontrivial(!address.empty() && !port.empty());
}

namespace {
struct Os : wf::networking::SocketLibOS {
    using SocketLibOS::closeSocket;
    using SocketLibOS::getLastError;
    using SocketLibOS::invalidSocket;
};
} // namespace

PROPERTY("C39.errors", 100000, 2000000, "error numbers known to the system and others, with or without their number, given or left by the last operation; non-trivial: a known error") {
    auto e = s.chance(1, 10) ? static_cast<int>(s.draw(UINT32_MAX)) : static_cast<int>(s.draw(140));
    std::string text = strerror(e);
    c.describe(cat("error ", e));
    CHECK_EQ_TEXT(Os::getErrorText(e), std::to_string(e) + ":" + text);
    CHECK_EQ_TEXT(Os::getErrorText(e, true), std::to_string(e) + ":" + text);
    CHECK_EQ_TEXT(Os::getErrorText(e, false), text);
    errno = e;
    CHECK(Os::getLastError() == e);
    errno = e;
    auto last = Os::getErrorText();
    CHECK_EQ_TEXT(last, std::to_string(e) + ":" + text);
    errno = e;
    last = Os::getErrorText(true);
    CHECK_EQ_TEXT(last, std::to_string(e) + ":" + text);
    errno = e;
    last = Os::getErrorText(false);
    CHECK_EQ_TEXT(last, text);
    c.nontrivial(!text.starts_with("Unknown"));
}

PROPERTY("C39.timeouts", 200000, 4000000, "durations from none to 290 000 years; non-trivial: seconds and a fraction") {
    auto us = static_cast<int64_t>(s.draw(INT64_MAX) >> s.draw(62));
    if (s.chance(1, 3)) us = static_cast<int64_t>(s.draw(100000)) * 1'000'000 + s.oneOf<int64_t>({0, 1, 999'999, 500'000, 1'000'000});
    c.describe(cat(us, " us"));
    auto t = Os::toTimeout(std::chrono::microseconds(us));
    CHECK(t.tv_sec == us / 1'000'000, t.tv_sec, " s");
    CHECK(t.tv_usec == us % 1'000'000, t.tv_usec, " us");
    c.nontrivial(us > 1'000'000 && us % 1'000'000);
}

PROPERTY("C39.closing", 20000, 200000, "a socket of the system closed once or twice, or one which is not open; non-trivial: closed twice") {
    CHECK(Os::initializeLib());
    int fd = ::socket(AF_UNIX, s.coin() ? SOCK_STREAM : SOCK_DGRAM, 0);
    CHECK(fd >= 0, strerror(errno));
    bool twice = s.coin();
    CHECK(Os::closeSocket(fd));
    CHECK(::fcntl(fd, F_GETFD) == -1 && errno == EBADF, "still open");
    if (twice) {
        CHECK(!Os::closeSocket(fd));
        CHECK(Os::getLastError() == EBADF);
    }
    CHECK(!Os::closeSocket(Os::invalidSocket));
    c.nontrivial(twice);
}

static const bool silent = [] {
    quiet::silence();
    return true;
}();
