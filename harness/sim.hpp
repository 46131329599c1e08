// sim.hpp - a deterministic simulated network which satisfies webfront::networking::Features.
//
// Every asynchronous operation started by the code under test stays pending until the scheduler picks it. The scheduler's
// choices (which operation progresses, how many bytes it moves) come from the choices of the test case, so a schedule is
// generated, replayed and shrunk like any other input. As with Asio: completions are always deferred to run_one(), several
// operations may be pending on a socket, the memory of a write is read when the bytes are transferred, the memory of a read
// is written when it completes, closing or destroying a socket completes its operations with operation_aborted, operations
// on a closed socket complete with bad_file_descriptor, a transfer may be done well before its handler runs, shutdown() of a connection reset by the peer throws.
#pragma once
#include "pbt.hpp"

#include <networking/BasicNetworking.hpp>

#include <list>
#include <optional>
#include <system_error>

namespace sim {

using Handler = std::function<void(std::error_code, size_t)>;

inline std::error_code aborted() { return std::make_error_code(std::errc::operation_canceled); }
inline std::error_code badDescriptor() { return std::make_error_code(std::errc::bad_file_descriptor); }
inline std::error_code resetByPeer() { return std::make_error_code(std::errc::connection_reset); }
inline std::error_code brokenPipe() { return std::make_error_code(std::errc::broken_pipe); }
inline std::error_code timedOut() { return std::make_error_code(std::errc::timed_out); }

struct EofCategory : std::error_category {
    const char* name() const noexcept override { return "sim.misc"; }
    std::string message(int) const override { return "End of file"; }
};
inline std::error_code endOfFile() {
    static EofCategory c;
    return {2, c};
}

/// One TCP connection, seen from both sides
/// bytes waiting to be consumed from their beginning
class Pending {
    std::string bytes;
    size_t consumed = 0;

public:
    Pending() = default;
    Pending& operator=(std::string b) {
        bytes = std::move(b);
        consumed = 0;
        return *this;
    }
    Pending& operator+=(std::string_view b) {
        bytes += b;
        return *this;
    }
    bool empty() const { return consumed == bytes.size(); }
    size_t size() const { return bytes.size() - consumed; }
    const char* data() const { return bytes.data() + consumed; }
    std::string_view view() const { return std::string_view(bytes).substr(consumed); }
    void consume(size_t n) {
        consumed += n;
        if (consumed == bytes.size() || consumed > bytes.size() / 2 + 4096) {
            bytes.erase(0, consumed);
            consumed = 0;
        }
    }
};

struct World;
using Home = std::shared_ptr<World*>; // null once the world is gone

struct Conn {
    int id = 0;
    Home home; // several worlds may exist, with a server each
    // client side
    Pending toServer;            // sent by the client, not yet read by the server
    std::string toClient;        // received by the client
    bool clientEof = false;      // the client has closed its sending direction
    bool clientGone = false;     // the client has closed entirely: later writes of the server may fail
    bool clientReset = false;    // the client has reset the connection
    // server side
    bool serverShutdown = false; // the server has shut the connection down
    bool serverOpen = true;
    bool accepted = false;
    size_t stallWritesUntil = 0; // bytes the transport accepts before it stalls (client does not read); 0: no limit
    std::optional<std::error_code> readFault, writeFault; // injected, reported once by the next operation
    int failedWrites = 0;
    size_t readsCompleted = 0, maxPendingReads = 0, maxPendingWrites = 0;
    bool closedForClient() const { return serverShutdown || !serverOpen; }
};

struct Op {
    enum Kind { accept, read, write } kind;
    std::shared_ptr<Conn> conn;      // read, write
    Handler handler;                 // read, write
    char* data = nullptr;            // read
    size_t size = 0;
    std::vector<std::pair<const char*, size_t>> buffers; // write: bytes left
    size_t moved = 0;
    std::optional<std::error_code> result; // set when the operation has to complete with that result
};

class Socket;

struct World {
    pbt::Src* src = nullptr;      // null: everything completes in order, in one piece
    std::list<Op> ops;
    std::function<void(std::error_code, Socket)> acceptHandler;
    std::list<std::shared_ptr<Conn>> connecting;
    std::optional<std::error_code> acceptFault;
    bool acceptorOpen = false;
    int nextId = 0;
    bool yieldBytes = true;       // partial transfers allowed
    bool deferCompletions = true; // handlers may run later than the transfer they follow
    size_t steps = 0, handlers = 0;

    static World*& current() {
        static World* w = nullptr;
        return w;
    }
    World* previous = current();
    Home home = std::make_shared<World*>(this);
    World() { current() = this; }
    ~World() {
        *home = nullptr;
        if (current() == this) current() = previous;
        for (auto w = current(); w; w = w->previous) // not the last one made
            if (w->previous == this) w->previous = previous;
    }
    World(const World&) = delete;
    /// what the server of this world does happens in it
    struct Inside {
        World* outer = current();
        explicit Inside(World* w) { current() = w; }
        ~Inside() { current() = outer; }
    };

    /// a connection made without a server to accept it
    std::shared_ptr<Conn> established() {
        auto c = std::make_shared<Conn>();
        c->id = nextId++;
        c->home = home;
        return c;
    }
    std::shared_ptr<Conn> connect() {
        auto c = established();
        connecting.push_back(c);
        return c;
    }

    size_t chooseIndex(size_t n) { return src && n > 1 ? src->index(n) : 0; }
    size_t chooseBytes(size_t available) { // 0 is "all of them"
        if (!src || !yieldBytes || available <= 1) return available;
        switch (src->weighted({5, 3, 2})) {
        case 0: return available;
        case 1: return std::min<size_t>(available, 1 + src->draw(15));
        default: return available - src->draw(available - 1);
        }
    }

    /// The transfer is done, its handler may run later: the operation can then no longer be cancelled
    bool deferred(Op& op, size_t bytes) {
        if (!src || !deferCompletions || !src->chance(1, 4)) return false;
        op.result = std::error_code{};
        op.moved = bytes;
        return true;
    }

    bool enabled(const Op& op) const {
        if (op.result) return true;
        auto& c = *op.conn;
        if (op.kind == Op::read) return c.readFault || c.clientReset || !c.toServer.empty() || c.clientEof || c.serverShutdown;
        if (c.writeFault || c.clientReset || c.clientGone) return true;
        return c.stallWritesUntil == 0 || c.toClient.size() < c.stallWritesUntil;
    }
    bool idle() const {
        if (acceptHandler && (!connecting.empty() || acceptFault)) return false;
        for (auto& op : ops)
            if (enabled(op)) return false;
        return true;
    }

    /// Lets one pending operation progress; runs its handler if it is complete. @return number of handlers run
    inline size_t runOne();
    size_t complete(std::list<Op>::iterator it, std::error_code ec, size_t bytes) {
        auto handler = std::move(it->handler);
        auto conn = it->conn;
        ops.erase(it);
        ++handlers;
        handler(ec, bytes);
        return 1;
    }
    void cancel(const std::shared_ptr<Conn>& c) {
        for (auto& op : ops)
            if (op.conn == c && !op.result) op.result = aborted();
    }
};

inline World& world() { return *World::current(); }
/// the world at the creation of an object of the server
inline Home here() { return World::current() ? World::current()->home : std::make_shared<World*>(nullptr); }

class Socket {
public:
    enum shutdown_type { shutdown_receive, shutdown_send, shutdown_both };
    Socket() = default;
    explicit Socket(std::shared_ptr<Conn> c) : conn(std::move(c)) {}
    Socket(Socket&& o) noexcept : conn(std::move(o.conn)) { o.conn.reset(); }
    Socket& operator=(Socket&& o) noexcept {
        if (this != &o) {
            release();
            conn = std::move(o.conn);
            o.conn.reset();
        }
        return *this;
    }
    Socket(const Socket&) = delete;
    Socket& operator=(const Socket&) = delete;
    ~Socket() { release(); }

    bool is_open() const { return conn != nullptr; }
    void cancel() {
        if (conn && *conn->home) (*conn->home)->cancel(conn);
    }
    void close() { release(); }
    void close(std::error_code& ec) {
        ec.clear();
        release();
    }
    void shutdown(shutdown_type) {
        if (!conn) throw std::system_error(badDescriptor(), "shutdown");
        if (conn->clientReset) throw std::system_error(std::make_error_code(std::errc::not_connected), "shutdown");
        conn->serverShutdown = true;
    }
    void shutdown(shutdown_type t, std::error_code& ec) {
        ec.clear();
        try {
            shutdown(t);
        }
        catch (const std::system_error& e) {
            ec = e.code();
        }
    }

    template<typename MutableBuffer, typename H>
    void async_read_some(MutableBuffer buffer, H handler) {
        Op op;
        op.kind = Op::read;
        op.conn = conn;
        op.handler = std::move(handler);
        op.data = static_cast<char*>(buffer.data());
        op.size = buffer.size();
        if (!conn) op.result = badDescriptor();
        else if (op.size == 0) op.result = std::error_code{};
        push(std::move(op));
    }
    template<typename ConstBuffer, typename H>
    void async_write_some(ConstBuffer buffer, H handler) {
        asyncWrite(std::vector<ConstBuffer>{buffer}, std::move(handler));
    }
    template<typename Buffers, typename H>
    void asyncWrite(const Buffers& buffers, H handler) {
        Op op;
        op.kind = Op::write;
        op.conn = conn;
        op.handler = std::move(handler);
        for (auto it = std::begin(buffers); it != std::end(buffers); ++it)
            if (it->size()) op.buffers.emplace_back(static_cast<const char*>(it->data()), it->size());
        if (!conn) op.result = badDescriptor();
        else if (op.buffers.empty()) op.result = std::error_code{};
        push(std::move(op));
    }

    template<typename Buffers>
    size_t writeAll(const Buffers& buffers) {
        if (!conn) throw std::system_error(badDescriptor(), "write");
        if (conn->clientReset || conn->clientGone || conn->serverShutdown) throw std::system_error(brokenPipe(), "write");
        size_t n = 0;
        for (auto it = std::begin(buffers); it != std::end(buffers); ++it) {
            conn->toClient.append(static_cast<const char*>(it->data()), it->size());
            n += it->size();
        }
        return n;
    }

private:
    std::shared_ptr<Conn> conn;
    void push(Op op) {
        auto home = conn ? conn->home : here();
        if (!*home) return;
        auto& w = **home;
        w.ops.push_back(std::move(op));
        if (!conn) return;
        size_t r = 0, wr = 0;
        for (auto& o : w.ops)
            if (o.conn == conn) (o.kind == Op::read ? r : wr) += 1;
        conn->maxPendingReads = std::max(conn->maxPendingReads, r);
        conn->maxPendingWrites = std::max(conn->maxPendingWrites, wr);
    }
    void release() {
        if (!conn) return;
        conn->serverOpen = false;
        if (*conn->home) (*conn->home)->cancel(conn);
        conn.reset();
    }
};

inline size_t World::runOne() {
    Inside inside(this);
    for (size_t spin = 0; spin < 100000; ++spin) {
        std::vector<std::list<Op>::iterator> ready;
        for (auto it = ops.begin(); it != ops.end(); ++it)
            if (enabled(*it)) ready.push_back(it);
        bool canAccept = acceptHandler && (!connecting.empty() || acceptFault);
        size_t n = ready.size() + (canAccept ? 1 : 0);
        if (n == 0) return 0;
        ++steps;
        auto k = chooseIndex(n);
        if (k == ready.size()) {
            auto h = std::move(acceptHandler);
            acceptHandler = nullptr;
            ++handlers;
            if (acceptFault) {
                auto ec = *acceptFault;
                acceptFault.reset();
                h(ec, Socket());
            }
            else {
                auto c = connecting.front();
                connecting.pop_front();
                c->accepted = true;
                h({}, Socket(c));
            }
            return 1;
        }
        auto it = ready[k];
        if (it->result) return complete(it, *it->result, it->moved);
        auto& c = *it->conn;
        if (it->kind == Op::read) {
            if (c.readFault) {
                auto ec = *c.readFault;
                c.readFault.reset();
                return complete(it, ec, 0);
            }
            if (c.clientReset) return complete(it, resetByPeer(), 0);
            if (!c.toServer.empty() && !c.serverShutdown) {
                auto bytes = chooseBytes(std::min(c.toServer.size(), it->size));
                memcpy(it->data, c.toServer.data(), bytes);
                c.toServer.consume(bytes);
                ++c.readsCompleted;
                if (deferred(*it, bytes)) continue;
                return complete(it, {}, bytes);
            }
            return complete(it, endOfFile(), 0);
        }
        // write
        if (c.writeFault) {
            auto ec = *c.writeFault;
            c.writeFault.reset();
            ++c.failedWrites;
            return complete(it, ec, it->moved);
        }
        if (c.clientReset) {
            ++c.failedWrites;
            return complete(it, resetByPeer(), it->moved);
        }
        if (c.serverShutdown) return complete(it, brokenPipe(), it->moved);
        size_t left = 0;
        for (auto& b : it->buffers) left += b.second;
        auto bytes = chooseBytes(left);
        if (c.clientGone) { // the peer is gone: bytes may still be accepted once, then the connection is reset
            c.clientReset = true;
            if (src && src->coin()) return complete(it, {}, it->moved + left);
            ++c.failedWrites;
            return complete(it, brokenPipe(), it->moved);
        }
        if (c.stallWritesUntil) bytes = std::min(bytes, c.stallWritesUntil - c.toClient.size());
        it->moved += bytes;
        while (bytes) {
            auto& b = it->buffers.front();
            auto m = std::min(bytes, b.second);
            c.toClient.append(b.first, m);
            b.first += m;
            b.second -= m;
            bytes -= m;
            if (b.second == 0) it->buffers.erase(it->buffers.begin());
        }
        if (it->buffers.empty()) {
            if (deferred(*it, it->moved)) continue;
            return complete(it, {}, it->moved);
        }
        // partial: the rest is written later; let the schedule continue
    }
    throw pbt::Failure{"the event loop spins"};
}

class IoContext {
public:
    IoContext() = default;
    IoContext(const IoContext&) = delete;
    ~IoContext() {
        if (!*home) return;
        auto pending = std::move((*home)->ops); // handlers still pending are destroyed with their context, without being run
        (*home)->ops.clear();
    }
    size_t run_one() { return (*home)->runOne(); }
    size_t run() {
        size_t n = 0;
        while ((*home)->runOne()) ++n;
        return n;
    }

private:
    Home home = here();
};

class Endpoint {
public:
    Endpoint() = default;
    Endpoint(std::string_view, std::string_view) {}
    int protocol() const { return 4; }
};

class Resolver {
public:
    explicit Resolver(IoContext&) {}
    std::vector<Endpoint> resolve(std::string_view a, std::string_view p) { return {Endpoint(a, p)}; }
};

class Acceptor {
public:
    explicit Acceptor(IoContext&) {}
    ~Acceptor() {
        if (*home) {
            (*home)->acceptorOpen = false;
            (*home)->acceptHandler = nullptr;
        }
    }
    struct reuse_address {
        explicit reuse_address(bool) {}
    };
    void open(int) { (*home)->acceptorOpen = true; }
    void set_option(reuse_address) {}
    void bind(const Endpoint&) {}
    void listen(int = 128) {}
    bool is_open() const { return (*home)->acceptorOpen; }
    void close() { (*home)->acceptorOpen = false; }
    template<typename H>
    void async_accept(H handler) {
        (*home)->acceptHandler = std::move(handler);
    }

private:
    Home home = here();
};

class Net : public webfront::networking::BasicNetworking<> {
public:
    using Acceptor = sim::Acceptor;
    using Endpoint = sim::Endpoint;
    using IoContext = sim::IoContext;
    using Resolver = sim::Resolver;
    using Socket = sim::Socket;
    using super::ConstBuffer;
    using super::MutableBuffer;

    template<typename Buffers, typename H>
    static void AsyncWrite(Socket& socket, const Buffers& buffers, H handler) {
        socket.asyncWrite(buffers, std::move(handler));
    }
    template<typename H>
    static void AsyncWrite(Socket& socket, const ConstBuffer& buffer, H handler) {
        socket.asyncWrite(std::array<ConstBuffer, 1>{buffer}, std::move(handler));
    }

    /// blocking write
    template<typename Buffers>
    static size_t Write(Socket& socket, const Buffers& buffers) {
        return socket.writeAll(buffers);
    }

    struct Error {
        static inline const std::error_code OperationAborted = aborted();
    };
};
static_assert(webfront::networking::Features<Net>);

} // namespace sim
