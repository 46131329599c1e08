// node.hpp - the browser side of the checks: a node child process running browser.js, one per process of the check
#pragma once
#include "msgref.hpp"

#include <deque>
#include <sys/prctl.h>

namespace node {

inline std::string hex(std::string_view s) {
    if (s.empty()) return "-";
    static const char* digits = "0123456789abcdef";
    std::string out;
    out.reserve(2 * s.size());
    for (unsigned char c : s) {
        out += digits[c >> 4];
        out += digits[c & 15];
    }
    return out;
}
inline std::string unhex(std::string_view h) {
    if (h == "-") return {};
    std::string out;
    out.reserve(h.size() / 2);
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    for (size_t i = 0; i + 1 < h.size(); i += 2) out += static_cast<char>(v(h[i]) * 16 + v(h[i + 1]));
    return out;
}
inline std::vector<std::string> words(std::string_view line) {
    std::vector<std::string> out;
    for (size_t p = 0; p <= line.size();) {
        auto e = std::min(line.find(' ', p), line.size());
        out.emplace_back(line.substr(p, e - p));
        p = e + 1;
    }
    return out;
}
inline std::string valueText(const ref::Value& v) {
    switch (v.kind) {
    case ref::Value::num: {
        uint64_t bits;
        memcpy(&bits, &v.n, 8);
        char b[20];
        snprintf(b, sizeof b, "n%016llx", static_cast<unsigned long long>(bits));
        return b;
    }
    case ref::Value::boolean: return v.b ? "T" : "F";
    case ref::Value::text: return "s" + hex(v.t);
    case ref::Value::list: {
        std::string o = "[";
        for (auto& i : v.items) o += " " + valueText(i);
        return o + " ]";
    }
    default: throw pbt::Failure{"harness: not a browser value"};
    }
}
inline std::vector<ref::Value> valuesOf(const std::vector<std::string>& w, size_t& pos) {
    std::vector<ref::Value> out;
    while (pos < w.size()) {
        auto& t = w[pos++];
        if (t == "]") break;
        if (t == "[") out.push_back(ref::Value::of(valuesOf(w, pos)));
        else if (t == "T" || t == "F") out.push_back(ref::Value::of(t == "T"));
        else if (t[0] == 'n') {
            uint64_t bits = std::stoull(t.substr(1), nullptr, 16);
            double d;
            memcpy(&d, &bits, 8);
            out.push_back(ref::Value::of(d));
        }
        else if (t[0] == 's') out.push_back(ref::Value::of(unhex(std::string_view(t).substr(1))));
        else out.push_back(ref::Value::err("a JavaScript " + unhex(std::string_view(t).substr(1)))); // never equal to what is sent
    }
    return out;
}

struct Event {
    std::string page, kind;
    std::vector<std::string> args; // still in hexadecimal
    std::string text(size_t i = 0) const { return unhex(args.at(i)); }
};

class Child {
public:
    static Child& get() {
        static std::unique_ptr<Child> c;
        if (!c || c->owner != getpid()) {
            if (c) c.release(); // belongs to another process
            c.reset(new Child);
        }
        return *c;
    }
    std::vector<Event> ask(const std::string& line) {
        send(line + "\n");
        std::vector<Event> out;
        for (;;) {
            auto l = readLine();
            if (l == ".") break;
            auto w = words(l);
            Event e;
            e.page = w.at(0);
            e.kind = w.at(1);
            e.args.assign(w.begin() + 2, w.end());
            if (e.kind == "failed") throw pbt::Failure{"the browser could not do \"" + line.substr(0, 80) + "\": " + e.text()};
            out.push_back(std::move(e));
        }
        return out;
    }
    std::string loaded; // script loaded in the child

private:
    pid_t owner, pid;
    int in = -1, out = -1;
    std::string buffer;
    size_t pos = 0;
    Child() : owner(getpid()) {
        int a[2], b[2];
        if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) throw std::runtime_error("pipe");
        auto dir = std::getenv("WF_HARNESS_DIR");
        std::string script = std::string(dir ? dir : ".") + "/browser.js";
        signal(SIGPIPE, SIG_IGN);
        pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            itimerval off{};
            setitimer(ITIMER_VIRTUAL, &off, nullptr);
            setitimer(ITIMER_REAL, &off, nullptr);
            dup2(a[0], 0);
            dup2(b[1], 1);
            unsetenv("NODE_OPTIONS");
            execlp("node", "node", "--max-old-space-size=512", script.c_str(), nullptr);
            _exit(127);
        }
        close(a[0]);
        close(b[1]);
        in = a[1];
        out = b[0];
    }
    void send(std::string_view t) {
        while (!t.empty()) {
            auto n = ::write(in, t.data(), t.size());
            if (n < 0 && errno == EINTR) continue;
            if (n <= 0) throw std::runtime_error("harness: the node child is gone");
            t.remove_prefix(static_cast<size_t>(n));
        }
    }
    std::string readLine() {
        for (;;) {
            auto e = buffer.find('\n', pos);
            if (e != std::string::npos) {
                auto l = buffer.substr(pos, e - pos);
                pos = e + 1;
                if (pos == buffer.size()) {
                    buffer.clear();
                    pos = 0;
                }
                return l;
            }
            char b[65536];
            auto n = ::read(out, b, sizeof b);
            if (n < 0 && errno == EINTR) continue;
            if (n <= 0) throw std::runtime_error("harness: the node child is gone");
            buffer.append(b, static_cast<size_t>(n));
        }
    }
};

} // namespace node
