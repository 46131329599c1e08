// pbt.hpp - a small deterministic property-based testing engine.
//
// Every case is a pure function of a sequence of bounded integer choices. The same property function is driven by
//   * a seeded random generator (case i of seed S is always the same), in forked worker processes,
//   * a recorded sequence of choices (replay file, shrinker),
//   * libFuzzer's bytes (compiled with -DPBT_LIBFUZZER).
// A case fails when it throws pbt::Failure or any other exception, crashes (sanitizer report, signal, terminate), or
// burns more than a generous amount of CPU. Failures are shrunk on the choice sequence, one fork per attempt, then
// confirmed three times before they are reported.
#pragma once
#include <algorithm>
#include <array>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

struct Reject {};
struct Failure {
    std::string message;
};

inline uint64_t mix(uint64_t x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
inline uint64_t hashText(std::string_view s) {
    uint64_t h = 0xcbf29ce484222325ull;
    for (unsigned char c : s) h = (h ^ c) * 0x100000001b3ull;
    return h;
}

/// Shared memory copy of the choices drawn by a child process, so that a crash does not lose them
inline uint64_t* mirror = nullptr;
constexpr size_t mirrorCapacity = 1u << 21;
inline uint64_t* mirrorOfParent() {
    static auto m = static_cast<uint64_t*>(
      mmap(nullptr, (mirrorCapacity + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    return m;
}

inline char* mirrorText = nullptr;
constexpr size_t mirrorTextCapacity = 20000;
inline char* mirrorTextOfParent() {
    static auto m = static_cast<char*>(mmap(nullptr, mirrorTextCapacity, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    return m;
}

/// The only source of choices of a case
class Src {
public:
    enum class Mode { random, replay, bytes };
    static Src random(uint64_t seed) {
        Src s;
        s.mode = Mode::random;
        s.state = seed;
        return s;
    }
    static Src replay(std::vector<uint64_t> c) {
        Src s;
        s.mode = Mode::replay;
        s.input = std::move(c);
        return s;
    }
    static Src bytes(const uint8_t* d, size_t n) {
        Src s;
        s.mode = Mode::bytes;
        s.raw = d;
        s.rawSize = n;
        return s;
    }

    /// uniform in [0, max]
    uint64_t draw(uint64_t max) {
        if (record.size() > (1u << 21)) throw Reject{};
        uint64_t v = 0;
        switch (mode) {
        case Mode::random:
            state = state * 6364136223846793005ull + 1442695040888963407ull;
            v = mix(state);
            if (max != UINT64_MAX) v = static_cast<uint64_t>((static_cast<unsigned __int128>(v) * (static_cast<unsigned __int128>(max) + 1)) >> 64);
            break;
        case Mode::replay:
            v = pos < input.size() ? std::min(input[pos], max) : 0;
            ++pos;
            break;
        case Mode::bytes: {
            size_t n = max == 0 ? 0 : max < 256 ? 1 : max < 65536 ? 2 : max <= UINT32_MAX ? 4 : 8;
            for (size_t i = 0; i < n; ++i) {
                v = (v << 8) | (rawPos < rawSize ? raw[rawPos] : 0);
                ++rawPos;
            }
            if (max != UINT64_MAX) v %= (max + 1);
        } break;
        }
        record.push_back(v);
        if (mirror && record.size() < mirrorCapacity) {
            mirror[record.size()] = v;
            mirror[0] = record.size();
        }
        return v;
    }

    uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo); }
    size_t index(size_t n) { return static_cast<size_t>(draw(n - 1)); }
    bool coin() { return draw(1) != 0; }
    /// true with probability num/den (false is the simple value)
    bool chance(uint64_t num, uint64_t den) { return draw(den - 1) >= den - num; }
    template<typename T>
    const T& pick(const std::vector<T>& v) {
        return v[index(v.size())];
    }
    template<typename T>
    T oneOf(std::initializer_list<T> v) {
        return *(v.begin() + static_cast<std::ptrdiff_t>(index(v.size())));
    }
    /// index of a weighted alternative
    size_t weighted(std::initializer_list<unsigned> weights) {
        uint64_t total = 0;
        for (auto w : weights) total += w;
        auto v = draw(total - 1);
        size_t i = 0;
        for (auto w : weights) {
            if (v < w) return i;
            v -= w;
            ++i;
        }
        return i - 1;
    }
    /// biased towards small values, reaches max
    size_t small(size_t max) {
        if (max == 0) return 0;
        switch (weighted({5, 3, 1})) {
        case 0: return draw(std::min<size_t>(max, 4));
        case 1: return draw(std::min<size_t>(max, 40));
        default: return draw(max);
        }
    }
    /// sizes biased to the given boundaries (+-2) and small values
    size_t sized(std::initializer_list<size_t> bounds, size_t max) {
        switch (weighted({4, 4, 1})) {
        case 0: return draw(std::min<size_t>(max, 20));
        case 1: {
            auto b = oneOf(bounds);
            auto d = draw(4);
            size_t v = b + d >= 2 ? b + d - 2 : 0;
            return std::min(v, max);
        }
        default: return draw(max);
        }
    }
    /// a size of any magnitude up to max: around a power of two or of ten, or anything below one
    size_t magnitude(size_t max) {
        if (max == 0) return 0;
        size_t bits = 1;
        while (bits < 63 && (max >> bits)) ++bits;
        size_t v;
        switch (draw(2)) {
        case 0: v = (size_t{1} << draw(bits)) + draw(4); v = v >= 2 ? v - 2 : 0; break;
        case 1: {
            v = 1;
            for (auto n = draw(bits * 3 / 10); n > 0; --n) v *= 10;
            v += draw(2);
            --v;
        } break;
        default: v = draw((size_t{1} << draw(bits)) - 1); break;
        }
        return std::min(v, max);
    }
    /// usually v, rarely of any magnitude up to max
    size_t orAny(size_t v, size_t max, unsigned per = 500) { return weighted({per, 1}) == 1 ? magnitude(max) : v; }
    /// a number of steps from 1: usually up to usual, rarely of any magnitude up to rare
    size_t many(size_t usual, size_t rare, unsigned per = 200) {
        if (weighted({per, 1}) == 1) return usual + magnitude(rare - usual);
        return 1 + small(usual - 1);
    }
    /// bytes of a given length: individually chosen when short, from a compact description otherwise
    std::string blob(size_t n) {
        std::string out(n, '\0');
        if (n <= 24) {
            for (auto& c : out) c = byteChar();
            return out;
        }
        auto style = draw(5);
        auto seed = draw(0xFFFF);
        uint64_t st = mix(seed + 77);
        auto nextByte = [&st] {
            st = st * 6364136223846793005ull + 1442695040888963407ull;
            return static_cast<uint8_t>(mix(st) >> 13);
        };
        for (size_t i = 0; i < n; ++i) {
            switch (style) {
            case 0: out[i] = static_cast<char>('a' + (seed + i) % 26); break;
            case 1: out[i] = static_cast<char>(nextByte()); break;
            case 2: out[i] = static_cast<char>(i * 7 + seed); break;
            case 3: out[i] = "\0\xff\x80\x7f\r\n%+ \x01"[nextByte() % 10]; break;
            case 4: out[i] = static_cast<char>(' ' + nextByte() % 95); break;
            default: out[i] = static_cast<char>(i % 251); break;
            }
        }
        return out;
    }
    char byteChar() {
        switch (weighted({3, 2, 2})) {
        case 0: return static_cast<char>('a' + draw(25));
        case 1: return static_cast<char>(' ' + draw(94));
        default: return static_cast<char>(draw(255));
        }
    }
    /// text over an alphabet
    std::string text(size_t n, std::string_view alphabet) {
        std::string out(n, 'a');
        if (n <= 64)
            for (auto& c : out) c = alphabet[index(alphabet.size())];
        else {
            uint64_t st = draw(0xFFFF);
            for (auto& c : out) {
                st = st * 6364136223846793005ull + 1442695040888963407ull;
                c = alphabet[mix(st) % alphabet.size()];
            }
        }
        return out;
    }
    /// well-formed UTF-8 text of exactly n bytes
    std::string utf8(size_t n) {
        std::string out;
        auto style = draw(3);
        uint64_t st = mix(draw(0xFFFF));
        auto r = [&](uint64_t k) {
            st = st * 6364136223846793005ull + 1442695040888963407ull;
            return mix(st) % k;
        };
        while (out.size() < n) {
            auto left = n - out.size();
            auto kind = style == 0 ? 0 : r(6);
            if (kind == 5 && left >= 4) {
                uint32_t cp = static_cast<uint32_t>(0x10000 + r(0xFFFFF));
                out += static_cast<char>(0xF0 | (cp >> 18));
                out += static_cast<char>(0x80 | ((cp >> 12) & 0x3F));
                out += static_cast<char>(0x80 | ((cp >> 6) & 0x3F));
                out += static_cast<char>(0x80 | (cp & 0x3F));
            }
            else if (kind == 4 && left >= 3) {
                uint32_t cp = static_cast<uint32_t>(0x0800 + r(0xC000));
                out += static_cast<char>(0xE0 | (cp >> 12));
                out += static_cast<char>(0x80 | ((cp >> 6) & 0x3F));
                out += static_cast<char>(0x80 | (cp & 0x3F));
            }
            else if (kind == 3 && left >= 2) {
                uint32_t cp = static_cast<uint32_t>(0x80 + r(0x780));
                out += static_cast<char>(0xC0 | (cp >> 6));
                out += static_cast<char>(0x80 | (cp & 0x3F));
            }
            else if (style == 3 && kind == 2)
                out += static_cast<char>(r(128)); // controls and NUL included
            else
                out += static_cast<char>(' ' + r(95));
        }
        return out;
    }

    std::vector<uint64_t> record;
    size_t consumed() const { return record.size(); }

private:
    Mode mode{};
    uint64_t state{};
    std::vector<uint64_t> input;
    size_t pos{};
    const uint8_t* raw{};
    size_t rawSize{}, rawPos{};
};

struct Ctx {
    bool wantDescription = false;
    std::string description;
    bool isNontrivial = false;
    std::set<std::string> labels;
    std::map<std::string, std::string> knownHit; // known findings met in this case
    const std::set<std::string>* known = nullptr;

    void nontrivial(bool b = true) { isNontrivial = isNontrivial || b; }
    void label(std::string l) { labels.insert(std::move(l)); }
    void label(bool cond, std::string l) {
        if (cond) labels.insert(std::move(l));
    }
    /// text describing the case; mirrored to shared memory in isolated runs so that a crash does not lose it
    void describe(const std::string& s) {
        if (!wantDescription && !mirrorText) return;
        if (description.size() < 20000) description += s;
        if (mirrorText) {
            auto n = std::min(description.size(), mirrorTextCapacity - 1);
            memcpy(mirrorText, description.data(), n);
            mirrorText[n] = 0;
        }
    }
    bool describing() const { return wantDescription || mirrorText; }
    /// a listed known finding has been met exactly as listed
    void knownFinding(const std::string& id, const std::string& what) {
        if (known && known->count(id))
            knownHit[id] = what;
        else
            throw Failure{"unlisted finding " + id + ": " + what};
    }
};

inline std::string printable(std::string_view s, size_t limit = 160) {
    std::string out = "\"";
    static const char* hex = "0123456789abcdef";
    for (size_t i = 0; i < s.size() && i < limit; ++i) {
        auto c = static_cast<unsigned char>(s[i]);
        if (c == '\\' || c == '"') {
            out += '\\';
            out += static_cast<char>(c);
        }
        else if (c == '\r')
            out += "\\r";
        else if (c == '\n')
            out += "\\n";
        else if (c >= 32 && c < 127)
            out += static_cast<char>(c);
        else {
            out += "\\x";
            out += hex[c >> 4];
            out += hex[c & 15];
        }
    }
    out += "\"";
    if (s.size() > limit) out += "...(" + std::to_string(s.size()) + " bytes)";
    return out;
}

template<typename... Ts>
std::string cat(Ts&&... ts) {
    std::ostringstream os;
    (void)((os << ts), ...);
    return os.str();
}

[[noreturn]] inline void fail(const char* file, int line, const char* cond, const std::string& msg) {
    auto base = std::strrchr(file, '/');
    throw Failure{cat(base ? base + 1 : file, ":", line, ": ", cond, msg.empty() ? "" : " -- ", msg)};
}
#define CHECK(cond, ...)                                                                 \
    do {                                                                                 \
        if (!(cond)) ::pbt::fail(__FILE__, __LINE__, #cond, ::pbt::cat("" __VA_OPT__(, ) __VA_ARGS__)); \
    } while (0)
#define CHECK_EQ_TEXT(a, b, ...)                                                                                                     \
    do {                                                                                                                             \
        std::string a__ = std::string(a), b__ = std::string(b);                                                                      \
        if (a__ != b__)                                                                                                              \
            ::pbt::fail(__FILE__, __LINE__, #a " == " #b, ::pbt::diffText(a__, b__) + ::pbt::cat(" " __VA_OPT__(, ) __VA_ARGS__));   \
    } while (0)

inline std::string diffText(std::string_view a, std::string_view b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    size_t from = i > 24 ? i - 24 : 0;
    return cat("sizes ", a.size(), " vs ", b.size(), ", first difference at ", i, ": ", printable(a.substr(std::min(from, a.size())), 100), " vs ",
               printable(b.substr(std::min(from, b.size())), 100));
}

struct Property {
    std::string name; // Cxx.sub
    std::string rule;
    uint64_t quickCases, thoroughCases;
    std::function<void(Src&, Ctx&)> run;
};
inline std::vector<Property>& registry() {
    static std::vector<Property> r;
    return r;
}
struct Registrar {
    Registrar(std::string name, uint64_t quick, uint64_t thorough, std::string rule, std::function<void(Src&, Ctx&)> f) {
        registry().push_back({std::move(name), std::move(rule), quick, thorough, std::move(f)});
    }
};
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
/// PROPERTY("C13.roundtrip", quick cases, thorough cases, "rule") { body using Src& s, Ctx& c }
#define PROPERTY(name, quick, thorough, rule) PROPERTY_(name, quick, thorough, rule, __COUNTER__)
#define PROPERTY_(name, quick, thorough, rule, n) PROPERTY__(name, quick, thorough, rule, n)
#define PROPERTY__(name, quick, thorough, rule, n)                                          \
    static void pbt_prop_##n(::pbt::Src& s, ::pbt::Ctx& c);                                 \
    static ::pbt::Registrar pbt_reg_##n(name, quick, thorough, rule, pbt_prop_##n);         \
    static void pbt_prop_##n([[maybe_unused]] ::pbt::Src& s, [[maybe_unused]] ::pbt::Ctx& c)

// hook run before every case (reset of global state of the code under test)
inline std::function<void()>& beforeCase() {
    static std::function<void()> f;
    return f;
}

enum class Outcome { pass, rejected, failed };
inline Outcome runCase(const Property& p, Src& s, Ctx& c, std::string& message) {
    if (beforeCase()) beforeCase()();
    try {
        p.run(s, c);
        return Outcome::pass;
    }
    catch (const Reject&) {
        return Outcome::rejected;
    }
    catch (const Failure& f) {
        message = f.message;
    }
    catch (const std::exception& e) {
        message = cat("unexpected exception: ", e.what());
    }
    return Outcome::failed;
}

inline double now() {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return static_cast<double>(ts.tv_sec) + static_cast<double>(ts.tv_nsec) * 1e-9;
}

inline int cpuLimitSeconds = 20; // CPU of one case (cases take milliseconds) before it is called a hang; wall time limit is 5 times this
inline void armTimers(bool on) {
    itimerval v{};
    v.it_value.tv_sec = on ? cpuLimitSeconds : 0;
    setitimer(ITIMER_VIRTUAL, &v, nullptr);
    itimerval r{};
    r.it_value.tv_sec = on ? 5 * cpuLimitSeconds : 0;
    setitimer(ITIMER_REAL, &r, nullptr);
}

inline std::string jsonText(std::string_view s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += static_cast<char>(ch);
        }
        else if (ch < 32 || ch >= 127) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        }
        else
            o += static_cast<char>(ch);
    }
    return o + "\"";
}

struct Attempt {
    bool failed = false;
    std::string message;
    std::vector<uint64_t> choices; // normalised
    std::string description;
    std::string log;               // stderr of the child (sanitizer report)
};

/// Runs f in a child; f returns a Failure message or empty
inline Attempt isolated(const std::function<bool(std::string&)>& f, const std::string& scratch) {
    Attempt a;
    int fds[2];
    auto mem = mirrorOfParent();
    auto text = mirrorTextOfParent();
    mem[0] = 0;
    text[0] = 0;
    if (pipe(fds) != 0) throw std::runtime_error("pipe");
    auto logPath = scratch + "/attempt.log";
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        close(fds[0]);
        int lf = open(logPath.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        if (lf >= 0) dup2(lf, 2);
        armTimers(true);
        mirror = mem;
        mirrorText = text;
        std::string msg;
        bool failed = f(msg);
        std::string out = failed ? "F" : "P";
        out += msg;
        size_t off = 0;
        while (off < out.size()) {
            auto w = write(fds[1], out.data() + off, out.size() - off);
            if (w <= 0) break;
            off += static_cast<size_t>(w);
        }
        close(fds[1]);
        _exit(0);
    }
    close(fds[1]);
    std::string in;
    char buf[65536];
    ssize_t n;
    while ((n = ::read(fds[0], buf, sizeof buf)) > 0 || (n < 0 && errno == EINTR))
        if (n > 0) in.append(buf, static_cast<size_t>(n));
    close(fds[0]);
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    a.description = text;
    a.choices.assign(mem + 1, mem + 1 + std::min<uint64_t>(mem[0], mirrorCapacity));
    if (!in.empty() && WIFEXITED(status) && WEXITSTATUS(status) == 0) {
        a.failed = in[0] == 'F';
        a.message = in.substr(1);
    }
    else {
        a.failed = true;
        std::ifstream lf(logPath);
        std::stringstream ss;
        ss << lf.rdbuf();
        a.log = ss.str().substr(0, 6000);
        if (WIFSIGNALED(status) && (WTERMSIG(status) == SIGVTALRM || WTERMSIG(status) == SIGALRM))
            a.message = "does not terminate (CPU/wall limit of one case exceeded)";
        else if (WIFSIGNALED(status))
            a.message = cat("crash: signal ", WTERMSIG(status));
        else
            a.message = cat("crash: exit status ", WEXITSTATUS(status));
        auto pick = [&](const char* key) {
            auto p = a.log.find(key);
            if (p != std::string::npos) a.message += " | " + a.log.substr(p, std::min<size_t>(200, a.log.find('\n', p) - p));
        };
        pick("ERROR: AddressSanitizer");
        pick("runtime error:");
        pick("Assertion");
        pick("terminate called");
    }
    return a;
}

inline Attempt attemptChoices(const Property& p, const std::vector<uint64_t>& choices, const std::set<std::string>& known, const std::string& scratch) {
    auto a = isolated(
      [&](std::string& msg) {
          auto s = Src::replay(choices);
          Ctx c;
          c.known = &known;
          return runCase(p, s, c, msg) == Outcome::failed;
      },
      scratch);
    if (a.choices.empty()) a.choices = choices;
    return a;
}

inline std::vector<uint64_t> shrink(const Property& p, std::vector<uint64_t> best, const std::set<std::string>& known, const std::string& scratch, double wall, Attempt& last) {
    auto deadline = now() + wall;
    int attempts = 0;
    auto better = [&](const std::vector<uint64_t>& cand) {
        if (now() > deadline || attempts > 6000) return false;
        ++attempts;
        auto a = attemptChoices(p, cand, known, scratch);
        if (!a.failed) return false;
        auto c = a.choices.size() <= cand.size() ? a.choices : cand;
        if (c.size() < best.size() || (c.size() == best.size() && c < best)) {
            best = c;
            last = a;
            return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && now() < deadline) {
        progress = false;
        for (size_t chunk = std::max<size_t>(1, best.size() / 2); chunk >= 1; chunk /= 2) {
            for (size_t i = 0; i + chunk <= best.size() && now() < deadline;) {
                auto cand = best;
                cand.erase(cand.begin() + static_cast<std::ptrdiff_t>(i), cand.begin() + static_cast<std::ptrdiff_t>(i + chunk));
                if (better(cand))
                    progress = true;
                else
                    i += chunk;
            }
            if (chunk == 1) break;
        }
        for (size_t chunk = std::min<size_t>(32, std::max<size_t>(1, best.size())); chunk >= 1; chunk /= 2) {
            for (size_t i = 0; i + chunk <= best.size() && now() < deadline; i += chunk) {
                auto cand = best;
                bool any = false;
                for (size_t k = i; k < i + chunk; ++k) {
                    any = any || cand[k];
                    cand[k] = 0;
                }
                if (any && better(cand)) progress = true;
            }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < best.size() && now() < deadline; ++i) {
            uint64_t lo = 0;
            while (i < best.size() && lo < best[i] && now() < deadline) {
                auto cand = best;
                cand[i] = lo + (best[i] - lo) / 2;
                if (better(cand))
                    progress = true;
                else
                    lo = lo + (best[i] - lo) / 2 + 1;
                if (i < best.size() && lo == best[i]) break;
            }
            // lower this one while removing or lowering the next
            if (i + 1 < best.size() && best[i] > 0) {
                auto cand = best;
                --cand[i];
                cand.erase(cand.begin() + static_cast<std::ptrdiff_t>(i) + 1);
                if (better(cand)) progress = true;
            }
        }
    }
    return best;
}

inline std::string arg(int argc, char** argv, const char* name, const char* dflt) {
    for (int i = 1; i + 1 < argc; ++i)
        if (std::strcmp(argv[i], name) == 0) return argv[i + 1];
    return dflt;
}

inline uint64_t caseSeed(uint64_t seed, const std::string& name, uint64_t i) { return mix(mix(seed ^ hashText(name)) + i * 0x9E3779B97F4A7C15ull); }

inline const Property* findProperty(const std::string& name) {
    for (auto& p : registry())
        if (p.name == name) return &p;
    return nullptr;
}

inline std::set<std::string> splitSet(const std::string& t) {
    std::set<std::string> out;
    std::stringstream ss(t);
    std::string x;
    while (std::getline(ss, x, ','))
        if (!x.empty()) out.insert(x);
    return out;
}

/// a range replay: the failure needs the cases a worker ran before it in the same process
inline Attempt attemptRange(const Property& p, uint64_t seed, uint64_t from, uint64_t stride, uint64_t to, const std::set<std::string>& known, const std::string& scratch) {
    return isolated(
      [&](std::string& msg) {
          for (uint64_t i = from; i <= to; i += stride) {
              armTimers(true);
              auto s = Src::random(caseSeed(seed, p.name, i));
              Ctx c;
              c.known = &known;
              if (runCase(p, s, c, msg) == Outcome::failed) {
                  msg += cat(" [at case ", i, "]");
                  return true;
              }
          }
          return false;
      },
      scratch);
}

struct Shared {
    volatile uint64_t current;
    volatile uint64_t done;
    volatile int failed; // 1: failure thrown
    volatile uint64_t failedIndex;
};

inline int replayMain(const std::string& file, const std::set<std::string>& known, const std::string& scratch) {
    std::ifstream in(file);
    std::string line, name, kind;
    std::vector<uint64_t> choices;
    uint64_t seed = 0, from = 0, stride = 1, to = 0;
    while (std::getline(in, line)) {
        auto eq = line.find('=');
        if (eq == std::string::npos) continue;
        auto k = line.substr(0, eq), v = line.substr(eq + 1);
        if (k == "check") name = v;
        if (k == "kind") kind = v;
        if (k == "seed") seed = std::stoull(v);
        if (k == "from") from = std::stoull(v);
        if (k == "stride") stride = std::stoull(v);
        if (k == "to") to = std::stoull(v);
        if (k == "choices") {
            std::stringstream ss(v);
            uint64_t x;
            while (ss >> x) choices.push_back(x);
        }
    }
    auto p = findProperty(name);
    if (!p) {
        printf("unknown check %s\n", name.c_str());
        return 2;
    }
    if (kind != "range") {
        auto a = attemptChoices(*p, choices, known, scratch);
        printf("case: %s\n", a.description.c_str());
        printf("%s\n%s\n%s\n", a.failed ? "FAILS" : "passes", a.message.c_str(), a.log.c_str());
        return a.failed ? 1 : 0;
    }
    auto a = attemptRange(*p, seed, from, stride, to, known, scratch);
    printf("%s\n%s\n%s\n", a.failed ? "FAILS" : "passes", a.message.c_str(), a.log.c_str());
    return a.failed ? 1 : 0;
}

inline int runMain(int argc, char** argv) {
    auto scratch = arg(argc, argv, "--scratch", "/tmp");
    auto known = splitSet(arg(argc, argv, "--known", ""));
    cpuLimitSeconds = std::stoi(arg(argc, argv, "--cpulimit", "20"));
    auto replayFile = arg(argc, argv, "--replay", "");
    if (!replayFile.empty()) return replayMain(replayFile, known, scratch);
    auto name = arg(argc, argv, "--prop", "");
    if (name.empty()) {
        for (auto& p : registry()) printf("%s %llu %llu\n", p.name.c_str(), (unsigned long long)p.quickCases, (unsigned long long)p.thoroughCases);
        return 0;
    }
    auto prop = findProperty(name);
    if (!prop) {
        fprintf(stderr, "unknown check %s\n", name.c_str());
        return 2;
    }
    auto seed = std::stoull(arg(argc, argv, "--seed", "1"));
    auto tier = arg(argc, argv, "--tier", "quick");
    uint64_t cases = std::stoull(arg(argc, argv, "--cases", "0"));
    if (!cases) cases = tier == "quick" ? prop->quickCases : prop->thoroughCases;
    auto jobs = std::stoull(arg(argc, argv, "--jobs", "8"));
    auto maxWall = std::stod(arg(argc, argv, "--maxwall", "150"));
    auto outPath = arg(argc, argv, "--out", "");
    auto replayPath = arg(argc, argv, "--replay-out", "");
    auto fromBytes = arg(argc, argv, "--bytes", ""); // a libFuzzer artefact to confirm and shrink

    auto start = now();
    bool violation = false;
    std::string violationMessage, violationDescription, violationLog, kind = "choices";
    std::vector<uint64_t> choices;
    uint64_t rangeFrom = 0, rangeTo = 0;
    uint64_t evaluations = 0, rejected = 0, nontrivial = 0;
    std::map<std::string, uint64_t> labels;
    std::map<std::string, std::string> knownHits;
    std::vector<std::string> samples;
    std::unordered_set<uint64_t> distinct;
    bool budgetHit = false;
    uint64_t flaky = 0;

    auto writeOut = [&] {
        std::ofstream o(outPath);
        o << "{\"check\":" << jsonText(name) << ",\"rule\":" << jsonText(prop->rule) << ",\"planned\":" << cases << ",\"evaluations\":" << evaluations
          << ",\"rejected\":" << rejected << ",\"nontrivial\":" << nontrivial << ",\"distinct_nontrivial\":" << distinct.size()
          << ",\"budget_hit\":" << (budgetHit ? "true" : "false") << ",\"unreproducible\":" << flaky << ",\"wall_s\":" << now() - start << ",\"violation\":" << (violation ? "true" : "false")
          << ",\"message\":" << jsonText(violationMessage) << ",\"case\":" << jsonText(violationDescription) << ",\"log\":" << jsonText(violationLog) << ",\"labels\":{";
        bool first = true;
        for (auto& [k, v] : labels) {
            o << (first ? "" : ",") << jsonText(k) << ":" << v;
            first = false;
        }
        o << "},\"known\":{";
        first = true;
        for (auto& [k, v] : knownHits) {
            o << (first ? "" : ",") << jsonText(k) << ":" << jsonText(v);
            first = false;
        }
        o << "},\"samples\":[";
        first = true;
        for (auto& v : samples) {
            o << (first ? "" : ",") << jsonText(v);
            first = false;
        }
        o << "]}\n";
    };

    auto report = [&](Attempt a) {
        violation = true;
        violationMessage = a.message;
        violationLog = a.log.substr(0, 3000);
        violationDescription = a.description.substr(0, 4000);
        if (!replayPath.empty()) {
            std::ofstream r(replayPath);
            r << "check=" << name << "\nkind=" << kind << "\nseed=" << seed << "\nfrom=" << rangeFrom << "\nstride=" << jobs << "\nto=" << rangeTo
              << "\nmessage=" << printable(violationMessage, 2000) << "\ncase=" << printable(violationDescription, 3000) << "\nchoices=";
            for (auto v : choices) r << v << ' ';
            r << "\n";
        }
    };

    auto confirmAndShrink = [&](std::vector<uint64_t> initial) -> bool {
        Attempt last;
        for (int i = 0; i < 3; ++i) {
            last = attemptChoices(*prop, initial, known, scratch);
            if (!last.failed) return false;
        }
        choices = shrink(*prop, initial, known, scratch, 60.0, last);
        Attempt fin;
        bool stable = true;
        for (int i = 0; i < 3 && stable; ++i) {
            fin = attemptChoices(*prop, choices, known, scratch);
            stable = fin.failed;
        }
        if (!stable) {
            choices = initial;
            fin = attemptChoices(*prop, choices, known, scratch);
        }
        report(fin);
        return true;
    };

    if (!fromBytes.empty()) {
        std::ifstream f(fromBytes, std::ios::binary);
        std::stringstream ss;
        ss << f.rdbuf();
        auto data = ss.str();
        auto a = isolated(
          [&](std::string& msg) {
              auto s = Src::bytes(reinterpret_cast<const uint8_t*>(data.data()), data.size());
              Ctx c;
              c.known = &known;
              return runCase(*prop, s, c, msg) == Outcome::failed;
          },
          scratch);
        evaluations = 1;
        if (a.failed) confirmAndShrink(a.choices);
        writeOut();
        return violation ? 1 : 0;
    }

    auto shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    auto stopFlag = static_cast<volatile int*>(mmap(nullptr, sizeof(int), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::vector<pid_t> pids(jobs);
    fflush(stdout);
    for (uint64_t w = 0; w < jobs; ++w) {
        shared[w].current = UINT64_MAX;
        unlink((scratch + "/worker" + std::to_string(w) + ".res").c_str());
        pids[w] = fork();
        if (pids[w] == 0) {
            auto lf = open((scratch + "/worker" + std::to_string(w) + ".log").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            if (lf >= 0) dup2(lf, 2);
            uint64_t ev = 0, rej = 0, nt = 0;
            bool hit = false;
            std::map<std::string, uint64_t> lab;
            std::map<std::string, std::string> kn;
            std::vector<std::string> smp;
            std::vector<uint64_t> hashes;
            for (uint64_t i = w; i < cases; i += jobs) {
                if (*stopFlag) break;
                if (now() - start > maxWall) {
                    hit = true;
                    break;
                }
                shared[w].current = i;
                if ((ev & 15) == 0) armTimers(true);
                auto s = Src::random(caseSeed(seed, prop->name, i));
                Ctx c;
                c.known = &known;
                c.wantDescription = smp.size() < 2 && (i / jobs) % 7 == w % 7;
                std::string msg;
                auto o = runCase(*prop, s, c, msg);
                ++ev;
                if (o == Outcome::rejected) {
                    ++rej;
                    continue;
                }
                if (o == Outcome::failed) {
                    shared[w].failedIndex = i;
                    shared[w].failed = 1;
                    break;
                }
                for (auto& l : c.labels) ++lab[l];
                for (auto& [k, v] : c.knownHit) kn[k] = v;
                if (c.isNontrivial) {
                    ++nt;
                    uint64_t h = s.record.size();
                    for (auto v : s.record) h = mix(h ^ v);
                    hashes.push_back(h);
                    if (c.wantDescription && !c.description.empty()) smp.push_back(c.description.substr(0, 600));
                }
            }
            armTimers(false);
            std::ofstream o(scratch + "/worker" + std::to_string(w) + ".res", std::ios::binary);
            o << ev << ' ' << rej << ' ' << nt << ' ' << hit << ' ' << hashes.size() << ' ' << lab.size() << ' ' << kn.size() << ' ' << smp.size() << '\n';
            o.write(reinterpret_cast<char*>(hashes.data()), static_cast<std::streamsize>(hashes.size() * 8));
            auto text = [&](const std::string& t) { o << t.size() << ' ' << t; };
            for (auto& [k, v] : lab) {
                text(k);
                o << ' ' << v << ' ';
            }
            for (auto& [k, v] : kn) {
                text(k);
                text(v);
            }
            for (auto& v : smp) text(v);
            o.close();
            shared[w].done = 1;
            _exit(0);
        }
    }
    std::vector<uint64_t> crashed;
    uint64_t left = jobs;
    while (left) {
        int status;
        pid_t pid = waitpid(-1, &status, 0);
        if (pid < 0) {
            if (errno == EINTR) continue;
            break;
        }
        auto it = std::find(pids.begin(), pids.end(), pid);
        if (it == pids.end()) continue;
        auto w = static_cast<size_t>(it - pids.begin());
        --left;
        if (!shared[w].done) {
            crashed.push_back(w);
            *stopFlag = 1;
        }
        else if (shared[w].failed)
            *stopFlag = 1;
    }
    for (uint64_t w = 0; w < jobs; ++w) {
        std::ifstream in(scratch + "/worker" + std::to_string(w) + ".res", std::ios::binary);
        uint64_t ev = 0, rej = 0, nt = 0, nh = 0, nl = 0, nk = 0, ns = 0;
        bool hit = false;
        if (!(in >> ev >> rej >> nt >> hit >> nh >> nl >> nk >> ns)) continue;
        in.get();
        std::vector<uint64_t> hashes(nh);
        in.read(reinterpret_cast<char*>(hashes.data()), static_cast<std::streamsize>(nh * 8));
        distinct.insert(hashes.begin(), hashes.end());
        auto text = [&] {
            size_t n = 0;
            in >> n;
            in.get();
            std::string t(n, '\0');
            in.read(t.data(), static_cast<std::streamsize>(n));
            return t;
        };
        for (uint64_t i = 0; i < nl; ++i) {
            auto k = text();
            uint64_t v = 0;
            in >> v;
            in.get();
            labels[k] += v;
        }
        for (uint64_t i = 0; i < nk; ++i) {
            auto k = text();
            knownHits[k] = text();
        }
        for (uint64_t i = 0; i < ns; ++i) samples.push_back(text());
        evaluations += ev;
        rejected += rej;
        nontrivial += nt;
        budgetHit = budgetHit || hit;
    }
    if (samples.size() > 6) samples.resize(6);

    // failing cases, lowest index first
    std::vector<uint64_t> failures;
    for (uint64_t w = 0; w < jobs; ++w) {
        bool crash = std::find(crashed.begin(), crashed.end(), w) != crashed.end();
        if (shared[w].failed)
            failures.push_back(uint64_t{shared[w].failedIndex});
        else if (crash && shared[w].current != UINT64_MAX)
            failures.push_back(uint64_t{shared[w].current});
    }
    std::sort(failures.begin(), failures.end());
    for (auto index : failures) {
        if (violation) break;
        auto gen = isolated(
          [&](std::string& msg) {
              auto s = Src::random(caseSeed(seed, prop->name, index));
              Ctx c;
              c.known = &known;
              return runCase(*prop, s, c, msg) == Outcome::failed;
          },
          scratch);
        std::vector<uint64_t> initial = gen.choices;
        if (gen.failed && confirmAndShrink(initial)) break;
        // not reproducible alone: replay the worker's history
        uint64_t w = index % jobs;
        uint64_t from = w;
        auto a = attemptRange(*prop, seed, from, jobs, index, known, scratch);
        bool stable = a.failed;
        for (int i = 0; i < 2 && stable; ++i) stable = attemptRange(*prop, seed, from, jobs, index, known, scratch).failed;
        if (!stable) {
            ++flaky;
            continue;
        }
        for (uint64_t span = 1; span < (index - w) / jobs; span *= 4) { // shortest history that still fails
            auto f = index - span * jobs;
            if (attemptRange(*prop, seed, f, jobs, index, known, scratch).failed && attemptRange(*prop, seed, f, jobs, index, known, scratch).failed) {
                from = f;
                break;
            }
        }
        kind = "range";
        rangeFrom = from;
        rangeTo = index;
        report(a);
    }
    writeOut();
    return violation ? 1 : 0;
}

} // namespace pbt

#ifdef PBT_LIBFUZZER
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    static const pbt::Property* p = [] {
        auto n = getenv("PBT_PROP");
        auto q = pbt::findProperty(n ? n : "");
        if (!q) {
            fprintf(stderr, "PBT_PROP not set to a known check\n");
            _exit(2);
        }
        return q;
    }();
    static const std::set<std::string> known = pbt::splitSet(getenv("PBT_KNOWN") ? getenv("PBT_KNOWN") : "");
    auto s = pbt::Src::bytes(data, size);
    pbt::Ctx c;
    c.known = &known;
    std::string msg;
    if (pbt::runCase(*p, s, c, msg) == pbt::Outcome::failed) {
        fprintf(stderr, "PBT FAILURE %s\n", msg.c_str());
        __builtin_trap();
    }
    return 0;
}
#else
int main(int argc, char** argv) { return pbt::runMain(argc, argv); }
#endif
