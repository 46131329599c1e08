// Sizes beyond 32 bits; compiled without sanitizers
#include "host.hpp"
#include "pbt.hpp"
#include "ref.hpp"

#include <fcntl.h>
#include <http/Encodings.hpp>
#include <system/FileSystem.hpp>
#include <system/NativeFS.hpp>
#include <sys/mman.h>
#include <unistd.h>
using namespace pbt;

PROPERTY("C16.huge", 2, 12, "messages of 2^29-70..2^29+140 bytes (the bit length crosses 2^32) of a repeated generated byte; non-trivial: at least 2^29 bytes") {
    size_t n = (size_t{1} << 29) + (s.chance(1, 4) ? 0 : s.draw(140));
    if (s.chance(1, 6)) n -= s.draw(70);
    auto ch = static_cast<char>(s.draw(255));
    c.describe(cat("sha1 of ", n, " bytes 0x", std::hex, +static_cast<uint8_t>(ch)));
    std::string text(n, ch);
    auto expected = ref::sha1(text);
    auto got = webfront::crypto::sha1(text);
    for (size_t i = 0; i < 5; ++i) CHECK(got[i] == expected[i], "word ", i, " of the digest of ", n, " bytes");
    c.nontrivial(n >= (size_t{1} << 29));
}

/// zeros, but for a few bytes
struct Sparse {
    size_t size = 0;
    std::map<size_t, char> marks;
};
static Sparse genSparse(Src& s, Ctx& c) {
    Sparse f;
    f.size = (size_t{1} << 32) + (s.coin() ? s.magnitude(100'000'000) : s.draw(9000));
    for (size_t at : {size_t{0}, size_t{1} << 31, (size_t{1} << 32) - 1, size_t{1} << 32, f.size - 1})
        if (at < f.size) f.marks[at] = static_cast<char>(1 + s.draw(254));
    for (auto n = s.draw(6); n > 0; --n) f.marks[s.draw(f.size - 1)] = static_cast<char>(1 + s.draw(254));
    c.describe(cat("file of ", f.size, " bytes"));
    return f;
}
static std::filesystem::path store(const Sparse& f, const std::string& name) {
    auto dir = scratchDir() / "huge";
    std::filesystem::create_directories(dir);
    auto fd = ::open((dir / name).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    CHECK(fd >= 0 && ::ftruncate(fd, static_cast<off_t>(f.size)) == 0, "scratch file");
    for (auto& [at, ch] : f.marks) CHECK(::pwrite(fd, &ch, 1, static_cast<off_t>(at)) == 1, "scratch file");
    ::close(fd);
    return dir;
}
static void readAll(Src& s, wf::fs::File& file, const Sparse& model) {
    size_t largest = 1 + s.draw(48'000'000);
    std::string buffer(largest, '\0'), zeros(largest, '\0');
    auto mark = model.marks.begin();
    size_t pos = 0;
    while (true) {
        auto want = std::max<size_t>(1, s.chance(1, 3) ? largest - s.draw(largest / 4) : largest);
        if (pos < (size_t{1} << 32) && s.chance(1, 10)) want = std::min<size_t>(largest, (size_t{1} << 32) - pos);
        auto got = file.read(std::span(buffer.data(), want));
        CHECK(got == std::min(want, model.size - pos), "read of ", want, " bytes at ", pos, " returns ", got);
        if (got == 0) break;
        for (; mark != model.marks.end() && mark->first < pos + got; ++mark) {
            auto& ch = buffer[mark->first - pos];
            CHECK(ch == mark->second, "wrong byte at ", mark->first);
            ch = 0;
        }
        CHECK(memcmp(buffer.data(), zeros.data(), got) == 0, "wrong bytes between ", pos, " and ", pos + got);
        pos += got;
        CHECK(pos == model.size || !file.eof(), "end of file reported at ", pos);
    }
    CHECK(pos == model.size && file.eof(), "end of file not reported");
}
PROPERTY("C08.huge", 6, 30, "native and embedded files of more than 4 GB (zeros with a few generated marks), read through buffers of up to 48 MB; non-trivial: all") {
    auto model = genSparse(s, c);
    if (s.coin()) {
        auto dir = store(model, "file");
        wf::fs::NativeDebugFS fs(dir);
        auto file = fs.open("file");
        CHECK(file.has_value(), "not found");
        readAll(s, *file, model);
        std::filesystem::remove(dir / "file");
        c.label("native");
    }
    else {
        auto words = (model.size + 7) / 8;
        auto memory = mmap(nullptr, words * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        CHECK(memory != MAP_FAILED, "no memory");
        for (auto& [at, ch] : model.marks) static_cast<char*>(memory)[at ^ 7] = ch; // big-endian words
        wf::fs::File file(std::span(static_cast<const uint64_t*>(memory), words), model.size);
        readAll(s, file, model);
        munmap(memory, words * 8);
        c.label("embedded");
    }
    c.nontrivial(true);
}
PROPERTY("C05.huge", 2, 12, "HEAD for native files of more than 4 GB; non-trivial: all") {
    auto model = genSparse(s, c);
    auto dir = store(model, "file.bin");
    {
        Host<wf::fs::NativeDebugFS> h(nullptr, dir);
        auto conn = h.world.connect();
        conn->toServer = "HEAD /file.bin HTTP/1.1\r\n\r\n";
        h.settle();
        auto a = ref::parseResponse(conn->toClient, true);
        CHECK(a.status == 200, "status ", a.status);
        CHECK_EQ_TEXT(a.one("Content-Length"), std::to_string(model.size), "declared length");
    }
    std::filesystem::remove(dir / "file.bin");
    c.nontrivial(true);
}

static const bool setup = [] {
    wf::log::setLogLevel(wf::log::Disabled);
    return true;
}();
