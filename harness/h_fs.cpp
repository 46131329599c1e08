// C08 reads, C09 layered file systems, C10 embedded assets
#include "host.hpp"

#include <system/BabelFS.hpp>
#include <system/IndexFS.hpp>
#include <system/JasmineFS.hpp>
#include <system/NativeFS.hpp>
#include <system/ReactFS.hpp>

#include <spawn.h>
#include <sys/wait.h>

using namespace pbt;
using wf::fs::File;
extern char** environ;

// ---------------------------------------------------------------------------------------------------------- reading
/// Reads of generated sizes checked one by one; returns what has been read
static std::string readThrough(Src& s, File& file, const std::string* expected, size_t knownSize, size_t* reads = nullptr) {
    std::string all;
    auto style = s.draw(5);
    auto fixed = 1 + s.small(5000);
    size_t idle = 0, n = 0;
    // bounded number of generated sizes, then larger and larger blocks
    for (size_t round = 0; idle < 3; ++round) {
        size_t want = 0;
        if (round > 200) want = std::min<size_t>(knownSize + 1, size_t{64} << std::min<size_t>(20, (round - 200) / 4));
        else switch (style) {
            case 0: want = 1 + s.draw(16); break;
            case 1: want = fixed; break;
            case 2: want = s.sized({8, 16, 64, 512, 4096, 8192, 65536}, knownSize > 30000 ? 140000 : 9000); break;
            case 3: want = knownSize + s.draw(3); break;
            case 4: want = s.coin() ? 0 : 1 + s.draw(200); break;
            default: { // up to a boundary near the end
                auto left = knownSize > all.size() ? knownSize - all.size() : 0;
                want = left > 3 ? left - s.draw(3) : 1 + s.draw(3);
            }
            }
        bool wasEof = file.eof();
        std::vector<char> block(want + 16, '\x5A');
        auto got = want ? file.read(std::span<char>(block.data(), want)) : file.read(std::span<char>());
        ++n;
        CHECK(got <= want, "read of ", want, " returned ", got);
        for (size_t i = got; i < block.size(); ++i) CHECK(block[i] == '\x5A', "byte ", i, " was written by a read of ", want, " which returned ", got);
        if (expected) {
            auto left = expected->size() - all.size();
            if (wasEof) CHECK(left == 0, "end of file reported ", left, " bytes before the end");
            CHECK(got == std::min(want, left), "read of ", want, " returned ", got, " with ", left, " bytes left of ", expected->size());
            CHECK(memcmp(block.data(), expected->data() + all.size(), got) == 0, "bytes ", all.size(), "..", all.size() + got, " are ",
                  printable(std::string(block.data(), got), 60), " instead of ", printable(expected->substr(all.size(), got), 60));
            if (file.eof()) CHECK(all.size() + got == expected->size(), "end of file reported before the last byte");
        }
        all.append(block.data(), got);
        if (got == 0 && want > 0) ++idle;
        CHECK(all.size() < (64u << 20), "the file does not end");
        if (round == 100 && s.coin()) break;
    }
    if (reads) *reads = n;
    return all;
}
static std::string fileContent(Src& s) {
    if (s.chance(1, 2000)) return s.blob(s.magnitude(20000000));
    if (s.chance(1, 120)) return s.blob(s.oneOf<size_t>({32768, 65536, 65536, 131072, 262144, 1048576}) - 3 + s.draw(s.coin() ? 6 : 70000));
    auto n = s.sized({8, 16, 64, 128, 4096, 8192, 8200, 16384}, 20000);
    return s.blob(n);
}

struct RawConst {
    static constexpr size_t dataSize{13};
    static constexpr std::array<uint64_t, 2> data{0x0102030405060708ull, 0x090a0b0c0dffffffull};
};
struct EncodedConst {
    static constexpr std::string_view encoding{"br"};
    static constexpr size_t dataSize{16};
    static constexpr std::array<uint64_t, 2> data{0x8081828384858687ull, 0x00ff00ff00ff00feull};
};

PROPERTY("C08.embedded", 240000, 6000000,
         "embedded files of 0..20000 bytes, some of up to 1.1 MB, a few of up to 20 MB (sizes around the word and block sizes), read by sequences of generated sizes (0, 1, odd, around the end, beyond), moved meanwhile; every "
         "read is checked against the content, with guard bytes around; non-trivial: at least three reads of a file of more than 8 bytes") {
    std::string content, encoding;
    std::vector<uint64_t> words;
    std::optional<File> file;
    switch (s.weighted({12, 1, 1})) {
    case 0: {
        content = fileContent(s);
        encoding = s.oneOf<const char*>({"", "br", "gzip"});
        words.assign((content.size() + 7) / 8, 0);
        auto junk = s.coin() ? 0 : 0xA5;
        for (size_t i = 0; i < words.size() * 8; ++i)
            words[i / 8] |= static_cast<uint64_t>(i < content.size() ? static_cast<unsigned char>(content[i]) : junk) << (8 * (7 - i % 8));
        file.emplace(std::span<const uint64_t>(words), content.size(), encoding);
    } break;
    case 1:
        content = "\x01\x02\x03\x04\x05\x06\x07\x08\x09\x0a\x0b\x0c\x0d";
        file.emplace(RawConst{});
        break;
    default:
        content = std::string("\x80\x81\x82\x83\x84\x85\x86\x87\x00\xff\x00\xff\x00\xff\x00\xfe", 16);
        encoding = "br";
        file.emplace(EncodedConst{});
    }
    if (c.describing()) c.describe(cat("embedded file of ", content.size(), " bytes"));
    CHECK(file->getEncoding() == encoding && file->isEncoded() == !encoding.empty(), "encoding ", file->getEncoding(), " instead of ", encoding);
    size_t reads = 0;
    if (s.chance(1, 4) && content.size() > 4) { // read a part, then move the file
        auto n = 1 + s.draw(content.size() - 2);
        std::vector<char> part(n);
        CHECK(file->read(part) == n && memcmp(part.data(), content.data(), n) == 0, "first part of ", n, " bytes");
        File moved(std::move(*file));
        auto rest = content.substr(n);
        auto all = readThrough(s, moved, &rest, rest.size(), &reads);
        CHECK(moved.getEncoding() == encoding, "encoding lost in a move");
    }
    else
        readThrough(s, *file, &content, content.size(), &reads);
    c.nontrivial(reads >= 3 && content.size() > 8);
    c.label(content.size() % 8 == 0, "whole words");
}

PROPERTY("C08.native", 72000, 1500000,
         "files on disk of 0..20000 bytes, some of up to 1.1 MB, a few of up to 20 MB, read through the native provider by sequences of generated sizes; non-trivial: at least three reads of a file of more than 8 bytes") {
    auto root = scratchDir() / "native";
    std::filesystem::create_directories(root / "d");
    auto content = fileContent(s);
    std::string name = s.oneOf<const char*>({"a.bin", "d/b.txt", "./a", "d/../c"});
    writeFile(root / name, content);
    if (c.describing()) c.describe(cat("file ", name, " of ", content.size(), " bytes"));
    wf::fs::NativeDebugFS fs(root);
    auto file = fs.open(name);
    CHECK(file.has_value(), "the file is not found");
    CHECK(!file->isEncoded() && file->getEncoding().empty(), "a native file has no coding");
    size_t reads = 0;
    if (s.coin()) {
        File moved(std::move(*file));
        readThrough(s, moved, &content, content.size(), &reads);
    }
    else
        readThrough(s, *file, &content, content.size(), &reads);
    c.nontrivial(reads >= 3 && content.size() > 8);
    std::filesystem::remove(root / name);
}

// ------------------------------------------------------------------------------------------------- layered providers
template<int I>
struct Layer {
    static std::map<std::string, TestFS::Entry>& files() {
        static std::map<std::string, TestFS::Entry> f;
        return f;
    }
    static std::filesystem::path& rootSeen() {
        static std::filesystem::path p;
        return p;
    }
    explicit Layer(std::filesystem::path root) { rootSeen() = root; }
    std::optional<File> open(std::filesystem::path name) {
        auto it = files().find(name.relative_path().string());
        if (it == files().end()) return {};
        return std::optional<File>(std::in_place, std::span<const uint64_t>(it->second.words), it->second.size, std::string_view(it->second.encoding));
    }
};
static const std::vector<std::string>& layerNames() {
    static const std::vector<std::string> n{"a.txt", "index.html", "d/b.js", "WebFront.js", "favicon.ico", "e"};
    return n;
}
struct Expected {
    std::string content, encoding;
};
using Model = std::map<std::string, Expected>;
template<int I>
static Model fillLayer(Src& s) {
    Model m;
    Layer<I>::files().clear();
    for (auto& n : layerNames()) {
        if (!s.chance(2, 5)) continue;
        auto content = cat("layer", I, ":") + s.blob(s.small(40));
        if (s.chance(1, 8)) content.clear();
        std::string encoding = s.oneOf<const char*>({"", "br", "gzip"});
        TestFS::add("tmp", content, encoding);
        Layer<I>::files()[n] = TestFS::files()["tmp"];
        m[n] = {content, encoding};
    }
    return m;
}
static Model nativeLayer(Src& s, const std::filesystem::path& root) {
    Model m;
    std::filesystem::remove_all(root);
    std::filesystem::create_directories(root / "d");
    for (auto& n : layerNames()) {
        if (!s.chance(2, 5)) continue;
        auto content = "native:" + s.blob(s.small(40));
        writeFile(root / n, content);
        m[n] = {content, ""};
    }
    return m;
}
static std::string drain(File& f) {
    std::string out;
    char b[4096];
    while (auto n = f.read(b)) out.append(b, n);
    return out;
}
/// another spelling of a path, which only a provider reading it as the disk does may take for the same file
static std::string respelled(Src& s, const std::string& name) {
    switch (s.draw(6)) {
    case 0: return "./" + name;
    case 1: return "missing/../" + name;
    case 2: return "d/../" + name;
    case 3: return name + "/";
    case 4: return name + "/.";
    case 5: {
        auto slash = name.find('/');
        return slash == std::string::npos ? name + "/../" + name : name.substr(0, slash) + (s.coin() ? "//" : "/./") + name.substr(slash + 1);
    }
    default: {
        auto other = name;
        other[0] = static_cast<char>(std::toupper(static_cast<unsigned char>(other[0])));
        return other;
    }
    }
}
template<typename FS>
static void checkLayers(Src& s, Ctx& c, const std::vector<const Model*>& order, const std::filesystem::path& root, bool absolute, size_t native = SIZE_MAX) {
    FS fs(root);
    size_t shadowed = 0, later = 0;
    for (auto opens = 2 + s.many(7, 1000, 400); opens > 0; --opens) {
        auto name = s.chance(1, 8) ? "absent" + s.text(s.small(4), "ab/.") : s.pick(layerNames());
        if (s.chance(1, 4)) name = respelled(s, name);
        const Expected* expected = nullptr;
        size_t holders = 0, first = 0;
        for (size_t i = 0; i < order.size(); ++i) {
            auto it = order[i]->find(name);
            if (i == native && it == order[i]->end()) { // what the disk has under this spelling
                std::error_code ec;
                if (std::filesystem::is_regular_file(root / name, ec)) it = order[i]->find(std::filesystem::relative(root / name, root, ec).string());
            }
            if (it == order[i]->end()) continue;
            if (!expected) {
                expected = &it->second;
                first = i;
            }
            ++holders;
        }
        auto asked = absolute && s.coin() ? "/" + name : name;
        auto file = fs.open(asked);
        if (c.describing()) c.describe(cat("open ", asked, " (held by ", holders, " of ", order.size(), ", first ", first, "); "));
        CHECK(file.has_value() == (expected != nullptr), asked, expected ? " is reported absent" : " is found", ", held by ", holders);
        if (!expected) continue;
        shadowed += holders > 1;
        later += first > 0;
        CHECK(file->getEncoding() == expected->encoding && file->isEncoded() == !expected->encoding.empty(), asked, " has the coding ", file->getEncoding(), " instead of ",
              expected->encoding);
        CHECK_EQ_TEXT(drain(*file), expected->content, asked);
    }
    c.nontrivial(shadowed > 0 && later > 0);
}
PROPERTY("C09.layers", 120000, 2400000,
         "1..5 providers (in memory, on disk, embedded, nested), each holding a generated subset of six names with its own content and coding, in several orders; 3..9 (rarely 1000) paths opened, one in four spelled in another way; "
         "non-trivial: a name held by several providers and a name whose first holder is not the first provider") {
    using namespace wf::fs;
    auto root = scratchDir() / "layers";
    auto l0 = fillLayer<0>(s), l1 = fillLayer<1>(s), l2 = fillLayer<2>(s), l3 = fillLayer<3>(s);
    static Model index = [] {
        Model m;
        IndexFS fs{std::filesystem::path{}};
        for (auto n : {"index.html", "favicon.ico", "WebFront.js"}) {
            auto f = fs.open(n);
            if (!f) continue;
            std::string coding(f->getEncoding());
            m[n] = {drain(*f), coding};
        }
        return m;
    }();
    std::filesystem::path where = s.coin() ? root : root / "other";
    switch (s.draw(7)) {
    case 0: checkLayers<Multi<Layer<0>>>(s, c, {&l0}, where, true); break;
    case 1: checkLayers<Multi<Layer<0>, Layer<1>>>(s, c, {&l0, &l1}, where, true); break;
    case 2: checkLayers<Multi<Layer<2>, Layer<0>, Layer<1>>>(s, c, {&l2, &l0, &l1}, where, true); break;
    case 3: checkLayers<Multi<Layer<3>, Layer<2>, Layer<1>, Layer<0>>>(s, c, {&l3, &l2, &l1, &l0}, where, true); break;
    case 4: checkLayers<Multi<Layer<0>, IndexFS, Layer<1>>>(s, c, {&l0, &index, &l1}, where, true); break;
    case 5: {
        auto native = nativeLayer(s, where);
        checkLayers<Multi<Layer<0>, NativeDebugFS, IndexFS>>(s, c, {&l0, &native, &index}, where, false, 1);
    } break;
    case 6: {
        auto native = nativeLayer(s, where);
        checkLayers<Multi<NativeDebugFS, Layer<1>, Layer<2>>>(s, c, {&native, &l1, &l2}, where, false, 0);
    } break;
    default: checkLayers<Multi<Multi<Layer<0>, Layer<1>>, Layer<2>, Multi<Layer<3>, IndexFS>>>(s, c, {&l0, &l1, &l2, &l3, &index}, where, true); break;
    }
    if (Layer<0>::rootSeen() != std::filesystem::path{}) CHECK(Layer<0>::rootSeen() == where, "a provider was given the root ", Layer<0>::rootSeen().string());
    Layer<0>::rootSeen().clear();
}

// ------------------------------------------------------------------------------------------------------------ assets
namespace {
struct Asset {
    const char *name, *kind, *sha, *media;
    std::function<std::optional<File>(std::filesystem::path)> open;
    size_t cost; // log2 of the weight of a reading
};
using AllFS = wf::fs::Multi<wf::fs::IndexFS, wf::fs::JasmineFS, wf::fs::ReactFS, wf::fs::BabelFS>;
template<typename FS>
std::optional<File> openIn(std::filesystem::path p) {
    FS fs{std::filesystem::path{"anywhere"}};
    return fs.open(p);
}
const std::vector<Asset>& assets() {
    using namespace wf::fs;
    static const std::vector<Asset> a{
      {"index.html", "html", "-", "text/html", openIn<IndexFS>, 0},
      {"favicon.ico", "ico", "-", "", openIn<IndexFS>, 0},
      {"WebFront.js", "js", "-", "", openIn<IndexFS>, 0},
      {"jasmine/4.6.0/jasmine_favicon.png", "png", "d96205cca42bc70cb435dbbfb5e932da63da2d707cf49064408242e346204913", "image/png", openIn<JasmineFS>, 0},
      {"jasmine/4.6.0/jasmine.css", "css", "86a8db72e303b1443819024928215941cbc0acf74ef12e9c68d28cb251b03c5b", "text/css", openIn<JasmineFS>, 0},
      {"jasmine/4.6.0/jasmine.js", "js", "94026d80781b805304b995098b463a4b45b966fe1687da9ed4003049e542f8a2", "", openIn<JasmineFS>, 0},
      {"jasmine/4.6.0/jasmine-html.js", "js", "48ee074b2835886eadbe64fc43cf908a8d029164f5fec5d9e7ae7d9349e4b197", "", openIn<JasmineFS>, 0},
      {"jasmine/4.6.0/boot0.js", "js", "8c25fe6aa52d76ccd11c6d450690651ea8630aef3ad491066f9c179285ba722b", "", openIn<JasmineFS>, 0},
      {"jasmine/4.6.0/boot1.js", "js", "4daa2eb7e9815e7700e74ebfcb866e774ac8e36291d9d0382f684d57816f3fbe", "", openIn<JasmineFS>, 0},
      {"react@18/umd/react.production.min.js", "js", "4b4969fa4ef3594324da2c6d78ce8766fbbc2fd121fff395aedf997db0a99a06", "", openIn<ReactFS>, 0},
      {"react-dom@18/umd/react-dom.production.min.js", "js", "21758ed084cd0e37e735722ee4f3957ea960628a29dfa6c3ce1a1d47a2d6e4f7", "", openIn<ReactFS>, 0},
      {"babel-standalone@7.22.5/babel.min.js", "js", "ee17810b11af1c9b97ac2d85752b9f73b9ba37d9f50ba6312e0709013ebeec6e", "", openIn<BabelFS>, 1},
    };
    return a;
}
/// Decodes and checks the document in a node process; the verdict of bytes already seen is remembered
std::string verdict(const Asset& a, const std::string& bytes, const std::string& coding) {
    static std::map<std::string, std::string> seen;
    auto key = cat(a.name, "|", coding, "|", bytes.size(), "|", hashText(bytes));
    auto it = seen.find(key);
    if (it != seen.end()) return it->second;
    auto path = (scratchDir() / "asset").string();
    writeFile(path, bytes);
    auto script = std::string(getenv("WF_HARNESS_DIR") ? getenv("WF_HARNESS_DIR") : ".") + "/asset.js";
    int out[2];
    if (pipe(out) != 0) throw std::runtime_error("pipe");
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, out[1], 1);
    posix_spawn_file_actions_addclose(&fa, out[0]);
    std::vector<const char*> argv{"node", script.c_str(), path.c_str(), coding.c_str(), a.kind, a.sha, nullptr};
    pid_t pid = 0;
    int rc = posix_spawnp(&pid, "node", &fa, nullptr, const_cast<char**>(argv.data()), environ);
    posix_spawn_file_actions_destroy(&fa);
    close(out[1]);
    std::string text;
    if (rc == 0) {
        char b[1000];
        ssize_t n;
        while ((n = ::read(out[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR))
            if (n > 0) text.append(b, static_cast<size_t>(n));
        int status = 0;
        while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    }
    close(out[0]);
    if (text.empty()) throw Reject{}; // node could not run: no verdict
    return seen[key] = text;
}
void mustBeComplete(const Asset& a, const std::string& bytes, const std::string& coding, const char* way) {
    auto v = verdict(a, bytes, coding);
    CHECK(v.rfind("ok", 0) == 0, a.name, " ", way, ": ", v);
}
} // namespace

PROPERTY("C10.read", 15000, 300000,
         "an embedded asset read by a sequence of generated sizes, decoded under its coding and checked as a complete document of its kind (HTML, icon, PNG checksums, script syntax, style "
         "sheet), third-party ones against the digest of their release; non-trivial: all") {
    auto& a = assets()[s.index(assets().size())];
    if (a.cost && !s.chance(1, 3)) throw Reject{};
    auto path = std::string(s.oneOf<const char*>({"", "/"})) + a.name;
    if (c.describing()) c.describe(path + " ");
    auto file = a.open(path);
    CHECK(file.has_value(), path, " is not found");
    std::string coding(file->getEncoding());
    auto again = a.open(path);
    auto size = drain(*again).size();
    auto bytes = readThrough(s, *file, nullptr, size);
    if (bytes.size() < size) bytes += drain(*file); // the reads were stopped half-way
    mustBeComplete(a, bytes, coding, "read in pieces");
    c.nontrivial();
    c.label(a.name);
}

PROPERTY("C10.served", 4500, 60000,
         "an embedded asset requested from a server combining all the embedded file systems, with generated scheduling and partial writes; its body is decoded and checked; non-trivial: all") {
    auto& a = assets()[s.index(assets().size())];
    if (a.cost && !s.chance(1, 5)) throw Reject{};
    auto target = cat("/", a.name);
    if (std::string(a.name) == "index.html" && s.coin()) target = "/";
    if (c.describing()) c.describe(target + " ");
    auto raw = cutExchange<AllFS>(s, "GET " + target + " HTTP/1.1\r\nHost: x\r\nAccept-Encoding: gzip, deflate, br\r\n\r\n", ".");
    auto r = ref::parseResponse(raw, false);
    CHECK(r.status == 200, target, " answered ", r.status);
    auto codings = r.all("Content-Encoding");
    CHECK(codings.size() <= 1, "several codings");
    mustBeComplete(a, r.body, codings.empty() ? "" : codings[0], "served");
    c.nontrivial();
    c.label(a.name);
}

PROPERTY("C10.names", 300000, 5000000,
         "paths near the documented names (other case, missing or added parts, other versions, names of another library) opened in each embedded file system; found exactly when documented "
         "there; non-trivial: a path which is not documented") {
    using namespace wf::fs;
    auto& a = s.pick(assets());
    std::string path = a.name;
    switch (s.draw(8)) {
    case 0: break;
    case 1: path = ref::randomCase(s, path); break;
    case 2: path = path.substr(0, s.draw(path.size())); break;
    case 3: path = path.substr(s.draw(path.size())); break;
    case 4: path += s.oneOf<const char*>({".br", ".gz", " ", "x", "?", "/", "/x", ".", "\n"}); break;
    case 5: path.insert(s.draw(path.size()), s.text(1, "/. a0-@")); break;
    case 6: path[s.index(path.size())] = static_cast<char>(33 + s.draw(90)); break;
    case 7: path = std::string(s.oneOf<const char*>({"index.htm", "", ".", "..", "WebFront", "favicon", "jasmine/4.6.0", "jasmine/4.6.0/", "babel.min.js", "react@18", "Index.html"})); break;
    default: path = std::string(s.oneOf<const char*>({"x/", "./", "../", "jasmine/", "jasmine/4.6.0/", "react@18/umd/", "a/../"})) + path;
    }
    if (s.coin()) path = "/" + path;
    auto relative = path.substr(std::min(path.find_first_not_of('/'), path.size()));
    struct Where {
        const char* library;
        std::function<std::optional<File>(std::filesystem::path)> open;
        size_t first, last;
    };
    static const std::vector<Where> libraries{
      {"IndexFS", openIn<IndexFS>, 0, 3}, {"JasmineFS", openIn<JasmineFS>, 3, 9}, {"ReactFS", openIn<ReactFS>, 9, 11}, {"BabelFS", openIn<BabelFS>, 11, 12}, {"all", openIn<AllFS>, 0, 12}};
    if (c.describing()) c.describe(printable(path));
    for (auto& l : libraries) {
        bool documented = false;
        for (auto i = l.first; i < l.last; ++i) documented = documented || relative == assets()[i].name;
        CHECK(l.open(path).has_value() == documented, printable(path), documented ? " is not found in " : " is found in ", l.library);
        c.nontrivial(!documented);
    }
}
