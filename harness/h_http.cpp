// HTTP side of the server, driven over the simulated network:
// C01 segmentation, C02 request parsing, C03 isolation, C04 document root, C05 decision table, C06 responses,
// C07 compressed files, C11 content types, C12 upgrades, C35 header lookup
#include "host.hpp"
#include "wsref.hpp"

#include <system/IndexFS.hpp>
#include <system/NativeFS.hpp>

using namespace pbt;
namespace wf = webfront;
using ref::HttpRequest;
using ref::HttpResponse;
using wf::http::Request;
using ConnPtr = std::shared_ptr<sim::Conn>;

// ----------------------------------------------------------------------------------------------------- generation
static HttpRequest genRequest(Src& s) {
    HttpRequest r;
    static const std::vector<std::string> methods{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "TRACE", "CONNECT", "PATCH"};
    switch (s.weighted({4, 2, 1})) {
    case 0: r.method = s.oneOf<const char*>({"GET", "HEAD"}); break;
    case 1: r.method = s.pick(methods); break;
    default: r.method = s.text(1 + s.small(12), ref::tokenChars); break;
    }
    switch (s.weighted({3, 3, 2})) {
    case 0: r.target = "/" + s.text(s.small(20), "abcdefgh/.-_%20+AZ"); break;
    case 1: {
        r.target = "/";
        for (size_t n = s.small(80); n > 0; --n) {
            auto c = static_cast<char>(s.draw(255));
            if (static_cast<unsigned char>(c) > 32 && c != 127) r.target += c;
        }
    } break;
    default: r.target = s.oneOf<const char*>({"/", "/index.html", "/favicon.ico", "/WebFront.js", "*", "http://host/x", "/a/../b", "/%00", "/x?y=z#t", "%2F"}); break;
    }
    auto version = [&]() -> int { return static_cast<int>(s.weighted({6, 2, 1}) == 0 ? 1 : s.draw(999)); };
    r.major = version();
    r.minor = version();
    for (auto n = s.small(8); n > 0; --n) {
        auto name = s.coin() ? ref::otherHeader(s).first : s.text(1 + s.small(20), ref::tokenChars);
        r.headers.emplace_back(name, ref::fieldValue(s, s.small(90)));
    }
    if (s.chance(1, 40)) { // larger than any buffer, or with many headers
        switch (s.draw(4)) {
        case 0: r.target += "/" + s.text(s.magnitude(100000), "abcdefgh/.-_%20+AZ"); break;
        case 1: r.headers.emplace_back("X-Large", "v" + s.text(s.magnitude(300000), "abc XYZ,;=\"") + "v"); break;
        case 2: r.headers.emplace_back("X-" + s.text(s.magnitude(10000), ref::tokenChars), "v"); break;
        case 3: {
            auto name = s.text(1 + s.small(10), ref::tokenChars);
            for (auto n = s.magnitude(700); n > 0; --n) r.headers.emplace_back(name, cat("value ", n));
        } break;
        default: r.method = s.oneOf<const char*>({"GET", "HEAD"}); r.headers.emplace_back("Cookie", "v" + s.text(8192 + s.magnitude(9000), "abcdef") + "v"); break;
        }
    }
    return r;
}

struct Fed {
    enum { more, complete, refused } kind = more;
    size_t consumed = 0; // bytes up to completion or refusal
    std::string text;
};
static std::string show(const Request& r) {
    std::string t = cat(static_cast<int>(r.method), " ", r.uri, " ", r.httpVersionMajor, ".", r.httpVersionMinor);
    for (auto& h : r.headers) t += "\n" + h.name + ": " + h.value;
    return t;
}
static Fed feed(const std::string& bytes, const std::vector<size_t>& cuts) {
    Request r;
    Fed o;
    size_t pos = 0;
    for (size_t i = 0; i <= cuts.size() && o.kind == Fed::more; ++i) {
        auto end = i < cuts.size() ? cuts[i] : bytes.size();
        std::vector<char> piece(bytes.begin() + static_cast<std::ptrdiff_t>(pos), bytes.begin() + static_cast<std::ptrdiff_t>(end)); // exact heap block
        pos = end;
        try {
            bool done = r.parseSomeData(piece.data(), piece.data() + piece.size());
            CHECK(done == r.completed(), "parseSomeData() returns ", done, " but completed() is ", r.completed());
            if (done) {
                o.kind = Fed::complete;
                o.consumed = pos;
                o.text = show(r);
            }
        }
        catch (const wf::http::BadRequestException&) {
            o.kind = Fed::refused;
            o.consumed = pos;
        }
    }
    return o;
}

/// a byte stream: valid requests, corrupted ones, garbage, trailing bytes
static std::string genStream(Src& s) {
    std::string t = genRequest(s).raw();
    switch (s.weighted({4, 4, 1, 1})) {
    case 0: break;
    case 1:
        for (auto n = 1 + s.draw(2); n > 0 && !t.empty(); --n) {
            auto at = s.index(t.size());
            switch (s.draw(4)) {
            case 0: t[at] = static_cast<char>(s.draw(255)); break;
            case 1: t.erase(at, 1 + s.draw(3)); break;
            case 2: t.insert(at, 1, s.oneOf<char>({' ', '\r', '\n', '\t', ':', '\0', '\x7f', '\x80', '/', 'H'})); break;
            case 3: t.insert(at, s.oneOf<const char*>({"\r\n", "\r\n ", "\r\n\t", "\r\n\r\n", "  ", "HTTP/1.1"})); break;
            default: t.resize(at); break;
            }
        }
        break;
    case 2: t = s.blob(s.small(60)); break;
    default: t = s.text(s.small(60), "GET /HP1.:\r\n ab"); break;
    }
    if (s.chance(1, 3)) t += s.oneOf<const char*>({"GET / HTTP/1.1\r\n\r\n", "\r\n", "x", "\n", "\x81\x05hello"});
    return t;
}

static std::vector<size_t> genCuts(Src& s, size_t size) {
    std::vector<size_t> cuts;
    if (size == 0) return cuts;
    switch (s.draw(2)) {
    case 0:
        for (auto n = s.draw(6); n > 0; --n) cuts.push_back(s.draw(size));
        std::sort(cuts.begin(), cuts.end());
        break;
    case 1:
        for (size_t p = 0; p < size; p += 1 + s.draw(20)) cuts.push_back(p);
        break;
    default:
        for (size_t p = 1; p < size; ++p) cuts.push_back(p);
        break;
    }
    if (size > 8192 && s.coin()) { // full reads
        cuts.clear();
        for (size_t p = 8192; p < size; p += 8192) cuts.push_back(p);
    }
    return cuts;
}

// ------------------------------------------------------------------------------------------------------------- C01
PROPERTY("C01.parse", 450000, 12000000,
         "a request stream (valid 40%, mutated, garbage; sometimes followed by other bytes) cut at generated positions, in single bytes included; "
         "non-trivial: at least two pieces and a stream which starts like a request") {
    auto stream = genStream(s);
    auto cuts = genCuts(s, stream.size());
    c.describe(cat("stream ", printable(stream, 600), " cut at"));
    for (auto k : cuts) c.describe(cat(" ", k));
    auto whole = feed(stream, {});
    auto cut = feed(stream, cuts);
    CHECK(whole.kind == cut.kind, "whole: ", static_cast<int>(whole.kind), ", cut: ", static_cast<int>(cut.kind));
    CHECK_EQ_TEXT(cut.text, whole.text, "parsed request");
    // completion is at the first blank line, and nowhere else
    auto blank = stream.find("\r\n\r\n");
    std::vector<size_t> bytes;
    for (size_t i = 1; i < stream.size(); ++i) bytes.push_back(i);
    auto byBytes = feed(stream, bytes);
    CHECK(byBytes.kind == whole.kind);
    if (whole.kind == Fed::complete) {
        CHECK(blank != std::string::npos && byBytes.consumed == blank + 4, "complete after ", byBytes.consumed, " bytes, blank line ends at ", blank + 4);
        CHECK_EQ_TEXT(byBytes.text, whole.text);
        auto exact = feed(stream.substr(0, blank + 4), {});
        CHECK_EQ_TEXT(exact.text, whole.text, "bytes after the blank line altered the request");
    }
    if (whole.kind == Fed::more) CHECK(blank == std::string::npos, "blank line received but the request is not complete");
    c.label(whole.kind == Fed::complete, "complete");
    c.label(whole.kind == Fed::refused, "refused");
    c.label(whole.kind == Fed::more, "more data needed");
    c.nontrivial(!cuts.empty() && stream.size() > 20);
}

PROPERTY("C01.server", 90000, 1800000,
         "a request stream sent to the server in pieces, with generated read sizes and scheduling; the bytes answered and the closing of the connection "
         "have to be those of the stream sent in one piece; non-trivial: more than 20 bytes and an answer") {
    TestFS::files().clear();
    TestFS::add("index.html", "<html>home</html>");
    TestFS::add("a", "content of a", "gzip");
    auto stream = genStream(s);
    c.describe(cat("stream ", printable(stream, 600)));
    auto whole = alone<TestFS>(stream);
    bool closed = false;
    auto cut = cutExchange<TestFS>(s, stream, ".", &closed);
    CHECK_EQ_TEXT(cut, whole, "answer to the cut stream");
    auto o = feed(stream, {});
    CHECK((o.kind == Fed::more) == whole.empty(), "answered ", printable(whole));
    if (o.kind == Fed::refused) CHECK(closed && whole.starts_with("HTTP/1.1 400 "), "not refused: ", printable(whole));
    c.label(o.kind == Fed::complete, "complete");
    c.label(o.kind == Fed::refused, "refused");
    c.label(o.kind == Fed::more, "more data needed");
    c.nontrivial(stream.size() > 20 && !whole.empty());
}

// ------------------------------------------------------------------------------------------------------------- C02
PROPERTY("C02.exact", 360000, 9000000,
         "well-formed requests: any token method, any target, versions up to 99999, 0..8 headers with token names and values of any legal bytes, with any "
         "optional white space around them, some folded on several lines; non-trivial: at least two headers or a folded one") {
    auto r = genRequest(s);
    if (r.method.empty()) r.method = "GET";
    auto bigVersion = [&](int v) { return s.chance(1, 10) ? static_cast<int>(s.draw(99999)) : v; };
    r.major = bigVersion(r.major);
    r.minor = bigVersion(r.minor);
    std::string raw = cat(r.method, " ", r.target, " HTTP/", r.major, ".", r.minor, "\r\n");
    std::vector<std::vector<std::string>> parts;
    bool folded = false;
    for (auto& [n, v] : r.headers) {
        if (v.size() > 2 && s.chance(1, 10)) v[1 + s.index(v.size() - 2)] = '\t';
        static const std::vector<const char*> before{" ", " ", " ", " ", "", "\t", "  ", " \t "}, after{"", "", "", "", " ", "\t", "  \t"};
        raw += cat(n, ":", s.pick(before), v, s.pick(after));
        parts.push_back({v});
        while (s.chance(1, 8)) {
            folded = true;
            auto more = ref::fieldValue(s, s.small(20));
            raw += cat("\r\n", s.oneOf<const char*>({" ", "\t", "   ", " \t "}), more, s.chance(1, 6) ? " " : "");
            parts.back().push_back(more);
        }
        raw += "\r\n";
    }
    raw += "\r\n";
    c.describe(printable(raw, 1000));
    Request q;
    bool done = false;
    try {
        std::vector<char> data(raw.begin(), raw.end());
        done = q.parseSomeData(data.data(), data.data() + data.size());
    }
    catch (const wf::http::BadRequestException&) {
        CHECK(false, "well-formed request refused");
    }
    CHECK(done && q.completed(), "not complete");
    CHECK_EQ_TEXT(q.uri, r.target);
    CHECK(q.httpVersionMajor == r.major && q.httpVersionMinor == r.minor, "version ", q.httpVersionMajor, ".", q.httpVersionMinor);
    static const std::map<std::string, Request::Method> known{
      {"CONNECT", Request::Method::Connect}, {"DELETE", Request::Method::Delete}, {"GET", Request::Method::Get},
      {"HEAD", Request::Method::Head},       {"OPTIONS", Request::Method::Options}, {"PATCH", Request::Method::Patch},
      {"POST", Request::Method::Post},       {"PUT", Request::Method::Put},       {"TRACE", Request::Method::Trace}};
    auto m = known.find(r.method);
    CHECK(q.method == (m == known.end() ? Request::Method::Undefined : m->second), "method ", static_cast<int>(q.method));
    if (m != known.end()) CHECK_EQ_TEXT(q.getMethodName(), r.method);
    CHECK(q.headers.size() == r.headers.size(), q.headers.size(), " headers");
    for (size_t i = 0; i < r.headers.size(); ++i) {
        CHECK_EQ_TEXT(q.headers[i].name, r.headers[i].first);
        if (parts[i].size() == 1) CHECK_EQ_TEXT(q.headers[i].value, parts[i][0]);
        else { // a fold stands for any white space or none
            std::string_view v = q.headers[i].value;
            for (auto& p : parts[i]) {
                while (!v.empty() && (v.front() == ' ' || v.front() == '\t') && !v.starts_with(p)) v.remove_prefix(1);
                CHECK(v.starts_with(p), "folded value ", printable(q.headers[i].value));
                v.remove_prefix(p.size());
            }
            while (!v.empty() && (v.front() == ' ' || v.front() == '\t')) v.remove_prefix(1);
            CHECK(v.empty(), "folded value ", printable(q.headers[i].value));
        }
    }
    c.label(folded, "folded");
    c.label(m == known.end(), "extension method");
    c.nontrivial(r.headers.size() >= 2 || folded);
}

PROPERTY("C02.refused", 180000, 2400000,
         "a well-formed request with one illegal byte or token put at a generated place of its method, target, version, header name or header value; "
         "it must not complete, and the server answers one 400 and closes; non-trivial: always") {
    auto r = genRequest(s);
    auto control = [&]() -> char {
        auto v = s.draw(32);
        return v == 32 ? '\x7f' : static_cast<char>(v);
    };
    auto special = [&] { return s.oneOf<char>({'(', ')', '<', '>', '@', ',', ';', ':', '\\', '"', '/', '[', ']', '?', '=', '{', '}', '\t'}); };
    auto insertAt = [&](std::string& t, char ch) { t.insert(s.draw(t.size()), 1, ch); };
    std::string version = cat("HTTP/", r.major, ".", r.minor), eol = "\r\n", raw;
    if (r.headers.empty()) r.headers.emplace_back("Host", "localhost");
    auto where = s.index(r.headers.size());
    auto kind = s.draw(15);
    std::string before, fold;
    switch (kind) {
    case 0: insertAt(r.method, control()); break;
    case 1: insertAt(r.method, special()); break;
    case 2: insertAt(r.method, static_cast<char>(128 + s.draw(127))); break;
    case 3: insertAt(r.target, control()); break;
    case 4: {
        auto pos = s.draw(4); // of HTTP/
        auto ch = static_cast<char>(s.draw(255));
        if (ch == version[pos]) ch = '!';
        version[pos] = ch;
    } break;
    case 5: version = s.oneOf<const char*>({"HTTP/", "HTTP/.", "HTTP/1", "HTTP/1.", "HTTP/.1", "HTTP/x.1", "HTTP/1.x", "HTTP/1,1", "HTTP/1.1.1", "HTTP/-1.1", "HTTP/1.1 ",
                                             "HTTP/99999999999999999999.1", "HTTP/1.99999999999999999999"});
        break;
    case 6: {
        auto ch = control();
        r.headers[where].first.insert(ch == '\t' ? 1 : s.draw(r.headers[where].first.size()), 1, ch); // a tab before a name would be a fold
    } break;
    case 7: {
        auto ch = special();
        if (ch == ':') ch = ';';
        r.headers[where].first.insert(ch == '\t' ? 1 : s.draw(r.headers[where].first.size()), 1, ch);
    } break;
    case 8: {
        // a control inside the value (white space at its ends is another story)
        auto& v = r.headers[where].second;
        v = "a" + v + "b";
        char ch = control();
        if (ch == '\t') ch = '\v';
        v.insert(1 + s.draw(v.size() - 2), 1, ch);
    } break;
    case 11: { // one byte of the numbers
        auto ch = static_cast<char>(s.coin() ? s.draw(255) : '+' + s.draw(20));
        if ((ch >= '0' && ch <= '9') || ch == '.') ch = ':';
        auto pos = 5 + s.index(version.size() - 5);
        if (version[pos] != '.' && s.coin()) version[pos] = ch;
        else version.insert(pos + s.draw(1), 1, ch);
    } break;
    case 12: { // a control in a folded line
        auto text = "a" + ref::fieldValue(s, s.small(20));
        auto ch = control();
        text.insert(s.draw(text.size()), 1, ch == '\t' ? '\0' : ch);
        fold = "\r\n" + std::string(s.oneOf<const char*>({" ", "\t", "  "})) + text;
    } break;
    case 13: before = s.oneOf<const char*>({" folded\r\n", "\tX: folded\r\n", " \r\n", ": value\r\n", "Name\r\n", "\n", "\r"}); break; // not a header
    case 14: r.headers[where].first += s.oneOf<const char*>({" ", "\t", " X"}); break;
    case 15: r.target += s.oneOf<const char*>({" b", " HTTP", " HTTP/1.1", "  ", " /"}); break;
    case 9: insertAt(r.headers[where].first, static_cast<char>(128 + s.draw(127))); break;
    default: eol = s.oneOf<const char*>({"\n", "\r", "\n\r", "\r\r\n"}); break;
    }
    raw = r.method + " " + r.target + " " + version + (kind == 10 ? eol : "\r\n");
    raw += before;
    for (size_t i = 0; i < r.headers.size(); ++i) raw += r.headers[i].first + ": " + r.headers[i].second + (i == where ? fold : "") + "\r\n";
    raw += "\r\n";
    c.describe(printable(raw, 1000));
    auto o = feed(raw, {});
    // a CR LF pair followed by white space can only come from two insertions, one insertion is always fatal
    CHECK(o.kind != Fed::complete, "accepted as ", printable(o.text, 400));
    CHECK(o.kind == Fed::refused, "still waiting for data");
    TestFS::files().clear();
    TestFS::add("index.html", "<html>home</html>");
    bool closed = false;
    auto answer = cutExchange<TestFS>(s, raw, ".", &closed);
    auto resp = ref::parseResponse(answer, false);
    CHECK(resp.status == 400, "answered ", resp.status);
    CHECK(closed, "connection left open");
    c.label(cat("kind ", kind));
    c.nontrivial();
}

// ------------------------------------------------------------------------------------------------------- file trees
static const std::vector<std::string>& extensions() {
    static const std::vector<std::string> e{"html", "htm", "js", "mjs", "css", "png", "jpg", "jpeg", "gif", "json", "pdf", "ttf", "ico", "svg", "webp", "csv", "txt", "", "xyz", "gz", "HTM", "j", "jsx"};
    return e;
}
static std::string expectedType(const std::string& ext) {
    static const std::map<std::string, std::string> m{
      {"js", "application/javascript"}, {"mjs", "application/javascript"}, {"html", "text/html"}, {"htm", "text/html"}, {"jpg", "image/jpeg"},
      {"jpeg", "image/jpeg"}, {"css", "text/css"}, {"png", "image/png"}, {"gif", "image/gif"}, {"json", "application/json"}, {"pdf", "application/pdf"},
      {"ttf", "font/ttf"}, {"ico", "image/x-icon"}, {"svg", "image/svg+xml"}, {"webp", "image/webp"}, {"csv", "text/csv"}};
    auto i = m.find(ext);
    return i == m.end() ? "text/plain" : i->second;
}
static std::string extensionOf(const std::string& name) {
    auto base = name.substr(name.rfind('/') == std::string::npos ? 0 : name.rfind('/') + 1);
    auto dot = base.rfind('.');
    if (dot == std::string::npos || dot == 0) return "";
    return base.substr(dot + 1);
}
static std::string genName(Src& s) {
    std::string n;
    switch (s.weighted({4, 2, 1})) {
    case 0: n = s.text(1 + (s.chance(1, 30) ? s.draw(200) : s.small(12)), "abcdefghijklmnopqrstuvwxyz0123456789_-"); break;
    case 1: n = s.text(1 + s.small(12), "aZ09 %+&=?#'()~!@,;\xc3\xa9$[]{}|"); break;
    default:
        for (auto k = 1 + s.small(10); k > 0; --k) {
            auto ch = static_cast<char>(1 + s.draw(254));
            if (ch != '/' && ch != '.') n += ch;
        }
        if (n.empty()) n = "x";
        break;
    }
    auto& ext = s.pick(extensions());
    if (!ext.empty()) n += "." + ext;
    return n;
}
static Tree genTree(Src& s, size_t maxSize) {
    Tree t;
    std::vector<std::string> dirs{""};
    for (auto n = s.draw(2); n > 0; --n) {
        auto d = (s.coin() ? s.pick(dirs) : std::string()) + s.text(1 + s.small(6), "abcd e%") + "/";
        dirs.push_back(d);
    }
    if (s.chance(1, 16)) { // deep, or with long names
        auto d = s.pick(dirs);
        for (auto n = 1 + s.draw(30); n > 0 && d.size() < 2500; --n) d += s.text(1 + (s.chance(1, 6) ? s.draw(200) : s.small(6)), "abcd e%") + "/";
        dirs = {d};
    }
    for (auto n = 1 + s.draw(3); n > 0; --n) {
        auto p = s.pick(dirs) + (s.chance(1, 4) ? "index.html" : genName(s));
        bool clash = t.dirs.count(p) || t.files.count(p);
        for (auto q = p.find('/'); q != std::string::npos; q = p.find('/', q + 1)) clash = clash || t.files.count(p.substr(0, q));
        if (clash) continue;
        t.add(p, s.blob(maxSize > 100000 && s.chance(1, 60) ? s.magnitude(20000000) : s.sized({511, 512, 513, 1024, 8191, 8192, 8193, 16384, 65536}, maxSize)));
    }
    return t;
}
struct NativeRoot {
    std::filesystem::path dir;
    explicit NativeRoot(const Tree& t) : dir(scratchDir() / "root") {
        std::filesystem::remove_all(dir);
        t.store(dir);
    }
    ~NativeRoot() {
        std::error_code ec;
        std::filesystem::remove_all(dir, ec);
    }
};

/// decision table
struct Expected {
    int status;
    const std::string* file = nullptr; // content
    std::string type, name;
};
static Expected expect(const Tree& t, const std::string& method, const std::string& target) {
    auto path = ref::urlDecode(target);
    if (path.empty() || path[0] != '/' || path.find("..") != std::string::npos || path.find('\0') != std::string::npos) return {400, nullptr, "", ""};
    if (method != "GET" && method != "HEAD") return {501, nullptr, "", ""};
    path.erase(0, path.find_first_not_of('/') == std::string::npos ? path.size() : path.find_first_not_of('/'));
    if (path.empty() || path.back() == '/') path += "index.html";
    auto f = t.find(path);
    if (!f) return {404, nullptr, "", ""};
    return {200, f, expectedType(extensionOf(path)), path};
}
static std::string genTargetFor(Src& s, const Tree& t) {
    std::vector<std::string> paths;
    for (auto& [p, content] : t.files) paths.push_back(p);
    for (auto& d : t.dirs) paths.push_back(d.empty() ? d : d + "/");
    std::string p;
    switch (s.weighted({8, 2, 1})) {
    case 0: p = s.pick(paths); break;
    case 1: {
        p = s.pick(paths);
        switch (s.draw(7)) {
        case 0: p += "/"; break;
        case 1: if (!p.empty()) p.pop_back(); break;
        case 2: p += "x"; break;
        case 3: p = "./" + p; break;
        case 4: p = "/" + p; break;
        case 5: p += "/."; break;
        case 6: p += std::string("\0x", 2); break;
        default:
            for (auto& ch : p)
                if (ch >= 'a' && ch <= 'z' && s.coin()) ch = static_cast<char>(ch - 32);
        }
    } break;
    default: p = s.oneOf<const char*>({"none", "none/none.html", ".", "..", "a..b", "../x", "/"}); break;
    }
    auto encoded = ref::encodeTarget(s, "/" + p);
    if (s.chance(1, 30)) encoded = encoded.substr(1); // not absolute
    return encoded;
}
static std::string genMethod(Src& s) {
    switch (s.weighted({6, 4, 2})) {
    case 0: return "GET";
    case 1: return "HEAD";
    default: return s.oneOf<const char*>({"POST", "PUT", "DELETE", "OPTIONS", "TRACE", "CONNECT", "PATCH", "FOO", "get", "GETS", "head"});
    }
}

// ------------------------------------------------------------------------------------------------------------- C05
static void checkAnswer(const std::string& raw, const HttpRequest& r, const Expected& e) {
    auto resp = ref::parseResponse(raw, r.method == "HEAD");
    CHECK(resp.status == e.status, "status ", resp.status, " instead of ", e.status);
    if (e.status == 200) {
        if (r.method == "GET") CHECK_EQ_TEXT(resp.body, *e.file, "content of ", e.name);
        CHECK_EQ_TEXT(resp.one("Content-Length"), std::to_string(e.file->size()));
        CHECK_EQ_TEXT(resp.one("Content-Type"), e.type, "for ", e.name);
        CHECK(resp.all("Content-Encoding").empty(), "Content-Encoding on a plain file");
    }
}
PROPERTY("C05.decision", 60000, 1200000,
         "a generated tree of files on disk (names over all bytes, sizes 0..200000 around the 512 and 8192 byte blocks, a few of up to 20 MB), a request for one of them or near it, any method, the "
         "target percent-encoded in generated ways, any other headers; non-trivial: a file of more than 512 bytes is the answer, or an answer other than 200") {
    auto tree = genTree(s, s.chance(1, 20) ? 200000 : 20000);
    NativeRoot root(tree);
    HttpRequest r;
    r.method = genMethod(s);
    r.target = genTargetFor(s, tree);
    ref::ordinary(s, r);
    for (auto& [p, content] : tree.files) c.describe(cat("file ", printable(p), " of ", content.size(), " bytes\n"));
    c.describe(printable(r.raw(), 600));
    auto e = expect(tree, r.method, r.target);
    auto raw = cutExchange<wf::fs::NativeDebugFS>(s, r.raw(), root.dir);
    checkAnswer(raw, r, e);
    c.label(cat(e.status));
    c.label(r.method == "HEAD", "HEAD");
    c.nontrivial(e.status != 200 || e.file->size() > 512);
}

PROPERTY("C05.history", 30000, 200000,
         "2..12 (rarely 600) requests to one server over a tree of files which is altered between them: content replaced by another one of the same or another size, files removed, created, renamed, turned into "
         "directories; often the same path again, by GET or HEAD, one connection each, some overlapping; non-trivial: a path asked again after it changed") {
    auto tree = genTree(s, 3000);
    NativeRoot root(tree);
    Host<wf::fs::NativeDebugFS> h(&s, root.dir);
    std::vector<std::string> touched; // paths altered, asked again preferably
    std::set<std::string> asked;
    bool again = false;
    for (auto n = 1 + s.many(11, 600); n > 0; --n) {
        while (s.coin()) {
            if (tree.files.empty()) break;
            auto it = std::next(tree.files.begin(), static_cast<std::ptrdiff_t>(s.index(tree.files.size())));
            auto path = it->first;
            touched.push_back(path);
            switch (s.weighted({4, 2, 2, 1})) {
            case 0: {
                auto size = s.coin() ? it->second.size() : s.sized({511, 512, 513, 1024}, 3000);
                it->second = s.blob(size);
                writeFile(root.dir / path, it->second);
                c.describe(cat("replace ", printable(path), " by ", size, " bytes\n"));
            } break;
            case 1:
                tree.files.erase(it);
                std::filesystem::remove(root.dir / path);
                c.describe(cat("remove ", printable(path), "\n"));
                break;
            case 2: {
                auto dir = path.substr(0, path.rfind('/') == std::string::npos ? 0 : path.rfind('/') + 1);
                auto other = dir + genName(s);
                if (tree.dirs.count(other)) break;
                tree.files[other] = it->second;
                if (other != path) {
                    tree.files.erase(path);
                    std::filesystem::rename(root.dir / path, root.dir / other);
                }
                touched.push_back(other);
                c.describe(cat("rename ", printable(path), " to ", printable(other), "\n"));
            } break;
            default: {
                tree.files.erase(it);
                std::filesystem::remove(root.dir / path);
                std::filesystem::create_directory(root.dir / path);
                tree.dirs.insert(path);
                c.describe(cat("directory ", printable(path), "\n"));
            }
            }
        }
        HttpRequest r;
        r.method = s.chance(1, 4) ? "HEAD" : "GET";
        bool same = !touched.empty() && s.weighted({1, 2});
        auto path = same ? s.pick(touched) : std::string();
        r.target = same ? ref::encodeTarget(s, "/" + path) : genTargetFor(s, tree);
        if (s.coin()) ref::ordinary(s, r);
        auto e = expect(tree, r.method, r.target);
        c.describe(cat(r.method, " ", printable(r.target), "\n"));
        auto conn = h.world.connect();
        conn->toServer = r.raw();
        h.settle();
        checkAnswer(conn->toClient, r, e);
        CHECK(conn->closedForClient(), "connection left open");
        again = again || (same && asked.count(path));
        if (same) asked.insert(path);
        else if (e.file) touched.push_back(e.name), asked.insert(e.name);
        c.label(cat(e.status));
    }
    c.nontrivial(again);
}

// ------------------------------------------------------------------------------------------------------------- C04
static const std::string secretMarker = "TOP-SECRET-OUTSIDE-DOCROOT";
struct Jail {
    std::filesystem::path base;
    Tree tree;
    Jail() : base(scratchDir() / "jail") {
        std::filesystem::remove_all(base);
        tree.add("index.html", "<html>public</html>");
        tree.add("page.html", "public page");
        tree.add("sub/index.html", "public sub");
        tree.add("sub/data.txt", "public data");
        tree.add("..hidden", "public, but two dots");
        tree.add("sub/a..b", "public, but two dots too");
        tree.store(base / "www");
        Tree outside;
        for (auto n : {"secret.txt", "index.html", "www-private/index.html", "www-private/secret.txt", "wwwsecret", "etc/passwd", "sub/data.txt", "page.html"})
            outside.add(n, secretMarker + " " + n);
        for (auto& [p, content] : outside.files) {
            std::filesystem::create_directories((base / p).parent_path());
            writeFile(base / p, content);
        }
        writeFile(scratchDir() / "secret.txt", secretMarker + " above");
    }
    static Jail& get() {
        static std::unique_ptr<Jail> jail;
        static pid_t owner = 0;
        if (owner != getpid()) {
            jail = std::make_unique<Jail>();
            owner = getpid();
        }
        return *jail;
    }
};
PROPERTY("C04.docroot", 180000, 4500000,
         "targets assembled from path pieces (dots, slashes, back-slashes, NUL, names inside and outside the root, absolute paths of the secrets), "
         "percent-encoded once or twice in generated ways, or random bytes; root given as absolute, relative or with odd endings; non-trivial: the decoded "
         "target holds '..', a NUL, a back-slash, a double slash or the absolute path of a secret") {
    auto& jail = Jail::get();
    auto www = jail.base / "www";
    std::string path;
    if (s.chance(1, 8)) path = s.blob(s.small(60));
    else {
        auto pieces = std::vector<std::string>{"..", ".", "...", "/", "//", "\\", "..\\", std::string(1, '\0'), "secret.txt", "index.html", "www-private", "www", "sub", "data.txt",
                                               "page.html", "etc", "passwd", "~", "%2e%2e", "%2f", "..%00", "%5c", "a", " ", "wwwsecret", jail.base.string(),
                                               (jail.base / "secret.txt").string(), www.string(), "/etc/passwd", "/proc/self/environ", "..hidden", "a..b", "%252e%252e"};
        for (auto n = 1 + s.draw(8); n > 0; --n) {
            if (s.coin()) path += '/';
            path += s.pick(pieces);
        }
    }
    if (!s.chance(1, 6)) path = "/" + path;
    std::string target;
    switch (s.draw(2)) {
    case 0: target = ref::encodeTarget(s, path); break;
    case 1: target = ref::encodeTarget(s, ref::encodeTarget(s, path)); break;
    default:
        for (char ch : path) // sent as it is
            if (static_cast<unsigned char>(ch) > 32 && ch != 127) target += ch;
    }
    HttpRequest r;
    r.method = s.chance(1, 5) ? genMethod(s) : "GET";
    r.target = target;
    if (s.coin()) ref::ordinary(s, r);
    std::filesystem::path root = www;
    switch (s.draw(4)) {
    case 0: break;
    case 1: root = www / ""; break;
    case 2: root = www / "."; break;
    case 3: root = jail.base / "www-private" / ".." / "www"; break;
    default: {
        std::filesystem::current_path(www);
        root = s.coin() ? "." : "../www";
    }
    }
    c.describe(cat("root ", root.string(), "\n", printable(r.raw(), 600)));
    auto decoded = ref::urlDecode(target);
    auto raw = s.coin() ? cutExchange<wf::fs::NativeDebugFS>(s, r.raw(), root) : cutExchange<wf::fs::Multi<wf::fs::NativeDebugFS, TestFS>>(s, r.raw(), root);
    CHECK(raw.find(secretMarker) == std::string::npos, "content from outside the root: ", printable(raw, 400));
    CHECK(raw.find("root:x:0:0") == std::string::npos, "content of /etc/passwd");
    auto resp = ref::parseResponse(raw, r.method == "HEAD");
    auto e = expect(jail.tree, r.method, target);
    if (decoded.empty() || decoded[0] != '/' || decoded.find("..") != std::string::npos) CHECK(resp.status == 400, "status ", resp.status, " for decoded target ", printable(decoded));
    CHECK(resp.status != 200 || e.status == 200, "answered 200 for ", printable(decoded));
    if (resp.status == 200 && r.method == "GET") CHECK_EQ_TEXT(resp.body, *e.file);
    c.label(cat(resp.status));
    c.nontrivial(decoded.find("..") != std::string::npos || decoded.find('\0') != std::string::npos || decoded.find('\\') != std::string::npos ||
                 decoded.find("//") != std::string::npos || decoded.find(jail.base.string()) != std::string::npos);
}

// ------------------------------------------------------------------------------------------------------------- C07
/// A list of codings, the one which is refused having a weight of 0
static std::string genCodings(Src& s, const std::vector<std::string>& names, const std::string& refused) {
    std::string v;
    for (auto& n : names) {
        if (!v.empty()) v += s.oneOf<const char*>({", ", ",", " , "});
        v += ref::randomCase(s, n);
        if (n == refused) v += s.oneOf<const char*>({";q=0", ";q=0.0", "; q=0", ";Q=0.000", " ; q=0."});
        else if (s.chance(1, 4)) v += s.oneOf<const char*>({";q=1.0", ";q=0.5", "; q=0.8", ";q=1", ";q=0.001", " ; Q=0.07"});
    }
    return v;
}
PROPERTY("C07.negotiation", 120000, 2400000,
         "a file stored as br, gzip, deflate or plain, Accept-Encoding absent or listing generated codings (any case, any position, weights, a null weight, near-miss names, several headers), GET or HEAD; "
         "non-trivial: the file is stored compressed") {
    TestFS::files().clear();
    auto coding = s.oneOf<const char*>({"gzip", "br", "deflate", "zstd", ""});
    std::string name = "f." + s.pick(extensions());
    auto content = "BODY" + s.blob(s.sized({512, 1024, 8192}, 9000)) + "ENDS";
    TestFS::add(name, content, coding);
    HttpRequest r;
    r.method = s.chance(1, 4) ? "HEAD" : "GET";
    r.target = "/" + name;
    ref::ordinary(s, r);
    bool accepted = false;
    std::string refused = s.chance(1, 5) ? s.oneOf<const char*>({"gzip", "br", "deflate", "zstd", "identity", "compress"}) : "";
    for (auto n = s.draw(2); n > 0; --n) {
        std::vector<std::string> names;
        for (auto k = s.draw(4); k > 0; --k) {
            std::string pick = s.oneOf<const char*>({"gzip", "br", "deflate", "zstd", "identity", "compress"});
            if (s.chance(1, 8)) { // the name of another coding
                switch (s.draw(3)) {
                case 0: pick = "x" + pick; break;
                case 1: pick += "x"; break;
                case 2: pick.pop_back(); break;
                default: pick = pick + "-" + pick;
                }
            }
            accepted = accepted || (pick == coding && pick != refused);
            names.push_back(pick);
        }
        r.headers.insert(r.headers.begin() + static_cast<std::ptrdiff_t>(s.draw(r.headers.size())), {ref::randomCase(s, "Accept-Encoding"), genCodings(s, names, refused)});
    }
    // other headers naming the coding do not count
    if (s.chance(1, 4)) r.headers.emplace_back(s.oneOf<const char*>({"Accept", "TE", "X-Accept-Encoding", "Accept-Encodings"}), coding);
    c.describe(cat("stored as '", coding, "'\n", printable(r.raw(), 500)));
    auto raw = cutExchange<TestFS>(s, r.raw(), ".");
    auto resp = ref::parseResponse(raw, r.method == "HEAD");
    bool encoded = *coding != 0;
    if (!encoded) {
        CHECK(resp.status == 200, "status ", resp.status);
        CHECK(resp.all("Content-Encoding").empty(), "plain file labelled ", resp.one("Content-Encoding"));
        if (r.method == "GET") CHECK_EQ_TEXT(resp.body, content);
    }
    else if (accepted) {
        CHECK(resp.status == 200, "status ", resp.status);
        CHECK_EQ_TEXT(resp.one("Content-Encoding"), coding);
        if (r.method == "GET") CHECK_EQ_TEXT(resp.body, content);
    }
    else if (r.method == "GET") {
        CHECK(resp.status == 506, "status ", resp.status);
        CHECK(resp.body.find("BODY") == std::string::npos && resp.body.find("ENDS") == std::string::npos, "content sent in a refused coding");
        CHECK(resp.all("Content-Encoding").empty(), "error page labelled as encoded");
    }
    c.label(encoded ? (accepted ? "encoded, accepted" : "encoded, not accepted") : "plain");
    c.nontrivial(encoded);
}

// ------------------------------------------------------------------------------------------------------------- C11
PROPERTY("C11.table", 3000, 20000, "an extension of the table or a near miss (other case, prefix, suffix, extra dot), with and without its dot; non-trivial: a known extension") {
    auto ext = s.pick(extensions());
    bool mutated = false;
    if (s.chance(1, 3)) {
        mutated = true;
        switch (s.draw(4)) {
        case 0: ext += s.oneOf<const char*>({"x", " ", "s", "."}); break;
        case 1: ext = s.oneOf<const char*>({"x", " ", "."}) + ext; break;
        case 2: if (!ext.empty()) ext.pop_back(); break;
        case 3: ext = ref::randomCase(s, ext); break;
        default: ext = s.blob(s.small(6));
        }
    }
    c.describe(printable(ext));
    std::string_view e = ext;
    auto base = e;
    bool dotted = base.starts_with('.');
    if (dotted) base.remove_prefix(1);
    bool letterCaseOnly = expectedType(std::string(base)) == "text/plain" && expectedType(ref::lower(std::string(base))) != "text/plain";
    if (letterCaseOnly) return; // whether case matters is not specified
    CHECK_EQ_TEXT(wf::http::MimeType(e).toString(), expectedType(std::string(base)));
    if (!dotted) CHECK_EQ_TEXT(wf::http::MimeType("." + ext).toString(), expectedType(std::string(base)));
    CHECK_EQ_TEXT(wf::http::MimeType::fromExtension(e).toString(), expectedType(std::string(base)));
    c.nontrivial(!mutated && expectedType(ext) != "text/plain");
}
PROPERTY("C11.served", 120000, 1500000,
         "files with generated extensions, several dots, dotted directories, default index.html, asked by GET or HEAD; Content-Type of the 200 answer; "
         "non-trivial: a type other than text/plain") {
    TestFS::files().clear();
    std::string dir = s.coin() ? s.oneOf<const char*>({"d.js/", "x.css/y/", "v1.2/", "dir/"}) : "";
    std::string name = s.chance(1, 5) ? "index.html" : s.text(1 + s.small(6), "abc.-") + "a" + (s.coin() ? "." + s.pick(extensions()) : "");
    while (name.find("..") != std::string::npos) name.replace(name.find(".."), 2, ".");
    if (name[0] == '.') name = "f" + name;
    auto path = dir + name;
    TestFS::add(path, "content");
    HttpRequest r;
    r.method = s.coin() ? "GET" : "HEAD";
    r.target = ref::encodeTarget(s, "/" + (name == "index.html" && s.coin() ? dir : path));
    if (s.coin()) ref::ordinary(s, r);
    c.describe(printable(r.raw()));
    auto ext = extensionOf(path);
    if (expectedType(ext) == "text/plain" && expectedType(ref::lower(ext)) != "text/plain") return; // case is not specified
    auto resp = ref::parseResponse(alone<TestFS>(r.raw()), r.method == "HEAD");
    CHECK(resp.status == 200, "status ", resp.status);
    CHECK_EQ_TEXT(resp.one("Content-Type"), expectedType(ext), "for ", path);
    c.nontrivial(expectedType(ext) != "text/plain");
}

// ------------------------------------------------------------------------------------------------------------- C12
static std::string maskedText(std::string_view text) {
    std::string f = "\x81";
    if (text.size() < 126) f += static_cast<char>(0x80 | text.size());
    else {
        f += static_cast<char>(0x80 | 126);
        f += static_cast<char>(text.size() >> 8);
        f += static_cast<char>(text.size());
    }
    static const unsigned char mask[4] = {0x11, 0xfe, 0x80, 0x07};
    f.append(reinterpret_cast<const char*>(mask), 4);
    for (size_t i = 0; i < text.size(); ++i) f += static_cast<char>(static_cast<unsigned char>(text[i]) ^ mask[i % 4]);
    return f;
}
PROPERTY("C12.upgrade", 120000, 2400000,
         "upgrade requests with generated header cases, orders, lists and keys, complete or lacking one condition (method, Upgrade, Connection, key), followed by a "
         "WebSocket message; non-trivial: the request names websocket") {
    TestFS::files().clear();
    TestFS::add("index.html", "<html>home</html>");
    HttpRequest r;
    if (s.chance(1, 4)) r.minor = static_cast<int>(1 + s.draw(9)); // 1.0 has no upgrades
    r.colon = ref::genColon(s);
    r.target = s.oneOf<const char*>({"/", "/chat", "/index.html", "/a/b"});
    std::string key = s.chance(1, 4) ? ref::fieldValue(s, 1 + s.small(60)) : ref::base64(s.blob(16));
    bool hasUpgrade = !s.chance(1, 6), hasConnection = !s.chance(1, 6), hasKey = !s.chance(1, 6);
    if (s.chance(1, 6)) r.method = s.oneOf<const char*>({"HEAD", "POST", "PUT", "OPTIONS", "CONNECT", "get"});
    auto list = [&](const char* word, std::initializer_list<const char*> others) {
        std::string v = word ? ref::randomCase(s, word) : "";
        for (auto n = s.draw(2); n > 0; --n) {
            auto o = s.oneOf(others);
            if (v.empty()) v = o;
            else v = s.coin() ? v + s.oneOf<const char*>({", ", ","}) + o : o + std::string(s.oneOf<const char*>({", ", ","})) + v;
        }
        return v;
    };
    if (hasUpgrade) r.headers.emplace_back(ref::randomCase(s, "Upgrade"), list("websocket", {"h2c", "TLS/1.0", "IRC/6.9", "websockets"}));
    else if (s.coin()) r.headers.emplace_back(ref::randomCase(s, "Upgrade"), s.oneOf<const char*>({"h2c", "TLS/1.0", "web", "socket", "websockets", "xwebsocket", "web-socket", "h2c, websocket2"}));
    if (hasConnection) r.headers.emplace_back(ref::randomCase(s, "Connection"), list("Upgrade", {"keep-alive", "close", "TE"}));
    else if (s.coin()) r.headers.emplace_back(ref::randomCase(s, "Connection"), s.oneOf<const char*>({"keep-alive", "close", "Up", "upgrades", "keep-alive, x-upgrade", "Upgrad", "upgrade-insecure-requests"}));
    // the same fields repeated: any of them may name the upgrade
    for (auto n = s.weighted({3, 1, 1}); n > 0; --n) {
        if (s.coin()) r.headers.emplace_back(ref::randomCase(s, "Connection"), s.oneOf<const char*>({"keep-alive", "close", "TE", "Up", "x-upgrad", "upgrades"}));
        else r.headers.emplace_back(ref::randomCase(s, "Upgrade"), s.oneOf<const char*>({"h2c", "TLS/1.0", "web", "socket"}));
    }
    if (s.chance(1, 50))
        for (auto n = s.magnitude(300); n > 0; --n) r.headers.push_back(ref::otherHeader(s));
    if (s.chance(1, 50)) r.headers.emplace_back("Cookie", "v" + s.text(s.magnitude(20000), "abcdef") + "v");
    if (hasKey) r.headers.emplace_back(ref::randomCase(s, "Sec-WebSocket-Key"), key);
    if (s.coin()) r.headers.emplace_back("Sec-WebSocket-Version", "13");
    if (s.coin()) r.headers.emplace_back("Sec-WebSocket-Protocol", "WebFront_0.1");
    for (auto n = s.draw(2); n > 0; --n) r.headers.push_back(ref::otherHeader(s));
    for (size_t i = r.headers.size(); i > 1; --i) std::swap(r.headers[i - 1], r.headers[s.index(i)]);
    c.describe(printable(r.raw(), 800));
    Host<TestFS> h(&s);
    auto conn = h.world.connect();
    auto raw = r.raw();
    for (size_t pos = 0; pos < raw.size();) {
        auto n = raw.size() - pos - s.draw(raw.size() - pos - 1);
        conn->toServer += raw.substr(pos, n);
        pos += n;
        h.someSteps(s, 3);
    }
    h.settle();
    bool granted = hasUpgrade && hasConnection && hasKey && r.method == "GET";
    std::string rest;
    auto resp = ref::parseResponse(conn->toClient, r.method == "HEAD", &rest);
    if (granted) {
        CHECK(resp.status == 101, "status ", resp.status);
        CHECK_EQ_TEXT(ref::lower(resp.one("Upgrade")), "websocket");
        CHECK_EQ_TEXT(ref::lower(resp.one("Connection")), "upgrade");
        CHECK_EQ_TEXT(resp.one("Sec-WebSocket-Accept"), ref::acceptKey(key));
        CHECK_EQ_TEXT(resp.one("Sec-WebSocket-Protocol"), "WebFront_0.1");
        CHECK(rest.empty() && !conn->closedForClient(), "connection closed after the upgrade");
        CHECK(h.webSockets.size() == 1, h.webSockets.size(), " upgrades");
        auto before = conn->toClient.size();
        auto text = s.text(s.sized({125, 126, 127}, 200), "abcdef");
        conn->toServer += maskedText(text);
        h.settle();
        CHECK(h.received.size() == 1 && h.received[0] == text, "message not received after the upgrade");
        auto echo = conn->toClient.substr(before);
        CHECK(echo.size() >= 2 + text.size() && static_cast<unsigned char>(echo[0]) == 0x81 && echo.substr(echo.size() - text.size()) == text, "no answer on the WebSocket");
    }
    else {
        CHECK(resp.status != 101 && h.webSockets.empty(), "upgraded");
        Tree t;
        t.add("index.html", "<html>home</html>");
        auto e = expect(t, r.method, r.target);
        checkAnswer(conn->toClient, r, e);
        CHECK(conn->closedForClient(), "plain HTTP connection left open");
    }
    c.label(granted ? "granted" : "plain");
    c.nontrivial(hasUpgrade);
}

// -------------------------------------------------------------------------------------------------------- C03, C06
struct ClientPlan {
    std::string bytes;
    std::string method = "GET";
    ConnPtr conn;
    size_t sent = 0;
    std::string expected;
};
static ClientPlan genClient(Src& s) {
    ClientPlan p;
    if (s.chance(1, 5)) {
        p.bytes = genStream(s);
        p.method = p.bytes.starts_with("HEAD ") ? "HEAD" : "?";
        return p;
    }
    HttpRequest r;
    r.method = genMethod(s);
    p.method = r.method;
    std::vector<std::string> names;
    for (auto& [n, e] : TestFS::files()) names.push_back(n);
    r.target = s.chance(1, 6) ? s.oneOf<const char*>({"/none", "/..", "/%00", "x", "/a/"}) : ref::encodeTarget(s, "/" + s.pick(names));
    ref::ordinary(s, r);
    if (s.coin()) r.headers.emplace_back("Accept-Encoding", "gzip, br");
    if (s.chance(1, 5)) {
        r.headers.emplace_back("Upgrade", "websocket");
        r.headers.emplace_back("Connection", "Upgrade");
        r.headers.emplace_back("Sec-WebSocket-Key", ref::base64(s.blob(16)));
    }
    p.bytes = r.raw();
    return p;
}
/// rarely many more
static size_t crowd(Src& s, size_t usual) { return s.weighted({400, 1}) == 1 ? usual + s.magnitude(500) : usual; }
static void runClients(Src& s, Ctx& c, Host<TestFS>& h, std::vector<ClientPlan>& clients) {
    for (auto& p : clients) p.conn = h.world.connect();
    for (size_t guard = 0; guard < 3000; ++guard) {
        std::vector<size_t> sending;
        for (size_t i = 0; i < clients.size(); ++i)
            if (clients[i].sent < clients[i].bytes.size()) sending.push_back(i);
        if (sending.empty()) break;
        auto& p = clients[sending[s.index(sending.size())]];
        auto left = p.bytes.size() - p.sent;
        auto n = s.coin() ? std::min<size_t>(left, 1 + s.draw(30)) : left - s.draw(left - 1);
        p.conn->toServer += p.bytes.substr(p.sent, n);
        p.sent += n;
        h.someSteps(s, 4);
    }
    for (auto& p : clients) {
        p.conn->toServer += p.bytes.substr(p.sent);
        p.sent = p.bytes.size();
    }
    h.settle();
    (void)c;
}
static void genFiles(Src& s) {
    TestFS::files().clear();
    for (auto n = 1 + s.draw(3); n > 0; --n) {
        auto name = s.chance(1, 4) ? std::string("index.html") : s.text(1 + s.small(8), "abcdefgh") + "." + s.pick(extensions());
        TestFS::add(name, s.blob(s.sized({511, 512, 513, 1024, 8192}, 9000)), s.oneOf<const char*>({"", "", "gzip", "br"}));
    }
}
PROPERTY("C03.isolation", 40000, 800000,
         "2..6 clients (rarely 500) sending generated requests (valid, refused, upgrades, incomplete) in pieces interleaved with partial reads and writes; each gets the bytes it "
         "gets alone; non-trivial: at least two clients got an answer and two requests were cut") {
    genFiles(s);
    std::vector<ClientPlan> clients;
    for (auto n = crowd(s, 2 + s.draw(4)); n > 0; --n) {
        clients.push_back(genClient(s));
        c.describe(cat("client: ", printable(clients.back().bytes, 300), "\n"));
    }
    for (auto& p : clients) p.expected = alone<TestFS>(p.bytes);
    size_t answered = 0, cut = 0;
    {
        Host<TestFS> h(&s);
        runClients(s, c, h, clients);
        for (size_t i = 0; i < clients.size(); ++i) {
            CHECK_EQ_TEXT(clients[i].conn->toClient, clients[i].expected, "client ", i);
            answered += !clients[i].expected.empty();
            cut += clients[i].conn->readsCompleted > 1;
        }
    }
    c.label(clients.size() > 6 ? std::string("more clients") : cat(clients.size(), " clients"));
    c.nontrivial(answered >= 2 && cut >= 2);
}
PROPERTY("C06.wellformed", 75000, 1500000,
         "1..5 (rarely 500) simultaneous requests of every kind (found, missing, refused, not implemented, compressed, HEAD, upgrade, corrupted), answers written in generated pieces "
         "while others are served; each answer parsed by an independent parser, HEAD compared with GET; non-trivial: two answers or a partial write") {
    genFiles(s);
    std::vector<ClientPlan> clients;
    for (auto n = crowd(s, 1 + s.draw(4)); n > 0; --n) {
        clients.push_back(genClient(s));
        c.describe(cat("client: ", printable(clients.back().bytes, 300), "\n"));
    }
    std::vector<HttpResponse> answers;
    {
        Host<TestFS> h(&s);
        runClients(s, c, h, clients);
        for (auto& p : clients) {
            if (p.conn->toClient.empty()) continue;
            std::string rest;
            answers.push_back(ref::parseResponse(p.conn->toClient, p.method == "HEAD" && feed(p.bytes, {}).kind == Fed::complete, &rest));
            auto& a = answers.back();
            if (a.status != 101) {
                CHECK(p.conn->closedForClient(), "connection left open after status ", a.status);
                CHECK(!a.one("Content-Type").empty());
            }
            c.label(cat(a.status));
        }
    }
    for (auto& p : clients) { // HEAD declares what GET would have
        if (p.method != "HEAD" || !p.bytes.starts_with("HEAD ") || feed(p.bytes, {}).kind != Fed::complete) continue;
        auto head = ref::parseResponse(p.conn->toClient, true);
        auto get = ref::parseResponse(alone<TestFS>("GET" + p.bytes.substr(4)), false);
        if (get.status == 101 || get.status == 506) continue;
        CHECK(head.status == get.status, "HEAD ", head.status, ", GET ", get.status);
        CHECK_EQ_TEXT(head.one("Content-Length"), get.one("Content-Length"), "HEAD and GET lengths");
        CHECK_EQ_TEXT(head.one("Content-Type"), get.one("Content-Type"), "HEAD and GET types");
        c.label("HEAD/GET compared");
    }
    c.nontrivial(answers.size() >= 2 || (answers.size() == 1 && clients[0].conn && clients[0].conn->readsCompleted > 1));
}

// ------------------------------------------------------------------------------------------------------------- C35
PROPERTY("C35.lookup", 450000, 9000000,
         "0..8 (rarely 3000) headers with names from a small generated pool (case variants, prefixes, extensions) and generated values, looked up by names and texts present, near or absent; "
         "non-trivial: at least two headers match or nearly match") {
    wf::http::Headers h;
    std::vector<std::pair<std::string, std::string>> model;
    auto base = s.text(1 + s.small(10), "abcXYZ-09~_");
    auto variant = [&](std::string t) {
        switch (s.weighted({3, 4, 1, 1, 1})) {
        case 0: return t;
        case 1:
            for (auto& ch : t)
                if (s.coin()) ch = (ch >= 'a' && ch <= 'z') ? static_cast<char>(ch - 32) : (ch >= 'A' && ch <= 'Z') ? static_cast<char>(ch + 32) : ch;
            return t;
        case 2: return t + s.oneOf<const char*>({"a", "-", "0"});
        case 3: t.pop_back(); return t;
        default: {
            auto& ch = t[s.index(t.size())]; // differs by the case bit but is not a letter, or by one
            ch = s.coin() ? static_cast<char>(ch ^ 0x20) : static_cast<char>(ch + 1);
            return t;
        }
        }
    };
    for (auto n = s.weighted({300, 1}) == 1 ? s.magnitude(3000) : s.draw(8); n > 0; --n) {
        model.emplace_back(variant(base), ref::fieldValue(s, s.small(30)));
        h.headers.emplace_back(model.back().first, model.back().second);
    }
    auto name = variant(base);
    std::string text;
    switch (s.draw(3)) {
    case 0: text = ref::fieldValue(s, s.small(4)); break;
    case 1:
        if (!model.empty()) {
            auto& v = s.pick(model).second;
            auto from = s.draw(v.size());
            text = ref::randomCase(s, v.substr(from, s.draw(v.size() - from)));
        }
        break;
    case 2:
        if (!model.empty()) text = ref::randomCase(s, s.pick(model).second) + (s.coin() ? "z" : "");
        break;
    default: break;
    }
    if (text.empty()) text = "z";
    for (auto& [n, v] : model) c.describe(cat(printable(n), ": ", printable(v), "\n"));
    c.describe(cat("look up ", printable(name), " for ", printable(text)));
    std::vector<std::string> expected;
    bool contains = false;
    for (auto& [n, v] : model)
        if (ref::lower(n) == ref::lower(name)) {
            expected.push_back(v);
            contains = contains || ref::lower(v).find(ref::lower(text)) != std::string::npos;
        }
    auto first = h.getHeaderValue(name);
    CHECK(first.has_value() == !expected.empty(), "found: ", first.has_value());
    if (first) CHECK_EQ_TEXT(*first, expected[0]);
    std::vector<std::string> values;
    for (auto& v : h.getHeadersValues(name)) values.push_back(v);
    CHECK(values == expected, values.size(), " values instead of ", expected.size());
    CHECK(h.headersContain(name, text) == contains, "headersContain is ", !contains);
    c.label(contains, "contains");
    c.label(expected.size() > 1, "several values");
    c.nontrivial(model.size() >= 2);
}

static bool init = [] {
    beforeCase() = [] { std::locale::global(std::locale::classic()); };
    return true;
}();

// ------------------------------------------------------------------------------------------------------------- C40
namespace {
/// trees with the same names and other contents
const Tree& siteTree(size_t i) {
    static auto trees = [] {
        std::array<Tree, 4> t;
        for (size_t k = 0; k < t.size(); ++k) {
            auto mark = cat("of site ", k, " ");
            t[k].add("index.html", "index " + mark);
            t[k].add("page.html", "page " + mark + std::string(700 * k, 'p'));
            t[k].add("sub/index.html", "sub " + mark);
            t[k].add("sub/data.txt", "data " + mark + std::string(8192 - 9, 'd'));
            t[k].add(cat("only", k, ".js"), "only " + mark);
            if (k == 3) t[k].add("page.html/index.html", "a directory " + mark), t[k].files.erase("page.html");
        }
        return t;
    }();
    return trees[i];
}
std::filesystem::path siteRoot(size_t i) {
    static pid_t owner = 0;
    auto base = scratchDir() / "sites";
    if (owner != getpid()) {
        std::filesystem::remove_all(base);
        for (size_t k = 0; k < 4; ++k) siteTree(k).store(base / cat(k));
        owner = getpid();
    }
    return base / cat(i);
}
} // namespace

PROPERTY("C40.servers", 120000, 2400000,
         "up to 3 (rarely 20) servers of one process, made and destroyed on the way (new ones where others were), each with a root of its own (files of the same names); requests sent in pieces to any of them, WebSockets opened and used; "
         "each answer is the one of the tree of its server, each WebSocket message comes back from the server it was sent to; non-trivial: answers of two servers running together") {
    using Site = Host<wf::fs::NativeDebugFS>;
    struct Server {
        size_t root;
        std::shared_ptr<std::optional<Site>> place;
        size_t serial;
        Site* host;
        ~Server() { place->reset(); }
    };
    struct Visitor {
        ConnPtr conn;
        Server* server;
        std::string method, target, bytes;
        bool upgrade;
        size_t sent = 0;
        std::vector<std::string> texts; // which have to come back
    };
    std::vector<std::unique_ptr<Server>> servers;
    std::vector<std::unique_ptr<Visitor>> visitors;
    size_t most = s.weighted({200, 1}) == 1 ? 20 : 3, serial = 0, made = 0;
    std::set<Server*> answering;
    bool again = s.coin(); // servers are made where destroyed ones were
    std::vector<std::shared_ptr<std::optional<Site>>> places;
    auto make = [&] {
        auto root = s.draw(3);
        servers.push_back(std::make_unique<Server>());
        auto free = std::find_if(places.begin(), places.end(), [](auto& o) { return !*o; });
        if (!again || free == places.end()) free = places.insert(places.end(), std::make_shared<std::optional<Site>>());
        servers.back()->place = *free;
        servers.back()->root = root;
        servers.back()->serial = made++;
        servers.back()->host = &(*free)->emplace(&s, siteRoot(root));
        if (!again) places.clear();
        if (c.describing()) c.describe(cat("server ", servers.back()->serial, " of site ", root, "; "));
    };
    auto check = [&](Server& v) {
        for (auto& u : visitors)
            if (u->server == &v) {
                u->conn->toServer += u->bytes.substr(u->sent);
                u->sent = u->bytes.size();
            }
        v.host->settle();
        for (auto& u : visitors) {
            if (u->server != &v) continue;
            auto what = cat(u->method, " ", u->target, " on site ", v.root, ": ");
            std::string rest;
            auto a = ref::parseResponse(u->conn->toClient, u->method == "HEAD", &rest);
            if (u->upgrade) {
                CHECK(a.status == 101 && !u->conn->closedForClient(), what, "status ", a.status);
                auto frames = ref::serverFrames(rest);
                CHECK(frames.size() == u->texts.size(), what, frames.size(), " messages come back of ", u->texts.size());
                for (size_t k = 0; k < frames.size(); ++k) CHECK_EQ_TEXT(frames[k].data, u->texts[k], what, "message ", k);
                continue;
            }
            auto e = expect(siteTree(v.root), u->method, u->target);
            CHECK(a.status == e.status, what, "status ", a.status, " instead of ", e.status);
            if (e.file && u->method != "HEAD") CHECK_EQ_TEXT(a.body, *e.file, what, "body");
            if (e.file) CHECK_EQ_TEXT(a.one("Content-Length"), cat(e.file->size()), what, "length");
            CHECK(u->conn->closedForClient(), what, "connection left open");
            answering.insert(&v);
        }
        std::erase_if(visitors, [&](auto& u) { return u->server == &v && !u->upgrade; });
    };
    make();
    make();
    for (auto steps = 6 + s.many(40, 500, 300); steps > 0; --steps) {
        if (servers.empty()) make();
        auto at = s.index(servers.size());
        auto& v = *servers[at];
        switch (s.weighted({6, 6, 4, 2, 1, 2})) {
        case 0: {
            auto u = std::make_unique<Visitor>();
            u->server = &v;
            u->conn = v.host->world.connect();
            HttpRequest r;
            r.method = u->method = genMethod(s);
            r.target = u->target = genTargetFor(s, siteTree(s.chance(1, 4) ? s.draw(3) : v.root));
            u->upgrade = s.chance(1, 4);
            if (u->upgrade) {
                r.method = u->method = "GET";
                r.target = u->target = "/";
            }
            ref::ordinary(s, r);
            if (u->upgrade) {
                r.major = r.minor = 1;
                r.headers.emplace_back("Upgrade", "websocket");
                r.headers.emplace_back("Connection", "Upgrade");
                r.headers.emplace_back("Sec-WebSocket-Version", "13");
                r.headers.emplace_back("Sec-WebSocket-Key", ref::base64(s.blob(16)));
            }
            u->bytes = r.raw();
            if (c.describing()) c.describe(cat(u->method, " ", printable(u->target, 60), u->upgrade ? " (upgrade)" : "", " to server ", v.serial, "; "));
            visitors.push_back(std::move(u));
        } break;
        case 1: { // some bytes
            std::vector<Visitor*> sending;
            for (auto& u : visitors)
                if (u->sent < u->bytes.size()) sending.push_back(u.get());
            if (sending.empty()) break;
            auto& u = *s.pick(sending);
            auto n = u.bytes.size() - u.sent;
            n -= s.draw(n - 1);
            u.conn->toServer += u.bytes.substr(u.sent, n);
            u.sent += n;
        } break;
        case 2: v.host->someSteps(s, 8); break;
        case 3: { // a message
            std::vector<Visitor*> opened;
            for (auto& u : visitors)
                if (u->upgrade && u->conn->toClient.starts_with("HTTP/1.1 101 ")) opened.push_back(u.get());
            if (opened.empty()) break;
            auto& u = *s.pick(opened);
            auto t = cat("text ", serial++, " ", s.text(s.small(200), "abc"));
            u.conn->toServer += ref::clientFrame(1, t, static_cast<uint32_t>(s.draw(UINT32_MAX)));
            u.texts.push_back(t);
            if (c.describing()) c.describe(cat("a text to server ", u.server->serial, "; "));
        } break;
        case 4:
            if (servers.size() < most) make();
            else check(v);
            break;
        default:
            if (servers.size() < 2) break;
            std::erase_if(visitors, [&](auto& u) { return u->server == &v; });
            answering.erase(&v);
            if (c.describing()) c.describe(cat("server ", v.serial, " destroyed; "));
            servers.erase(servers.begin() + static_cast<std::ptrdiff_t>(at));
            if (s.coin()) make();
        }
        if (s.chance(1, 10)) check(*servers[s.index(servers.size())]);
    }
    for (auto& v : servers) check(*v);
    c.nontrivial(answering.size() >= 2);
    c.label(cat(std::min<size_t>(servers.size(), 4), " servers at the end"));
}
