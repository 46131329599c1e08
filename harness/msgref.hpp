// msgref.hpp - independent description of the call message format (native byte order), written from the protocol the browser client speaks
#pragma once
#include "pbt.hpp"

#include <cmath>

namespace ref {

enum Coded { undefined = 0, boolTrue = 1, boolFalse = 2, number = 3, smallString = 4, string = 5, exception = 6, tuple = 18 };

/// A dynamically typed value
struct Value {
    enum Kind { num, boolean, text, error, list } kind = num;
    double n = 0;
    bool b = false;
    std::string t;
    std::vector<Value> items;
    static Value of(double d) {
        Value v;
        v.n = d;
        return v;
    }
    static Value of(bool d) {
        Value v;
        v.kind = boolean;
        v.b = d;
        return v;
    }
    static Value of(std::string d) {
        Value v;
        v.kind = text;
        v.t = std::move(d);
        return v;
    }
    static Value err(std::string d) {
        Value v;
        v.kind = error;
        v.t = std::move(d);
        return v;
    }
    static Value of(std::vector<Value> i) {
        Value v;
        v.kind = list;
        v.items = std::move(i);
        return v;
    }
};
inline bool sameNumber(double a, double b) { return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)); }
inline std::string show(const Value& v) {
    switch (v.kind) {
    case Value::num: {
        std::ostringstream os;
        os.precision(17);
        os << v.n;
        return os.str();
    }
    case Value::boolean: return v.b ? "true" : "false";
    case Value::text: return pbt::printable(v.t, 60);
    case Value::error: return "error " + pbt::printable(v.t, 60);
    default: {
        std::string o = "[";
        for (auto& i : v.items) o += (o.size() > 1 ? ", " : "") + show(i);
        return o + "]";
    }
    }
}
inline bool same(const Value& a, const Value& b) {
    if (a.kind != b.kind) return false;
    switch (a.kind) {
    case Value::num: return sameNumber(a.n, b.n);
    case Value::boolean: return a.b == b.b;
    case Value::text:
    case Value::error: return a.t == b.t;
    default:
        if (a.items.size() != b.items.size()) return false;
        for (size_t i = 0; i < a.items.size(); ++i)
            if (!same(a.items[i], b.items[i])) return false;
        return true;
    }
}
/// number of coded parameters a value takes, itself included
inline size_t codedCount(const Value& v) {
    size_t n = 1;
    for (auto& i : v.items) n += codedCount(i);
    return n;
}

inline void put(std::string& out, const Value& v) {
    auto raw = [&](auto x) { out.append(reinterpret_cast<const char*>(&x), sizeof x); };
    switch (v.kind) {
    case Value::num:
        out += static_cast<char>(number);
        raw(v.n);
        break;
    case Value::boolean: out += static_cast<char>(v.b ? boolTrue : boolFalse); break;
    case Value::text:
        if (v.t.size() < 256) {
            out += static_cast<char>(smallString);
            out += static_cast<char>(v.t.size());
        }
        else {
            out += static_cast<char>(string);
            raw(static_cast<uint16_t>(v.t.size()));
        }
        out += v.t;
        break;
    case Value::error:
        out += static_cast<char>(exception);
        raw(static_cast<uint16_t>(v.t.size()));
        out += v.t;
        break;
    default:
        out += static_cast<char>(tuple);
        out += static_cast<char>(v.items.size());
        for (auto& i : v.items) put(out, i);
    }
}
inline std::string parameters(const std::vector<Value>& values) {
    std::string out;
    for (auto& v : values) put(out, v);
    return out;
}
/// a whole message
inline std::string message(int command, size_t count, std::string_view params, uint32_t declared) {
    std::string out{static_cast<char>(command), static_cast<char>(count), '\0', '\0'};
    out.append(reinterpret_cast<const char*>(&declared), 4);
    out += params;
    return out;
}
inline std::string callMessage(const std::string& name, const std::vector<Value>& args) {
    std::vector<Value> all{Value::of(name)};
    all.insert(all.end(), args.begin(), args.end());
    auto p = parameters(all);
    return message(3, all.size(), p, static_cast<uint32_t>(p.size()));
}

/// Strict reading of parameters; throws Failure
inline Value take(std::string_view& d) {
    auto need = [&](size_t n) {
        if (d.size() < n) throw pbt::Failure{pbt::cat("truncated parameter: ", pbt::printable(d, 40))};
    };
    auto text = [&](size_t header, size_t n) {
        need(header + n);
        std::string t(d.substr(header, n));
        d.remove_prefix(header + n);
        return t;
    };
    auto u16 = [&] {
        need(3);
        uint16_t n;
        memcpy(&n, d.data() + 1, 2);
        return n;
    };
    need(1);
    switch (d[0]) {
    case boolTrue:
    case boolFalse: {
        auto v = Value::of(d[0] == boolTrue);
        d.remove_prefix(1);
        return v;
    }
    case number: {
        need(9);
        double x;
        memcpy(&x, d.data() + 1, 8);
        d.remove_prefix(9);
        return Value::of(x);
    }
    case smallString: need(2); return Value::of(text(2, static_cast<unsigned char>(d[1])));
    case string: {
        auto n = u16();
        return Value::of(text(3, n));
    }
    case exception: {
        auto n = u16();
        return Value::err(text(3, n));
    }
    case tuple: {
        need(2);
        size_t n = static_cast<unsigned char>(d[1]);
        d.remove_prefix(2);
        std::vector<Value> items;
        for (size_t i = 0; i < n; ++i) items.push_back(take(d));
        return Value::of(std::move(items));
    }
    default: throw pbt::Failure{pbt::cat("unknown parameter type ", static_cast<int>(d[0]))};
    }
}
struct Call {
    int command = 0;
    size_t count = 0;
    std::vector<Value> values; // name included
};
/// Strict reading of a call or return message
inline Call readCall(std::string_view raw) {
    if (raw.size() < 8) throw pbt::Failure{"message without a whole header"};
    Call c;
    c.command = static_cast<unsigned char>(raw[0]);
    c.count = static_cast<unsigned char>(raw[1]);
    uint32_t declared;
    memcpy(&declared, raw.data() + 4, 4);
    auto d = raw.substr(8);
    if (declared != d.size()) throw pbt::Failure{pbt::cat("message declares ", declared, " bytes of parameters and has ", d.size())};
    while (!d.empty()) c.values.push_back(take(d));
    size_t n = 0;
    for (auto& v : c.values) n += codedCount(v);
    if (n != c.count) throw pbt::Failure{pbt::cat("message declares ", c.count, " parameters and has ", n)};
    return c;
}

} // namespace ref
