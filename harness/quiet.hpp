// quiet.hpp - the library prints traces on std::cout: they are formatted, then discarded
#pragma once
#include <iostream>
#include <streambuf>
namespace quiet {
struct Null : std::streambuf {
    int overflow(int c) override { return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
inline void silence() {
    static auto n = new Null; // never destroyed: std::cout is flushed at exit
    std::cout.rdbuf(n);
}
} // namespace quiet
