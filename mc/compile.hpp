// Running the real compilers as the transition function of a configuration space.
#pragma once
#include "mc.hpp"
#include <cstdio>
#include <string>
#include <sys/wait.h>

namespace mc {
struct Ran {
    int rc;
    std::string out;
};
//! runs a shell command with text on its standard input
inline Ran run(const std::string& cmd, const std::string& text) {
    ::setenv("XME_MC_PROBE", text.c_str(), 1);
    Ran r{0, ""};
    FILE* f = popen(("printf '%s' \"$XME_MC_PROBE\" | ( " + cmd + " ) 2>&1").c_str(), "r");
    REQUIRE(f, "harness: popen");
    char b[512];
    for(std::size_t n; (n = fread(b, 1, sizeof b, f)) > 0;)
        if(r.out.size() < 200000)
            r.out.append(b, n);
    r.rc = pclose(f);
    ++g_trail->execs;
    return r;
}
//! the compiler itself does not work: neither holds nor broken
[[noreturn]] inline void no_compiler(const std::string& out) {
    std::fprintf(stderr, "harness: the compiler cannot be run: %s\n", out.c_str());
    std::strcpy(g_trail->msg, "harness: the compiler cannot be run");
    g_trail->status = 1;
    _exit(3);
}
//! compiles text, which must succeed
inline void compiles(const std::string& cmd, const std::string& text, const char* what) {
    Ran r = run(cmd + " -w -x c++ -", text);
    if(r.rc != 0 && r.out.find("error") == r.out.npos && r.out.find("multiple definition") == r.out.npos && r.out.find("undefined reference") == r.out.npos)
        no_compiler(r.out);
    std::size_t at = r.out.find("error");
    if(at == r.out.npos)
        at = r.out.find("multiple definition");
    REQUIRE(r.rc == 0, "%s: %.600s", what, r.out.c_str() + (at == r.out.npos ? 0 : at));
}
}  // namespace mc
