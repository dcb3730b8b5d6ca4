// C33: what the detection headers say, for every target, compiler, library and language level, through the real compilers.
#include "compile.hpp"
#include <string>

struct Target {
    const char* name;
    int windows, apple, linux_, x86, arm;  // arm: -1 is 64-bit ARM, for which nothing is promised
};
static const Target targets[] = {
    {"x86_64-linux-gnu", 0, 0, 1, 1, 0},        {"i386-linux-gnu", 0, 0, 1, 1, 0},          {"x86_64-linux-gnux32", 0, 0, 1, 1, 0},
    {"x86_64-linux-musl", 0, 0, 1, 1, 0},       {"x86_64-linux-android", 0, 0, 1, 1, 0},    {"i686-linux-android", 0, 0, 1, 1, 0},
    {"armv7-linux-gnueabihf", 0, 0, 1, 0, 1},   {"armv5-linux-gnueabi", 0, 0, 1, 0, 1},     {"thumbv7-linux-gnueabihf", 0, 0, 1, 0, 1},
    {"armv7a-linux-androideabi", 0, 0, 1, 0, 1}, {"arm-none-eabi", 0, 0, 0, 0, 1},          {"aarch64-linux-gnu", 0, 0, 1, 0, -1},
    {"x86_64-apple-darwin", 0, 1, 0, 1, 0},     {"i386-apple-darwin", 0, 1, 0, 1, 0},       {"arm64-apple-darwin", 0, 1, 0, 0, -1},
    {"armv7-apple-ios", 0, 1, 0, 0, 1},         {"x86_64-apple-ios-simulator", 0, 1, 0, 1, 0}, {"x86_64-pc-windows-msvc", 1, 0, 0, 1, 0},
    {"i686-pc-windows-msvc", 1, 0, 0, 1, 0},    {"thumbv7-pc-windows-msvc", 1, 0, 0, 0, 1}, {"aarch64-pc-windows-msvc", 1, 0, 0, 0, -1},
    {"i686-w64-mingw32", 1, 0, 0, 1, 0},        {"x86_64-w64-mingw32", 1, 0, 0, 1, 0},      {"armv7-w64-mingw32", 1, 0, 0, 0, 1},
    {"riscv64-linux-gnu", 0, 0, 1, 0, 0},       {"riscv32-unknown-elf", 0, 0, 0, 0, 0},     {"powerpc64le-linux-gnu", 0, 0, 1, 0, 0},
    {"powerpc-linux-gnu", 0, 0, 1, 0, 0},       {"s390x-linux-gnu", 0, 0, 1, 0, 0},         {"mips64-linux-gnu", 0, 0, 1, 0, 0},
    {"sparcv9-linux-gnu", 0, 0, 1, 0, 0},       {"wasm32-unknown-unknown", 0, 0, 0, 0, 0},  {"wasm32-wasi", 0, 0, 0, 0, 0},
    {"x86_64-unknown-freebsd", 0, 0, 0, 1, 0},  {"x86_64-unknown-openbsd", 0, 0, 0, 1, 0},  {"aarch64-unknown-freebsd", 0, 0, 0, 0, -1},
    {"i686-unknown-haiku", 0, 0, 0, 1, 0}};
//! compilers that are not here, by the macros they document
static const Target stand_ins[] = {
    {"-D_MSC_VER=1939 -D_WIN32=1 -D_WIN64=1 -D_M_X64=100 -D_M_AMD64=100", 1, 0, 0, 1, 0},
    {"-D_MSC_VER=1939 -D_WIN32=1 -D_M_IX86=600", 1, 0, 0, 1, 0},
    {"-D_MSC_VER=1939 -D_WIN32=1 -D_M_ARM=7", 1, 0, 0, 0, 1},
    {"-D_MSC_VER=1939 -D_WIN32=1 -D_WIN64=1 -D_M_ARM64=1", 1, 0, 0, 0, -1},
    {"-D__SUNPRO_CC=0x5150 -D__sun=1 -D__amd64__=1 -D__x86_64__=1", 0, 0, 0, 1, 0},
    {"-D__linux__=1 -D__EDG__=1 -D__amd64__=1", 0, 0, 1, 1, 0},
    {"-D__linux__=1 -D__arm__=1", 0, 0, 1, 0, 1},
    {"", 0, 0, 0, 0, 0}};

static std::string is(const std::string& macro, int v) {
    const std::string n = v ? "!" : "";
    return "#if " + n + macro + "\n#error " + macro + "\n#endif\n#if (" + macro + ") != " + (v ? "true" : "false") + "\n#error " + macro + "\n#endif\n#ifndef " + macro + "\n#error no " + macro
           + "\n#endif\n";
}
static std::string defined(const std::string& macro, bool v) { return std::string(v ? "#ifndef " : "#ifdef ") + macro + "\n#error " + macro + "\n#endif\n"; }
static std::string platform(const Target& t) {
    std::string s = "#include <xme/hal/platform_macros.hpp>\n#include <xme/hal/architecture_detection.hpp>\n";
    s += is("XME_PLATFORM_WINDOWS", t.windows) + is("XME_PLATFORM_APPLE", t.apple) + is("XME_PLATFORM_LINUX", t.linux_) + is("XME_ARCH_X86", t.x86);
    if(t.arm >= 0)
        s += is("XME_ARCH_ARM", t.arm);
    if(t.windows || t.linux_)
        s += defined("DLLEXPORT", true) + defined("DLLIMPORT", true);
    return s;
}
static std::string compiler(bool gcc, bool clang) {
    return "#include <xme/hal/compiler_detection.hpp>\n" + defined("XME_COMPILER_GCC", gcc) + defined("XME_COMPILER_CLANG", clang);
}
static const std::string inc = " -I" XME_INC " ";
static void one(const std::string& cmd, const std::string& text, bool again = true) {
    mc::begin_case();
    mc::log("%s", cmd.c_str());
    mc::compiles(cmd + inc, again ? text + text : text, "wrong answer");
    mc::evaluated_once();
}
static void cross() {
    for(const Target& t : targets)
        for(const char* l : {"c++20", "c++23"})
            one(std::string("clang++ --target=") + t.name + " -std=" + l + " -fsyntax-only", platform(t) + compiler(false, true)
                + (t.windows || t.linux_ ? "extern \"C\" { DLLEXPORT void f(); DLLIMPORT void g(); struct DLLEXPORT S { void h(); }; }\n" : ""), false);
    mc::sample(mc::g_trail->log);
}
static void native() {
    for(const char* m : {"-m64", "-m32", "-mx32"})
        for(const char* l : {"c++20", "c++23", "gnu++20", "c++17"})
            one(std::string("g++ ") + m + " -std=" + l + " -fsyntax-only", platform(targets[0]) + compiler(true, false));
    mc::sample(mc::g_trail->log);
}
static void absent() {
    for(const Target& t : stand_ins) {
        one(std::string("g++ -E -undef ") + t.name, platform(t) + compiler(false, false));
        one(std::string("g++ -fsyntax-only -std=c++20 -undef ") + t.name, "#include <xme/setup.hpp>\nXME_INLINE int f() { return 1; }\nint i = f();\n", false);
    }
    mc::sample(mc::g_trail->log);
}
static void levels() {
    struct {
        const char* l;
        bool cpp20, cpp23;
    } const gcc[]{{"c++11", false, false}, {"c++17", false, false}, {"c++20", true, false}, {"gnu++20", true, false}, {"c++23", true, false}},
      clang[]{{"c++11", false, false}, {"c++17", false, false}, {"c++20", true, false}, {"gnu++20", true, false}, {"c++23", false, true}, {"gnu++23", false, true}, {"c++2c", false, true}};
    auto level = [](const std::string& cxx, auto& l) {
        std::string s = "#include <xme/setup.hpp>\n" + defined("XME_CPP20", l.cpp20) + defined("XME_CPP23", l.cpp23);
        s += "#undef constexpr\nXME_CONSTEXPR int f() { return 1; }\nstatic_assert(f() == 1, \"XME_CONSTEXPR\");\nXME_CONSTEXPR20 int g() { return 1; }\nXME_INLINE int h() { return g(); }\n";
        s += "#if __cpp_constexpr >= 202002L\nstatic_assert(g() == 1, \"XME_CONSTEXPR20\");\n#else\n#define XME_STR2(x) #x\n#define XME_STR(x) XME_STR2(x)\n"
             "static_assert(sizeof(XME_STR(XME_CONSTEXPR20)) == 1, \"XME_CONSTEXPR20\");\n#endif\n";
        one(cxx + " -fsyntax-only -std=" + l.l, s, false);
        // a language level whose number lies between
        if(std::string(l.l) == "c++20")
            for(long v : {202001L, 202002L, 202100L, 202301L, 202302L, 202400L}) {
                auto w = l;
                w.cpp20 = v >= 202002 && v < 202302, w.cpp23 = v >= 202302;
                one(cxx + " -E -U__cplusplus -D__cplusplus=" + std::to_string(v) + "L", "#include <xme/setup.hpp>\n" + defined("XME_CPP20", w.cpp20) + defined("XME_CPP23", w.cpp23));
            }
    };
    for(auto& l : gcc)
        level("g++", l);
    for(auto& l : clang)
        level("clang++", l);
    mc::sample(mc::g_trail->log);
}
static void library() {
    const std::string h = "#include <xme/hal/std_detection.hpp>\n";
    for(const char* cxx : {"g++", "clang++"})
        for(const char* l : {"c++17", "c++20", "c++23"})
            for(const char* before : {"", "#include <cstddef>\n", "#include <vector>\n"})
                one(std::string(cxx) + " -fsyntax-only -std=" + l, before + h + defined("XME_LIBSTD_GCC", true) + defined("XME_LIBSTD_CLANG", false));
    // libc++ and a third library, by stand-ins
    for(int third = 0; third < 2; ++third)
        for(const char* cxx : {"g++", "clang++"}) {
            const std::string lib = third ? "#define _MSVC_STL_VERSION 143" : "#define _LIBCPP_VERSION 180100";
            one("cat > /dev/null; set -e; d=$(mktemp -d); trap 'rm -rf \"$d\"' EXIT; for f in version cstddef ciso646 cstdint utility type_traits; do echo '" + lib + "' > $d/$f; done; echo '" + h
                  + defined("XME_LIBSTD_GCC", false) + defined("XME_LIBSTD_CLANG", !third) + "' > $d/probe.cpp; " + cxx + " -nostdinc++ -isystem $d -fsyntax-only -std=c++20 $d/probe.cpp",
                "", false);
        }
    mc::sample(mc::g_trail->log);
}
//! what DLLEXPORT and DLLIMPORT do
static void exports() {
    const std::string t = "#include <xme/hal/platform_macros.hpp>\nextern \"C\" { DLLIMPORT int imp(); DLLEXPORT int expo() { return imp(); } int hid() { return 1; } }\n";
    for(const char* cxx : {"g++", "clang++"})
        for(const char* o : {"-O0", "-O2"}) {
            mc::begin_case();
            mc::log("%s %s -fvisibility=hidden", cxx, o);
            mc::Ran r = mc::run(std::string(cxx) + inc + o + " -w -fPIC -fvisibility=hidden -S -o - -x c++ -", t);
            if(r.rc != 0 && r.out.find("error") == r.out.npos)
                mc::no_compiler(r.out);
            REQUIRE(r.rc == 0, "wrong: %.400s", r.out.c_str());
            REQUIRE(r.out.find(".hidden\thid") != r.out.npos, "harness: no visibility");
            REQUIRE(r.out.find(".hidden\texpo") == r.out.npos, "an exported function is not visible");
            REQUIRE(r.out.find(".hidden\timp") == r.out.npos, "an imported function is looked for inside");
            mc::evaluated_once();
        }
    for(const char* target : {"x86_64-pc-windows-msvc", "i686-pc-windows-msvc", "x86_64-w64-mingw32"}) {
        mc::begin_case();
        mc::log("clang++ --target=%s", target);
        mc::Ran r = mc::run(std::string("clang++ --target=") + target + inc + " -w -S -o - -x c++ -", t);
        if(r.rc != 0 && r.out.find("error") == r.out.npos)
            mc::no_compiler(r.out);
        REQUIRE(r.rc == 0, "wrong: %.400s", r.out.c_str());
        std::string low = r.out;
        for(char& c : low)
            c = std::tolower(c);
        const std::size_t at = low.find("export:");
        REQUIRE(at != low.npos && low.find("expo", at + 7) != low.npos && low.find("hid", at) == low.npos, "an exported function is not exported");
        REQUIRE(low.find("__imp_") != low.npos, "an imported function is not imported");
        mc::evaluated_once();
    }
    mc::sample(mc::g_trail->log);
}
static void setup() {
    mc::add("cross", cross), mc::add("native", native), mc::add("absent", absent), mc::add("levels", levels), mc::add("library", library), mc::add("exports", exports);
}
MC_MAIN(setup)
