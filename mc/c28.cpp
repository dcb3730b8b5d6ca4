// C28: every subset of the SIMD switches and every compiler target level, through the real compiler.
#include "compile.hpp"
#include <string>
#include <type_traits>
#include <vector>
#include <xme/hal/simd_detection.hpp>

// weakest first; each builds on the one before
static const char* const ext[] = {"MMX", "SSE", "SSE2", "SSE3", "SSSE3", "SSE41", "SSE42", "AVX", "AVX2", "AVX512F"};
static const char* const low[] = {"mmx", "sse", "sse2", "sse3", "ssse3", "sse41", "sse42", "avx", "avx2", "avx512f"};
constexpr int NE               = 10;

static std::string probe() {
    std::string s = "#include <xme/hal/simd_detection.hpp>\n#include <xme/hal/simd_detection.hpp>\nusing namespace xme::hal;\n";
    for(int i = 0; i < NE; ++i) {
        const std::string e = ext[i], n = std::to_string(i);
        s += "static_assert(unsigned(ESimd::" + std::string(low[i]) + ") == 1u << " + n + " && XME_SIMD_" + e + " == 1u << " + n + ");\n";
        s += "static_assert(XME_SIMD_USE_" + e + " == bool(USED & 1u << " + n + "), \"XME_SIMD_USE_" + e + "\");\n";
        s += "static_assert(XME_SIMD_HAS_" + e + " == bool(HAS & 1u << " + n + "), \"XME_SIMD_HAS_" + e + "\");\n";
        s += "#if XME_SIMD_USE_" + e + " != (USED >> " + n + " & 1)\n#error XME_SIMD_USE_" + e + "\n#endif\n";
    }
    s += "static_assert(unsigned(enabled_simd) == USED, \"enabled_simd\");\nstatic_assert(XME_ENABLED_SIMD == USED, \"XME_ENABLED_SIMD\");\n";
    s += "static_assert(unsigned(supported_simd) == HAS, \"supported_simd\");\nstatic_assert(XME_SUPPORTED_SIMD == HAS, \"XME_SUPPORTED_SIMD\");\n";
    return s;
}
struct Target {
    const char* flags;
    unsigned has;
};
static const Target targets[] = {
    {"-march=x86-64", 0x7}, {"-march=x86-64 -mno-sse2", 0x3}, {"-march=x86-64 -mno-sse", 0x1}, {"-march=x86-64 -mno-sse -mno-mmx", 0x0},
    {"-march=x86-64 -msse3", 0xf}, {"-march=x86-64 -mssse3", 0x1f}, {"-march=x86-64 -msse4.1", 0x3f}, {"-march=x86-64 -msse4.2", 0x7f},
    {"-march=x86-64 -mavx", 0xff}, {"-march=x86-64 -mavx2", 0x1ff}, {"-march=x86-64 -mavx512f", 0x3ff}, {"-march=nehalem", 0x7f},
    {"-march=haswell", 0x1ff}, {"-march=skylake-avx512", 0x3ff}, {"-march=haswell -mno-avx2", 0xff}, {"-march=core2", 0x1f}};
constexpr int NT = sizeof targets / sizeof *targets;

static std::string g_probe;
static void compile(const char* cxx, const char* std_, const Target& t, unsigned switches) {
    unsigned used = 0;
    for(int i = NE; i-- > 0;)
        if(switches >> i & 1 || used >> (i + 1) & 1)
            used |= 1u << i;
    mc::begin_case();
    std::string cmd = std::string(cxx) + " -std=" + std_ + " -fsyntax-only -I" XME_INC " " + t.flags, on;
    for(int i = 0; i < NE; ++i)
        if(switches >> i & 1)
            cmd += std::string(" -DXME_SIMD_ENABLE_") + ext[i], on += std::string(" ") + ext[i];
    cmd += " -DUSED=" + std::to_string(used) + " -DHAS=" + std::to_string(t.has);
    mc::log("%s -std=%s %s, enabling{%s }", cxx, std_, t.flags, on.c_str());
    mc::compiles(cmd, g_probe, "wrong answer");
    mc::evaluated_once(switches != 0 || t.has != 7);
}
static void prepare() {
    g_probe = probe();
}
//! every subset of the switches
static void subsets(const char* cxx, const char* std_, int first, int step) {
    prepare();
    for(int t = first; t < NT; t += step)
        for(unsigned s = mc::g_shard; s < 1u << NE; s += mc::g_shards)
            compile(cxx, std_, targets[t], s);
    mc::sample(mc::g_trail->log);
}
//! every target with every single switch, none and all
static void levels(const char* cxx, const char* std_) {
    prepare();
    for(int t = mc::g_shard; t < NT; t += mc::g_shards) {
        for(int i = 0; i < NE; ++i)
            compile(cxx, std_, targets[t], 1u << i);
        compile(cxx, std_, targets[t], 0);
        compile(cxx, std_, targets[t], (1u << NE) - 1);
    }
    mc::sample(mc::g_trail->log);
}
//! union and intersection of every two sets
static void operators() {
    using xme::hal::ESimd;
    mc::begin_case(), mc::log("| and & of every two sets of extensions");
    static_assert(std::is_same_v<decltype(ESimd() | ESimd()), ESimd> && std::is_same_v<decltype(ESimd() & ESimd()), ESimd>);
    static_assert((ESimd::avx | ESimd::mmx) == ESimd(0x81) && (ESimd(0x83) & ESimd::sse) == ESimd::sse);
    for(unsigned a = 0; a < 1u << NE; ++a)
        for(unsigned b = 0; b < 1u << NE; ++b) {
            REQUIRE(unsigned(ESimd(a) | ESimd(b)) == (a | b) && unsigned(ESimd(a) & ESimd(b)) == (a & b), "%x | %x is %x, %x & %x is %x", a, b,
                    unsigned(ESimd(a) | ESimd(b)), a, b, unsigned(ESimd(a) & ESimd(b)));
            mc::evaluated_once();
        }
    mc::sample(mc::g_trail->log);
}
static void setup() {
    mc::add("subsets-gcc", [] { subsets("g++", "c++20", 0, mc::thorough ? 1 : NT); }, 8);
    mc::add("levels-gcc", [] { levels("g++", "c++20"); }, 4);
    mc::add("levels-gcc23", [] { levels("g++", "c++23"); }, 4);
    mc::add("levels-clang", [] { levels("clang++", "c++20"); }, 4);
    if(mc::thorough)
        mc::add("subsets-clang", [] { subsets("clang++", "c++20", 0, 1); }, 8);
    mc::add("operators", operators);
}
MC_MAIN(setup)
