// C37: constant evaluation: exhaustive histories run by the evaluators of real compilers, and again at run time.
#include "compile.hpp"

struct Case {
    int group;
    const char *what, *call;
    bool builtins, deep;
};
static const Case cases[] = {
    {1, "arrays of int made", "array_makes<int>()"},
    {1, "arrays of owners made", "array_makes<Owner>()"},
    {1, "arrays of what only moves made", "array_makes<MoveOnly>()"},
    {1, "arrays of what has no default made", "array_makes<Pod>()"},
#define HISTORIES(k) \
    {1, "histories of an array of int", "arrays<int>(" #k ", DEPTH)"}, {1, "histories of an array of owners", "arrays<Owner>(" #k ", DEPTH)"}, \
      {1, "histories of an array of what only moves", "arrays<MoveOnly>(" #k ", DEPTH)", false, true}, {1, "histories of an array of what has no default", "arrays<Pod>(" #k ", DEPTH)", false, true}
    HISTORIES(0), HISTORIES(1), HISTORIES(2), HISTORIES(3), HISTORIES(4), HISTORIES(5), HISTORIES(6), HISTORIES(7), HISTORIES(8),
    HISTORIES(9), HISTORIES(10), HISTORIES(11), HISTORIES(12), HISTORIES(13), HISTORIES(14), HISTORIES(15), HISTORIES(16), HISTORIES(17),
    HISTORIES(18), HISTORIES(19), HISTORIES(20), HISTORIES(21), HISTORIES(22), HISTORIES(23), HISTORIES(24), HISTORIES(25),
    {2, "histories of a heap of int", "heaps<int>(HEAP)"},
    {2, "histories of a heap of owners", "heaps<Owner>(HEAP - 1)"},
    {2, "heaps of int made", "heap_makes<int>()"},
    {2, "heaps of owners made", "heap_makes<Owner>()"},
    {3, "views", "views()"},
    {3, "iterators", "iterators()"},
    {4, "pairs and tuples", "products()"},
    {4, "tuples of owners", "owners()"},
    {4, "binders and scope guards", "binders()"},
    {5, "find of 8 bits", "finds<char>(70)"},
    {5, "find of 16 bits", "finds<short>(40)"},
    {5, "find of 32 bits", "finds<int>(24)"},
    {5, "find of 64 bits", "finds<long>(20)"},
    {5, "find of floats", "finds<float>(20)"},
    {5, "reverse of 8 bits", "reverses<char>(70)"},
    {5, "reverse of 16 bits", "reverses<unsigned short>(70)"},
    {5, "reverse of 32 bits", "reverses<int>(70)"},
    {5, "reverse of 64 bits", "reverses<long>(70)"},
    {5, "reverse of floats", "reverses<double>(40)"},
    {5, "find and reverse of owners", "owners()"},
    {6, "bits of 8", "bits<signed char>()"},
    {6, "bits of 16", "bits<short>() + bits<unsigned short>()"},
    {6, "bits of 32", "bits<int>() + bits<unsigned>()"},
    {6, "bits of 64", "bits<long>() + bits<unsigned long long>()"},
    {6, "IContainer", "access()"},
    {6, "scalars", "scalars()"},
    {7, "vectors of int", "vectors<int, 1>() + vectors<int, 2>() + vectors<int, 3>() + vectors<int, 4>() + vectors<int, 5>()"},
    {7, "vectors of float", "vectors<float, 1>() + vectors<float, 2>() + vectors<float, 3>() + vectors<float, 4>() + vectors<float, 6>()"},
    {7, "square matrices", "matrices<float, 2, 2>() + matrices<double, 3, 3>() + matrices<float, 4, 4>() + matrices<float, 5, 5>()"},
    {7, "other matrices", "matrices<float, 2, 3>() + matrices<double, 3, 2>() + matrices<float, 4, 2>() + matrices<double, 3, 4>()"},
    {7, "functions of vectors and matrices", "squares<float>() + squares<double>()"},
    {7, "quaternions", "quaternions<float>() + quaternions<double>()"},
    {7, "roots and angles", "roots<float>() + roots<double>()", true},
    {8, "arrays in arrays", "nested(DEPTH + 1)"},
};
static bool gxx(const std::string& cxx) { return cxx.compare(0, 3, "g++") == 0; }
//! compiles each case as a constant, runs it again, and compares
static void evaluate(const std::string& cxx, int depth) {
    const bool g = gxx(cxx);
    int k = 0;
    for(const Case& c : cases) {
        if((c.builtins && !g) || (c.deep && !mc::thorough))
            continue;
        if(k++ % mc::g_shards != mc::g_shard)
            continue;
        mc::begin_case();
        mc::log("%s: %s: %s", cxx.c_str(), c.what, c.call);
        std::string text = "#define GROUP " + std::to_string(c.group) + "\n#define BUILTINS " + (g ? "1" : "0") + "\n#define DEPTH " + std::to_string(depth) + "\n#define HEAP " + (mc::thorough ? "6" : "5") +
                           "\n#include \"c37_body.hpp\"\n#include <cstdio>\nconstexpr long at_compile_time = " + c.call + ";\n"
                           "int main() {\n    try {\n        long at_run_time = " + c.call + ";\n"
                           "        if(at_run_time != at_compile_time)\n            return std::printf(\"error: %ld cases at compile time, %ld at run time\\n\", at_compile_time, at_run_time), 1;\n"
                           "        std::printf(\"cases %ld\\n\", at_compile_time);\n    }\n    catch(const char* s) {\n        return std::printf(\"error: at run time: %s\\n\", s), 1;\n    }\n}\n";
        const std::string limits = g ? " -fconstexpr-ops-limit=200000000 -fconstexpr-loop-limit=100000 -fconstexpr-depth=4000 -fconstexpr-cache-depth=1" : " -fconstexpr-steps=200000000 -fconstexpr-depth=4000";
        mc::Ran r = mc::run("d=$(mktemp -d) && trap 'rm -rf \"$d\"' EXIT && " + cxx + limits + " -O0 -w -I" XME_INC " -I" XME_MC_DIR " -x c++ - -x none -o $d/p" + (c.group == 5 ? " -ltbb" : "") + " && { timeout 60 $d/p || { r=$?; [ $r = 1 ] || echo error: the program ends with $r; false; }; }", text);
        if(r.rc != 0 && r.out.find("error") == r.out.npos && r.out.find("undefined reference") == r.out.npos)
            mc::no_compiler(r.out);
        std::size_t at = r.out.find("error");
        // the error itself, and what it says about the evaluation
        std::string why = r.rc == 0 ? "" : r.out.substr(at == r.out.npos ? 0 : at, 300);
        for(std::size_t p = at == r.out.npos ? r.out.npos : r.out.find("note:", at), m = 0; p != r.out.npos && m < 3; p = r.out.find("note:", p + 1), ++m)
            why += " | " + r.out.substr(p, std::min<std::size_t>(r.out.find('\n', p) - p, 120));
        REQUIRE(r.rc == 0, "not a constant, or not the same one: %.600s", why.c_str());
        long cases = 0;
        REQUIRE(sscanf(r.out.c_str(), "cases %ld", &cases) == 1 && cases > 0, "harness: no count: %.80s", r.out.c_str());
        mc::st.execs += cases;
        mc::evaluated_once();
    }
    mc::sample(mc::g_trail->log);
}
static void setup() {
    const int more = mc::thorough ? 3 : 2;
    mc::add("g++-20", [] { evaluate("g++ -std=c++20", 3); }, 8);
    mc::add("clang++-20", [] { evaluate("clang++ -std=c++20", 3); }, 8);
    if(__builtin_cpu_supports("avx2"))
        mc::add("g++-23-avx2", [=] { evaluate("g++ -std=c++23 -mavx2 -DXME_SIMD_ENABLE_AVX2", more); }, 8);
    if(__builtin_cpu_supports("sse4.1"))
        mc::add("clang++-23-sse", [=] { evaluate("clang++ -std=c++2b -msse4.1 -DXME_SIMD_ENABLE_SSE41", more); }, 8);
    if(mc::thorough) {
        mc::add("g++-26", [] { evaluate("g++ -std=c++26 -DNDEBUG", 3); }, 8);
        mc::add("clang++-20-ndebug", [] { evaluate("clang++ -std=c++20 -DNDEBUG", 3); }, 8);
    }
}
MC_MAIN(setup)
