// C34: the modules, alone and in every combination, with and without the headers, through the real compiler.
#include "compile.hpp"
#include <algorithm>

struct Module {
    const char *name, *file, *header;
};
static const Module modules[] = {
    {"xme.container", "container/container.cppm", "#include <xme/container/container.hpp>\n"},
    {"xme.functional", "core/functional/functional.cppm", "#include <xme/core/functional/bind.hpp>\n#include <xme/core/functional/delegate.hpp>\n"},
    {"xme.iterators", "core/iterators/iterators.cppm", "#include <xme/core/iterators/reverse_iterator.hpp>\n"},
    {"xme.utility", "core/utility/utility.cppm", "#include <xme/core/utility/forward_like.hpp>\n"},
    {"xme.math", "math/math.cppm", "#include <xme/math/math.hpp>\n"},
    {"xme", "xme.cppm", ""},
};
constexpr int NM = 6, All = 5;
//! a name a module gives, and a use of it that is true
struct Name {
    int module;
    const char *name, *use;
};
static const Name names[] = {
    {0, "CAllocator", "xme::CAllocator<std::allocator<int>> && !xme::CAllocator<int>"},
    {0, "CTupleLike", "xme::CTupleLike<xme::Tuple<int, char>> && !xme::CTupleLike<int>"},
    {0, "CPairLike", "xme::CPairLike<xme::Pair<int, char>> && !xme::CPairLike<int>"},
    {0, "AlignedData", "[] { xme::AlignedData<int, 64> d(7); return *d.data() == 7 && alignof(xme::AlignedData<int, 64>) == 64; }()"},
    {0, "Array", "[] { xme::Array<int> a; for(int i = 0; i < 9; ++i) a.push_back(i); a.erase(a.begin()); a.insert(a.begin(), 5); int s = 0; for(int i : a) s += i; return s == 41 && a.size() == 9; }()"},
    {0, "ArrayView", "[] { int b[4]{1, 2, 3, 4}; xme::ArrayView<int> v(b, 4); return v.last(2)[0] == 3 && v.subview(1, 2).size() == 2; }()"},
    {0, "as_bytes", "[] { int b[4]{}; xme::ArrayView<int> v(b, 4); return xme::as_bytes(v).size() == sizeof b; }()"},
    {0, "as_writable_bytes", "[] { int b[4]{}; xme::ArrayView<int> v(b, 4); xme::as_writable_bytes(v)[0] = std::byte{1}; return b[0] != 0; }()"},
    {0, "LinkedList", "[] { xme::LinkedList<int> l; l.push_front(1); l.push_front(2); l.reverse(); return l.front() == 1; }()"},
    {0, "Pair", "[] { xme::Pair<int, char> p{1, 'a'}; return p.first == 1 && p.second == 'a'; }()"},
    {0, "make_pair", "xme::make_pair(1, 2L).second == 2L"},
    {0, "Tuple", "[] { xme::Tuple<int, long> t{1, 2}; auto [a, b] = t; return a == 1 && b == 2; }()"},
    {0, "apply", "xme::apply([](int a, int b) { return a - b; }, xme::Tuple<int, int>{5, 3}) == 2"},
    {0, "get", "[] { xme::Tuple<int, long> t{1, 2}; return xme::get<1>(t) == 2 && xme::get<0>(xme::Pair<int, int>{4, 5}) == 4; }()"},
    {0, "swap", "[] { xme::Tuple<int, long> t{1, 2}, u{3, 4}; xme::swap(t, u); xme::Pair<int, int> p{1, 2}, q{3, 4}; xme::swap(p, q); return xme::get<0>(t) == 3 && p.second == 4; }()"},
    {0, "tie", "[] { int a = 0, b = 0; xme::tie(a, b) = xme::Tuple<int, int>{1, 2}; return a == 1 && b == 2; }()"},
    {0, "make_tuple", "xme::get<1>(xme::make_tuple(1, 2.5)) == 2.5"},
    {0, "forward_as_tuple", "[] { int a = 3; return &xme::get<0>(xme::forward_as_tuple(a)) == &a; }()"},
    {0, "tuple_cat", "xme::get<2>(xme::tuple_cat(xme::Tuple<int, int>{1, 2}, xme::make_tuple('c'))) == 'c'"},
    {1, "bind_front", "xme::bind_front([](int a, int b) { return a - b; }, 5)(3) == 2"},
    {1, "bind_back", "xme::bind_back([](int a, int b) { return a - b; }, 5)(3) == -2"},
    {1, "Delegate", "[] { int k = 4; xme::Delegate<int(int)> d = [k](int i) { return i + k; }, e = d; return e(3) == 7; }()"},
    {2, "ReverseIterator", "[] { int b[3]{1, 2, 3}; xme::ReverseIterator<int*> r(b + 3); ++r; return *r == 2; }()"},
    {3, "forward_like", "[] { int i = 1; return std::is_same_v<decltype(xme::forward_like<const char&>(i)), const int&>; }()"},
    {4, "pi", "xme::math::pi > 3.1415926 && xme::math::pi < 3.1415927"},
    {4, "e", "xme::math::e > 2.7182818 && xme::math::e < 2.7182819"},
    {4, "phi", "xme::math::phi > 1.6180339 && xme::math::phi < 1.6180340"},
    {4, "ln_ten", "xme::math::ln_ten > 2.3025850 && xme::math::ln_ten < 2.3025851"},
    {4, "ln_two", "xme::math::ln_two > 0.6931471 && xme::math::ln_two < 0.6931472"},
    {4, "sqrt_two", "xme::math::sqrt_two > 1.4142135 && xme::math::sqrt_two < 1.4142136"},
    {4, "sqrt_three", "xme::math::sqrt_three > 1.7320508 && xme::math::sqrt_three < 1.7320509"},
    {4, "Vector", "[] { xme::math::Vector<int, 5> v(2), w(3); return (v + w)[4] == 5 && v * 2 == w + xme::math::Vector<int, 5>(1); }()"},
    {4, "Matrix", "[] { xme::math::Matrix<float, 3, 3> m(2); return (m * m)[1][1] == 4 && (m * m)[1][0] == 0; }()"},
    {4, "perspective", "xme::math::perspective(1.f, 1.f, 1.f, 2.f)[0][0] != 0"},
    {4, "perspective_rh", "xme::math::perspective_rh(1.f, 1.f, 1.f, 2.f)[2][3] == -1"},
    {4, "Quaternion", "[] { xme::math::Quaternion<float> i(0, 1, 0, 0), j(0, 0, 1, 0); return (i * j).z == 1; }()"},
    {4, "radians", "xme::math::radians(180.) > 3.1415926"},
    {4, "degrees", "xme::math::degrees(1.) > 57.29577"},
    {4, "sin", "xme::math::sin(0.) == 0"},
    {4, "cos", "xme::math::cos(0.) == 1"},
    {4, "tan", "xme::math::tan(0.) == 0"},
    {4, "sec", "xme::math::sec(0.) == 1"},
    {4, "csc", "xme::math::csc(xme::math::pi / 2) == 1"},
    {4, "cot", "xme::math::cot(xme::math::pi / 4) > .99"},
    {4, "arcsin", "xme::math::arcsin(0.) == 0"},
    {4, "arccos", "xme::math::arccos(1.) == 0"},
    {4, "arctan", "xme::math::arctan(0.) == 0"},
#define VEC(n, T, k) {4, #n, "std::is_same_v<xme::math::" #n ", xme::math::Vector<" #T ", " #k ">>"}
#define MAT(n, T, k) {4, #n, "std::is_same_v<xme::math::" #n ", xme::math::Matrix<" #T ", " #k ", " #k ">>"}
    VEC(bvec2, bool, 2), VEC(bvec3, bool, 3), VEC(bvec4, bool, 4), VEC(ivec2, int, 2), VEC(ivec3, int, 3), VEC(ivec4, int, 4),
    VEC(uvec2, unsigned, 2), VEC(uvec3, unsigned, 3), VEC(uvec4, unsigned, 4), VEC(vec2, float, 2), VEC(vec3, float, 3), VEC(vec4, float, 4),
    VEC(dvec2, double, 2), VEC(dvec3, double, 3), VEC(dvec4, double, 4), MAT(mat2, float, 2), MAT(mat3, float, 3), MAT(mat4, float, 4),
    MAT(dmat2, double, 2), MAT(dmat3, double, 3), MAT(dmat4, double, 4),
};
//! in which order headers and imports come
enum Mix { None, Before, After, NMix };
static const char* const mixes[] = {"imports alone", "headers, then imports", "imports, then headers"};

static std::string dir;
static void broken(const mc::Ran& r, const char* what) {
    std::size_t at = std::min(r.out.find("error"), r.out.find("undefined reference"));
    at             = std::min(at, r.out.find("multiple definition"));
    if(at == r.out.npos && r.rc != 0 && r.out.find("untrue") == r.out.npos)
        mc::no_compiler(r.out);
    REQUIRE(r.rc == 0, "%s: %.600s", what, r.out.c_str() + (at == r.out.npos ? 0 : at));
}
//! builds all modules into a directory beside the program
static void build(const std::string& cxx) {
    char self[4096]{};
    REQUIRE(readlink("/proc/self/exe", self, sizeof self - 32) > 0, "harness: readlink");
    dir = std::string(self) + ".XXXXXX";
    REQUIRE(mkdtemp(dir.data()), "harness: mkdtemp");
    for(const Module& m : modules) {
        mc::begin_case();
        mc::log("%s: module %s", cxx.c_str(), m.name);
        mc::Ran r = mc::run("cd " + dir + " && " + cxx + " -w -fprebuilt-module-path=. -I" XME_INC " --precompile " XME_INC "/../modules/" + m.file + " -o " + m.name + ".pcm && " +
                              cxx + " -w -fprebuilt-module-path=. " + m.name + ".pcm -c -o " + m.name + ".o",
                            "");
        broken(r, "the module does not compile");
        mc::evaluated_once();
    }
}
static bool gives(int subset, int module) { return subset >> module & 1 || subset >> All & 1; }
static std::string program(int subset, int mix, const char* main_name) {
    std::string s = "#include <cstddef>\n#include <cstdio>\n#include <memory>\n#include <type_traits>\n", h, i;
    for(int m = 0; m < NM; ++m)
        if(subset >> m & 1)
            i += std::string("import ") + modules[m].name + ";\n";
    for(int m = 0; m < NM; ++m)
        if(gives(subset, m))
            h += modules[m].header;
    s += mix == None ? i : mix == Before ? h + i : i + h;
    s += std::string("int ") + main_name + "() {\n    int n = 0;\n";
    for(const Name& n : names)
        if(gives(subset, n.module))
            s += std::string("    if(!(") + n.use + ")) std::puts(\"untrue: " + n.name + "\"), ++n;\n";
    return s + "    return n != 0;\n}\n";
}
static std::string objects(int subset) {
    std::string o;
    for(int m = 0; m < NM; ++m)
        if(gives(subset, m) || m == All)
            o += std::string(" ") + modules[m].name + ".o";
    if(!(subset >> All & 1)) {
        o.clear();
        for(int m = 0; m < NM; ++m)
            if(subset >> m & 1)
                o += std::string(" ") + modules[m].name + ".o";
    }
    return o;
}
//! every set of modules, alone and mixed with the headers of the same names
static void subsets(const std::string& cxx) {
    build(cxx);
    for(int s = 1; s < 1 << NM; ++s)
        for(int x = 0; x < NMix; ++x) {
            if((s * NMix + x) % mc::g_shards != mc::g_shard)
                continue;
            mc::begin_case();
            mc::log("%s: %s of", cxx.c_str(), mixes[x]);
            for(int m = 0; m < NM; ++m)
                if(s >> m & 1)
                    mc::log(" %s", modules[m].name);
            mc::Ran r = mc::run("cd " + dir + " && " + cxx + " -w -fprebuilt-module-path=. -I" XME_INC " -x c++ - -x none" + objects(s) + " -o p && ./p", program(s, x, "main"));
            broken(r, "the names the modules give cannot be used");
            mc::evaluated_once();
        }
    mc::sample(mc::g_trail->log);
    (void)mc::run("rm -rf " + dir, "");
}
//! one unit imports, the other includes, and they exchange objects
static void units(const std::string& cxx) {
    build(cxx);
    static const char* const types[][3] = {
        // type, a value, a test of it
        {"xme::Array<int>", "{1, 2, 3}", "v.size() == 3 && v[2] == 3"},
        {"xme::Pair<int, char>", "{1, 'b'}", "v.second == 'b'"},
        {"xme::Tuple<int, long, char>", "{1, 2, 'c'}", "xme::get<2>(v) == 'c'"},
        {"xme::AlignedData<int, 64>", "(5)", "*v.data() == 5"},
        {"xme::Delegate<int(int)>", "= [](int i) { return i + 1; }", "v(2) == 3"},
        {"xme::math::Vector<float, 3>", "(1, 2, 3)", "v.y == 2"},
        {"xme::math::Matrix<float, 4, 4>", "(3)", "v[1][1] == 3 && v[1][2] == 0"},
        {"xme::math::Quaternion<double>", "(1, 2, 3, 4)", "v.z == 4"},
    };
    std::string all;
    for(const Module& m : modules)
        all += m.header;
    for(auto& t : types)
        for(int imports_make = 0; imports_make < 2; ++imports_make) {
            mc::begin_case();
            mc::log("%s: %s made by the unit that %s", cxx.c_str(), t[0], imports_make ? "imports" : "includes");
            const std::string make = std::string("using T = ") + t[0] + ";\nbool look(const T&);\nbool give(T&);\nint main() { T v" + t[1] + "; T w" + t[1] + "; return !(look(v) && give(w) && look(w)); }\n";
            const std::string look = std::string("using T = ") + t[0] + ";\nbool look(const T& v) { T& w = const_cast<T&>(v); (void)w; return [&](auto& v) { return " + t[2] +
                                     "; }(w); }\nbool give(T& v) { T w" + t[1] + "; v = std::move(w); return true; }\n";
            const std::string im = "#include <memory>\n#include <utility>\nimport xme;\n", in = "#include <memory>\n#include <utility>\n" + all;
            const std::string text = "#if XME_MC_UNIT == 1\n" + (imports_make ? im : in) + make + "#else\n" + (imports_make ? in : im) + look + "#endif\n";
            const std::string cc   = cxx + " -w -fprebuilt-module-path=. -I" XME_INC " ";
            mc::Ran r = mc::run("cd " + dir + " && cat > u.cpp && " + cc + "-DXME_MC_UNIT=1 -c u.cpp -o u1.o && " + cc + "-DXME_MC_UNIT=2 -c u.cpp -o u2.o && " + cxx + " u1.o u2.o" + objects(63) + " -o p && { ./p || { echo untrue; false; } }", text);
            broken(r, "units that import and that include do not agree");
            mc::evaluated_once();
        }
    mc::sample(mc::g_trail->log);
    (void)mc::run("rm -rf " + dir, "");
}
static void setup() {
    mc::add("subsets-20", [] { subsets("clang++ -std=c++20 -O0"); }, 8);
    mc::add("units-20", [] { units("clang++ -std=c++20 -O0"); });
    mc::add("units-23", [] { units("clang++ -std=c++23 -O1"); });
    if(mc::thorough) {
        mc::add("subsets-23", [] { subsets("clang++ -std=c++23 -O1"); }, 8);
        mc::add("subsets-gnu20", [] { subsets("clang++ -std=gnu++20 -O2 -DNDEBUG -mavx2 -DXME_SIMD_ENABLE_AVX2"); }, 8);
    }
}
MC_MAIN(setup)
