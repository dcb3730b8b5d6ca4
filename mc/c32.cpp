// C32: every header alone, twice, after every other one, and all of them in several translation units, through the real compiler.
#include "compile.hpp"
#include <string>
#include <vector>

struct Header {
    const char* name;
    const char* use;   // what a program that includes only this header can do
    bool gcc = false;  // uses what only g++ accepts
    //! the header it is a part of, which defines what it is about
    std::string whole() const {
        const std::string n = name;
        return n.starts_with("math/matrices/") ? "#include <xme/math/matrix.hpp>\n" : n.starts_with("math/vectors/") ? "#include <xme/math/vector.hpp>\n" : "";
    }
};
static const Header headers[] = {
    {"setup.hpp", "XME_INLINE int f() { return 1; }"},
    {"hal/architecture_detection.hpp", "static_assert(XME_ARCH_X86 || XME_ARCH_ARM || true);"},
    {"hal/compiler_detection.hpp", ""},
    {"hal/std_detection.hpp", ""},
    {"hal/platform_macros.hpp", "static_assert(XME_PLATFORM_LINUX && !XME_PLATFORM_WINDOWS && !XME_PLATFORM_APPLE); DLLEXPORT void f();"},
    {"hal/simd_detection.hpp", "constexpr auto s = xme::hal::enabled_simd | xme::hal::supported_simd;"},
    {"hal/platform.hpp", "inline void f() { xme::hal::set_environment_variable(\"XME_MC\", \"1\"); (void)xme::hal::get_environment_variable(\"XME_MC\"); }", true},
    {"hal/shared_library.hpp", "inline void f() { xme::hal::SharedLibrary a, b(\"libnone.so\"); a.open(\"libnone.so\"); a = static_cast<xme::hal::SharedLibrary&&>(b); (void)a.is_open(); }", true},
    {"core/algorithm/find.hpp", "inline bool f() { int a[]{1, 2, 3}; return xme::find(a, a + 3, 2) == a + 1 && xme::find(a, 4) == a + 3; }"},
    {"core/algorithm/reverse.hpp", "inline void f() { int a[]{1, 2, 3}; xme::reverse(a, a + 3); xme::reverse(a); }"},
    {"core/bit/has_single_bit.hpp", "static_assert(xme::has_single_bit(4u));"},
    {"core/concepts/arithmetic.hpp", "static_assert(xme::CArithmetic<int>);"},
    {"core/concepts/concepts.hpp", "static_assert(xme::CArithmetic<int>);"},
    {"core/concepts/constant_iterator.hpp", "static_assert(xme::CConstantIterator<const int*>);"},
    {"core/concepts/different_from.hpp", "static_assert(xme::CDifferentFrom<int, long>);"},
    {"core/functional/bind.hpp", "inline int f() { auto b = xme::bind_front([](int a, int b) { return a - b; }, 1); return b(2) + xme::bind_back([](int a, int b) { return a - b; }, 1)(3); }"},
    {"core/functional/delegate.hpp", "inline int f() { xme::Delegate<int(int)> d([](int i) { return i; }), e; e = d; return e ? e(2) : 0; }"},
    {"core/functional/scoped_delegate.hpp", "inline int f() { int i = 0; { xme::ScopedDelegate d{[&] { ++i; }}; } return i; }"},
    {"core/iterators/const_iterator.hpp", "inline bool f() { int a[2]{}; xme::ConstIterator<int*> i(a), j(a + 2); return i < j && j - i == 2 && *i == 0 && ++i != j; }"},
    {"core/iterators/iterator_traits.hpp", ""},
    {"core/iterators/reverse_iterator.hpp", "inline bool f() { int a[2]{}; xme::ReverseIterator<int*> i(a + 2), j(a); return i < j && j - i == 2 && *i == 0 && ++i != j; }"},
    {"core/type_traits/is_initializer_list.hpp", "static_assert(!xme::is_initializer_list<int>);"},
    {"core/type_traits/is_scoped_enum.hpp", "enum class E {}; static_assert(xme::is_scoped_enum<E>);"},
    {"core/utility/forward_like.hpp", "inline int&& f(int& i) { return xme::forward_like<int>(i); }"},
    {"core/utility/to_unsigned.hpp", "static_assert(xme::to_unsigned(-1) == -1u);"},
    {"container/aligned_data.hpp", "inline void f() { xme::AlignedData<int, 16> a; (void)a.data(); (void)a.address(); }"},
    {"container/array.hpp", "inline std::size_t f() { xme::Array<int> a{1, 2, 3}, b(a); a.push_back(4); a.insert(a.begin(), 5); a.erase(a.begin()); b = a; b.resize(9); return b.size() + b.back(); }"},
    {"container/array_view.hpp", "inline std::size_t f() { int a[3]{}; xme::ArrayView v(a); return v.subview<1, 2>().size() + xme::ArrayView<int>(a, 3).subview(1, 2).size() + v.first(1).size(); }"},
    {"container/concepts.hpp", "static_assert(!xme::CAllocator<int>);"},
    {"container/container.hpp", "inline std::size_t f() { xme::Array<int> a{1}; xme::LinkedList<int> l{1}; xme::Tuple t{1, 2.}; xme::Pair p(1, 2.); return a.size() + l.front() + xme::get<0>(t) + p.first; }"},
    {"container/container_policy.hpp", "static_assert(xme::Capacity<4>::capacity == 4);"},
    {"container/heap.hpp", "inline int f() { xme::Heap<int> h; h.push(1); h.push(2); h.pop(); return h.front(); }"},
    {"container/icontainer.hpp", "struct D : xme::IContainer<D> { int a[2]; int* begin() { return a; } int* end() { return a + 2; } }; inline int f(D& d) { return d.front() + d.back() + d[1] + d.size() + d.empty() + *d.data(); }"},
    {"container/linked_list.hpp", "inline int f() { xme::LinkedList<int> a{1, 2}, b(a); a.push_front(3); a.reverse(); b = a; a.pop_front(); return b.front(); }"},
    {"container/pair.hpp", "inline int f() { xme::Pair<int, long> p(1, 2), q = p; q.swap(p); return q == p ? xme::get<0>(q) : 0; }"},
    {"container/spsc_queue.hpp", "inline bool f() { xme::SPSCQueue<int, xme::Capacity<4>> q; return q.push(1) && q.read_available(); }"},
    {"container/tuple.hpp", "inline int f() { xme::Tuple<int, long> p{1, 2}, q = p; q.swap(p); return q == p ? xme::get<0>(xme::tuple_cat(q, p)) : 0; }"},
    {"math/constants.hpp", "constexpr float f() { return xme::math::pi_v<float>; }"},
    {"math/glsl_mapping.hpp", "inline float f() { xme::math::vec3 v(1, 2, 3); return xme::math::mix(v, v, .5f).x; }"},
    {"math/math.hpp", "inline float f() { xme::math::vec3 v(1, 2, 3); return xme::math::dot(v, v) + xme::math::radians(90.f) + xme::math::sign(2); }"},
    {"math/matrices/functions.hpp", "inline float f() { xme::math::Matrix<float, 3, 3> m(1); return determinant(transpose(m)); }"},
    {"math/matrices/matrix4x4.hpp", "inline float f() { xme::math::Matrix<float, 4, 4> m(1); return (m * m)[0][0]; }"},
    {"math/matrices/perspective.hpp", "inline float f() { return xme::math::perspective(1.f, 1.f, 1.f, 2.f)[0][0] + xme::math::ortho(-1.f, 1.f, -1.f, 1.f, 1.f, 2.f)[0][0]; }"},
    {"math/matrices/transformation.hpp", "inline float f() { xme::math::Matrix<float, 4, 4> m(1.f); xme::math::Vector<float, 3> v(1, 0, 0); return scale(translate(rotate(m, 1.f, v), v), v)[0][0]; }"},
    {"math/matrix.hpp", "inline float f() { xme::math::Matrix<float, 2, 3> m(1); return (-m + m)[0][0]; }"},
    {"math/quaternion.hpp", "inline float f() { xme::math::Quaternion<float> a(1, 2, 3, 4); return (a * a + a).w; }"},
    {"math/scalars/functions.hpp", "static_assert(xme::math::sign(-3) == -1);"},
    {"math/scalars/trigonometry.hpp", "inline double f() { return xme::math::radians(1.) + xme::math::sec(1.) + xme::math::arcsin(1.); }"},
    {"math/vector.hpp", "inline int f() { xme::math::Vector<int, 5> v(1), w(v); return (v + w)[4]; }"},
    {"math/vectors/functions.hpp", "inline float f() { xme::math::Vector<float, 3> v(1); return lerp(v, v, .5f)[0] + sign(v)[0]; }"},
    {"math/vectors/geometry.hpp", "inline float f() { xme::math::Vector<float, 3> v(1); return dot(v, v) + length(v) + distance(v, v) + cross(v, v)[0] + normalize(v)[1] + reflect(v, v)[0]; }"},
    {"math/vectors/vector2.hpp", "inline int f() { xme::math::Vector<int, 2> v(1, 2); return v.x; }"},
    {"math/vectors/vector3.hpp", "inline int f() { xme::math::Vector<int, 3> v(1, 2, 3); return v.x; }"},
    {"math/vectors/vector4.hpp", "inline int f() { xme::math::Vector<int, 4> v(1, 2, 3, 4); return v.x; }"},
    {"ranges/destroy.hpp", "inline void f() { long l[2]; std::allocator<long> a; xme::ranges::destroy_a(l, l + 2, a); xme::ranges::destroy_n_a(l, 2, a); xme::ranges::destroy_at_a(l, a); }"},
    {"ranges/uninitialized.hpp", "inline void f() { long l[2]{}, m[2]; std::allocator<long> a; xme::ranges::uninitialized_copy_a(l, l + 2, m, m + 2, a); }"},
};
constexpr int NH = sizeof headers / sizeof *headers;

static std::string include(int h) { return std::string("#include <xme/") + headers[h].name + ">\n"; }
static std::string use(int h, int n) { return "namespace use" + std::to_string(n) + " {\n" + headers[h].use + "\n}\n"; }
static const std::string inc = " -fsyntax-only -I" XME_INC " ";
static bool is_clang(const std::string& cxx) { return cxx.find("clang") != cxx.npos; }

//! every header alone and twice
static void alone(const std::string& cxx) {
    for(int h = mc::g_shard; h < NH; h += mc::g_shards) {
        if(headers[h].gcc && is_clang(cxx))
            continue;
        mc::begin_case();
        mc::log("%s: %s alone", cxx.c_str(), headers[h].name);
        mc::compiles(cxx + inc, include(h) + headers[h].whole() + use(h, 1), "the header does not compile alone");
        mc::compiles(cxx + inc, include(h) + include(h) + headers[h].whole() + use(h, 1) + include(h), "the header does not compile when it is included again");
        mc::evaluated_once();
        mc::evaluated_once();
    }
    mc::sample(mc::g_trail->log);
}
//! every header after every other one (the first is precompiled)
static void pairs(const std::string& cxx) {
    // beside the program, in the directory its driver removes
    char self[4096]{};
    REQUIRE(readlink("/proc/self/exe", self, sizeof self - 32) > 0, "harness: readlink");
    std::string d = std::string(self) + ".XXXXXX";
    REQUIRE(mkdtemp(d.data()), "harness: mkdtemp");
    for(int a = mc::g_shard; a < NH; a += mc::g_shards) {
        if(headers[a].gcc && is_clang(cxx))
            continue;
        mc::begin_case();
        mc::log("%s: %s", cxx.c_str(), headers[a].name);
        const std::string pch = d + "/a.hpp";
        mc::compiles("cat > " + pch + "; " + cxx + " -I" XME_INC + (is_clang(cxx) ? " -w -x c++-header " : " -w -x c++-header ") + pch + " -o " + pch + (is_clang(cxx) ? ".pch" : ".gch") + " && :",
                     include(a), "the header does not compile alone");
        for(int b = 0; b < NH; ++b) {
            if(a == b || (headers[b].gcc && is_clang(cxx)))
                continue;
            mc::begin_case();
            mc::log("%s: %s, then %s", cxx.c_str(), headers[a].name, headers[b].name);
            mc::compiles(cxx + (is_clang(cxx) ? " -include-pch " + pch + ".pch" : " -include " + pch) + inc, include(b) + headers[a].whole() + headers[b].whole() + use(a, 1) + use(b, 2),
                         "the headers do not compile in this order");
            mc::evaluated_once();
        }
    }
    (void)mc::run("rm -rf " + d, "");
    mc::sample(mc::g_trail->log);
}
//! everything in several translation units, each in another order, as one program
static void program(const std::string& cxx) {
    mc::begin_case();
    mc::log("%s: all headers in three translation units", cxx.c_str());
    std::string cmd = "set -e; d=$(mktemp -d); trap 'rm -rf \"$d\"' EXIT; cat > $d/0.cpp; ", text;
    for(int u = 0; u < 3; ++u) {
        std::string t;
        for(int i = 0; i < NH; ++i) {
            const int h = u == 0 ? i : u == 1 ? NH - 1 - i : (i * 23 + 7) % NH;
            if(!(headers[h].gcc && is_clang(cxx)))
                t += include(h);
        }
        for(int h = 0; h < NH; ++h)
            if(!(headers[h].gcc && is_clang(cxx)))
                t += use(h, h);
        text += "#if XME_MC_UNIT == " + std::to_string(u) + "\n" + t + (u == 0 ? "int main() {}\n" : "") + "#endif\n";
    }
    static_assert(NH % 23 != 0);
    for(int u = 0; u < 3; ++u)
        cmd += cxx + " -w -I" XME_INC " -DXME_MC_UNIT=" + std::to_string(u) + " -c $d/0.cpp -o $d/" + std::to_string(u) + ".o; ";
    cmd += cxx + " $d/0.o $d/1.o $d/2.o -o $d/x -ldl -ltbb; $d/x";
    mc::Ran r = mc::run(cmd, text);
    std::size_t at = r.out.find("error");
    for(const char* m : {"multiple definition", "undefined reference"})
        at = std::min(at, r.out.find(m));
    if(r.rc != 0 && at == r.out.npos)
        mc::no_compiler(r.out);
    REQUIRE(r.rc == 0, "they do not make a program: %.600s", r.out.c_str() + (at > 80 ? at - 80 : 0));
    mc::evaluated_once();
    mc::sample(mc::g_trail->log);
}
//! every configuration of a language level with switches
static void setup() {
    mc::add("alone-gcc20", [] { alone("g++ -std=c++20"); }, 4);
    mc::add("alone-gcc23", [] { alone("g++ -std=gnu++23"); }, 4);
    mc::add("alone-clang20", [] { alone("clang++ -std=c++20"); }, 4);
    mc::add("alone-gcc-avx2", [] { alone("g++ -std=c++20 -mavx2 -DXME_SIMD_ENABLE_AVX2 -DNDEBUG -DXME_MATH_CLIP_LH"); }, 4);
    mc::add("pairs-gcc20", [] { pairs("g++ -std=c++20"); }, 16);
    for(const char* o : {"-O0", "-O2 -DNDEBUG", "-O1 -mavx2 -DXME_SIMD_ENABLE_AVX2"}) {
        std::string n(o);
        for(char& c : n)
            c = c == ' ' ? '_' : c;
        mc::add("program-gcc" + n, [o] { program(std::string("g++ -std=c++20 ") + o); });
    }
    mc::add("program-clang", [] { program("clang++ -std=c++20 -O0"); });
    if(mc::thorough) {
        mc::add("alone-clang23", [] { alone("clang++ -std=c++23"); }, 4);
        mc::add("pairs-gcc23", [] { pairs("g++ -std=gnu++23"); }, 16);
        mc::add("pairs-clang20", [] { pairs("clang++ -std=c++20"); }, 16);
        mc::add("pairs-gcc-avx2", [] { pairs("g++ -std=c++20 -mavx2 -DXME_SIMD_ENABLE_AVX2"); }, 16);
    }
}
MC_MAIN(setup)
