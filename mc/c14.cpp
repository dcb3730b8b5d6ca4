// C14: find over every length, alignment, first-match position, decoy arrangement and element type.
#include "simd.hpp"
#include <xme/core/algorithm/find.hpp>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
#include <xme/container/linked_list.hpp>
#include <range/v3/iterator/counted_iterator.hpp>
#include <range/v3/iterator/default_sentinel.hpp>
#include <range/v3/iterator/unreachable_sentinel.hpp>
#include <range/v3/view/reverse.hpp>
#include <range/v3/view/transform.hpp>
#include <array>
#include <cmath>
#include <deque>
#include <forward_list>
#include <limits>
#include <list>
#include <span>
#include <string>
#include <string_view>
#include <vector>

namespace ex = std::execution;
enum E8 : unsigned char { e8_0 };
enum class E16 : short {};
enum class E32 : unsigned {};
enum class E64 : long {};
enum class EB : bool {};
// an enumeration that brings its own equality
namespace own {
enum class Mod16 : unsigned char {};
inline bool operator==(Mod16 a, Mod16 b) {
    return (static_cast<int>(a) & 15) == (static_cast<int>(b) & 15);
}
struct Parity {  // equality looks at a part of the value
    int v;
    friend bool operator==(const Parity& a, const Parity& b) { return (a.v & 1) == (b.v & 1); }
};
struct Padded {  // padding between the members
    char c;
    int i;
    bool operator==(const Padded&) const = default;
};
struct Never {
    unsigned char v;
    friend bool operator==(const Never&, const Never&) { return false; }
};
struct Byte {
    unsigned char v;
    friend bool operator==(const Byte& a, const Byte& b) { return (a.v ^ b.v) < 2; }
};
}  // namespace own

// ---- the model: equality and the values used, per type ------------------------------------------
template<typename T>
bool eq(const T& a, const T& b) {
    return a == b;
}
template<typename T>
T from_bits(std::uint64_t b) {
    T t;
    if constexpr(std::is_same_v<T, bool>)
        return b & 1;
    else if constexpr(std::is_enum_v<T> && sizeof(T) == 1 && std::is_same_v<T, EB>)
        return T(b & 1);
    else {
        std::memset(&t, 0, sizeof t);
        std::memcpy(&t, &b, std::min(sizeof b, sizeof t));
        return t;
    }
}
//! (needle, elements equal to it, elements not equal to it)
template<typename T>
struct Case {
    T needle;
    std::deque<T> hit, miss;
};
template<typename T>
std::vector<Case<T>> integral_cases() {
    std::vector<Case<T>> r;
    if constexpr(std::is_same_v<T, bool> || std::is_same_v<T, EB>) {
        r.push_back({T(false), {T(false)}, {T(true)}});
        r.push_back({T(true), {T(true)}, {T(false)}});
    }
    else {
        constexpr int bits = sizeof(T) * 8;
        for(std::uint64_t n : {0x0ull, 0x8877665544332211ull, ~0ull, 0x0101010101010101ull, 0x8000000000000000ull >> (bits < 64 ? 64 - bits : 0)}) {
            Case<T> c{from_bits<T>(n), {from_bits<T>(n)}, {}};
            // everything that differs in exactly one bit, the complement, and neighbours shifted by bytes
            for(int b = 0; b < std::min(bits, 64); ++b)
                c.miss.push_back(from_bits<T>(n ^ (1ull << b)));
            c.miss.push_back(from_bits<T>(~n));
            r.push_back(c);
        }
    }
    return r;
}
template<typename T>
std::vector<Case<T>> cases() {
    if constexpr(std::is_same_v<T, float> || std::is_same_v<T, double> || std::is_same_v<T, long double>) {
        const T inf = std::numeric_limits<T>::infinity(), nan = std::numeric_limits<T>::quiet_NaN();
        return {{T(0), {T(-0.0), T(0)}, {T(1), nan, -nan, std::numeric_limits<T>::denorm_min(), -std::numeric_limits<T>::denorm_min()}},
                {T(-0.0), {T(0), T(-0.0)}, {T(-1), nan}},
                {nan, {}, {nan, -nan, T(0), inf}},
                {inf, {inf}, {-inf, std::numeric_limits<T>::max(), nan}},
                {T(1.5), {T(1.5)}, {T(-1.5), std::nextafter(T(1.5), T(2))}}};
    }
    else if constexpr(std::is_same_v<T, own::Mod16>)
        return {{T(3), {T(19), T(3), T(243)}, {T(2), T(35 ^ 1), T(11)}}};
    else if constexpr(std::is_same_v<T, own::Parity>)
        return {{{3}, {{5}, {-1}}, {{2}, {4}, {0}}}};
    else if constexpr(std::is_same_v<T, own::Never>)
        return {{{3}, {}, {{3}, {4}, {0}}}};
    else if constexpr(std::is_same_v<T, own::Byte>)
        return {{{4}, {{5}, {4}}, {{3}, {6}, {0}}}};
    else if constexpr(std::is_same_v<T, own::Padded>) {
        auto mk = [](char c, int i, int pad) {
            T t;
            std::memset(static_cast<void*>(&t), pad, sizeof t);
            t.c = c;
            t.i = i;
            return t;
        };
        return {{mk('a', 1, 0), {mk('a', 1, 0xff), mk('a', 1, 7)}, {mk('b', 1, 0), mk('a', 2, 0)}}};
    }
    else if constexpr(std::is_same_v<T, std::string>)
        return {{"abc", {"abc"}, {"ab", "abcd", ""}}};
    else
        return integral_cases<T>();
}
template<typename Policy, typename T>
void one(const T* first, std::size_t n, const T& needle, std::size_t expect, const char* what) {
    const T* r = xme::find<Policy>(first, first + n, needle);
    REQUIRE(r == first + expect, "%s: find gives %td, not %zu, of %zu", what, r - first, expect, n);
}

//! all lengths x offsets x positions x decoys for one type
template<typename T, typename Policy = ex::unsequenced_policy>
void sweep(const char* name, bool full = false) {
    constexpr std::size_t vec = std::max<std::size_t>(1, 64 / sizeof(T));
    const std::size_t maxn = (mc::thorough ? 3 * vec : std::min<std::size_t>(3 * vec, 2 * vec + 9)) + 3;
    const std::size_t offs = std::max<std::size_t>(1, 64 / sizeof(T)) > 1 ? std::max<std::size_t>(1, 32 / sizeof(T)) : 2;
    static mem::Guarded g(1);
    auto cs = cases<T>();
    int ci  = 0;
    for(auto& c : cs) {
        const bool first_case = ci++ == 0;
        auto miss = [&](std::size_t k) -> const T& { return c.miss[k % c.miss.size()]; };
        auto hit  = [&](std::size_t k) -> const T& { return c.hit[k % c.hit.size()]; };
        auto out  = [&]() -> const T& { return c.hit.empty() ? miss(0) : hit(0); };
        for(std::size_t n = 0; n <= maxn; ++n)
            for(std::size_t off = 0; off < offs + 2; ++off) {
                T* base;
                const char* where;
                const bool tight_end = off == offs, tight_begin = off == offs + 1;
                if(tight_end)
                    base = reinterpret_cast<T*>(g.end()) - n, where = "range ends at an inaccessible page";
                else if(tight_begin)
                    base = reinterpret_cast<T*>(g.begin()), where = "range starts after an inaccessible page";
                else
                    base = reinterpret_cast<T*>(g.begin() + 256) + off, where = "range among matching neighbours";
                T* const lo = tight_begin ? base : base - std::min<std::size_t>(40, base - reinterpret_cast<T*>(g.begin()));
                T* const hi = tight_end ? base + n : base + n + 40;
                if(!(first_case && full) && !mc::thorough && off > 1 && off < offs && off != n % offs)
                    continue;
                // outside the range everything matches; before p nothing does
                for(T* q = lo; q < base; ++q)
                    std::memcpy(static_cast<void*>(q), &out(), sizeof(T));
                for(T* q = base + n; q < hi; ++q)
                    std::memcpy(static_cast<void*>(q), &out(), sizeof(T));
                for(std::size_t p = 0; p <= n; ++p) {
                    if(p < n && c.hit.empty())
                        continue;
                    for(int decoy = 0; decoy < 3; ++decoy) {
                        for(std::size_t k = 0; k < n; ++k) {
                            const T* v = &miss(k + p + off);
                            if(k == p)
                                v = &hit(k + off);
                            else if(k > p && (decoy == 1 || (decoy == 2 && k == n - 1)))
                                v = &hit(k);
                            std::memcpy(static_cast<void*>(base + k), v, sizeof(T));
                        }
                        mc::g_trail->loglen = 0;
                        mc::g_trail->log[0] = 0;
                        if(decoy == 0 && p == 0)
                            mc::log("%s: case %d, length %zu, offset %zu (%s)", name, ci, n, off, where);
                        one<Policy>(base, n, c.needle, p, where);
                        mc::evaluated_once(n > 0);
                        if(p == n && decoy == 0)
                            break;
                    }
                }
            }
    }
    mc::sample(std::string(name) + ": lengths 0.." + std::to_string(maxn) + ", all offsets, positions, decoys");
}

#if PART == 2
// every policy and iterator/range kind on a moderate sweep
template<typename It>
struct InputOnly {  // an input iterator, single pass
    using iterator_concept  = std::input_iterator_tag;
    using iterator_category = std::input_iterator_tag;
    using value_type        = std::iter_value_t<It>;
    using difference_type   = std::ptrdiff_t;
    It it{};
    int* reads{};
    decltype(auto) operator*() const {
        ++*reads;
        return *it;
    }
    InputOnly& operator++() {
        ++it;
        return *this;
    }
    void operator++(int) { ++it; }
    friend bool operator==(const InputOnly& a, const InputOnly& b) { return a.it == b.it; }
};
template<typename T>
struct StopAt {  // a sentinel that stops at a value
    T stop;
    friend bool operator==(const T* p, const StopAt& s) { return *p == s.stop; }
    friend bool operator==(const StopAt& s, const T* p) { return *p == s.stop; }
    friend bool operator!=(const T* p, const StopAt& s) { return !(*p == s.stop); }
    friend bool operator!=(const StopAt& s, const T* p) { return !(*p == s.stop); }
};
template<typename Policy>
void kinds(const char* pname) {
    const std::size_t maxn = mc::thorough ? 70 : 37;
    auto rangecheck = [&](auto&& r, auto value, std::size_t expect, const char* what) {
        auto it = xme::find<Policy>(r, value);
        REQUIRE((std::size_t)::ranges::distance(::ranges::begin(r), it) == expect, "%s, %s: wrong position", pname, what);
        auto jt = xme::find<Policy>(::ranges::begin(r), ::ranges::end(r), value);
        REQUIRE(it == jt, "%s, %s: the range and the iterator form differ", pname, what);
        mc::evaluated_once();
    };
    for(std::size_t n = 0; n <= maxn; ++n)
        for(std::size_t p = 0; p <= n; ++p)
            for(int dup = 0; dup < 2; ++dup) {
                mc::g_trail->loglen = 0;
                mc::log("%s length %zu position %zu duplicates %d", pname, n, p, dup);
                std::vector<int> v(n);
                for(std::size_t k = 0; k < n; ++k)
                    v[k] = k < p ? 100 + (int)k : (k == p || dup) ? 7 : 200 + (int)k;
                rangecheck(v, 7, p, "std::vector");
                rangecheck(std::as_const(v), 7, p, "const std::vector");
                rangecheck(std::span<int>(v), 7, p, "std::span");
                xme::Array<int> xa(v.begin(), v.end());
                rangecheck(xa, 7, p, "xme::Array");
                rangecheck(std::as_const(xa), 7, p, "const xme::Array");
                xme::ArrayView<int> xv(xa.data(), xa.size());
                rangecheck(xv, 7, p, "xme::ArrayView");
                xme::LinkedList<int> xl;
                for(auto it = v.rbegin(); it != v.rend(); ++it)
                    xl.push_front(*it);
                rangecheck(xl, 7, p, "xme::LinkedList");
                std::list<int> l(v.begin(), v.end());
                rangecheck(l, 7, p, "std::list");
                std::forward_list<int> fl(v.begin(), v.end());
                rangecheck(fl, 7, p, "std::forward_list");
                std::deque<int> d(v.begin(), v.end());
                rangecheck(d, 7, p, "std::deque");
                auto back = std::vector<int>(v.rbegin(), v.rend());
                rangecheck(back | ::ranges::views::reverse, 7, p, "reversed view");
                rangecheck(v | ::ranges::views::transform([](int x) { return x + 1; }), 8, p, "transformed view");
                {  // every element up to the match is read once and none after it
                    int reads = 0;
                    InputOnly<std::vector<int>::iterator> b{v.begin(), &reads}, e{v.end(), &reads};
                    auto r = xme::find<Policy>(b, e, 7);
                    REQUIRE((std::size_t)(r.it - v.begin()) == p, "%s, input iterator: wrong position", pname);
                    REQUIRE(reads <= (int)std::min(n, p + 1), "%s, input iterator: %d reads", pname, reads);
                    mc::evaluated_once();
                }
                {  // sentinels, exact allocation so that reads past the terminator are caught
                    std::vector<char> s(n + 1);
                    for(std::size_t k = 0; k < n; ++k)
                        s[k] = k < p ? 'a' + k % 20 : (k == p || dup) ? 'z' : 'b';
                    s[n] = 0;
                    const char* b = s.data();
                    const char* r = xme::find<Policy>(b, StopAt<char>{0}, 'z');
                    REQUIRE((std::size_t)(r - b) == p, "%s, sentinel: gives %td, not %zu", pname, r - b, p);
                    if(p < n) {
                        const char* u = xme::find<Policy>(b, ::ranges::unreachable, 'z');
                        REQUIRE((std::size_t)(u - b) == p, "%s, unreachable sentinel: gives %td", pname, u - b);
                    }
                    auto c = xme::find<Policy>(::ranges::counted_iterator<const char*>(b, n), ::ranges::default_sentinel, 'z');
                    REQUIRE((std::size_t)(c.base() - b) == p, "%s, counted iterator: wrong", pname);
                    std::string str(b, n);
                    rangecheck(str, 'z', p, "std::string");
                    rangecheck(std::string_view(b, n), 'z', p, "std::string_view");
                }
                {  // the value may be an element of the range itself
                    if(p < n) {
                        auto it = xme::find<Policy>(v, v[p]);
                        REQUIRE((std::size_t)(it - v.begin()) == p, "%s: an element searched for itself gives %td", pname, it - v.begin());
                        auto jt = xme::find<Policy>(v.begin(), v.end(), v.back());
                        REQUIRE(*jt == v.back() && std::find(v.begin(), v.end(), int(v.back())) == jt, "%s: last element", pname);
                    }
                }
                std::vector<bool> vb(n);
                for(std::size_t k = 0; k < n; ++k)
                    vb[k] = k == p || (dup && k > p);
                rangecheck(vb, true, p, "std::vector<bool>");
            }
    {
        std::array<short, 45> a{};
        for(int p = 0; p < 45; ++p) {
            a[p] = 5;
            rangecheck(a, short(5), p, "std::array");
            short c[45];
            std::copy(a.begin(), a.end(), c);
            rangecheck(c, short(5), p, "C array");
            a[p] = 0;
        }
    }
    mc::sample(std::string(pname) + ": 17 kinds of range");
}
#endif
//! long ranges, so that anything done several blocks at a time is seen: all lengths and positions
template<typename T>
void longer(const char* name) {
    const std::size_t maxn = (mc::thorough ? 1024 : 520) / sizeof(T) + 5;
    static mem::Guarded g(1);
    for(std::size_t n = 0; n <= maxn; ++n)
        for(int place = 0; place < 2; ++place) {
            T* base = place ? reinterpret_cast<T*>(g.end()) - n : reinterpret_cast<T*>(g.begin() + 256) + n % 7;
            const T hit = from_bits<T>(0x8877665544332211ull);
            for(std::size_t k = 0; k < n; ++k)
                base[k] = from_bits<T>(0x8877665544332211ull ^ (1ull << (k * 5 % (8 * sizeof(T)))));
            if(!place)
                base[-1] = base[n] = hit;
            mc::g_trail->loglen = 0;
            mc::log("%s: length %zu, %s", name, n, place ? "range ends at an inaccessible page" : "among matching neighbours");
            for(std::size_t p = n + 1; p-- > 0;) {
                if(p < n)
                    base[p] = hit;  // (the ones after it still match)
                one<ex::unsequenced_policy>(base, n, hit, std::min(p, n), p < n ? "first of many" : "no match");
                mc::evaluated_once(n > 0);
            }
            for(std::size_t k = 0; k < n; ++k)
                base[k] = from_bits<T>(0x8877665544332211ull ^ (1ull << (k * 5 % (8 * sizeof(T)))));
            for(std::size_t p = 0; p < n; ++p) {
                const T was = base[p];
                base[p]     = hit;
                one<ex::unsequenced_policy>(base, n, hit, p, "the only match");
                mc::evaluated_once(true);
                base[p] = was;
            }
        }
    mc::sample(std::string(name) + ": lengths 0.." + std::to_string(maxn) + ", all positions, alone and first of many");
}
// all contents over a two or three letter alphabet, for short ranges
template<typename T>
void words() {
    const int maxn = mc::thorough ? 18 : 14;
    for(int n = 0; n <= maxn; ++n)
        for(unsigned w = 0; w < (1u << n); ++w) {
            T buf[20];
            for(int k = 0; k < n; ++k)
                buf[k] = from_bits<T>((w >> k) & 1 ? 0x4141414141414141ull : 0x4141414141414140ull);
            int expect = 0;
            while(expect < n && !((w >> expect) & 1))
                ++expect;
            one<ex::unsequenced_policy>(buf, n, from_bits<T>(0x4141414141414141ull), expect, "word");
            mc::evaluated_once(n > 0);
        }
}
constexpr bool constant() {
    for(int n = 0; n < 70; n += 3)
        for(int p = 0; p <= n; p += 2) {
            unsigned char a[70]{};
            if(p < n)
                a[p] = 9;
            if(xme::find(a, a + n, (unsigned char)9) != a + p && p < n)
                return false;
            long b[70]{};
            if(p < n)
                b[p] = 9;
            if(xme::find(b, b + n, 9L) != b + (p < n ? p : n))
                return false;
        }
    return true;
}
static_assert(constant());

static void setup() {
#if PART == 1
    mc::add("int8", [] { sweep<signed char>("signed char"); });
    mc::add("uint8", [] { sweep<unsigned char>("unsigned char", true); });
    mc::add("char", [] { sweep<char>("char"); sweep<char8_t>("char8_t"); });
    mc::add("bool", [] { sweep<bool>("bool"); sweep<EB>("enum : bool"); });
    mc::add("byte", [] { sweep<std::byte>("std::byte"); sweep<E8>("enum : unsigned char"); });
    mc::add("int16", [] { sweep<short>("short", true); sweep<unsigned short>("unsigned short"); });
    mc::add("char16", [] { sweep<char16_t>("char16_t"); sweep<E16>("enum : short"); });
    mc::add("int32", [] { sweep<int>("int", true); sweep<unsigned>("unsigned"); });
    mc::add("char32", [] { sweep<wchar_t>("wchar_t"); sweep<char32_t>("char32_t"); sweep<E32>("enum : unsigned"); });
    mc::add("int64", [] { sweep<long>("long", true); sweep<unsigned long long>("unsigned long long"); sweep<E64>("enum : long"); });
    mc::add("pointer", [] { sweep<void*>("void*", true); sweep<const int*>("const int*"); sweep<void (*)()>("void(*)()"); });
    mc::add("int128", [] { sweep<__int128>("__int128"); });
    mc::add("floating", [] { sweep<float>("float"); sweep<double>("double"); sweep<long double>("long double"); });
    mc::add("own-equality", [] {
        sweep<own::Mod16>("enum with own equality");
        sweep<own::Parity>("struct with own equality");
        sweep<own::Never>("never equal");
        sweep<own::Byte>("one-byte struct");
        sweep<own::Padded>("padded struct");
    });
    mc::add("long-8", [] { longer<unsigned char>("unsigned char, long"); });
    mc::add("long-16", [] { longer<short>("short, long"); });
    mc::add("long-32", [] { longer<int>("int, long"); });
    mc::add("long-64", [] { longer<long>("long, long"); longer<void*>("void*, long"); });
    mc::add("words", [] { words<unsigned char>(); words<short>(); words<int>(); words<long>(); });
#else
    mc::add("policies-int", [] {
        sweep<int, ex::sequenced_policy>("int, sequenced");
        sweep<unsigned char, ex::sequenced_policy>("unsigned char, sequenced");
        sweep<short, ex::parallel_policy>("short, parallel");
        sweep<long, ex::parallel_unsequenced_policy>("long, parallel unsequenced");
    });
    mc::add("kinds-unseq", [] { kinds<ex::unsequenced_policy>("unsequenced"); });
    mc::add("kinds-seq", [] { kinds<ex::sequenced_policy>("sequenced"); });
    mc::add("kinds-par", [] { kinds<ex::parallel_policy>("parallel"); });
    mc::add("kinds-par-unseq", [] { kinds<ex::parallel_unsequenced_policy>("parallel unsequenced"); });
#endif
}
MC_MAIN(setup)
