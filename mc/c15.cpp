// C15: reverse over every length, alignment, element type and range kind, with canaries around.
#include "simd.hpp"
#include <xme/core/algorithm/reverse.hpp>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
#include <range/v3/iterator/counted_iterator.hpp>
#include <range/v3/view/reverse.hpp>
#include <range/v3/view/subrange.hpp>
#include <array>
#include <deque>
#include <list>
#include <memory>
#include <span>
#include <string>
#include <vector>

enum E8 : unsigned char {};
enum class EC : char {};
struct Byte {
    unsigned char v;
};
struct Two {
    unsigned char a, b;
};
struct Three {
    unsigned char a, b, c;
};
struct Big {
    unsigned v[9];
};
static_assert(sizeof(Three) == 3 && sizeof(Big) == 36);

template<typename T>
void put(T* at, unsigned id) {
    unsigned char b[sizeof(T)];
    for(std::size_t k = 0; k < sizeof(T); ++k)
        b[k] = std::is_same_v<T, bool> ? (id * 7 + id / 3) & 1 : (unsigned char)(id * 37 + 11 + k * 101 + (id >> 8));
    if constexpr(std::is_same_v<T, float> || std::is_same_v<T, double>) {
        T f = id;
        std::memcpy(at, &f, sizeof f);
        return;
    }
    std::memcpy(static_cast<void*>(at), b, sizeof(T));
}
template<typename T>
bool is(const T* at, unsigned id) {
    T t;
    put(&t, id);
    return std::memcmp(at, &t, sizeof(T)) == 0;
}

//! all lengths x offsets, next to inaccessible pages and among canaries
template<typename T>
void sweep(const char* name) {
    static mem::Guarded g(8);
    const std::size_t maxn = mc::thorough ? 330 : (sizeof(T) == 1 ? 230 : 100);
    const std::size_t offs = sizeof(T) == 1 ? (mc::thorough ? 64 : 33) : 4;
    static_assert(alignof(T) <= 16);
    for(std::size_t n = 0; n <= maxn; ++n)
        for(std::size_t off = 0; off < offs + 2; ++off)
            for(int api = 0; api < 3; ++api) {
                const bool tight_end = off == offs, tight_begin = off == offs + 1;
                T* a = tight_end     ? reinterpret_cast<T*>(g.end()) - n
                       : tight_begin ? reinterpret_cast<T*>(g.begin())
                                     : reinterpret_cast<T*>(g.begin() + 128 * sizeof(T)) + off;
                mc::g_trail->loglen = 0;
                mc::log("%s: length %zu offset %zu%s call %d", name, n, off, tight_end ? " (ends at an inaccessible page)" : tight_begin ? " (starts after an inaccessible page)" : "", api);
                if(sizeof(T) == 36 && tight_end)  // not a multiple
                    continue;
                T* lo = tight_begin ? a : a - std::min<std::size_t>(70, a - reinterpret_cast<T*>(g.begin()));
                T* hi = tight_end ? a + n : a + n + 70;
                for(T* q = lo; q < hi; ++q)
                    put(q, q < a ? 5000 + (a - q) : q < a + n ? q - a : 6000 + (q - a));
                if(api == 0) {
                    T* r = xme::reverse(a, a + n);
                    REQUIRE(r == a + n, "reverse returns begin + %td", r - a);
                }
                else if(api == 1) {
                    auto r = xme::reverse(std::span<T>(a, n));
                    REQUIRE(std::to_address(r) == a + n, "reverse of a span returns another position");
                }
                else {
                    xme::reverse(a, a + n);
                    for(std::size_t k = 0; k < n; ++k)
                        REQUIRE(is(a + k, n - 1 - k), "element %zu of %zu is wrong", k, n);
                    xme::reverse(a, a + n);
                }
                for(T* q = lo; q < hi; ++q) {
                    if(q < a || q >= a + n)
                        REQUIRE(is(q, q < a ? 5000 + (a - q) : 6000 + (q - a)), "element at %td, outside the range of %zu, was changed", q - a, n);
                    else
                        REQUIRE(is(q, api == 2 ? q - a : n - 1 - (q - a)), "element %td of %zu is wrong", q - a, n);
                }
                mc::evaluated_once(n > 1);
            }
    mc::sample(std::string(name) + ": lengths 0.." + std::to_string(maxn));
}

//! long ranges, so that anything done several blocks at a time is seen; no two blocks look alike
template<typename T>
void longer(const char* name) {
    static mem::Guarded g(8);
    const std::size_t maxn = (mc::thorough ? 4200 : 1300) / sizeof(T);
    auto value = [](std::size_t k) {
        std::uint64_t h = (k + 1) * 0x9e3779b97f4a7c15ull;
        return unsigned((h ^ (h >> 29)) * 0xbf58476d1ce4e5b9ull >> 40);
    };
    for(std::size_t n = 0; n <= maxn; ++n)
        for(int place = 0; place < 3; ++place) {
            T* a = place == 0 ? reinterpret_cast<T*>(g.end()) - n : place == 1 ? reinterpret_cast<T*>(g.begin()) : reinterpret_cast<T*>(g.begin() + 256) + n % 37;
            mc::g_trail->loglen = 0;
            mc::log("%s: length %zu, place %d", name, n, place);
            for(std::size_t k = 0; k < n; ++k)
                put(a + k, value(k));
            if(place == 2)
                put(a - 1, 77), put(a + n, 78);
            T* r = xme::reverse(a, a + n);
            REQUIRE(r == a + n, "reverse returns begin + %td", r - a);
            for(std::size_t k = 0; k < n; ++k)
                REQUIRE(is(a + k, value(n - 1 - k)), "element %zu of %zu is wrong", k, n);
            REQUIRE(place != 2 || (is(a - 1, 77) && is(a + n, 78)), "an element outside the range was changed");
            mc::evaluated_once(n > 1);
        }
    mc::sample(std::string(name) + ": lengths 0.." + std::to_string(maxn));
}

// an element that knows where it lives, and one with its own swap
struct Placed {
    int id;
    const Placed* self;
    static inline int alive = 0;
    explicit Placed(int i) : id(i), self(this) { ++alive; }
    Placed(Placed&& o) noexcept : id(o.id), self(this) {
        o.check();
        o.id = -1;
        ++alive;
    }
    Placed(const Placed&) = delete;
    Placed& operator=(Placed&& o) noexcept {
        check();
        o.check();
        id = o.id;
        o.id = -1;
        return *this;
    }
    ~Placed() {
        check();
        --alive;
    }
    void check() const { REQUIRE(self == this, "an element was moved by copying its bytes"); }
};
struct SmallPlaced {  // one byte, not trivially copyable
    unsigned char id;
    static inline long moves = 0;
    explicit SmallPlaced(unsigned char i) : id(i) {}
    SmallPlaced(SmallPlaced&& o) noexcept : id(o.id) { ++moves; }
    SmallPlaced& operator=(SmallPlaced&& o) noexcept {
        id = o.id;
        ++moves;
        return *this;
    }
};
struct Swapped {  // swap() is the only way to exchange two of these
    int id;
    static inline int swaps = 0;
    explicit Swapped(int i) : id(i) {}
    Swapped(Swapped&& o) noexcept : id(o.id) {}
    Swapped& operator=(Swapped&& o) noexcept {
        id = o.id;
        return *this;
    }
    friend void swap(Swapped& a, Swapped& b) noexcept {
        ++swaps;
        int t = a.id;
        a.id  = b.id;
        b.id  = t;
    }
};
template<typename I>
struct EndsAt {
    I e;
    friend bool operator==(const I& a, const EndsAt& s) { return a == s.e; }
    friend bool operator==(const EndsAt& s, const I& a) { return a == s.e; }
    friend bool operator!=(const I& a, const EndsAt& s) { return !(a == s.e); }
    friend bool operator!=(const EndsAt& s, const I& a) { return !(a == s.e); }
};
template<typename R, typename Id>
void ranged(const char* what, R&& r, std::size_t n, Id id, bool twice = false) {
    auto end = ::ranges::end(r);
    auto e   = xme::reverse(r);
    REQUIRE(e == end, "%s: reverse does not return the end", what);
    std::size_t k = 0;
    for(auto it = ::ranges::begin(r); it != ::ranges::end(r); ++it, ++k)
        REQUIRE((long)id(*it) == (long)(n - 1 - k), "%s: element %zu of %zu is %ld", what, k, n, (long)id(*it));
    REQUIRE(k == n, "%s: the size changed", what);
    auto e2 = xme::reverse(::ranges::begin(r), ::ranges::end(r));
    REQUIRE(e2 == ::ranges::end(r), "%s: reverse(begin, end) does not return the end", what);
    k = 0;
    for(auto it = ::ranges::begin(r); it != ::ranges::end(r); ++it, ++k)
        REQUIRE((long)id(*it) == (long)k, "%s: twice reversed, element %zu is %ld", what, k, (long)id(*it));
    mc::evaluated_once(n > 1);
}
static void kinds() {
    auto same = [](auto&& x) { return (long)x; };
    const std::size_t maxn = mc::thorough ? 200 : 100;
    for(std::size_t n = 0; n <= maxn; ++n) {
        mc::g_trail->loglen = 0;
        mc::log("length %zu", n);
        std::vector<int> v(n);
        std::vector<unsigned char> b(n);
        for(std::size_t k = 0; k < n; ++k)
            v[k] = k, b[k] = k;
        ranged("vector<int>", v, n, same);
        ranged("vector<unsigned char>", b, n, same);
        xme::Array<unsigned char> xa(b.begin(), b.end());
        ranged("Array<unsigned char>", xa, n, same);
        xme::ArrayView<unsigned char> av(xa.data(), xa.size());
        ranged("ArrayView<unsigned char>", av, n, same);
        std::list<int> l(v.begin(), v.end());
        auto addr = n ? &l.front() : nullptr;
        ranged("list<int>", l, n, same);
        REQUIRE(!n || addr == &l.front(), "list: nodes changed places");
        std::deque<unsigned char> d(b.begin(), b.end());
        ranged("deque<unsigned char>", d, n, same);
        std::deque<int> d2(v.begin(), v.end());
        ranged("deque<int>", d2, n, same);
        std::string s(b.begin(), b.end());
        ranged("string", s, n, [](auto&& x) { return (long)(unsigned char)x; });
        ranged("subrange", ::ranges::make_subrange(b.begin(), b.end()), n, same);
        // iterators that run backwards
        std::reverse(b.begin(), b.end());
        xme::reverse(b.rbegin(), b.rend());
        for(std::size_t k = 0; k < n; ++k)
            REQUIRE(b[k] == k, "reverse iterators: element %zu is %d", k, b[k]);
        // sentinels of another type
        {
            auto e = xme::reverse(b.data(), EndsAt<unsigned char*>{b.data() + n});
            REQUIRE(e == b.data() + n, "with a sentinel, reverse does not return the end");
            for(std::size_t k = 0; k < n; ++k)
                REQUIRE(b[n - 1 - k] == k, "sentinel: element %zu is %d", k, b[k]);
            std::list<int>::iterator le = xme::reverse(l.begin(), EndsAt<std::list<int>::iterator>{l.end()});
            REQUIRE(le == l.end(), "list with a sentinel");
            xme::reverse(b.data(), b.data() + n);
            using C = ::ranges::counted_iterator<unsigned char*>;
            auto ce = xme::reverse(C(b.data(), n), C(b.data() + n, 0));
            REQUIRE(ce.base() == b.data() + n, "counted iterators: end");
            for(std::size_t k = 0; k < n; ++k)
                REQUIRE(b[n - 1 - k] == k, "counted iterators: element %zu is %d", k, b[k]);
        }
        {
            std::vector<Placed> p;
            p.reserve(n);
            for(std::size_t k = 0; k < n; ++k)
                p.emplace_back(k);
            ranged("elements that know where they live", p, n, [](const Placed& x) { x.check(); return x.id; });
        }
        REQUIRE(Placed::alive == 0, "%d elements left over", Placed::alive);
        {
            std::vector<SmallPlaced> p;
            p.reserve(n);
            for(std::size_t k = 0; k < n; ++k)
                p.emplace_back(k);
            SmallPlaced::moves = 0;
            xme::reverse(p.begin(), p.end());
            REQUIRE(SmallPlaced::moves >= (long)(n / 2 * 2), "one-byte elements: only %ld moves for %zu", SmallPlaced::moves, n);
            for(std::size_t k = 0; k < n; ++k)
                REQUIRE(p[k].id == n - 1 - k, "one-byte elements: %zu", k);
        }
        {
            std::vector<Swapped> p;
            p.reserve(n);
            for(std::size_t k = 0; k < n; ++k)
                p.emplace_back(k);
            Swapped::swaps = 0;
            xme::reverse(p.begin(), p.end());
            REQUIRE(Swapped::swaps == (int)(n / 2), "elements with their own swap: %d swaps for %zu", Swapped::swaps, n);
            for(std::size_t k = 0; k < n; ++k)
                REQUIRE(p[k].id == int(n - 1 - k), "elements with their own swap: %zu", k);
        }
        {
            std::vector<std::unique_ptr<int>> p;
            std::vector<std::string> q;
            for(std::size_t k = 0; k < n; ++k) {
                p.push_back(std::make_unique<int>(k));
                q.push_back(std::to_string(k) + (k % 2 ? "" : "....................................."));
            }
            ranged("unique_ptr", p, n, [](auto& x) { return *x; });
            ranged("string elements", q, n, [](auto& x) { return std::stol(x); });
        }
        {  // part of a range only
            for(std::size_t i = 0; i <= std::min<std::size_t>(n, 9); ++i)
                for(std::size_t j = 0; j <= std::min<std::size_t>(n - i, 9); ++j) {
                    std::vector<int> w(n);
                    std::list<unsigned char> m;
                    for(std::size_t k = 0; k < n; ++k)
                        w[k] = k, m.push_back(k);
                    xme::reverse(w.begin() + i, w.end() - j);
                    auto e = xme::reverse(std::next(m.begin(), i), std::prev(m.end(), j));
                    REQUIRE(e == std::prev(m.end(), j), "part of a list: end");
                    auto it = m.begin();
                    for(std::size_t k = 0; k < n; ++k, ++it) {
                        int want = k < i || k >= n - j ? k : n - j - 1 - (k - i);
                        REQUIRE(w[k] == want && *it == want, "part [%zu, %zu): element %zu", i, n - j, k);
                    }
                    mc::evaluated_once(n > 1);
                }
        }
    }
    mc::sample("20 range kinds, lengths 0.." + std::to_string(maxn));
}
constexpr bool constant() {
    for(int n = 0; n < 80; ++n) {
        unsigned char a[80]{};
        int b[80]{};
        for(int k = 0; k < n; ++k)
            a[k] = k, b[k] = k;
        if(xme::reverse(a, a + n) != a + n || xme::reverse(b, b + n) != b + n)
            return false;
        for(int k = 0; k < n; ++k)
            if(a[k] != n - 1 - k || b[k] != n - 1 - k)
                return false;
    }
    return true;
}
static_assert(constant());
// reversal while static objects are being initialised
static unsigned char early[100];
static const bool early_done = [] {
    for(int k = 0; k < 100; ++k)
        early[k] = k;
    xme::reverse(early);
    return true;
}();

static void setup() {
    mc::add("unsigned-char", [] { sweep<unsigned char>("unsigned char"); });
    mc::add("char", [] { sweep<char>("char"); });
    mc::add("byte", [] { sweep<std::byte>("std::byte"); sweep<char8_t>("char8_t"); });
    mc::add("signed-char-bool", [] { sweep<signed char>("signed char"); sweep<bool>("bool"); });
    mc::add("enum-struct", [] { sweep<E8>("enum"); sweep<EC>("enum class"); sweep<Byte>("one-byte struct"); });
    mc::add("wide", [] {
        sweep<short>("short");
        sweep<Two>("two-byte struct");
        sweep<Three>("three-byte struct");
        sweep<int>("int");
        sweep<float>("float");
        sweep<long>("long");
        sweep<double>("double");
        sweep<void*>("pointer");
        sweep<__int128>("__int128");
        sweep<Big>("36-byte struct");
    });
    mc::add("long", [] { longer<unsigned char>("unsigned char, long"); longer<short>("short, long"); longer<int>("int, long"); longer<long>("long, long"); });
    mc::add("kinds", kinds);
    mc::add("static-initialisation", [] {
        for(int k = 0; k < 100; ++k)
            REQUIRE(early[k] == 99 - k, "reversed before main: element %d is %d", k, early[k]);
        mc::evaluated_once();
    });
}
MC_MAIN(setup)
