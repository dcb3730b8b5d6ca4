// C16: two iterators into a sequence, every history of their operations against a model of positions.
#include "mc.hpp"
#include <array>
#include <compare>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <numeric>
#include <ranges>
#include <xme/container/array.hpp>
#include <xme/container/array_view.hpp>
#include <xme/container/linked_list.hpp>
#include <xme/core/iterators/const_iterator.hpp>
#include <xme/core/iterators/reverse_iterator.hpp>

using xme::ConstIterator;
using xme::ReverseIterator;

// ---- bases of our own ---------------------------------------------------------------------------
template<typename T>
struct Ra {  // random access, ordered by < only
    using iterator_category = std::random_access_iterator_tag;
    using value_type        = std::remove_const_t<T>;
    using difference_type   = std::ptrdiff_t;
    using reference         = T&;
    using pointer           = T*;
    T* p{};
    reference operator*() const { return *p; }
    pointer operator->() const { return p; }
    reference operator[](difference_type n) const { return p[n]; }
    Ra& operator++() { return ++p, *this; }
    Ra operator++(int) { return {p++}; }
    Ra& operator--() { return --p, *this; }
    Ra operator--(int) { return {p--}; }
    Ra& operator+=(difference_type n) { return p += n, *this; }
    Ra& operator-=(difference_type n) { return p -= n, *this; }
    friend Ra operator+(Ra a, difference_type n) { return {a.p + n}; }
    friend Ra operator+(difference_type n, Ra a) { return {a.p + n}; }
    friend Ra operator-(Ra a, difference_type n) { return {a.p - n}; }
    friend difference_type operator-(Ra a, Ra b) { return a.p - b.p; }
    friend bool operator==(Ra a, Ra b) { return a.p == b.p; }
    friend bool operator<(Ra a, Ra b) { return a.p < b.p; }
    friend bool operator>(Ra a, Ra b) { return a.p > b.p; }
    friend bool operator<=(Ra a, Ra b) { return a.p <= b.p; }
    friend bool operator>=(Ra a, Ra b) { return a.p >= b.p; }
};
struct Iota {  // random access over values made on the fly
    using iterator_concept  = std::random_access_iterator_tag;
    using iterator_category = std::input_iterator_tag;
    using value_type        = int;
    using difference_type   = std::ptrdiff_t;
    using reference         = int;
    using pointer           = void;
    int v{};
    int operator*() const { return v; }
    int operator[](difference_type n) const { return v + n; }
    Iota& operator++() { return ++v, *this; }
    Iota operator++(int) { return {v++}; }
    Iota& operator--() { return --v, *this; }
    Iota operator--(int) { return {v--}; }
    Iota& operator+=(difference_type n) { return v += n, *this; }
    Iota& operator-=(difference_type n) { return v -= n, *this; }
    friend Iota operator+(Iota a, difference_type n) { return {a.v + (int)n}; }
    friend Iota operator+(difference_type n, Iota a) { return {a.v + (int)n}; }
    friend Iota operator-(Iota a, difference_type n) { return {a.v - (int)n}; }
    friend difference_type operator-(Iota a, Iota b) { return a.v - b.v; }
    auto operator<=>(const Iota&) const = default;
};
struct MoveOnly {  // an input iterator that cannot be copied
    using iterator_concept = std::input_iterator_tag;
    using value_type       = int;
    using difference_type  = std::ptrdiff_t;
    int* p{};
    MoveOnly() = default;
    explicit MoveOnly(int* q) : p(q) {}
    MoveOnly(MoveOnly&& o) : p(std::exchange(o.p, nullptr)) {}
    MoveOnly& operator=(MoveOnly&& o) {
        p = std::exchange(o.p, nullptr);
        return *this;
    }
    int& operator*() const { return *p; }
    MoveOnly& operator++() { return ++p, *this; }
    void operator++(int) { ++p; }
    friend bool operator==(const MoveOnly& a, std::default_sentinel_t) { return *a.p < 0; }
};

struct Elem {  // an element with members to reach through ->
    int id;
    Elem(int i = 0) : id(i) {}
    auto operator<=>(const Elem&) const = default;
    int get() const { return id; }
};
template<typename T>
int id_of(const T& t) {
    if constexpr(requires { t.id; })
        return t.id;
    else if constexpr(requires { *t; })
        return *t;
    else
        return (int)t;
}

// ---- a sequence, its iterators and what they should show ----------------------------------------
template<typename It>
struct Seq {
    std::vector<It> at;              // an iterator at each position 0..n, made without arithmetic on It
    std::vector<int> val;            // what each shows
    std::vector<const void*> place;  // where it is, if it is anywhere
};
template<typename It>
const void* place_of(const It& it) {
    if constexpr(std::is_lvalue_reference_v<std::iter_reference_t<It>>)
        return std::addressof(*it);
    else
        return nullptr;
}
template<typename It>
constexpr bool can_go_back = std::bidirectional_iterator<It>;

//! states: (position of a, position of b)
template<typename It>
struct Sys {
    const Seq<It>& s;
    It a, b;
    int pa, pb;
    int n() const { return (int)s.at.size() - 1; }
    explicit Sys(const Seq<It>& q) : s(q), a(q.at[0]), b(q.at[q.at.size() - 1]), pa(0), pb(n()) {}

    static constexpr bool ra = std::random_access_iterator<It>;
    static constexpr bool bi = std::bidirectional_iterator<It>;
    // 0 ++a, 1 a++, 2 --a, 3 a--, 4 a=b, 5 swap, 6 b=std::move(a), 7 a=It(b), 8 *a++, 9 *--a, 10.. arithmetic by d
    static constexpr int plain = 10, arith = 7;
    std::uint32_t ops() const { return plain + (ra ? arith * (2 * n() + 1) : 0); }
    bool apply(std::uint32_t op) {
        if(op < plain)
            switch(op) {
                case 0: {
                    if(pa >= n())
                        return false;
                    OP("++a");
                    decltype(auto) r = ++a;
                    static_assert(std::is_same_v<decltype(++a), It&>);
                    REQUIRE(&r == &a, "++a does not return a itself");
                    ++pa;
                    break;
                }
                case 1: {
                    if(pa >= n())
                        return false;
                    OP("a++");
                    It old = a++;
                    static_assert(std::is_same_v<decltype(a++), It>);
                    REQUIRE(old == s.at[pa], "a++ does not return the old position");
                    ++pa;
                    break;
                }
                case 2:
                    if constexpr(bi) {
                        if(pa == 0)
                            return false;
                        OP("--a");
                        decltype(auto) r = --a;
                        static_assert(std::is_same_v<decltype(--a), It&>);
                        REQUIRE(&r == &a, "--a does not return a itself");
                        --pa;
                        break;
                    }
                    else
                        return false;
                case 3:
                    if constexpr(bi) {
                        if(pa == 0)
                            return false;
                        OP("a--");
                        It old = a--;
                        static_assert(std::is_same_v<decltype(a--), It>);
                        REQUIRE(old == s.at[pa], "a-- does not return the old position");
                        --pa;
                        break;
                    }
                    else
                        return false;
                case 4:
                    OP("a = b");
                    a  = b;
                    pa = pb;
                    break;
                case 5: {
                    OP("swap(a, b)");
                    using std::swap;
                    swap(a, b);
                    swap(pa, pb);
                    break;
                }
                case 6:
                    OP("b = std::move(a), a = b");
                    b  = std::move(a);
                    pb = pa;
                    a  = b;
                    break;
                case 7: {
                    OP("a = It(b), b keeps its place");
                    It c{};
                    c  = b;
                    a  = It(c);
                    pa = pb;
                    break;
                }
                case 8: {
                    if(pa >= n())
                        return false;
                    OP("*a++");
                    int v = id_of(*a++);
                    REQUIRE(v == s.val[pa], "*a++ gives %d, not %d", v, s.val[pa]);
                    ++pa;
                    break;
                }
                case 9:
                    if constexpr(bi) {
                        if(pa == 0)
                            return false;
                        OP("*--a");
                        int v = id_of(*--a);
                        --pa;
                        REQUIRE(v == s.val[pa], "*--a gives %d, not %d", v, s.val[pa]);
                        break;
                    }
                    else
                        return false;
            }
        else if constexpr(ra) {
            const int k = (op - plain) % arith;
            const int d = (int)(op - plain) / arith - n();  // -n .. n
            const int t = k == 0 || k == 1 || k == 3 || k == 6 ? pa + d : pa - d;
            if(t < 0 || t > n())
                return false;
            switch(k) {
                case 0: {
                    OP("a += %d", d);
                    decltype(auto) r = a += d;
                    static_assert(std::is_same_v<decltype(a += d), It&>);
                    REQUIRE(&r == &a, "a += d does not return a itself");
                    break;
                }
                case 1:
                    OP("a = a + %d", d);
                    a = std::as_const(a) + d;
                    break;
                case 2: {
                    OP("a -= %d", d);
                    decltype(auto) r = a -= d;
                    static_assert(std::is_same_v<decltype(a -= d), It&>);
                    REQUIRE(&r == &a, "a -= d does not return a itself");
                    break;
                }
                case 3:
                    OP("a = %d + a", d);
                    a = d + std::as_const(a);
                    break;
                case 4:
                    OP("a = a - %d", d);
                    a = std::as_const(a) - d;
                    break;
                case 5:
                    OP("std::advance(a, %d)", -d);
                    std::ranges::advance(a, -d);
                    break;
                case 6:
                    OP("a = std::next(a, %d)", d);
                    a = std::ranges::next(a, d);
                    break;
            }
            pa = t;
        }
        check();
        return true;
    }
    void check() {
        const It &ca = a, &cb = b;
        see(ca, pa, "a");
        see(cb, pb, "b");
        relate(ca, cb, pa, pb, "b");
        for(int k = 0; k <= n(); ++k)
            relate(ca, s.at[k], pa, k, "a fixed position");
        mc::evaluated_once();
    }
    void see(const It& i, int p, const char* w) {
        if(p < n()) {
            REQUIRE(id_of(*i) == s.val[p], "*%s is %d, not %d", w, id_of(*i), s.val[p]);
            REQUIRE(place_of(i) == s.place[p], "*%s is another object", w);
            if constexpr(requires { i->id; })
                REQUIRE(i->get() == s.val[p], "%s-> reaches %d, not %d", w, i->get(), s.val[p]);
            else if constexpr(requires { i.operator->(); } && std::is_lvalue_reference_v<std::iter_reference_t<It>>)
                REQUIRE((const void*)std::to_address(i.operator->()) == s.place[p], "%s-> reaches another object", w);
        }
        if constexpr(ra)
            for(int k = 0; k < n(); ++k) {
                REQUIRE(id_of(i[k - p]) == s.val[k], "%s[%d] is %d, not %d", w, k - p, id_of(i[k - p]), s.val[k]);
                if constexpr(std::is_lvalue_reference_v<std::iter_reference_t<It>>)
                    REQUIRE((const void*)std::addressof(i[k - p]) == s.place[k], "%s[%d] is another object", w, k - p);
            }
    }
    template<typename A, typename B>
    static void relate(const A& x, const B& y, int px, int py, const char* w) {
        REQUIRE((x == y) == (px == py), "a at %d == %s at %d gives %d", px, w, py, (int)(x == y));
        REQUIRE((x != y) == (px != py), "a at %d != %s at %d gives %d", px, w, py, (int)(x != y));
        REQUIRE((y == x) == (px == py), "%s at %d == a at %d gives %d", w, py, px, (int)(y == x));
        if constexpr(std::random_access_iterator<A>) {
            REQUIRE(x - y == px - py, "a at %d - %s at %d gives %td", px, w, py, (std::ptrdiff_t)(x - y));
            REQUIRE(y - x == py - px, "%s at %d - a at %d gives %td", w, py, px, (std::ptrdiff_t)(y - x));
            REQUIRE((x < y) == (px < py), "a at %d < %s at %d gives %d", px, w, py, (int)(x < y));
            REQUIRE((x > y) == (px > py), "a at %d > %s at %d gives %d", px, w, py, (int)(x > y));
            REQUIRE((x <= y) == (px <= py), "a at %d <= %s at %d gives %d", px, w, py, (int)(x <= y));
            REQUIRE((x >= y) == (px >= py), "a at %d >= %s at %d gives %d", px, w, py, (int)(x >= y));
            REQUIRE((y < x) == (py < px), "%s at %d < a at %d gives %d", w, py, px, (int)(y < x));
            if constexpr(requires { x <=> y; })
                REQUIRE((x <=> y) == (px <=> py), "a at %d <=> %s at %d is wrong", px, w, py);
        }
    }
    std::string key() { return std::to_string(pa) + "," + std::to_string(pb); }
    void finish() {}
};

template<typename It>
concept Constant = !std::is_lvalue_reference_v<std::iter_reference_t<It>>
                   || std::is_const_v<std::remove_reference_t<std::iter_reference_t<It>>>;

//! the algorithms of the standard library see the same sequence
template<typename It>
void algorithms(const Seq<It>& s) {
    const int n = s.at.size() - 1;
    for(int i = 0; i <= n; ++i)
        for(int j = i; j <= n; ++j) {
            It f = s.at[i], l = s.at[j];
            REQUIRE(std::ranges::distance(f, l) == j - i, "distance from %d to %d is %td", i, j, (std::ptrdiff_t)std::ranges::distance(f, l));
            int k = i;
            for(It x = f; x != l; ++x, ++k)
                REQUIRE(id_of(*x) == s.val[k], "iterating from %d: position %d shows %d", i, k, id_of(*x));
            REQUIRE(k == j, "iterating from %d to %d takes %d steps", i, j, k - i);
            std::vector<int> v;
            std::ranges::transform(std::ranges::subrange(f, l), std::back_inserter(v), [](const auto& e) { return id_of(e); });
            REQUIRE(std::equal(v.begin(), v.end(), s.val.begin() + i, s.val.begin() + j), "ranges::transform sees another sequence");
            if constexpr(std::bidirectional_iterator<It>) {
                k = j;
                for(It x = l; x != f;) {
                    --x;
                    --k;
                    REQUIRE(id_of(*x) == s.val[k], "iterating back: position %d shows %d", k, id_of(*x));
                }
                REQUIRE(k == i, "iterating back takes another number of steps");
            }
            if constexpr(std::random_access_iterator<It> && !std::is_same_v<std::iter_value_t<It>, bool>) {
                if(std::is_sorted(s.val.begin(), s.val.end()))
                    for(int t = i; t < j; ++t) {
                        auto r = std::ranges::lower_bound(f, l, s.val[t], {}, [](const auto& e) { return id_of(e); });
                        REQUIRE(r == s.at[t], "lower_bound finds another position");
                    }
            }
            mc::evaluated_once(j > i);
        }
}

template<typename It>
void explore(const char* name, Seq<It> s) {
    static_assert(std::forward_iterator<It> && std::default_initializable<It> && std::copyable<It>);
    REQUIRE(It{} == It{}, "%s: value-initialised iterators differ", name);
    for(std::size_t k = 0; k + 1 < s.at.size(); ++k) {
        REQUIRE(id_of(*s.at[k]) == s.val[k], "%s: position %zu of %zu shows %d, not %d", name, k, s.at.size() - 1, id_of(*s.at[k]), s.val[k]);
        REQUIRE(place_of(s.at[k]) == s.place[k], "%s: position %zu shows another object", name, k);
    }
    mc::bfs<Sys<It>>({64}, s);
    algorithms(s);
    mc::sample(std::string(name) + ", " + std::to_string(s.at.size() - 1) + " elements");
}
template<typename It>
Seq<ConstIterator<It>> constant(const Seq<It>& s) {
    using C = ConstIterator<It>;
    static_assert(Constant<C>, "a const iterator must not give access to change what it refers to");
    static_assert(std::is_same_v<std::iter_value_t<C>, std::iter_value_t<It>>);
    static_assert(std::bidirectional_iterator<C> == std::bidirectional_iterator<It>);
    static_assert(std::random_access_iterator<C> == std::random_access_iterator<It>);
    static_assert(std::contiguous_iterator<C> == std::contiguous_iterator<It>);
    if constexpr(requires(const C& c) { c.operator->(); })
        static_assert(std::is_const_v<std::remove_pointer_t<decltype(std::declval<const C&>().operator->())>>);
    if constexpr(std::random_access_iterator<It>)
        static_assert(!std::is_lvalue_reference_v<decltype(std::declval<C&>()[0])> || std::is_const_v<std::remove_reference_t<decltype(std::declval<C&>()[0])>>);
    Seq<C> r{{}, s.val, s.place};
    for(auto& i : s.at) {
        r.at.push_back(C(i));
        // make_const_iterator gives the iterator itself if it is constant already
        auto m = xme::make_const_iterator(i);
        auto t = xme::make_const_sentinel(i);
        static_assert(std::is_same_v<decltype(m), decltype(t)>);
        if constexpr(std::is_same_v<decltype(m), It>) {
            static_assert(Constant<It>);
            REQUIRE(m == i && t == i, "make_const_iterator gives another position");
        }
        else {
            static_assert(!xme::CConstantIterator<It>);
            REQUIRE(m == C(i) && t == C(i), "make_const_iterator gives another position");
        }
    }
    // against its base, and sentinels
    for(std::size_t k = 0; k < s.at.size(); ++k)
        for(std::size_t l = 0; l < s.at.size(); ++l) {
            const C c(s.at[k]);
            const It& i = s.at[l];
            REQUIRE((c == i) == (k == l) && (i == c) == (k == l) && (c != i) == (k != l), "const iterator at %zu == base at %zu", k, l);
            if constexpr(std::random_access_iterator<It>) {
                REQUIRE(c - i == (int)k - (int)l && i - c == (int)l - (int)k, "const iterator at %zu - base at %zu: %td %td", k, l, (std::ptrdiff_t)(c - i), (std::ptrdiff_t)(i - c));
                REQUIRE((c < i) == (k < l) && (c > i) == (k > l) && (c <= i) == (k <= l) && (c >= i) == (k >= l), "const iterator at %zu ordered against base at %zu", k, l);
                if constexpr(std::three_way_comparable<It>) {
                    REQUIRE((i < c) == (l < k) && (i > c) == (l > k) && (i <= c) == (l <= k) && (i >= c) == (l >= k), "base at %zu ordered against const iterator at %zu", l, k);
                    REQUIRE((c <=> i) == (k <=> l), "const iterator at %zu <=> base at %zu", k, l);
                }
            }
            mc::evaluated_once();
        }
    return r;
}
template<typename It>
Seq<ReverseIterator<It>> reversed(const Seq<It>& s) {
    using R = ReverseIterator<It>;
    static_assert(std::is_same_v<std::iter_value_t<R>, std::iter_value_t<It>>);
    static_assert(std::is_same_v<std::iter_reference_t<R>, std::iter_reference_t<It>>);
    static_assert(std::bidirectional_iterator<R>);
    static_assert(std::random_access_iterator<R> == std::random_access_iterator<It>);
    static_assert(!std::contiguous_iterator<R>);
    Seq<R> r{{}, {s.val.rbegin(), s.val.rend()}, {s.place.rbegin(), s.place.rend()}};
    for(auto i = s.at.rbegin(); i != s.at.rend(); ++i)
        r.at.push_back(R(*i));
    return r;
}
//! an adaptor over iterators against the same adaptor over const iterators
template<typename X, typename Y>
void mixed(const Seq<X>& s, const Seq<Y>& t, const char* name) {
    static_assert(std::convertible_to<X, Y> && !std::convertible_to<Y, X>);
    for(std::size_t k = 0; k < s.at.size(); ++k)
        for(std::size_t l = 0; l < s.at.size(); ++l) {
            mc::g_trail->loglen = 0;
            mc::log("%s: %zu against %zu", name, k, l);
            Sys<X>::relate(s.at[k], t.at[l], k, l, "const version");
            Y y(s.at[k]);
            REQUIRE(y == t.at[k], "converting moves it");
            y = s.at[l];
            REQUIRE(y == t.at[l], "assigning gives another position");
            mc::evaluated_once();
        }
}

template<typename It>
void all(const std::string& name, const Seq<It>& s) {
    explore(name.c_str(), s);
    auto c = constant(s);
    explore(("ConstIterator over " + name).c_str(), c);
    if constexpr(std::bidirectional_iterator<It>) {
        auto r = reversed(s);
        explore(("ReverseIterator over " + name).c_str(), r);
        explore(("ReverseIterator over ConstIterator over " + name).c_str(), reversed(c));
        explore(("ConstIterator over ReverseIterator over " + name).c_str(), constant(r));
        explore(("ReverseIterator over ReverseIterator over " + name).c_str(), reversed(r));
    }
}
//! the sequence of container c
template<typename It, typename C>
Seq<It> seq(C& c) {
    Seq<It> s;
    It i(c.begin());
    for(; i != It(c.end()); ++i) {
        s.at.push_back(i);
        s.val.push_back(id_of(*i));
        s.place.push_back(place_of(i));
    }
    s.at.push_back(i);
    return s;
}
static int max_n() { return mc::thorough ? 9 : 5; }
static int value(int k, int n) { return (k * 3 + 1) * 10; }
template<typename C>
void container(const char* name) {
    for(int n = 0; n <= max_n(); ++n) {
        C c;
        if constexpr(requires { c.push_back(typename C::value_type(1)); })
            for(int k = 0; k < n; ++k) {
                if constexpr(std::is_same_v<typename C::value_type, bool>)
                    c.push_back(k % 3 == 1);
                else
                    c.push_back(value(k, n));
            }
        else if constexpr(requires { c.push_front(typename C::value_type(1)); })
            for(int k = n; k--;)
                c.push_front(value(k, n));
        else
            for(int k = 0; k < n; ++k) {
                if constexpr(requires { c.insert(value(k, n)); })
                    c.insert(value(k, n));
                else
                    c.push_back(std::make_unique<int>(value(k, n)));
            }
        using I  = decltype(c.begin());
        using CI = decltype(std::as_const(c).begin());
        auto s   = seq<I>(c);
        REQUIRE((int)s.at.size() == n + 1, "%s: %zu positions for %d elements", name, s.at.size(), n);
        for(int k = 0; k < n; ++k)
            if constexpr(!std::is_same_v<typename C::value_type, bool>)
                REQUIRE(s.val[k] == value(k, n), "%s: element %d is %d", name, k, s.val[k]);
        all(std::string(name) + "::iterator", s);
        if constexpr(!std::is_same_v<I, CI>) {
            auto t = seq<CI>(std::as_const(c));
            explore((std::string(name) + "::const_iterator").c_str(), t);
            constant(t);
            mixed(s, t, name);
            mixed(constant(s), constant(t), (std::string("ConstIterators over ") + name).c_str());
            if constexpr(std::bidirectional_iterator<I>)
                mixed(reversed(s), reversed(t), (std::string("ReverseIterators over ") + name).c_str());
        }
    }
}
template<typename It>
void raw(const char* name) {
    for(int n = 0; n <= max_n(); ++n) {
        std::vector<int> v(n);
        for(int k = 0; k < n; ++k)
            v[k] = value(k, n);
        Seq<It> s;
        for(int k = 0; k <= n; ++k) {
            s.at.push_back(It{v.data() + k});
            if(k < n)
                s.val.push_back(v[k]), s.place.push_back(&v[k]);
        }
        all(name, s);
    }
}
static void pointers() {
    raw<int*>("int*");
    raw<const int*>("const int*");
    int a[4] = {4, 3, 2, 1};
    Seq<int*> s;
    Seq<const int*> t;
    for(int k = 0; k <= 4; ++k) {
        s.at.push_back(a + k);
        t.at.push_back(a + k);
    }
    mixed(constant(s), constant(t), "ConstIterators over pointers");
    mixed(reversed(s), reversed(t), "ReverseIterators over pointers");
}
static void iota() {
    for(int n = 0; n <= max_n(); ++n) {
        Seq<Iota> s;
        for(int k = 0; k <= n; ++k) {
            s.at.push_back(Iota{7 + k});
            if(k < n)
                s.val.push_back(7 + k), s.place.push_back(nullptr);
        }
        all("iota", s);
    }
}
static void input() {
    for(int n = 0; n <= 6; ++n) {
        int v[8];
        for(int k = 0; k < n; ++k)
            v[k] = value(k, n);
        v[n] = -1;
        using C = ConstIterator<MoveOnly>;
        static_assert(std::input_iterator<C> && !std::copyable<C> && Constant<C>);
        for(int form = 0; form < 3; ++form) {
            C c = form == 2 ? C(xme::make_const_iterator(MoveOnly(v))) : C(MoveOnly(v));
            C d;
            int k = 0;
            for(; c != std::default_sentinel; ++k) {
                REQUIRE(*c == v[k] && &*c == &v[k], "input: element %d is %d", k, *c);
                REQUIRE(c.operator->() == &v[k], "input: -> at %d", k);
                if(form == 1)
                    c++;
                else {
                    d = std::move(c);
                    C& r = ++d;
                    REQUIRE(&r == &d, "input: ++c does not return c itself");
                    c = std::move(d);
                }
            }
            REQUIRE(k == n, "input: %d elements of %d", k, n);
            mc::evaluated_once();
        }
        std::string text;
        for(int k = 0; k < n; ++k)
            text += std::to_string(v[k]) + " ";
        std::istringstream is(text);
        using S = ConstIterator<std::istream_iterator<int>>;
        static_assert(std::input_iterator<S> && Constant<S>);
        S i(std::istream_iterator<int>{is}), e(std::istream_iterator<int>{});
        std::vector<int> got;
        std::ranges::copy(i, e, std::back_inserter(got));
        REQUIRE(got.size() == (std::size_t)n && std::equal(got.begin(), got.end(), v), "istream: %zu of %d elements", got.size(), n);
        mc::evaluated_once();
    }
    mc::sample("input iterators that can and cannot be copied");
}
//! writing through iterators and adaptors reaches the element
static void writing() {
    for(int n = 1; n <= max_n(); ++n)
        for(int k = 0; k < n; ++k) {
            xme::Array<int> a;
            xme::LinkedList<int> l;
            for(int i = 0; i < n; ++i)
                a.push_back(i), l.push_front(n - 1 - i);
            *(a.begin() + k) = 100;
            REQUIRE(a[k] == 100, "Array: *(begin + k) = 100");
            a.begin()[k] = 101;
            REQUIRE(a[k] == 101, "Array: begin[k] = 101");
            auto it = l.begin();
            for(int i = 0; i < k; ++i)
                it++;
            *it = 100;
            int i = 0;
            for(int x : l) {
                REQUIRE(x == (i == k ? 100 : i), "LinkedList: element %d is %d", i, x);
                ++i;
            }
            ReverseIterator<xme::Array<int>::iterator> r(a.end());
            r[k] = 102;
            REQUIRE(a[n - 1 - k] == 102, "ReverseIterator[k] = 102");
            *(r + k) = 103;
            REQUIRE(a[n - 1 - k] == 103, "*(ReverseIterator + k) = 103");
            // sorting backwards sorts in descending order
            xme::Array<int> b;
            for(int i = 0; i < n; ++i)
                b.push_back((i * 5 + k) % (n + 1));
            using R = ReverseIterator<xme::Array<int>::iterator>;
            std::sort(R(b.end()), R(b.begin()));
            REQUIRE(std::is_sorted(b.data(), b.data() + n, std::greater<>()), "sorting backwards");
            std::ranges::sort(R(b.begin() + n), R(b.begin()), std::greater<>());
            REQUIRE(std::is_sorted(b.data(), b.data() + n), "ranges::sort backwards");
            mc::evaluated_once();
        }
}
constexpr bool constant_evaluated() {
    int a[5] = {1, 2, 3, 4, 5};
    ReverseIterator<int*> r(a + 5), e(a);
    int sum = 0;
    for(; r != e; r++)
        sum = sum * 10 + *r;
    ConstIterator<int*> c(a), d(a + 5);
    for(; c != d; ++c)
        sum += *c;
    return sum == 54321 + 15 && d - c == 0 && e - ReverseIterator<int*>(a + 5) == 5;
}
static_assert(constant_evaluated());

static void setup() {
#if PART == 1
    mc::add("pointers", pointers);
    mc::add("LinkedList", [] { container<xme::LinkedList<Elem>>("LinkedList<Elem>"); });
    mc::add("input", input);
#elif PART == 2
    mc::add("Array", [] { container<xme::Array<Elem>>("Array<Elem>"); });
    mc::add("writing", writing);
#elif PART == 3
    mc::add("vector", [] { container<std::vector<Elem>>("vector<Elem>"); });
    mc::add("forward_list", [] { container<std::forward_list<Elem>>("forward_list<Elem>"); });
#elif PART == 4
    mc::add("deque", [] { container<std::deque<Elem>>("deque<Elem>"); });
#elif PART == 5
    mc::add("list", [] { container<std::list<Elem>>("list<Elem>"); });
    mc::add("set", [] { container<std::set<Elem>>("set<Elem>"); });
    mc::add("vector-unique_ptr", [] { container<std::vector<std::unique_ptr<int>>>("vector<unique_ptr>"); });
#elif PART == 6
    mc::add("vector-bool", [] { container<std::vector<bool>>("vector<bool>"); });
    mc::add("values", iota);
#elif PART == 7
    mc::add("ordered-by-less", [] { raw<Ra<int>>("iterator ordered by <"); });
#endif
}
MC_MAIN(setup)
