// C12: comparison, swap, assignment, conversion and construction of Pair and Tuple.
#include "tup.hpp"
#include <cmath>
using namespace tp;
static void step() {
    ++mc::st.transitions;
    ++mc::st.execs;
    ++mc::g_trail->execs;
}
static void program() { ++mc::st.states; }

// ---- comparison ---------------------------------------------------------------------------------
//! equivalent values that differ
struct Weak {
    int v;
    Weak(int x) : v(x) {}
    bool operator==(const Weak& o) const { return v / 2 == o.v / 2; }
    std::weak_ordering operator<=>(const Weak& o) const { return v / 2 <=> o.v / 2; }
};
//! 2 is not ordered with anything, itself included
struct Part {
    double d;
    Part(int x) : d(x == 2 ? NAN : x) {}
    bool operator==(const Part& o) const  = default;
    auto operator<=>(const Part& o) const = default;
};
//! counts comparisons by its place
template<typename T>
void compare(const char* name) {
    program();
    static constexpr std::size_t n = arity<T>;
    Store s;
    all_values(n, 3, [&](const std::vector<int>& x) {
        all_values(n, 3, [&](const std::vector<int>& y) {
            mc::g_trail->loglen = 0;
            OP("%s: %s and %s", name, show(x).c_str(), show(y).c_str());
            const T a = Make<T>::from(x, s), b = Make<T>::from(y, s);
            bool eq = true;
            std::partial_ordering o = std::partial_ordering::equivalent;
            each<n>([&](auto i) {
                using E   = elem_t<T, i>;
                const E p(x[i]), q(y[i]);
                eq = eq && p == q;
                if(o == 0)
                    o = p <=> q;
            });
            REQUIRE((a == b) == eq && (a != b) == !eq && (b == a) == eq, "a == b is %d", a == b);
            REQUIRE((a < b) == (o < 0) && (a > b) == (o > 0) && (a <= b) == (o <= 0) && (a >= b) == (o >= 0), "<, >, <=, >= are %d, %d, %d, %d but the elements order as %s",
                    a < b, a > b, a <= b, a >= b, o < 0 ? "less" : o > 0 ? "greater" : o == 0 ? "equivalent" : "unordered");
            REQUIRE(std::partial_ordering(a <=> b) == o || (std::partial_ordering(a <=> b) == std::partial_ordering::unordered && o == std::partial_ordering::unordered), "<=> disagrees");
            step();
        });
    });
    [&]<std::size_t... I>(std::index_sequence<I...>) {
        static_assert(std::is_same_v<decltype(std::declval<const T&>() <=> std::declval<const T&>()), std::common_comparison_category_t<decltype(std::declval<const elem_t<T, I>&>() <=> std::declval<const elem_t<T, I>&>())...>>,
                      "the strength of <=> is not that of the elements");
    }(std::make_index_sequence<n>{});
    mc::sample(mc::g_trail->log);
}
template<template<typename...> class P, typename... Done>
void compare_all(const char* name) {
    if constexpr(sizeof...(Done) == 2)
        compare<P<Done...>>(name);
    else {
        compare_all<P, Done..., int>(name);
        compare_all<P, Done..., Weak>(name);
        compare_all<P, Done..., Part>(name);
    }
}
template<typename... Done>
void compare_tuples() {
    compare<xme::Tuple<Done...>>("tuple");
    if constexpr(sizeof...(Done) < 3) {
        compare_tuples<Done..., int>();
        compare_tuples<Done..., Weak>();
        compare_tuples<Done..., Part>();
    }
}

// ---- assignment ---------------------------------------------------------------------------------
template<typename Dst, typename Src, typename Cat>  // Cat: reference type the source is used as
void assign_one(const char* name, const char* cat) {
    static constexpr std::size_t n = arity<Dst>;
    static_assert(arity<Src> == n);
    constexpr bool rvalue = !std::is_lvalue_reference_v<Cat> && !std::is_const_v<std::remove_reference_t<Cat>>;
    program();
    all_values(n, 2, [&](const std::vector<int>& x) {
        all_values(n, 2, [&](const std::vector<int>& y) {
            mc::g_trail->loglen = 0;
            OP("%s: %s = %s %s", name, show(x).c_str(), cat, show(y).c_str());
            Store sd, ss;
            Dst d = Make<Dst>::from(x, sd);
            Src s = Make<Src>::from(y, ss);
            auto reset = [](auto& t) {
                each<n>([&](auto i) {
                    if constexpr(tracks<elem_t<decltype(t), i>>) {
                        const_cast<V&>(static_cast<const V&>(at<i>(t))).copies = 0;
                        const_cast<V&>(static_cast<const V&>(at<i>(t))).moves  = 0;
                    }
                });
            };
            reset(d);
            reset(s);
            auto&& r = (d = static_cast<Cat>(s));
            static_assert(std::is_same_v<decltype(r), Dst&>, "assignment returns something else");
            REQUIRE(&r == &d, "assignment returns something else");
            each<n>([&](auto i) {
                using E = elem_t<Src, i>;
                using D = elem_t<Dst, i>;
                REQUIRE(val(at<i>(d)) == y[i], "element %d is %d instead of %d", (int)i, val(at<i>(d)), y[i]);
                if constexpr(std::is_reference_v<D>)
                    REQUIRE(val(sd.ref(i, static_cast<const std::remove_cvref_t<D>*>(nullptr))) == y[i], "assigning did not go through reference %d", (int)i);
                constexpr bool moved = std::is_rvalue_reference_v<E> ? rvalue : (rvalue && !std::is_reference_v<E>);
                if constexpr(tracks<E>) {
                    REQUIRE(val(at<i>(s)) == (moved && tracks<D> ? -1 : y[i]), "element %d of the source is %d afterwards", (int)i, val(at<i>(s)));
                    if constexpr(tracks<D>)
                        REQUIRE(at<i>(d).copies == (moved ? 0 : 1) && at<i>(d).moves == (moved ? 1 : 0), "element %d was copied %d and moved %d times", (int)i, at<i>(d).copies, at<i>(d).moves);
                }
                else
                    REQUIRE(val(at<i>(s)) == y[i], "element %d of the source is %d afterwards", (int)i, val(at<i>(s)));
            });
            step();
        });
    });
    mc::sample(mc::g_trail->log);
}
template<typename T, std::size_t... I>
constexpr bool has_rref(std::index_sequence<I...>) {
    return (std::is_rvalue_reference_v<elem_t<T, I>> || ... || false);
}
template<typename Dst, typename... Src>
void assign(const char* name) {
    (
      [&] {
          constexpr bool rrefs = has_rref<Src>(size_c<Src>{});
          // a tuple with reference elements cannot be assigned from one of its own type
          constexpr bool same = std::is_same_v<Dst, Src>;
          constexpr bool refs = []<std::size_t... I>(std::index_sequence<I...>) { return (std::is_reference_v<elem_t<Dst, I>> || ... || false); }(size_c<Dst>{});
          constexpr bool pair = []<typename A, typename B>(xme::Pair<A, B>*) { return true; }(static_cast<xme::Pair<int, int>*>(nullptr)) && std::tuple_size_v<Dst> == 2 && requires(Dst& p) { p.first; };
          if constexpr(!(same && refs)) {
              assign_one<Dst, Src, Src&>(name, "lvalue");
              assign_one<Dst, Src, const Src&>(name, "const lvalue");
              assign_one<Dst, Src, Src&&>(name, "rvalue");
              if constexpr(!same && !rrefs)
                  assign_one<Dst, Src, const Src&&>(name, "const rvalue");
          }
          else if constexpr(pair)
              assign_one<Dst, Src, Src&>(name, "lvalue");
      }(),
      ...);
}
static void assignments2() {
    using namespace std;
    using xme::Pair, xme::Tuple;
    assign<Pair<V, V>, Pair<V, V>, Tuple<V, V>, std::pair<V, V>, std::tuple<V, V>, std::array<V, 2>, Pair<V&, V>, Tuple<V, V&>, std::tuple<V&, V&>, std::pair<V&&, V&&>, Tuple<V&&, V>, Tuple<const V&, V>>("pair of objects");
    assign<Pair<V, int>, Pair<V, int>, Tuple<V, long>, std::pair<V, short>, std::tuple<int, V>, std::array<int, 2>, Pair<V&, int>>("pair of an object and an int");
    assign<Pair<V&, V&>, Pair<V&, V&>, Pair<V, V>, Tuple<V, V>, Tuple<V&, V&>, std::pair<V, V>, std::tuple<V&, V>, std::array<V, 2>, std::pair<V&&, V>>("pair of references");
    assign<Pair<V&, int>, Pair<V&, int>, Pair<V, short>, Tuple<V, int>, std::tuple<V&, int&>>("pair of a reference and an int");
}
static void assignments_n() {
    using xme::Pair, xme::Tuple;
    assign<Tuple<V>, Tuple<V>, std::tuple<V>, std::array<V, 1>, Tuple<V&>, Tuple<int>, Tuple<V&&>>("tuple of one");
    assign<Tuple<V&>, Tuple<V>, std::tuple<V>, std::array<V, 1>, Tuple<const V&>, Tuple<V&&>>("tuple of one reference");
    assign<Tuple<V, int>, Tuple<V, int>, Pair<V, int>, std::pair<V, int>, std::tuple<V, int>, Pair<V&, long>, std::array<int, 2>>("tuple of two");
    assign<Tuple<V&, int&>, Tuple<V, int>, Pair<V, int>, std::pair<V, short>, std::tuple<V&, int&>, Pair<V&, int&>>("tuple of two references");
    assign<Tuple<V, V, V>, Tuple<V, V, V>, std::tuple<V, V, V>, std::array<V, 3>, Tuple<V&, V, V>, Tuple<int, V, int>, Tuple<V&&, V&, V>>("tuple of three");
    assign<Tuple<V&, V&, V&>, Tuple<V, V, V>, std::tuple<V, V, V>, std::array<V, 3>, Tuple<V, V&, V>>("tuple of three references");
    assign<Tuple<V, int, V, long>, Tuple<V, int, V, long>, std::tuple<V, short, V, int>, std::array<V, 4>, Tuple<V&, int&, V, int>, Tuple<int, V, int, V>>("tuple of four");
}
//! throws when assigned to while armed
struct Bomb {
    static inline int armed = -1;
    int v                   = 0;
    Bomb() = default;
    Bomb(int x) : v(x) {}
    Bomb(const Bomb&) = default;
    Bomb& operator=(const Bomb& o) {
        if(armed-- == 0)
            throw 7;
        v = o.v;
        return *this;
    }
    Bomb& operator=(Bomb&& o) noexcept(false) { return *this = static_cast<const Bomb&>(o); }
};
template<typename Dst, typename Src>
void bombs(const char* name) {
    constexpr int n = arity<Dst>;
    program();
    for(int cat = 0; cat < 3; ++cat)
        for(int at_ = 0; at_ <= n; ++at_) {
            mc::g_trail->loglen = 0;
            OP("%s: the assignment of element %d throws, source category %d", name, at_, cat);
            Store s;
            Dst d = [&]<std::size_t... I>(std::index_sequence<I...>) { return Dst{Bomb(1 + 0 * (int)I)...}; }(std::make_index_sequence<n>{});
            Src r = [&]<std::size_t... I>(std::index_sequence<I...>) { return Src{Bomb(2 + 0 * (int)I)...}; }(std::make_index_sequence<n>{});
            Bomb::armed = at_;
            bool thrown = false;
            try {
                if(cat == 0)
                    d = r;
                else if(cat == 1)
                    d = std::as_const(r);
                else
                    d = std::move(r);
            }
            catch(int) {
                thrown = true;
            }
            REQUIRE(thrown == (at_ < n), "the exception did not reach the caller");
            if(!thrown)
                each<n>([&](auto i) { REQUIRE(at<i>(d).v == 2, "element %d was not assigned", (int)i); });
            Bomb::armed = -1;
            step();
        }
}
static void throwing() {
    using xme::Pair, xme::Tuple;
    bombs<Pair<Bomb, Bomb>, Pair<Bomb, Bomb>>("pair = pair");
    bombs<Pair<Bomb, Bomb>, Tuple<Bomb, Bomb>>("pair = tuple");
    bombs<Pair<Bomb, Bomb>, std::pair<Bomb, Bomb>>("pair = std::pair");
    bombs<Pair<Bomb, Bomb>, std::array<Bomb, 2>>("pair = std::array");
    bombs<Tuple<Bomb>, Tuple<Bomb>>("tuple = tuple, 1");
    bombs<Tuple<Bomb, Bomb, Bomb>, Tuple<Bomb, Bomb, Bomb>>("tuple = tuple");
    bombs<Tuple<Bomb, Bomb, Bomb>, std::tuple<Bomb, Bomb, Bomb>>("tuple = std::tuple");
    bombs<Tuple<Bomb, Bomb>, Pair<Bomb, Bomb>>("tuple = pair");
}

// ---- swap ---------------------------------------------------------------------------------------
template<typename T>
void swaps(const char* name) {
    static constexpr std::size_t n = arity<T>;
    program();
    all_values(n, 2, [&](const std::vector<int>& x) {
        all_values(n, 2, [&](const std::vector<int>& y) {
            for(int how = 0; how < 3; ++how) {
                mc::g_trail->loglen = 0;
                OP("%s: swap %s and %s (%s)", name, show(x).c_str(), show(y).c_str(), how == 0 ? "member" : how == 1 ? "found by ADL" : "itself");
                Store sa, sb;
                T a = Make<T>::from(x, sa), b = Make<T>::from(y, sb);
                auto copies = [&] {
                    int c = 0;
                    each<n>([&](auto i) {
                        if constexpr(tracks<elem_t<T, i>>)
                            c += at<i>(a).copies + at<i>(b).copies;
                    });
                    return c;
                };
                const void* wa[n + 1];
                each<n>([&](auto i) { wa[i] = &at<i>(a); });
                int c0 = copies();
                if(how == 0)
                    a.swap(b);
                else if(how == 1)
                    swap(a, b);
                else {
                    a.swap(a);
                    each<n>([&](auto i) { REQUIRE(val(at<i>(a)) == x[i], "swapping with itself changed element %d to %d", (int)i, val(at<i>(a))); });
                    step();
                    continue;
                }
                REQUIRE(copies() == c0, "swap copied an element");
                each<n>([&](auto i) {
                    REQUIRE(val(at<i>(a)) == y[i] && val(at<i>(b)) == x[i], "element %d is %d and %d afterwards", (int)i, val(at<i>(a)), val(at<i>(b)));
                    REQUIRE(wa[i] == &at<i>(a), "reference %d was rebound", (int)i);
                });
                step();
            }
        });
    });
    mc::sample(mc::g_trail->log);
}
static void swapping() {
    using xme::Pair, xme::Tuple;
    swaps<Pair<V, V>>("pair");
    swaps<Pair<V, int>>("pair");
    swaps<Pair<V&, V>>("pair with a reference");
    swaps<Pair<int&, V&>>("pair of references");
    swaps<Tuple<V>>("tuple");
    swaps<Tuple<V, int>>("tuple");
    swaps<Tuple<V, V, V>>("tuple");
    swaps<Tuple<V, int, V, V>>("tuple");
    swaps<Tuple<V&>>("tuple of a reference");
    swaps<Tuple<V&, V>>("tuple with a reference");
    swaps<Tuple<V&, int&, V&>>("tuple of references");
    {
        xme::Tuple<> a, b;
        a.swap(b);
        swap(a, b);
    }
    {
        xme::Tuple<MO, MO> a{1, 2}, b{3, 4};
        swap(a, b);
        REQUIRE(get<0>(a).v == 3 && get<1>(a).v == 4 && get<0>(b).v == 1 && get<1>(b).v == 2, "swap of elements that cannot be copied");
        xme::Pair<MO, MO> c{1, 2}, d{3, 4};
        swap(c, d);
        REQUIRE(c.first.v == 3 && c.second.v == 4 && d.first.v == 1 && d.second.v == 2, "swap of elements that cannot be copied");
    }
}

// ---- a history over two tuples, a pair and their references ---------------------------------------
struct Hist {
    xme::Tuple<V, int, V> t{V(0), 0, V(1)}, u{V(1), 1, V(0)};
    xme::Pair<V, V> p{V(0), V(1)};
    std::tuple<V, long, V> s{V(1), 0, V(0)};
    xme::Tuple<V&, int&, V&> r{get<0>(t), get<1>(t), get<2>(t)};
    int mt[3] = {0, 0, 1}, mu[3] = {1, 1, 0}, mp[2] = {0, 1}, ms[3] = {1, 0, 0};
    static constexpr std::uint32_t ops() { return 16; }
    static void copy(int* d, const int* f, int n = 3) { std::copy(f, f + n, d); }
    static void take(int* d, int* f) {
        copy(d, f);
        f[0] = f[2] = -1;
    }
    bool apply(std::uint32_t op) {
        switch(op) {
        case 0: OP("t = u"); t = u; copy(mt, mu); break;
        case 1: OP("u = t"); u = std::as_const(t); copy(mu, mt); break;
        case 2: OP("t = move(u)"); t = std::move(u); take(mt, mu); break;
        case 3: OP("swap(t, u)"); swap(t, u); std::swap_ranges(mt, mt + 3, mu); break;
        case 4: OP("r = u"); r = u; copy(mt, mu); break;
        case 5: OP("r = move(s)"); r = std::move(s); take(mt, ms); break;
        case 6: OP("u = r"); u = r; copy(mu, mt); break;
        case 7: OP("u = move(r)"); u = std::move(r); copy(mu, mt); break;
        case 8: OP("u = s"); u = s; copy(mu, ms); break;
        case 9: OP("u = move(s)"); u = std::move(s); take(mu, ms); break;
        case 10: OP("s = t"); s = static_cast<std::tuple<V, long, V>>(t); copy(ms, mt); break;
        case 11: OP("p = tie(t0, t2)"); p = xme::tie(get<0>(t), get<2>(t)); mp[0] = mt[0]; mp[1] = mt[2]; break;
        case 12: OP("tie(u0, u2) = move(p)"); xme::tie(get<0>(u), get<2>(u)) = std::move(p); mu[0] = mp[0]; mu[2] = mp[1]; mp[0] = mp[1] = -1; break;
        case 13: OP("p = {u2, u0}"); p = {get<2>(u), get<0>(u)}; mp[0] = mu[2]; mp[1] = mu[0]; break;
        case 14: OP("t = {2, 3, 2}"); t = {V(2), 3, V(2)}; mt[0] = mt[2] = 2; mt[1] = 3; break;
        default: OP("p = std::pair{p.second, 1}"); p = std::pair<V, int>(p.second, 1); mp[0] = mp[1]; mp[1] = 1; break;
        }
        each<3>([&](auto i) {
            REQUIRE(val(get<i>(t)) == mt[i], "t[%d] is %d instead of %d", (int)i, val(get<i>(t)), mt[i]);
            REQUIRE(val(get<i>(u)) == mu[i], "u[%d] is %d instead of %d", (int)i, val(get<i>(u)), mu[i]);
            REQUIRE(val(get<i>(s)) == ms[i], "s[%d] is %d instead of %d", (int)i, val(get<i>(s)), ms[i]);
            REQUIRE(&get<i>(r) == &get<i>(t), "r was rebound");
        });
        REQUIRE(p.first.v == mp[0] && p.second.v == mp[1], "p is (%d %d) instead of (%d %d)", p.first.v, p.second.v, mp[0], mp[1]);
        REQUIRE((t == u) == std::equal(mt, mt + 3, mu) && ((t <=> u) < 0) == std::lexicographical_compare(mt, mt + 3, mu, mu + 3), "comparison of t and u");
        return true;
    }
    std::string key() const {
        std::string k;
        for(int i = 0; i < 3; ++i)
            k += std::to_string(mt[i]) + std::to_string(mu[i]) + std::to_string(ms[i]);
        return k + std::to_string(mp[0]) + std::to_string(mp[1]);
    }
    void finish() {}
};

// ---- conversion and construction ------------------------------------------------------------------
template<typename To, typename From>
void converts(const char* name) {
    static constexpr std::size_t n = arity<From>;
    program();
    all_values(n, 3, [&](const std::vector<int>& x) {
        mc::g_trail->loglen = 0;
        OP("%s from %s", name, show(x).c_str());
        Store s;
        From f = Make<From>::from(x, s);
        auto check = [&](To to) {
            if constexpr(requires { std::tuple_size<To>::value; })
                each<n>([&](auto i) { REQUIRE(val(at<i>(to)) == x[i], "element %d became %d", (int)i, val(at<i>(to))); });
            else {
                auto [a, b, c] = to;
                REQUIRE(val(a) == x[0] && val(b) == x[1] && val(c) == x[2], "became (%d %d %d)", val(a), val(b), val(c));
            }
            each<n>([&](auto i) { REQUIRE(val(at<i>(f)) == x[i], "the conversion changed element %d of the source", (int)i); });
        };
        check(f);
        check(static_cast<To>(f));
        check(std::as_const(f));
        check(std::move(f));
        if constexpr(requires { To{f}; } && !std::is_aggregate_v<To>) {
            To to{f};
            check(to);
        }
        step();
    });
}
struct Agg {
    V a;
    int b;
    V c;
};
static void conversion() {
    using xme::Pair, xme::Tuple;
    converts<Agg, Tuple<V, int, V>>("aggregate");
    converts<Agg, Tuple<V&, int&, V>>("aggregate from references");
    converts<std::tuple<V, int, V>, Tuple<V, int, V>>("std::tuple");
    converts<std::tuple<V, long, V>, Tuple<V, int, V>>("std::tuple");
    converts<std::pair<V, int>, Tuple<V, int>>("std::pair");
    converts<Pair<V, int>, Tuple<V, int>>("pair");
    converts<Pair<V, V>, Tuple<V, V&>>("pair");
    converts<std::array<V, 3>, Tuple<V, V, V>>("std::array");
    converts<std::array<int, 2>, Tuple<int, int>>("std::array");
    converts<Tuple<V, long>, Tuple<V, int>>("tuple");
    converts<Tuple<const V&, int>, Tuple<V&, int>>("tuple of a reference");
    converts<Tuple<const V&>, Tuple<V&>>("tuple of a reference");
    converts<Tuple<V, V, V, V>, Tuple<V, V, V, V&>>("tuple of four");
    converts<std::tuple<V>, Tuple<V>>("std::tuple of one");
}
template<typename F>
void built(const char* name, F f) {
    for(int a = 0; a < 3; ++a)
        for(int b = 0; b < 3; ++b) {
            mc::g_trail->loglen = 0;
            OP("%s of %d and %d", name, a, b);
            f(a, b);
            step();
        }
    program();
}
static void once(const V& x, int v, int copies, int moves, const char* what) {
    REQUIRE(x.v == v, "%s is %d instead of %d", what, x.v, v);
    REQUIRE(x.copies == copies && x.moves == moves, "%s was copied %d and moved %d times", what, x.copies, x.moves);
}
static void construction() {
    using xme::Pair, xme::Tuple;
    built("make_pair", [](int a, int b) {
        V x(a);
        const V y(b);
        auto p = xme::make_pair(x, y);
        static_assert(std::is_same_v<decltype(p), Pair<V, V>>);
        once(p.first, a, 1, 0, "an lvalue");
        once(p.second, b, 1, 0, "a const lvalue");
        auto q = xme::make_pair(std::move(x), 3);
        static_assert(std::is_same_v<decltype(q), Pair<V, int>>);
        once(q.first, a, 0, 1, "an rvalue");
        REQUIRE(q.second == 3 && x.v == -1, "make_pair of an rvalue");
        auto r = xme::make_pair(std::ref(x), std::cref(y));
        static_assert(std::is_same_v<decltype(r), Pair<V&, const V&>>);
        REQUIRE(&r.first == &x && &r.second == &y, "reference wrappers refer elsewhere");
        auto m = xme::make_pair(MO(a), "text");
        static_assert(std::is_same_v<decltype(m), Pair<MO, const char*>>);
        REQUIRE(m.first.v == a && std::string(m.second) == "text", "make_pair of things that decay");
    });
    built("make_tuple", [](int a, int b) {
        V x(a);
        const V y(b);
        auto t = xme::make_tuple(x, y, 5, std::ref(x));
        static_assert(std::is_same_v<decltype(t), Tuple<V, V, int, V&>>);
        once(get<0>(t), a, 1, 0, "an lvalue");
        once(get<1>(t), b, 1, 0, "a const lvalue");
        REQUIRE(get<2>(t) == 5 && &get<3>(t) == &x, "make_tuple");
        auto u = xme::make_tuple(std::move(x), MO(b), std::cref(y));
        static_assert(std::is_same_v<decltype(u), Tuple<V, MO, const V&>>);
        once(get<0>(u), a, 0, 1, "an rvalue");
        REQUIRE(get<1>(u).v == b && &get<2>(u) == &y, "make_tuple");
        auto one = xme::make_tuple(V(b));
        once(get<0>(one), b, 0, 1, "a temporary");
        static_assert(std::is_same_v<decltype(xme::make_tuple()), Tuple<>>);
    });
    built("deduction", [](int a, int b) {
        V x(a);
        const V y(b);
        Pair p{x, y};
        static_assert(std::is_same_v<decltype(p), Pair<V, V>>);
        REQUIRE(p.first.v == a && p.second.v == b, "Pair{a, b}");
        Pair r{std::ref(x), 1};
        static_assert(std::is_same_v<decltype(r), Pair<V&, int>>);
        REQUIRE(&r.first == &x && r.second == 1, "Pair{ref(a), 1}");
        Tuple t{x, 1.5, y};
        static_assert(std::is_same_v<decltype(t), Tuple<V, double, V>>);
        REQUIRE(get<0>(t).v == a && get<1>(t) == 1.5 && get<2>(t).v == b, "Tuple{a, 1.5, b}");
        Tuple s{std::ref(x), std::cref(y)};
        static_assert(std::is_same_v<decltype(s), Tuple<V&, const V&>>);
        REQUIRE(&get<0>(s) == &x && &get<1>(s) == &y, "Tuple{ref(a), cref(b)}");
    });
    built("copying and moving", [](int a, int b) {
        Tuple<V, int, V> t{V(a), 7, V(b)};
        get<0>(t).moves = get<2>(t).moves = 0;
        auto c = t;
        once(get<0>(c), a, 1, 0, "element 0 of a copy");
        once(get<2>(c), b, 1, 0, "element 2 of a copy");
        auto m = std::move(t);
        once(get<0>(m), a, 0, 1, "element 0 of a moved tuple");
        once(get<2>(m), b, 0, 1, "element 2 of a moved tuple");
        REQUIRE(get<1>(m) == 7 && get<1>(c) == 7, "element 1");
        Pair<V, V> p{V(a), V(b)};
        p.first.moves = p.second.moves = 0;
        auto pc = p;
        once(pc.first, a, 1, 0, "first of a copy");
        once(pc.second, b, 1, 0, "second of a copy");
        auto pm = std::move(p);
        once(pm.first, a, 0, 1, "first of a moved pair");
        once(pm.second, b, 0, 1, "second of a moved pair");
        Tuple<MO, MO> x{a, b};
        auto y = std::move(x);
        REQUIRE(get<0>(y).v == a && get<1>(y).v == b && get<0>(x).v == -1, "moving what cannot be copied");
        Tuple<MO, MO> z{3, 4};
        z = std::move(y);
        REQUIRE(get<0>(z).v == a && get<1>(z).v == b && get<0>(y).v == -1 && get<1>(y).v == -1, "moving what cannot be copied");
        Pair<MO, MO> w{5, 6};
        w = std::move(z);
        REQUIRE(w.first.v == a && w.second.v == b && get<1>(z).v == -1, "moving what cannot be copied");
    });
    built("tuples of tuples", [](int a, int b) {
        auto in = xme::make_tuple(V(a), V(b));
        get<0>(in).moves = get<1>(in).moves = 0;
        auto t = xme::make_tuple(in, 3);
        static_assert(std::is_same_v<decltype(t), Tuple<Tuple<V, V>, int>>);
        once(get<0>(get<0>(t)), a, 1, 0, "element 0 of the inner tuple");
        once(get<1>(get<0>(t)), b, 1, 0, "element 1 of the inner tuple");
        REQUIRE(get<1>(t) == 3, "the element after the inner tuple");
        auto u = xme::make_tuple(std::move(in));
        static_assert(std::is_same_v<decltype(u), Tuple<Tuple<V, V>>>);
        once(get<0>(get<0>(u)), a, 0, 1, "element 0 of the inner tuple");
        auto w = xme::make_tuple(4, xme::make_tuple(a), xme::make_pair(a, b), xme::make_tuple());
        static_assert(std::is_same_v<decltype(w), Tuple<int, Tuple<int>, Pair<int, int>, Tuple<>>>);
        REQUIRE(get<0>(w) == 4 && get<0>(get<1>(w)) == a && get<1>(get<2>(w)) == b, "nested elements");
        auto m = xme::make_tuple(xme::make_tuple(MO(a)), b);
        REQUIRE(get<0>(get<0>(m)).v == a && get<1>(m) == b, "nested elements");
        auto d = xme::make_tuple(xme::make_tuple(xme::make_tuple(a, b), b), a);
        REQUIRE(get<1>(get<0>(get<0>(d))) == b && get<0>(get<0>(get<0>(d))) == a && get<1>(get<0>(d)) == b && get<1>(d) == a, "nested elements");
        REQUIRE(d == d && !(d < d) && (xme::make_tuple(xme::make_tuple(a), b) < xme::make_tuple(xme::make_tuple(b), a)) == (a < b), "comparison of nested tuples");
        auto p = xme::make_pair(xme::make_tuple(a, b), xme::make_pair(b, a));
        REQUIRE(get<1>(p.first) == b && p.second.second == a, "nested elements");
    });
}
static void setup() {
#if PART == 1
    mc::add("compare.pairs", [] { compare_all<xme::Pair>("pair"); });
    mc::add("compare.tuples", [] {
        compare_tuples<>();
        compare<xme::Tuple<int, int, int, int>>("tuple");
    });
    mc::add("assign.throwing", throwing);
    mc::add("history", [] { mc::bfs<Hist>({mc::thorough ? 40 : 9}); });
    mc::add("conversion", conversion);
    mc::add("construction", construction);
#elif PART == 2
    mc::add("assign.pairs", assignments2);
#else
    mc::add("assign.tuples", assignments_n);
    mc::add("swap", swapping);
#endif
}
MC_MAIN(setup)
