// C13: get, apply, tie, forward_as_tuple and tuple_cat over all arities, indices, categories and argument shapes.
#include "tup.hpp"
using namespace tp;
static void step() {
    ++mc::st.transitions;
    ++mc::st.execs;
    ++mc::g_trail->execs;
}
static void program() { ++mc::st.states; }
template<typename E, typename Cat>  // Cat: Tuple&, const Tuple&, Tuple&&, const Tuple&&
struct Expect {
    using base = std::remove_reference_t<Cat>;
    using obj  = std::conditional_t<std::is_const_v<base>, const E, E>;  // a reference E stays as it is
    using type = std::conditional_t<std::is_lvalue_reference_v<Cat>, obj&, obj&&>;
    //! what is also accepted of a const rvalue
    using alt = std::conditional_t<std::is_const_v<base>, obj&, type>;
};
//! where element I is, found without get
template<std::size_t I, typename A, typename B>
const void* where(const xme::Pair<A, B>& p) {
    if constexpr(I == 0)
        return &p.first;
    else
        return &p.second;
}
template<typename T, typename Cat>
void gets_in(const char* name, const char* cat) {
    static constexpr std::size_t n = arity<T>;
    static_assert(std::tuple_size_v<T> == n);
    std::vector<int> x;
    for(std::size_t i = 0; i < n; ++i)
        x.push_back(i + 1);
    Store s;
    each<n>([&](auto i) {
        mc::g_trail->loglen = 0;
        OP("get<%d> of %s %s", (int)i, cat, name);
        T t     = Make<T>::from(x, s);
        using E = elem_t<T, i>;
        auto&& r  = get<i>(static_cast<Cat>(t));
        using Got = decltype(get<i>(static_cast<Cat>(t)));
        using Ex  = Expect<E, Cat>;
        static_assert(std::is_same_v<Got, typename Ex::type> || std::is_same_v<Got, typename Ex::alt>, "get has the wrong constness or value category");
        REQUIRE(val(r) == (int)i + 1, "get<%d> of %s %s refers to element %d", (int)i, cat, name, val(r) - 1);
        const void* a = std::addressof(const_cast<const std::remove_cvref_t<E>&>(r));
        if constexpr(std::is_reference_v<E>)
            REQUIRE(a == &s.ref(i, static_cast<const std::remove_cvref_t<E>*>(nullptr)), "get<%d> refers elsewhere", (int)i);
        else {
            REQUIRE(a >= (const void*)&t && a < (const void*)(&t + 1), "get<%d> refers to something outside the tuple", (int)i);
            if constexpr(requires { t.first; })
                REQUIRE(a == where<i>(t), "get<%d> refers elsewhere", (int)i);
        }
        // writing through it changes that element and no other
        if constexpr(std::is_lvalue_reference_v<Got> && !std::is_const_v<std::remove_reference_t<Got>>) {
            r = std::remove_cvref_t<E>(70);
            each<n>([&](auto j) { REQUIRE(val(get<j>(t)) == (i == j ? 70 : (int)j + 1), "writing through get<%d> changed element %d", (int)i, (int)j); });
        }
        else if constexpr(!std::is_const_v<std::remove_reference_t<Got>> && tracks<E>) {
            V taken(get<i>(static_cast<Cat>(t)));
            each<n>([&](auto j) { REQUIRE(val(get<j>(t)) == (i == j ? -1 : (int)j + 1), "moving from get<%d> changed element %d to %d", (int)i, (int)j, val(get<j>(t))); });
        }
        // the element type, for which a const scalar may be given without const
        static_assert(std::is_same_v<std::remove_const_t<std::tuple_element_t<i, T>>, std::remove_const_t<E>>);
        static_assert(std::is_same_v<std::tuple_element_t<i, const T>, std::add_const_t<std::tuple_element_t<i, T>>>);
        step();
    });
    program();
}
template<typename T>
void gets(const char* name) {
    gets_in<T, T&>(name, "lvalue");
    gets_in<T, const T&>(name, "const lvalue");
    gets_in<T, T&&>(name, "rvalue");
    gets_in<T, const T&&>(name, "const rvalue");
}
template<typename... Done>
void get_tuples() {
    if constexpr(sizeof...(Done) > 0)
        gets<xme::Tuple<Done...>>("tuple");
    if constexpr(sizeof...(Done) < 3) {
        get_tuples<Done..., V>();
        get_tuples<Done..., V&>();
        get_tuples<Done..., const V&>();
        get_tuples<Done..., V&&>();
    }
}
template<typename A>
void get_pairs1() {
    gets<xme::Pair<A, V>>("pair");
    gets<xme::Pair<A, int>>("pair");
    gets<xme::Pair<A, V&>>("pair");
    gets<xme::Pair<A, const V&>>("pair");
    gets<xme::Pair<A, int&>>("pair");
    gets<xme::Pair<A, V&&>>("pair");
    gets<xme::Pair<A, const int&>>("pair");
}
static void get_pairs() {
    get_pairs1<V>();
    get_pairs1<int>();
    get_pairs1<V&>();
    get_pairs1<const V&>();
    get_pairs1<V&&>();
}
static void get_long() {
    using xme::Tuple;
    gets<Tuple<V, V, V, V>>("tuple of four");
    gets<Tuple<V, int, V&, long, V>>("tuple of five");
    gets<Tuple<int, int, int, int, int, int>>("tuple of six");
    gets<Tuple<V, V, V, V, V, V, V, V>>("tuple of eight");
    gets<Tuple<short, V, int, V, long, double, V>>("tuple of seven");
}
static void bindings() {
    for(int v = 0; v < 3; ++v) {
        OP("structured bindings");
        V x(5);
        xme::Tuple<V, int, V&> t{V(v), v + 1, x};
        auto& [a, b, c] = t;
        REQUIRE(&a == &get<0>(t) && &b == &get<1>(t) && &c == &x, "bindings of an lvalue tuple refer elsewhere");
        const auto& [d, e, f] = t;
        REQUIRE(&d == &get<0>(t) && &e == &get<1>(t) && &f == &x, "bindings of a const tuple refer elsewhere");
        static_assert(std::is_const_v<std::remove_reference_t<decltype((d))>>);
        auto&& [g, h, i] = std::move(t);
        REQUIRE(&g == &get<0>(t) && &h == &get<1>(t) && &i == &x, "bindings of an rvalue tuple refer elsewhere");
        auto [j, k, l] = t;
        REQUIRE(j.v == v && k == v + 1 && &l == &x && &j != &get<0>(t), "bindings of a copy");
        xme::Pair<V, int> p{V(v), 3};
        auto& [m, n] = p;
        REQUIRE(&m == &p.first && &n == &p.second, "bindings of a pair refer elsewhere");
        n = 9;
        REQUIRE(p.second == 9, "writing through a binding");
        auto&& [o] = xme::Tuple<V>{V(v)};
        REQUIRE(o.v == v, "bindings of one");
        step();
    }
    static_assert(std::tuple_size_v<xme::Tuple<>> == 0 && std::tuple_size_v<xme::Tuple<int, int&>> == 2 && std::tuple_size_v<const xme::Tuple<int, V, V>> == 3 && std::tuple_size_v<xme::Pair<V, V>> == 2);
    static_assert(std::is_same_v<std::tuple_element_t<0, xme::Pair<int&, const V>>, int&> && std::is_same_v<std::tuple_element_t<1, xme::Pair<int&, const V>>, const V>);
    static_assert(std::is_same_v<std::tuple_element_t<1, xme::Tuple<int, V&&, const V&>>, V&&> && std::is_same_v<std::tuple_element_t<2, xme::Tuple<int, V&&, const V&>>, const V&>);
    program();
}

// ---- apply ----------------------------------------------------------------------------------------
struct Seen {
    int calls = 0;
    std::vector<const void*> at;
    std::vector<int> v;
};
template<typename T, typename Cat>
void apply_in(const char* name, const char* cat) {
    static constexpr std::size_t n = arity<T>;
    std::vector<int> x;
    for(std::size_t i = 0; i < n; ++i)
        x.push_back(i + 1);
    Store s;
    mc::g_trail->loglen = 0;
    OP("apply to %s %s", cat, name);
    T t = Make<T>::from(x, s);
    Seen seen;
    V result(42);
    auto f = [&]<typename... A>(A&&... a) -> V& {
        ++seen.calls;
        (seen.at.push_back(&a), ...);
        (seen.v.push_back(val(a)), ...);
        static_assert(sizeof...(A) == n);
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            static_assert(((std::is_same_v<A&&, typename Expect<elem_t<T, I>, Cat>::type> || std::is_same_v<A&&, typename Expect<elem_t<T, I>, Cat>::alt>)&&...), "apply forwards an element with the wrong constness or category");
        }(std::make_index_sequence<n>{});
        return result;
    };
    auto&& r = xme::apply(f, static_cast<Cat>(t));
    static_assert(std::is_same_v<decltype(xme::apply(f, static_cast<Cat>(t))), V&>, "apply changes the type of the result");
    REQUIRE(&r == &result && result.copies == 0, "apply returned something else");
    REQUIRE(seen.calls == 1, "the function was called %d times", seen.calls);
    REQUIRE(seen.v == x, "the function was given %s", show(seen.v).c_str());
    each<n>([&](auto i) { REQUIRE(seen.at[i] == &get<i>(t), "argument %d is not the element itself", (int)i); });
    each<n>([&](auto i) { REQUIRE(val(get<i>(t)) == x[i], "apply changed element %d", (int)i); });
    step();
    program();
}
template<typename T>
void applies(const char* name) {
    apply_in<T, T&>(name, "lvalue");
    apply_in<T, const T&>(name, "const lvalue");
    apply_in<T, T&&>(name, "rvalue");
    apply_in<T, const T&&>(name, "const rvalue");
}
template<typename... Done>
void apply_tuples() {
    applies<xme::Tuple<Done...>>("tuple");
    if constexpr(sizeof...(Done) < 2) {
        apply_tuples<Done..., V>();
        apply_tuples<Done..., V&>();
        apply_tuples<Done..., const V&>();
        apply_tuples<Done..., int>();
    }
}
struct Fn {
    int l = 0, c = 0, r = 0;
    int operator()(int a, int b) & { return ++l, a * 10 + b; }
    int operator()(int a, int b) const& { return ++const_cast<Fn*>(this)->c, a * 10 + b; }
    int operator()(int a, int b) && { return ++r, a * 10 + b; }
};
static int plain(int a, int b) { return a * 10 + b; }
static void apply_shapes() {
    using namespace std;
    apply_tuples<>();
    applies<xme::Pair<V, int>>("pair");
    applies<xme::Pair<V&, V>>("pair");
    applies<xme::Tuple<V, V&, int, V>>("tuple of four");
    applies<xme::Tuple<V, int, long, V, V, short>>("tuple of six");
    applies<std::tuple<V, V&, int>>("std::tuple");
    applies<std::pair<V, int>>("std::pair");
    applies<std::array<V, 3>>("std::array");
    applies<std::tuple<>>("std::tuple of nothing");
    // kinds of results and functions
    for(int a = 0; a < 4; ++a)
        for(int b = 0; b < 4; ++b) {
            mc::g_trail->loglen = 0;
            OP("apply of functions to (%d %d)", a, b);
            xme::Tuple<int, int> t{a, b};
            const auto& ct = t;
            REQUIRE(xme::apply(plain, t) == a * 10 + b && xme::apply(&plain, ct) == a * 10 + b, "apply of a function");
            Fn f;
            const Fn& cf = f;
            REQUIRE(xme::apply(f, t) == a * 10 + b && f.l == 1 && f.c == 0 && f.r == 0, "apply of an lvalue functor");
            REQUIRE(xme::apply(cf, t) == a * 10 + b && f.l == 1 && f.c == 1 && f.r == 0, "apply of a const functor");
            REQUIRE(xme::apply(std::move(f), t) == a * 10 + b && f.l == 1 && f.c == 1 && f.r == 1, "apply of an rvalue functor");
            static_assert(std::is_void_v<decltype(xme::apply([](int, int) {}, t))>);
            int n = 0;
            xme::apply([&](int x, int y) { n += x * 10 + y + 1; }, t);
            REQUIRE(n == a * 10 + b + 1, "apply of a function that returns nothing");
            static_assert(std::is_same_v<decltype(xme::apply([](int& x, int&) -> int&& { return std::move(x); }, t)), int&&>);
            static_assert(std::is_same_v<decltype(xme::apply([](int& x, int&) -> const int& { return x; }, t)), const int&>);
            REQUIRE(&xme::apply([](int&, int& y) -> const int& { return y; }, t) == &get<1>(t), "apply returned another reference");
            MO m = xme::apply([](int x, int) { return MO(x); }, t);
            REQUIRE(m.v == a && m.moves == 0, "apply returned something else");
            V v = xme::apply([](V&& x, V) { return V(std::move(x)); }, xme::Tuple<V, V>{V(a), V(b)});
            REQUIRE(v.v == a && v.copies == 0, "apply copied an element");
            xme::Tuple<MO, MO> mo{a, b};
            REQUIRE(xme::apply([](MO x, MO y) { return x.v * 10 + y.v; }, std::move(mo)) == a * 10 + b, "apply of elements that cannot be copied");
            bool thrown = false;
            try {
                xme::apply([](int, int) { throw 3; }, t);
            }
            catch(int) {
                thrown = true;
            }
            REQUIRE(thrown, "an exception did not come out of apply");
            step();
        }
}

// ---- tie and forward_as_tuple ---------------------------------------------------------------------
static void refs() {
    V a(1), b(2), c(3);
    const V k(4);
    int i = 5;
    auto t0 = xme::tie();
    static_assert(std::is_same_v<decltype(t0), xme::Tuple<>>);
    auto t1 = xme::tie(a);
    static_assert(std::is_same_v<decltype(t1), xme::Tuple<V&>>);
    auto t4 = xme::tie(b, k, i, a);
    static_assert(std::is_same_v<decltype(t4), xme::Tuple<V&, const V&, int&, V&>>);
    REQUIRE(&get<0>(t1) == &a && &get<0>(t4) == &b && &get<1>(t4) == &k && &get<2>(t4) == &i && &get<3>(t4) == &a, "tie refers elsewhere");
    auto f = xme::forward_as_tuple(a, std::move(b), k, 7, std::move(k), i);
    static_assert(std::is_same_v<decltype(f), xme::Tuple<V&, V&&, const V&, int&&, const V&&, int&>>);
    REQUIRE(&get<0>(f) == &a && &get<1>(f) == &b && &get<2>(f) == &k && &get<4>(f) == &k && &get<5>(f) == &i, "forward_as_tuple refers elsewhere");
    REQUIRE(b.v == 2 && a.copies + b.copies + k.copies + a.moves + b.moves == 0, "forward_as_tuple touched its arguments");
    V taken = get<1>(std::move(f));
    REQUIRE(taken.v == 2 && taken.moves == 1 && taken.copies == 0 && b.v == -1, "an rvalue does not come out of forward_as_tuple as one");
    V copied = get<0>(std::move(f));
    REQUIRE(copied.copies == 1 && a.v == 1, "an lvalue does not come out of forward_as_tuple as one");
    static_assert(std::is_same_v<decltype(xme::forward_as_tuple()), xme::Tuple<>>);
    xme::tie(a, i) = std::pair<V, int>(V(8), 9);
    REQUIRE(a.v == 8 && i == 9, "assigning to tie");
    step();
    program();
}

// ---- tuple_cat ------------------------------------------------------------------------------------
inline int g_next;
//! an argument: the object, what it is used as, and what it holds
template<typename T, typename Cat>
struct Arg {
    using type = T;
    using cat  = Cat;
    Store s;
    std::vector<int> v;
    T t;
    Arg() : v(digits()), t(Make<T>::from(v, s)) {
        each<arity<T>>([&](auto i) {
            if constexpr(tracks<elem_t<T, i>>) {
                auto& e = const_cast<V&>(static_cast<const V&>(at<i>(t)));
                e.copies = e.moves = 0;
            }
        });
    }
    static std::vector<int> digits() {
        std::vector<int> d;
        for(std::size_t i = 0; i < arity<T>; ++i)
            d.push_back(++g_next);
        return d;
    }
    Cat use() { return static_cast<Cat>(t); }
};
template<typename R, std::size_t At, typename A>
void part(R& r, A& a) {
    using T                  = typename A::type;
    constexpr bool is_rvalue = std::is_rvalue_reference_v<typename A::cat> && !std::is_const_v<std::remove_reference_t<typename A::cat>>;
    each<arity<T>>([&](auto i) {
        using E  = elem_t<T, i>;
        using RE = elem_t<R, At + i>;
        static_assert(std::is_same_v<E, RE>, "an element of tuple_cat has the wrong type");
        auto& got = get<At + i>(r);
        REQUIRE(val(got) == a.v[i], "element %d is %d instead of %d", (int)(At + i), val(got), a.v[i]);
        if constexpr(std::is_reference_v<E>)
            REQUIRE((const void*)&got == (const void*)&at<i>(a.t), "reference %d refers elsewhere", (int)(At + i));
        else if constexpr(tracks<E>) {
            REQUIRE(got.copies == !is_rvalue && got.moves == is_rvalue, "element %d was copied %d and moved %d times", (int)(At + i), got.copies, got.moves);
            REQUIRE(val(at<i>(a.t)) == (is_rvalue ? -1 : a.v[i]), "element %d of an argument is %d afterwards", (int)i, val(at<i>(a.t)));
        }
    });
}
template<typename... A>
void cat() {
    g_next = 0;
    std::tuple<A...> args;
    mc::g_trail->loglen = 0;
    OP("tuple_cat of %zu arguments, %s", sizeof...(A), __PRETTY_FUNCTION__);
    auto r  = [&]<std::size_t... I>(std::index_sequence<I...>) { return xme::tuple_cat(std::get<I>(args).use()...); }(std::index_sequence_for<A...>{});
    using R = decltype(r);
    constexpr std::size_t total = (arity<typename A::type> + ... + 0);
    static_assert(std::tuple_size_v<R> == total, "tuple_cat has the wrong size");
    constexpr auto offs = [] {
        std::array<std::size_t, sizeof...(A) + 1> o{};
        std::size_t sizes[sizeof...(A) + 1] = {arity<typename A::type>...};
        for(std::size_t i = 0; i < sizeof...(A); ++i)
            o[i + 1] = o[i] + sizes[i];
        return o;
    }();
    [&]<std::size_t... I>(std::index_sequence<I...>) { (part<R, offs[I]>(r, std::get<I>(args)), ...); }(std::index_sequence_for<A...>{});
    step();
    program();
}
template<typename... T>
struct List {};
template<typename T>
using L = Arg<T, T&>;
template<typename T>
using C = Arg<T, const T&>;
template<typename T>
using R = Arg<T, T&&>;
template<typename... Done, typename... All>
void combos(std::integral_constant<int, 0>, List<All...>) {
    cat<Done...>();
}
template<typename... Done, int N, typename... All>
    requires(N > 0)
void combos(std::integral_constant<int, N>, List<All...> l) {
    (combos<Done..., All>(std::integral_constant<int, N - 1>{}, l), ...);
}
using xme::Pair, xme::Tuple;
using All1 = List<L<Tuple<>>, R<Tuple<>>, L<Tuple<V>>, C<Tuple<V>>, R<Tuple<V>>, L<Tuple<V, int>>, R<Tuple<int, V>>, R<Tuple<V&, V>>, L<Pair<V, V>>, R<Pair<V, int>>, L<std::tuple<V>>, R<std::tuple<V, V&>>,
                  R<std::pair<V, V>>, C<std::pair<int, V>>, R<std::array<V, 2>>, L<std::array<V, 1>>, R<std::tuple<>>>;
using All2 = List<L<Tuple<>>, R<Tuple<V, V>>, C<Pair<V, int>>, R<std::tuple<V>>, L<std::array<V, 2>>>;
using All3 = List<R<Tuple<>>, L<Tuple<V>>, R<Pair<V, V>>>;
static void cats12() {
    combos<>(std::integral_constant<int, 0>{}, All1{});
    combos<>(std::integral_constant<int, 1>{}, All1{});
    combos<>(std::integral_constant<int, 2>{}, All1{});
}
static void cats34() {
    combos<>(std::integral_constant<int, 3>{}, All2{});
    combos<>(std::integral_constant<int, 4>{}, All3{});
}
static void cats_more() {
    cat<R<Tuple<V>>, R<Tuple<V>>, R<Tuple<V>>, R<Tuple<V>>, R<Tuple<V>>, R<Tuple<V>>>();
    cat<L<Tuple<V, int>>, L<Tuple<>>, R<Pair<V, V>>, R<std::tuple<V, V, V>>, L<Tuple<V>>, C<std::array<V, 3>>, R<Tuple<>>>();
    for(int a = 0; a < 3; ++a) {
        mc::g_trail->loglen = 0;
        OP("tuple_cat of tuples of tuples and of what cannot be copied");
        auto t = xme::tuple_cat(xme::make_tuple(xme::make_tuple(V(a), V(5)), MO(7)), std::make_tuple(std::make_tuple(a)), xme::make_tuple(xme::make_tuple(MO(8))));
        static_assert(std::is_same_v<decltype(t), Tuple<Tuple<V, V>, MO, std::tuple<int>, Tuple<MO>>>);
        REQUIRE(get<0>(get<0>(t)).v == a && get<1>(get<0>(t)).v == 5 && get<1>(t).v == 7 && std::get<0>(get<2>(t)) == a && get<0>(get<3>(t)).v == 8, "elements of elements");
        auto u = xme::tuple_cat(std::move(t), xme::make_pair(MO(1), std::make_unique<int>(a)));
        REQUIRE(get<1>(u).v == 7 && get<4>(u).v == 1 && *get<5>(u) == a, "elements that cannot be copied");
        step();
    }
    program();
}
static void setup() {
#if PART == 1
    mc::add("get.pairs", get_pairs);
    mc::add("get.long", get_long);
    mc::add("bindings", bindings);
    mc::add("tie", refs);
    mc::add("cat.more", cats_more);
#elif PART == 2
    mc::add("get.tuples", get_tuples<>);
#elif PART == 3
    mc::add("apply", apply_shapes);
    mc::add("cat34", cats34);
#else
    mc::add("cat12", cats12);
#endif
}
MC_MAIN(setup)
