// C18: every shape of bind_front/bind_back call, against the argument list of its definition.
#include "mc.hpp"
#include <any>
#include <array>
#include <functional>
#include <initializer_list>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <utility>
#include <vector>
#include <xme/container/array.hpp>
#include <xme/container/pair.hpp>
#include <xme/container/tuple.hpp>
#include <xme/core/functional/bind.hpp>
#include <xme/core/functional/delegate.hpp>

// ---- the arguments ------------------------------------------------------------------------------
static long g_alive, g_copies, g_moves, g_fault, g_calls;
static bool g_faulted;
static void point() {
    if(g_fault && --g_fault == 0) {
        g_faulted = true;
        throw std::runtime_error("copy");
    }
}
struct V {
    int id;
    bool moved_from = false;
    explicit V(int i) : id(i) { ++g_alive; }
    V(const V& o) : id(o.id), moved_from(o.moved_from) { point(), ++g_alive, ++g_copies; }
    V(V&& o) noexcept : id(o.id), moved_from(o.moved_from) { o.moved_from = true, ++g_alive, ++g_moves; }
    V& operator=(const V& o) {
        point();
        id = o.id, moved_from = o.moved_from, ++g_copies;
        return *this;
    }
    V& operator=(V&& o) noexcept {
        id = o.id, moved_from = o.moved_from, ++g_moves;
        if(this != &o)
            o.moved_from = true;
        return *this;
    }
    ~V() { --g_alive; }
};
enum Cat { lv, clv, rv, crv };
static const char* cat_name[] = {"&", "const&", "&&", "const&&"};
template<typename T>
constexpr int cat_of = std::is_lvalue_reference_v<T> ? (std::is_const_v<std::remove_reference_t<T>> ? clv : lv)
                                                     : (std::is_const_v<std::remove_reference_t<T>> ? crv : rv);
template<int C>
decltype(auto) as(V& v) {
    if constexpr(C == lv)
        return static_cast<V&>(v);
    else if constexpr(C == clv)
        return static_cast<const V&>(v);
    else if constexpr(C == rv)
        return static_cast<V&&>(v);
    else
        return static_cast<const V&&>(v);
}
struct Seen {
    int id, cat;
    const void* at;
    bool moved;
};
static std::vector<Seen> g_seen;
static int g_self;
static const void* g_self_at;
//! records what it is called with; the first id says which callee
struct Callee : V {
    using V::V;
    template<int C, typename... A>
    V* note(const void* self, A&&... a) {
        ++g_calls;
        g_self    = C;
        g_self_at = self;
        (g_seen.push_back(Seen{a.id, cat_of<A&&>, &a, a.moved_from}), ...);
        return nullptr;
    }
    static inline V result{99};
    template<typename... A> V& operator()(A&&... a) & { note<lv>(this, (A&&)a...); return result; }
    template<typename... A> const V& operator()(A&&... a) const& { const_cast<Callee*>(this)->note<clv>(this, (A&&)a...); return result; }
    template<typename... A> V&& operator()(A&&... a) && { note<rv>(this, (A&&)a...); return std::move(result); }
    template<typename... A> const V&& operator()(A&&... a) const&& { const_cast<Callee*>(this)->note<crv>(this, (A&&)a...); return std::move(std::as_const(result)); }
};

//! calls f with an integral constant for a run-time category
template<int N, typename F>
void pick(int c, F&& f) {
    [&]<int... I>(std::integer_sequence<int, I...>) { (void)((c == I ? (f(std::integral_constant<int, I>{}), true) : false) || ...); }(std::make_integer_sequence<int, N>{});
}

// ---- arities and categories ---------------------------------------------------------------------
//! one call: the binder called as bcat with arguments of the categories in cats
struct Call {
    bool front;
    int nb, nc, bcat;
    const int* cats;
    const std::vector<int>& bc;
    const void *begin, *end;  // the binder
    V args[3] = {V(11), V(12), V(13)};
    long copies, moves, alive, n;
    Call(bool f, int nb, int nc, int bcat, const int* cats, const std::vector<int>& bc, const void* b, std::size_t size)
      : front(f), nb(nb), nc(nc), bcat(bcat), cats(cats), bc(bc), begin(b), end((const char*)b + size) {
        mc::g_trail->loglen = 0;
        mc::log("%s with %d bound (", f ? "bind_front" : "bind_back", nb);
        for(int x : bc)
            mc::log("%s ", cat_name[x]);
        mc::log(") called as %s with %d (", cat_name[bcat], nc);
        for(int k = 0; k < nc; ++k)
            mc::log("%s ", cat_name[cats[k]]);
        mc::log(")");
        copies = g_copies, moves = g_moves, alive = g_alive, n = g_calls;
        g_seen.clear();
    }
    bool inside(const void* p) const { return p >= begin && p < end; }
    void verify(const void* r) const {
        REQUIRE(r == &Callee::result, "the result is not that of the function");
        REQUIRE(g_calls == n + 1, "the function was called %ld times", g_calls - n);
        REQUIRE(g_self == bcat, "the function was called as %s", cat_name[g_self]);
        REQUIRE(g_copies == copies && g_moves == moves && g_alive == alive, "calling copied or moved an argument or the function");
        REQUIRE(g_seen.size() == nb + nc, "%zu arguments were passed", g_seen.size());
        for(int i = 0; i < nb + nc; ++i) {
            const bool bound = front ? i < nb : i >= nc;
            const int k      = bound ? (front ? i : i - nc) : (front ? i - nb : i);
            const Seen& s    = g_seen[i];
            REQUIRE(s.id == (bound ? 1 + k : 11 + k), "argument %d is %d, expected the %s argument %d", i, s.id, bound ? "bound" : "call", k);
            const bool cat_ok = s.cat == (bound ? bcat : cats[k]) || (bound && bcat == crv && s.cat == clv);  // (a const rvalue cannot be moved from)
            REQUIRE(cat_ok, "argument %d was passed as %s", i, cat_name[s.cat]);
            REQUIRE(!s.moved, "argument %d was moved from before the call", i);
            REQUIRE(bound ? inside(s.at) : s.at == &args[k], "argument %d is not the object it should be", i);
        }
        REQUIRE(inside(g_self_at), "another function was called");
        mc::evaluated_once(nb + nc > 0);
    }
};
template<bool Front, int Nb, int Bcat, int... C, std::size_t... I, typename Binder>
void call(Binder& b, const std::vector<int>& bc, std::index_sequence<I...>) {
    constexpr int cats[] = {C..., 0};
    Call c(Front, Nb, sizeof...(C), Bcat, cats, bc, &b, sizeof(b));
    using B = std::conditional_t<Bcat == lv, Binder&, std::conditional_t<Bcat == clv, const Binder&, std::conditional_t<Bcat == rv, Binder&&, const Binder&&>>>;
    decltype(auto) r = static_cast<B>(b)(as<C>(c.args[I])...);
    static_assert(cat_of<decltype(r)&&> == Bcat && std::is_reference_v<decltype(r)>, "the result is changed");
    c.verify(&r);
}
template<bool Front, int Nb, int Nc, typename Binder>
void calls(Binder& b, const std::vector<int>& bc) {
    auto with = [&]<int... C>() {
        auto seq = std::make_index_sequence<sizeof...(C)>{};
        call<Front, Nb, lv, C...>(b, bc, seq);
        call<Front, Nb, clv, C...>(b, bc, seq);
        call<Front, Nb, rv, C...>(b, bc, seq);
        call<Front, Nb, crv, C...>(b, bc, seq);
    };
    [&]<int... K>(std::integer_sequence<int, K...>) {
        if constexpr(Nc == 0)
            with.template operator()<>();
        else if constexpr(Nc == 1)
            (with.template operator()<K % 4>(), ...);
        else if constexpr(Nc == 2)
            (with.template operator()<K % 4, K / 4>(), ...);
        else
            (with.template operator()<K % 4, K / 4 % 4, K / 16>(), ...);
    }(std::make_integer_sequence<int, (1 << 2 * Nc)>{});
}
#if NB >= 2
constexpr int max_call = 2;
#else
constexpr int max_call = 3;
#endif
template<bool Front, int Nb>
void arities() {
    auto run = [&]<int... C>(auto self, std::integer_sequence<int, C...>) {
        if constexpr(sizeof...(C) < Nb + 1) {
            [&]<int... I>(std::integer_sequence<int, I...>) {
                (self.template operator()<C..., I>(self, std::integer_sequence<int, C..., I>{}), ...);
            }(std::make_integer_sequence<int, 4>{});
        }
        else {  // the first category is that of the function
            std::vector<int> bc{C...};
            Callee f(50);
            std::vector<V> args;
            args.reserve(Nb);
            for(int i = 0; i < Nb; ++i)
                args.emplace_back(1 + i);
            const long copies = g_copies;
            const long alive  = g_alive;
            {
                auto binder = [&]<int F, int... B, std::size_t... I>(std::integer_sequence<int, F, B...>, std::index_sequence<I...>) {
                    using Cc = decltype(as<F>(f));
                    using Cf = std::conditional_t<std::is_lvalue_reference_v<Cc>, std::conditional_t<F == lv, Callee&, const Callee&>,
                                                  std::conditional_t<F == rv, Callee&&, const Callee&&>>;
                    if constexpr(Front)
                        return xme::bind_front(static_cast<Cf>(f), as<B>(args[I])...);
                    else
                        return xme::bind_back(static_cast<Cf>(f), as<B>(args[I])...);
                }(std::integer_sequence<int, C...>{}, std::make_index_sequence<Nb>{});
                long want = 0;
                for(int c : bc)
                    want += c != rv;
                REQUIRE(g_copies - copies == want, "binding made %ld copies, expected %ld", g_copies - copies, want);
                REQUIRE(g_alive == alive + 1 + Nb, "binding left %ld objects behind", g_alive - alive - 1 - Nb);
                REQUIRE(f.moved_from == (bc[0] == rv), "the function was %smoved from", f.moved_from ? "" : "not ");
                for(int i = 0; i < Nb; ++i) {
                    REQUIRE(args[i].moved_from == (bc[1 + i] == rv), "bound argument %d was %smoved from", i, args[i].moved_from ? "" : "not ");
                    args[i].id = 77;  // the binder has its own
                }
                f.id = 78;
                [&]<int... Nc>(std::integer_sequence<int, Nc...>) { (calls<Front, Nb, Nc>(binder, bc), ...); }(std::make_integer_sequence<int, max_call + 1>{});
                {  // a copy and a moved copy call their own
                    auto copy = binder;
                    calls<Front, Nb, 1>(copy, bc);
                    auto moved = std::move(copy);
                    calls<Front, Nb, 1>(moved, bc);
                    calls<Front, Nb, 1>(binder, bc);
                }
            }
            REQUIRE(g_alive == alive, "a binder leaked %ld objects", g_alive - alive);
        }
    };
    run(run, std::integer_sequence<int>{});
    mc::sample(mc::g_trail->log);
}

// ---- callables, bound types, results ------------------------------------------------------------
struct Expect {
    void operator()(int line, const char* text, std::initializer_list<bool> c) {
        int n = 0;
        for(bool ok : c)
            REQUIRE(++n && ok, "line %d: condition %d of: %s", line, n, text);
        mc::evaluated_once();
    }
} g_expect;
#define once(...) g_expect(__LINE__, #__VA_ARGS__, {__VA_ARGS__})

static int sub(int a, int b) { return a * 10 - b; }
static int& ref(int& a) { return a; }
static void nothing(int& a, int b) { a = b; }
static int&& rref(int& a) { return std::move(a); }
struct Obj {
    int v;
    int get(int a, int b) const { return v * 100 + a * 10 + b; }
    int& set(int a) { return v = a; }
    int once_only(int a) && { return v + a; }
    int noex(int a) noexcept { return a; }
    bool operator==(const Obj&) const = default;
};
struct MoveOnly {
    std::unique_ptr<int> p;
    int operator()(std::unique_ptr<int> a, int b) && { return *p * 100 + *a * 10 + b; }
    int operator()(const std::unique_ptr<int>& a, int b) const& { return *p * 100 + *a * 10 + b; }
};
struct Empty {
    int operator()(Empty, int a) const { return a; }
};
struct Counter {
    int n = 0;
    int operator()(int a) { return n++ * 10 + a; }
};
struct Greedy {  // constructible from anything
    int v = 0;
    Greedy() = default;
    template<typename T> requires(!std::same_as<std::remove_cvref_t<T>, Greedy>)
    Greedy(T&&) : v(-1) {}
    Greedy(const Greedy&) = default;
};

static void kinds() {
    for(int x = 0; x < 6; ++x)
        for(int y = 0; y < 6; ++y) {
            mc::g_trail->loglen = 0;
            mc::log("bound %d, called with %d", x, y);
            once(xme::bind_front(sub, x)(y) == sub(x, y), xme::bind_back(sub, x)(y) == sub(y, x));
            once(xme::bind_front(&sub, x, y)() == sub(x, y), xme::bind_back(&sub, x, y)() == sub(x, y), xme::bind_front(sub)(x, y) == sub(x, y), xme::bind_back(sub)(x, y) == sub(x, y));
            auto lam = [](int a, int b) { return sub(a, b); };
            once(xme::bind_front(lam, x)(y) == sub(x, y), xme::bind_back(lam, x)(y) == sub(y, x));
            // nested binders
            auto three = [](int a, int b, int c) { return a * 100 + b * 10 + c; };
            once(xme::bind_front(xme::bind_front(three, x), y)(7) == x * 100 + y * 10 + 7, xme::bind_back(xme::bind_back(three, x), y)(7) == 700 + y * 10 + x);
            once(xme::bind_back(xme::bind_front(three, x), y)(7) == x * 100 + 70 + y, xme::bind_front(xme::bind_back(three, x), y)(7) == y * 100 + 70 + x);
            auto bf = xme::bind_front(three, x);
            once(xme::bind_front(bf)(y, 3) == x * 100 + y * 10 + 3, xme::bind_front(std::ref(bf), y)(3) == x * 100 + y * 10 + 3);
            // members
            Obj o{x};
            once(xme::bind_front(&Obj::get, o, y)(3) == x * 100 + y * 10 + 3, xme::bind_front(&Obj::get, &o)(y, 4) == x * 100 + y * 10 + 4, xme::bind_front(&Obj::get, std::ref(o), 1, 2)() == x * 100 + 12);
            once(xme::bind_back(&Obj::get, y, 5)(o) == x * 100 + y * 10 + 5, xme::bind_back(&Obj::get, y)(&o, 6) == x * 100 + 60 + y);
            once(xme::bind_front(&Obj::get, std::make_shared<Obj>(o), 1)(2) == x * 100 + 12, xme::bind_front(&Obj::get, std::make_unique<Obj>(o), 1)(2) == x * 100 + 12);
            auto set = xme::bind_front(&Obj::set, &o);
            once(&set(y) == &o.v, o.v == y);
            auto own = xme::bind_front(&Obj::set, o);
            once(own(88) == 88, o.v == y);
            once(xme::bind_front(&Obj::once_only, Obj{x})(y) == x + y);
            auto data = xme::bind_front(&Obj::v, &o);
            once(&data() == &o.v, &xme::bind_back(&Obj::v, std::ref(o))() == &o.v);
            auto byval = xme::bind_front(&Obj::v, Obj{x});
            byval()    = 66;
            once(byval() == 66, std::as_const(byval)() == 66);
            // results
            int z = x;
            once(&xme::bind_front(ref, std::ref(z))() == &z, &xme::bind_back(ref)(z) == &z);
            static_assert(std::is_same_v<decltype(xme::bind_front(ref)(z)), int&> && std::is_same_v<decltype(xme::bind_front(rref)(z)), int&&>);
            static_assert(std::is_same_v<decltype(xme::bind_front(sub)(1, 2)), int> && std::is_void_v<decltype(xme::bind_front(nothing)(z, 2))>);
            xme::bind_front(nothing, std::ref(z))(y);
            once(z == y);
            xme::bind_back(nothing, x)(z);
            once(z == x);
            int&& rr = xme::bind_front(rref)(z);
            once(&rr == &z);
            // decayed copies
            char text[] = "abc";
            auto arr    = xme::bind_front([](auto a, int i) { static_assert(std::is_same_v<decltype(a), char*>); return a[i]; }, text);
            once(arr(x % 3) == text[x % 3]);
            auto ctext = xme::bind_front([](const std::string& a, int i) { return a[i]; }, "xyz");
            once(ctext(x % 3) == "xyz"[x % 3]);
            auto fn = xme::bind_front([](auto f, int i) { static_assert(std::is_same_v<decltype(f), int (*)(int, int)>); return f(i, 2); }, sub);
            once(fn(y) == sub(y, 2));
            int local   = x;
            auto copied = xme::bind_front(sub, local);
            auto refd   = xme::bind_front(sub, std::ref(local));
            auto crefd  = xme::bind_back(sub, std::cref(local));
            local       = x + 1;
            once(copied(y) == sub(x, y), refd(y) == sub(x + 1, y), crefd(y) == sub(y, x + 1));
            // a reference_wrapper is passed on as itself
            auto rw = xme::bind_front([](auto& a) -> int& { static_assert(std::is_same_v<std::remove_const_t<std::remove_reference_t<decltype(a)>>, std::reference_wrapper<int>>); return a; }, std::ref(local));
            once(&rw() == &local);
            // move-only
            auto mo = xme::bind_front(MoveOnly{std::make_unique<int>(x)}, std::make_unique<int>(y));
            once(mo(3) == x * 100 + y * 10 + 3, std::as_const(mo)(4) == x * 100 + y * 10 + 4);
            auto mo2 = std::move(mo);
            once(std::move(mo2)(5) == x * 100 + y * 10 + 5);
            // state
            auto c1 = xme::bind_front(Counter{}, x);
            once(c1() == x, c1() == 10 + x);
            auto c2 = c1;
            once(c1() == 20 + x, c1() == 30 + x, c2() == 20 + x);
            c1 = c2;
            once(c1() == 30 + x, c2() == 30 + x);
            // empty callables and arguments
            once(xme::bind_front(Empty{}, Empty{})(y) == y, xme::bind_back(Empty{}, y)(Empty{}) == y, xme::bind_front(Empty{}, Empty{}, y)() == y);
            // assignment
            auto a1 = xme::bind_front(&sub, x), a2 = xme::bind_front(&sub, y);
            a1 = a2;
            once(a1(3) == sub(y, 3), a2(3) == sub(y, 3));
            auto b1 = xme::bind_back(&sub, x), b2 = xme::bind_back(&sub, y);
            b1 = std::move(b2);
            once(b1(3) == sub(3, y));
        }
    // bound arguments that are themselves tuple-like, ranges or greedy
    auto same = []<typename T>(T v) {
        auto id   = [](auto&& a) -> auto&& { return std::forward<decltype(a)>(a); };
        auto both = [](auto&& a, auto&& b) { return std::make_pair(a, b); };
        auto f    = xme::bind_front(id, v);
        auto b    = xme::bind_back(id, v);
        static_assert(std::is_same_v<decltype(f()), T&> && std::is_same_v<decltype(std::as_const(b)()), const T&> && std::is_same_v<decltype(std::move(f)()), T&&>);
        once(f() == v, std::as_const(f)() == v, b() == v, (void*)&f() != (void*)&b());
        auto two = xme::bind_front(both, v, 5)();
        once(two.first == v, two.second == 5);
        auto owt = xme::bind_back(both, 5, v)();
        once(owt.first == 5, owt.second == v);
        auto fm = xme::bind_front(id, T(v));
        auto g  = fm;
        auto h  = std::move(fm);
        once(g() == v, h() == v);
    };
    same(xme::Tuple<int>{3});
    same(xme::Tuple<xme::Tuple<int>>{xme::Tuple<int>{3}});
    same(xme::Tuple<int, long>{3, 4});
    same(xme::Tuple<>{});
    same(xme::Pair<int, char>{3, 'c'});
    same(std::tuple<int>{3});
    same(std::tuple<int, std::string>{3, "long enough to be on the heap"});
    same(std::pair<int, int>{3, 4});
    same(std::array<int, 1>{7});
    same(std::array<int, 3>{7, 8, 9});
    same(std::string("long enough to be on the heap"));
    same(std::vector<int>{1, 2, 3});
    same(Obj{5});
    same(3.5);
    same(short(3));
    same('c');
    same(std::shared_ptr<int>(new int(4)));
    same(std::string_view("abc"));
    auto any = xme::bind_front([](const std::any& a) { return std::any_cast<int>(a); }, std::any(4));
    auto an2 = any;
    once(any() == 4, an2() == 4);
    Greedy gr;
    gr.v    = 5;
    auto gb = xme::bind_front([](const Greedy& a, const Greedy& b) { return a.v * 10 + b.v; }, gr, std::as_const(gr));
    once(gb() == 55);
    auto gb1 = xme::bind_back([](const Greedy& a) { return a.v; }, gr);
    auto gb2 = gb1;
    once(gb1() == 5, gb2() == 5);
    xme::Delegate<int(int, int)> del(sub);
    once(xme::bind_front(del, 4)(2) == 38, xme::bind_back(std::move(del), 4)(2) == 16);
    xme::Delegate<int(int)> dl(xme::bind_front(sub, 4));
    once(dl(2) == 38);
    // constant expressions
    constexpr auto ce = [](int a, int b) { return a * 10 + b; };
    static_assert(xme::bind_front(ce, 1)(2) == 12 && xme::bind_back(ce, 1)(2) == 21);
    constexpr auto stored = xme::bind_front(ce, 4);
    static_assert(stored(2) == 42);
    mc::sample("functions, members, binders, move-only and tuple-like bound arguments");
}

// ---- histories and failing copies ----------------------------------------------------------------
template<bool Front>
struct Sys {
    struct Fn : V {
        int n = 0;
        using V::V;
        int operator()(const V& a, const V& b, int c) { return ++g_calls, id * 10000 + n++ * 1000 + a.id * 100 + b.id * 10 + c; }
    };
    struct FnB : V {
        int n = 0;
        using V::V;
        int operator()(int c, const V& a, const V& b) { return ++g_calls, id * 10000 + n++ * 1000 + a.id * 100 + b.id * 10 + c; }
    };
    using F = std::conditional_t<Front, Fn, FnB>;
    static auto make(const F& f, const V& a, const V& b) {
        if constexpr(Front)
            return xme::bind_front(f, a, b);
        else
            return xme::bind_back(f, a, b);
    }
    using B = decltype(make(std::declval<F>(), std::declval<V>(), std::declval<V>()));
    static constexpr int N = 3;
    struct M {
        int f, n, a, b;
        bool moved = false;
    };
    long base;
    std::array<std::unique_ptr<B>, N> bs;
    std::array<M, N> m;
    Sys() {
        g_fault = 0;
        base    = g_alive;
        for(int i = 0; i < N; ++i) {
            bs[i] = std::make_unique<B>(make(F(i + 1), V(i + 1), V(i + 4)));
            m[i]  = {i + 1, 0, i + 1, i + 4};
        }
    }
    static constexpr int points = 4;  // a fault at none, or one of three copies
    std::uint32_t ops() const { return N + N * N * (2 * points + 2) + N * points; }
    bool apply(std::uint32_t op) {
        const long copies = g_copies;
        g_faulted         = false;
        bool threw        = false;
        if(op < N) {
            const int i = op;
            if(m[i].moved || m[i].n > 2)
                return false;
            OP("call %d", i);
            call(i);
        }
        else if((op -= N) < N * N * (2 * points + 2)) {
            const int i = op % N, j = op / N % N, form = op / N / N;
            if(m[j].moved)
                return false;
            if(i == j && form != 0 && form != 2 * points)  // (self assignment: by copy only)
                return false;
            if(i == j && form == 2 * points)
                return false;
            M was = m[i];
            try {
                if(form < points) {
                    OP("b%d = b%d, fault %d", i, j, form);
                    g_fault = form;
                    *bs[i]  = std::as_const(*bs[j]);
                    m[i]    = m[j];
                }
                else if(form < 2 * points) {
                    OP("b%d made anew from b%d, fault %d", i, j, form - points);
                    g_fault = form - points;
                    auto t  = std::make_unique<B>(std::as_const(*bs[j]));
                    bs[i]   = std::move(t);
                    m[i]    = m[j];
                }
                else {
                    OP("b%d %s std::move(b%d)", i, form == 2 * points ? "=" : "made anew from", j);
                    if(form == 2 * points)
                        *bs[i] = std::move(*bs[j]);
                    else
                        bs[i] = std::make_unique<B>(std::move(*bs[j]));
                    m[i]       = m[j];
                    m[j].moved = true;
                    REQUIRE(g_copies == copies, "moving a binder copied something");
                }
            }
            catch(const std::runtime_error&) {
                threw = true;
                if(form < points)  // element-wise assignment: valid, but what it holds is mixed
                    m[i].moved = true;
                else
                    m[i] = was;
            }
        }
        else {
            op -= N * N * (2 * points + 2);
            const int i = op % N, fault = op / N;
            OP("b%d bound anew, fault %d", i, fault);
            F f(7 + i);
            V a(2), b(3);
            g_fault = fault;
            try {
                auto t  = std::make_unique<B>(make(f, a, b));
                g_fault = 0;
                bs[i]   = std::move(t);
                m[i]    = {7 + i, 0, 2, 3};
            }
            catch(const std::runtime_error&) {
                threw = true;
            }
        }
        const bool pending = g_fault != 0;
        g_fault            = 0;
        REQUIRE(threw == g_faulted, "an exception from a copy was %s", g_faulted ? "swallowed" : "invented");
        REQUIRE(g_alive == base + 3 * N, "%ld objects are alive, expected %d", g_alive - base, 3 * N);
        return true;
    }
    void call(int i) {
        const long n = g_calls;
        int got      = (*bs[i])(5);
        M& x         = m[i];
        REQUIRE(got == x.f * 10000 + x.n++ * 1000 + x.a * 100 + x.b * 10 + 5, "binder %d gives %d", i, got);
        REQUIRE(g_calls == n + 1, "the function was called %ld times", g_calls - n);
    }
    std::string key() {
        std::string s;
        for(auto& x : m)
            s += x.moved ? "-" : std::to_string(x.f) + "/" + std::to_string(x.n) + "/" + std::to_string(x.a) + "/" + std::to_string(x.b) + " ";
        return s;
    }
    void finish() {
        for(int i = 0; i < N; ++i)
            if(!m[i].moved)
                call(i);
        for(auto& b : bs)
            b.reset();
        REQUIRE(g_alive == base, "%ld objects are left over", g_alive - base);
    }
};

//! copies and moves may throw
struct T {
    int id;
    explicit T(int i) : id(i) { ++g_alive; }
    T(const T& o) : id(o.id) { point(), ++g_alive; }
    T(T&& o) : id(o.id) { point(), ++g_alive; }
    ~T() { --g_alive; }
};
static int digits() { return 0; }
template<typename X, typename... Xs>
int digits(const X& a, const Xs&... b) {
    int n = 1;
    for(std::size_t i = 0; i < sizeof...(b); ++i)
        n *= 10;
    if constexpr(requires { a.id; })
        return a.id * n + digits(b...);
    else
        return a * n + digits(b...);
}
struct Thrower : T {
    using T::T;
    template<typename... A>
    int operator()(const A&... a) const { return digits(a...); }
};
static int three(const T& a, const T& b, const T& c) { return digits(a, b, c); }
static int four(int x, const T& a, const T& b, const T& c) { return digits(x, a, b, c); }
template<typename F>
void fault(F&& f, int want, const char* what) {
    for(int k = 0;; ++k) {
        mc::g_trail->loglen = 0;
        mc::log("%s, the copy or move number %d fails", what, k);
        const long alive = g_alive;
        bool threw       = false;
        g_faulted        = false;
        g_fault          = k;
        try {
            int got = f();
            REQUIRE(got == want, "gives %d, not %d", got, want);
        }
        catch(const std::runtime_error&) {
            threw = true;
        }
        g_fault = 0;
        REQUIRE(threw == g_faulted, "the exception was %s", g_faulted ? "swallowed" : "invented");
        REQUIRE(g_alive == alive, "%ld objects leaked", g_alive - alive);
        mc::evaluated_once();
        if(k && !threw)
            break;
    }
}
#define fault(want, ...) fault([&] { __VA_ARGS__; }, want, #__VA_ARGS__)
static void faults() {
    T a(1), b(2), c(3);
    const T d(4);
    Thrower t(5);
    auto lam = [](const auto&... x) { return digits(x...); };
    fault(123, return xme::bind_front(three, a, b, c)());
    fault(123, return xme::bind_front(three, a, b)(c));
    fault(143, return xme::bind_front(&three, a, d)(c));
    fault(413, return xme::bind_front(&three, d)(a, c));
    fault(123, return xme::bind_back(three, a, b, c)());
    fault(312, return xme::bind_back(three, a, b)(c));
    fault(314, return xme::bind_back(&three, a, d)(c));
    fault(134, return xme::bind_back(&three, d)(a, c));
    fault(9123, return xme::bind_front(four, 9, a, b)(c));
    fault(9124, return xme::bind_back(four, a, b, d)(9));
    fault(12, return xme::bind_front(lam, T(1), T(2))());
    fault(12, return xme::bind_back(lam, T(1), T(2))());
    fault(12, return xme::bind_front(lam, std::move(d), 1)() - 29);
    fault(12, return xme::bind_back(lam, T(1))(1) + 1);
    fault(12, return xme::bind_front(t, a)(2));
    fault(12, return xme::bind_front(Thrower(5), a)(2));
    fault(12, return xme::bind_back(t, b)(1));
    fault(12, return xme::bind_back(std::move(std::as_const(t)), b)(a));
    fault(123, auto x = xme::bind_front(three, a, b); auto y = x; return y(c));
    fault(123, auto x = xme::bind_front(three, a, b); auto y = std::move(x); return y(c));
    fault(312, auto x = xme::bind_back(three, a, b); auto y = x; return y(c));
    fault(312, auto x = xme::bind_back(three, a, b); auto y = std::move(x); return y(c));
    fault(312, auto x = xme::bind_front(xme::bind_back(t, a, b), c); auto y = std::move(x); return y());
    // an exception of the function reaches the caller, and the binder can be called again
    for(int k = 0; k < 4; ++k) {
        auto f = [n = 0](int a, int b) mutable {
            if(n++ % 2)
                throw std::out_of_range("x");
            return n * 100 + a * 10 + b;
        };
        auto run = [&](auto x) {
            int thrown = 0, sum = 0;
            for(int i = 0; i < k; ++i)
                try {
                    sum += x(3);
                }
                catch(const std::out_of_range&) {
                    ++thrown;
                }
            return thrown * 10000 + sum;
        };
        auto want = [&](int ab) { return k / 2 * 10000 + (k > 0 ? 100 + ab : 0) + (k > 2 ? 300 + ab : 0); };
        once(run(xme::bind_front(f, 2)) == want(23), run(xme::bind_back(f, 2)) == want(32));
    }
    mc::sample("failing copies and moves while binding, copying and moving");
}
#undef fault

static void setup() {
#if PART == 1
    mc::add("kinds", kinds);
    mc::add("faults", faults);
    mc::add("histories-front", [] { mc::bfs<Sys<true>>({mc::thorough ? 40 : 40}); });
    mc::add("histories-back", [] { mc::bfs<Sys<false>>({mc::thorough ? 40 : 40}); });
#else
    mc::add("front", arities<true, NB>);
    mc::add("back", arities<false, NB>);
#endif
}
MC_MAIN(setup)
