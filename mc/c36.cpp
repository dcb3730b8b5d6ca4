// C36: what the caller's elements, callables and iterators throw comes out, and noexcept is claimed of exactly what
// cannot throw. Every combination of operations that may and may not throw; every one of them failing in turn.
#include "track.hpp"
#include "types.hpp"
#include <array>
#include <list>
#include <stdexcept>
#include <tuple>
#include <xme/container/array.hpp>
#include <xme/container/heap.hpp>
#include <xme/container/linked_list.hpp>
#include <xme/container/pair.hpp>
#include <xme/container/spsc_queue.hpp>
#include <xme/container/tuple.hpp>
#include <xme/core/algorithm/find.hpp>
#include <xme/core/functional/bind.hpp>
#include <xme/core/functional/delegate.hpp>
#include <xme/core/functional/scoped_delegate.hpp>
#include <xme/ranges/uninitialized.hpp>
using namespace tk;
using std::get;
using xme::get;
template<std::size_t N, typename F>
constexpr void each(F&& f) {
    [&]<std::size_t... I>(std::index_sequence<I...>) { (f(std::integral_constant<std::size_t, I>{}), ...); }(std::make_index_sequence<N>{});
}
static void step() {
    ++mc::st.transitions;
    ++mc::st.execs;
    ++mc::g_trail->execs;
}
// ---- elements whose operations may throw or not, each as told ---------------------------------------
enum : unsigned { CC = 1, MC = 2, CA = 4, MA = 8, VC = 16, VA = 32, SW = 64, ALLN = 127 };
static const char* bit_name(unsigned b) {
    switch(b) {
    case CC: return "copy construction";
    case MC: return "move construction";
    case CA: return "copy assignment";
    case MA: return "move assignment";
    case VC: return "construction from a value";
    case VA: return "assignment of a value";
    default: return "swap";
    }
}
//! K: the operations that cannot throw
template<unsigned K>
struct N {
    static constexpr unsigned kind = K;
    int v;
    const void* self;
    void born() {
        if(live.has(this))
            mc::fail("lifetime: an element is constructed where one is alive");
        live.put(this);
        self = this;
    }
    void alive(const char* what) const {
        if(!live.has(this) || self != this)
            mc::fail("lifetime: %s an element that is not alive", what);
    }
    static void point(unsigned b) {
        if(!(K & b) && fault_here((char)('0' + b % 10)))
            throw Fault{};
    }
    N(int x) noexcept((K & VC) != 0) : v(x) {
        point(VC);
        born();
    }
    N(const N& o) noexcept((K & CC) != 0) : v(o.v) {
        o.alive("copies");
        point(CC);
        born();
    }
    N(N&& o) noexcept((K & MC) != 0) : v(o.v) {
        o.alive("moves");
        point(MC);
        born();
        o.v = kMoved;
    }
    N& operator=(const N& o) noexcept((K & CA) != 0) {
        alive("assigns to"), o.alive("assigns from");
        point(CA);
        v = o.v;
        return *this;
    }
    N& operator=(N&& o) noexcept((K & MA) != 0) {
        alive("assigns to"), o.alive("assigns from");
        point(MA);
        v = o.v;
        if(&o != this)
            o.v = kMoved;
        return *this;
    }
    N& operator=(int x) noexcept((K & VA) != 0) {
        alive("assigns to");
        point(VA);
        v = x;
        return *this;
    }
    friend void swap(N& a, N& b) noexcept((K & SW) != 0) {
        a.alive("swaps"), b.alive("swaps");
        point(SW);
        std::swap(a.v, b.v);
    }
    operator int() const noexcept { return v; }
    ~N() {
        alive("destroys");
        live.drop(this);
        self = nullptr;
    }
};
static std::uint64_t claims = 0;
#define CLAIM(expect, what, ...)                                                                                              \
    do {                                                                                                                      \
        constexpr bool got_ = (__VA_ARGS__);                                                                                  \
        ++claims;                                                                                                             \
        step();                                                                                                               \
        if(got_ != (expect))                                                                                                  \
            mc::fail("%s with %s of the elements (%d, %d, %d) nothrow, others %s: noexcept is %d", what, bit_name(Bit), (int)A, \
                     (int)B, (int)C, Rest ? "nothrow" : "not", got_);                                                         \
    } while(0)
//! the claim may be too weak, but not false
#define CLAIM_SOUND(expect, what, ...)                                                                                        \
    do {                                                                                                                      \
        constexpr bool got_ = (__VA_ARGS__);                                                                                  \
        ++claims;                                                                                                             \
        step();                                                                                                               \
        if(got_ && !(expect))                                                                                                 \
            mc::fail("%s with %s of the elements (%d, %d, %d) nothrow, others %s: noexcept, but it may throw", what,          \
                     bit_name(Bit), (int)A, (int)B, (int)C, Rest ? "nothrow" : "not");                                        \
    } while(0)
template<typename T>
T& lv() noexcept;
template<unsigned Bit, bool On, bool Rest>
using Only = N<(Rest ? ALLN & ~Bit : 0u) | (On ? Bit : 0u)>;
//! f of every choice of who can throw on this bit
template<unsigned Bit, typename F>
void every(F f) {
    each<2>([&](auto rest) {
        each<8>([&](auto abc) { f.template operator()<Bit, bool(abc & 1), bool(abc >> 1 & 1), bool(abc >> 2 & 1), bool(rest)>(); });
        ++mc::st.states;
    });
}
static void claims_pair() {
    using xme::Pair;
    every<CC>([]<unsigned Bit, bool A, bool B, bool C, bool Rest>() {
        using X = Only<Bit, A, Rest>;
        using Y = Only<Bit, B, Rest>;
        using P = Pair<X, Y>;
        OP("claims of Pair");
        CLAIM(A && B, "copying a Pair", std::is_nothrow_copy_constructible_v<P>);
        CLAIM(A && B, "make_pair of lvalues", noexcept(xme::make_pair(lv<X>(), lv<Y>())));
        CLAIM(A && B, "make_pair of const lvalues", noexcept(xme::make_pair(lv<const X>(), lv<const Y>())));
        CLAIM(A, "make_pair with a reference", noexcept(xme::make_pair(lv<X>(), std::ref(lv<Y>()))));
        CLAIM(A, "make_pair with an int", noexcept(xme::make_pair(lv<X>(), 3)));
        CLAIM(B, "make_pair with an int", noexcept(xme::make_pair(3, lv<Y>())));
        CLAIM_SOUND(A && B, "make_tuple of lvalues", noexcept(xme::make_tuple(lv<X>(), lv<Y>())));
        CLAIM_SOUND(A && B && C, "tuple_cat", noexcept(xme::tuple_cat(lv<xme::Tuple<X, Y>>(), lv<xme::Tuple<Only<Bit, C, Rest>>>())));
        CLAIM_SOUND(A && B, "tuple_cat with a pair", noexcept(xme::tuple_cat(lv<P>())));
    });
    every<MC>([]<unsigned Bit, bool A, bool B, bool C, bool Rest>() {
        using X = Only<Bit, A, Rest>;
        using Y = Only<Bit, B, Rest>;
        using P = Pair<X, Y>;
        CLAIM(A && B, "moving a Pair", std::is_nothrow_move_constructible_v<P>);
        CLAIM(A && B, "make_pair of rvalues", noexcept(xme::make_pair(std::declval<X>(), std::declval<Y>())));
        CLAIM_SOUND(A && B, "make_tuple of rvalues", noexcept(xme::make_tuple(std::declval<X>(), std::declval<Y>())));
        CLAIM_SOUND(A && B, "tuple_cat of an rvalue", noexcept(xme::tuple_cat(std::declval<xme::Tuple<X, Y>>())));
    });
    every<CA>([]<unsigned Bit, bool A, bool B, bool C, bool Rest>() {
        using X = Only<Bit, A, Rest>;
        using Y = Only<Bit, B, Rest>;
        using P = Pair<X, Y>;
        CLAIM(A && B, "copy assigning a Pair", std::is_nothrow_copy_assignable_v<P>);
        CLAIM(A && B, "assigning an lvalue Pair", std::is_nothrow_assignable_v<P&, P&>);
        CLAIM(A && B, "assigning a const rvalue Pair", std::is_nothrow_assignable_v<P&, const P>);
        CLAIM(A && B, "assigning a Pair of references", std::is_nothrow_assignable_v<P&, const Pair<X&, const Y&>&>);
        CLAIM(A && B, "assigning an rvalue Pair of references", std::is_nothrow_assignable_v<P&, Pair<X&, Y&>>);
        CLAIM(A && B, "assigning a std::pair", std::is_nothrow_assignable_v<P&, const std::pair<X, Y>&>);
        CLAIM(A && B, "assigning a Pair to references", std::is_nothrow_assignable_v<Pair<X&, Y&>&, const P&>);
        CLAIM(A, "assigning a Pair with an int", std::is_nothrow_assignable_v<Pair<X, int>&, Pair<X, int>&>);
        CLAIM(B, "assigning a Pair with an int", std::is_nothrow_assignable_v<Pair<int, Y>&, Pair<int, Y>&>);
        CLAIM(A, "assigning a Pair with another int", std::is_nothrow_assignable_v<Pair<X, long>&, const Pair<X, short>&>);
        CLAIM(B, "assigning a Pair with another int", std::is_nothrow_assignable_v<Pair<long, Y>&, const Pair<short, Y>&>);
    });
    every<MA>([]<unsigned Bit, bool A, bool B, bool C, bool Rest>() {
        using X = Only<Bit, A, Rest>;
        using Y = Only<Bit, B, Rest>;
        using P = Pair<X, Y>;
        CLAIM(A && B, "move assigning a Pair", std::is_nothrow_move_assignable_v<P>);
        CLAIM(A && B, "assigning an rvalue std::pair", std::is_nothrow_assignable_v<P&, std::pair<X, Y>>);
        CLAIM(A && B, "assigning an rvalue Pair to references", std::is_nothrow_assignable_v<Pair<X&, Y&>&, P>);
        CLAIM(A && B, "assigning a Pair of rvalue references", std::is_nothrow_assignable_v<P&, Pair<X&&, Y&&>>);
    });
    every<VA>([]<unsigned Bit, bool A, bool B, bool C, bool Rest>() {
        using X = Only<Bit, A, Rest>;
        using Y = Only<Bit, B, Rest>;
        using P = Pair<X, Y>;
        CLAIM(A && B, "assigning a Pair of ints", std::is_nothrow_assignable_v<P&, const Pair<int, int>&>);
        CLAIM(A && B, "assigning an rvalue Pair of ints", std::is_nothrow_assignable_v<P&, Pair<int, short>>);
        CLAIM(A && B, "assigning a std::pair of ints", std::is_nothrow_assignable_v<P&, std::pair<int, int>>);
        CLAIM(A && B, "assigning an array of ints", std::is_nothrow_assignable_v<P&, std::array<int, 2>&>);
    });
    every<SW>([]<unsigned Bit, bool A, bool B, bool C, bool Rest>() {
        using X = Only<Bit, A, Rest>;
        using Y = Only<Bit, B, Rest>;
        using P = Pair<X, Y>;
        CLAIM(A && B, "swapping Pairs", noexcept(lv<P>().swap(lv<P>())));
        CLAIM(A && B, "swapping Pairs", std::is_nothrow_swappable_v<P>);
        CLAIM(A && B, "swapping Pairs", noexcept(swap(lv<P>(), lv<P>())));
        CLAIM(A, "swapping Pairs with an int", noexcept(lv<Pair<X, int>>().swap(lv<Pair<X, int>>())));
        CLAIM(B, "swapping Pairs with an int", noexcept(lv<Pair<int, Y>>().swap(lv<Pair<int, Y>>())));
        CLAIM(A && B, "swapping Pairs of references", noexcept(lv<Pair<X&, Y&>>().swap(lv<Pair<X&, Y&>>())));
    });
    mc::st.extra["claims"] = claims;
}
static void claims_tuple() {
    using xme::Tuple;
#define EVERY(BIT, ...)                                                                                                           \
    every<BIT>([]<unsigned Bit, bool A, bool B, bool C, bool Rest>() {                                                            \
        using X = Only<Bit, A, Rest>;                                                                                             \
        using Y = Only<Bit, B, Rest>;                                                                                             \
        using Z = Only<Bit, C, Rest>;                                                                                             \
        using T = Tuple<X, Y, Z>;                                                                                                 \
        using U = Tuple<X, Y>;                                                                                                    \
        OP("claims of Tuple");                                                                                                    \
        __VA_ARGS__                                                                                                               \
    })
    EVERY(CC, CLAIM(A && B && C, "copying a Tuple", std::is_nothrow_copy_constructible_v<T>); CLAIM(A && B, "copying a Tuple", std::is_nothrow_copy_constructible_v<U>);
          CLAIM(A, "copying a Tuple", std::is_nothrow_copy_constructible_v<Tuple<X>>);
          CLAIM(B, "copying a Tuple with ints", std::is_nothrow_copy_constructible_v<Tuple<int, Y, long>>);
          CLAIM_SOUND(A && B && C, "make_tuple", noexcept(xme::make_tuple(lv<X>(), lv<Y>(), lv<Z>()))); CLAIM_SOUND(A, "make_tuple", noexcept(xme::make_tuple(lv<X>())));
          CLAIM_SOUND(A, "make_tuple of a tuple", noexcept(xme::make_tuple(lv<Tuple<X>>())));
          CLAIM_SOUND(A && B && C, "converting", noexcept(static_cast<std::tuple<X, Y, Z>>(lv<Tuple<X&, Y&, Z&>>())));
          CLAIM(true, "forward_as_tuple", noexcept(xme::forward_as_tuple(lv<X>(), lv<Y>(), lv<Z>()))););
    EVERY(MC, CLAIM(A && B && C, "moving a Tuple", std::is_nothrow_move_constructible_v<T>); CLAIM(A && B, "moving a Tuple", std::is_nothrow_move_constructible_v<U>);
          CLAIM(A, "moving a Tuple", std::is_nothrow_move_constructible_v<Tuple<X>>);
          CLAIM_SOUND(A && B && C, "make_tuple", noexcept(xme::make_tuple(std::declval<X>(), std::declval<Y>(), std::declval<Z>())));
          CLAIM_SOUND(A, "make_tuple", noexcept(xme::make_tuple(std::declval<X>()))););
    EVERY(CA, CLAIM(A && B && C, "copy assigning a Tuple", std::is_nothrow_copy_assignable_v<T>); CLAIM(A, "copy assigning a Tuple", std::is_nothrow_copy_assignable_v<Tuple<X>>);
          CLAIM_SOUND(A && B && C, "assigning an lvalue Tuple", std::is_nothrow_assignable_v<T&, T&>);
          CLAIM_SOUND(A && B && C, "assigning a Tuple of references", std::is_nothrow_assignable_v<T&, Tuple<X&, Y&, Z&>>);
          CLAIM_SOUND(A && B && C, "assigning a std::tuple", std::is_nothrow_assignable_v<T&, const std::tuple<X, Y, Z>&>);
          CLAIM_SOUND(A && B && C, "assigning to references", std::is_nothrow_assignable_v<Tuple<X&, Y&, Z&>&, T&>););
    EVERY(MA, CLAIM(A && B && C, "move assigning a Tuple", std::is_nothrow_move_assignable_v<T>); CLAIM(A, "move assigning a Tuple", std::is_nothrow_move_assignable_v<Tuple<X>>);
          CLAIM_SOUND(A && B && C, "assigning a Tuple of rvalue references", std::is_nothrow_assignable_v<T&, Tuple<X&&, Y&&, Z&&>>);
          CLAIM_SOUND(A && B && C, "assigning an rvalue std::tuple", std::is_nothrow_assignable_v<T&, std::tuple<X, Y, Z>>););
    EVERY(VA, CLAIM_SOUND(A && B && C, "assigning a Tuple of ints", std::is_nothrow_assignable_v<T&, const Tuple<int, int, int>&>);
          CLAIM_SOUND(A && B && C, "assigning an array", std::is_nothrow_assignable_v<T&, std::array<int, 3>>););
    EVERY(VC, CLAIM_SOUND(A && B && C, "converting a Tuple of ints", noexcept(static_cast<T>(lv<const Tuple<int, int, int>>()))););
    EVERY(SW, CLAIM(A && B && C, "swapping Tuples", noexcept(lv<T>().swap(lv<T>()))); CLAIM(A && B && C, "swapping Tuples", std::is_nothrow_swappable_v<T>);
          CLAIM(A && B && C, "swapping Tuples", noexcept(swap(lv<T>(), lv<T>()))); CLAIM(A && B, "swapping Tuples", noexcept(swap(lv<U>(), lv<U>())));
          CLAIM(A, "swapping Tuples", noexcept(lv<Tuple<X>>().swap(lv<Tuple<X>>())));
          CLAIM(B, "swapping Tuples with ints", noexcept(lv<Tuple<int, Y, long>>().swap(lv<Tuple<int, Y, long>>())));
          CLAIM(true, "swapping Tuples of ints", noexcept(lv<Tuple<int, long>>().swap(lv<Tuple<int, long>>())));
          CLAIM(true, "swapping empty Tuples", noexcept(lv<Tuple<>>().swap(lv<Tuple<>>()))););
#undef EVERY
    mc::st.extra["claims"] = claims;
}
//! a function that may throw or not depending on how it and what it is given are qualified; K: bit per case
template<unsigned K>
struct Fq {
    template<typename A>
    static constexpr bool ok = (K >> (std::is_lvalue_reference_v<A> ? (std::is_const_v<std::remove_reference_t<A>> ? 1 : 0) : 2) & 1) != 0;
    template<typename... A>
    int operator()(A&&...) & noexcept((ok<A&&> && ...) && (K & 8)) {
        return 1;
    }
    template<typename... A>
    int operator()(A&&...) const& noexcept((ok<A&&> && ...) && (K & 16)) {
        return 1;
    }
    template<typename... A>
    int operator()(A&&...) && noexcept((ok<A&&> && ...) && (K & 32)) {
        return 1;
    }
    template<typename... A>
    int operator()(A&&...) const&& noexcept((ok<A&&> && ...) && (K & 64)) {
        return 1;
    }
};
#define CLAIM_F(expect, what, ...)                                                                                                 \
    do {                                                                                                                           \
        constexpr bool got_ = (__VA_ARGS__);                                                                                       \
        ++claims;                                                                                                                  \
        step();                                                                                                                    \
        if(got_ != (expect))                                                                                                       \
            mc::fail("%s of a function nothrow for%s%s%s arguments as a%s%s%s%s: noexcept is %d", what, K & 1 ? " lvalue" : "",    \
                     K & 2 ? " const" : "", K & 4 ? " rvalue" : "", K & 8 ? " lvalue" : "", K & 16 ? " const" : "",                \
                     K & 32 ? " rvalue" : "", K & 64 ? " const rvalue" : "", got_);                                                \
    } while(0)
struct Plain {
    int v;
};
template<unsigned K>
void claims_of_calls() {
    using F = Fq<K>;
    constexpr bool L = K & 1, CL = K & 2, R = K & 4, fL = K & 8, fC = K & 16, fR = K & 32;
    using T = xme::Tuple<Plain, long>;
    OP("claims of calls, %u", K);
    // apply: the tuple's category decides what the function is given
    CLAIM_F(L && fL, "apply to an lvalue", noexcept(xme::apply(lv<F>(), lv<T>())));
    CLAIM_F(CL && fL, "apply to a const lvalue", noexcept(xme::apply(lv<F>(), lv<const T>())));
    CLAIM_F(R && fL, "apply to an rvalue", noexcept(xme::apply(lv<F>(), std::declval<T>())));
    CLAIM_F(L && fC, "apply const", noexcept(xme::apply(lv<const F>(), lv<T>())));
    CLAIM_F(R && fR, "apply rvalue", noexcept(xme::apply(std::declval<F>(), std::declval<T>())));
    CLAIM_F(CL && fR, "apply rvalue to const", noexcept(xme::apply(std::declval<F>(), lv<const T>())));
    CLAIM_F(L && R && fL, "apply to references", noexcept(xme::apply(lv<F>(), std::declval<xme::Tuple<Plain&, long&&>>())));
    CLAIM_F(L && fL, "apply to a Pair", noexcept(xme::apply(lv<F>(), lv<xme::Pair<int, Plain>>())));
    CLAIM_F(R && fL, "apply to a std::pair", noexcept(xme::apply(lv<F>(), std::declval<std::pair<int, Plain>>())));
    CLAIM_F(fL, "apply to nothing", noexcept(xme::apply(lv<F>(), lv<xme::Tuple<>>())));
    // binders: bound arguments as the binder is, call arguments as given
    auto binder = [&]<typename B>(std::type_identity<B>, const char* what) {
        CLAIM_F(L && fL, what, noexcept(lv<B>()()));
        CLAIM_F(L && fL, what, noexcept(lv<B>()(lv<int>())));
        CLAIM_F(L && R && fL, what, noexcept(lv<B>()(3)));
        CLAIM_F(L && CL && fL, what, noexcept(lv<B>()(lv<const int>())));
        CLAIM_F(CL && fC, what, noexcept(lv<const B>()()));
        CLAIM_F(CL && R && fC, what, noexcept(lv<const B>()(3, 4)));
        CLAIM_F(L && CL && fC, what, noexcept(lv<const B>()(lv<int>())));
        CLAIM_F(R && fR, what, noexcept(std::declval<B>()()));
        CLAIM_F(R && L && fR, what, noexcept(std::declval<B>()(lv<int>())));
        CLAIM_F(R && CL && fR, what, noexcept(std::declval<B>()(3, lv<const int>())));
    };
    binder(std::type_identity<decltype(xme::bind_front(lv<F>(), 1, Plain{2}))>{}, "a call through bind_front");
    binder(std::type_identity<decltype(xme::bind_back(lv<F>(), 1, Plain{2}))>{}, "a call through bind_back");
    ++mc::st.states;
}
struct Front {
    template<typename F, typename... T>
    using of = decltype(xme::bind_front(std::declval<F>(), std::declval<T>()...));
};
struct Back {
    template<typename F, typename... T>
    using of = decltype(xme::bind_back(std::declval<F>(), std::declval<T>()...));
};
//! what a const rvalue binder really does: never claims falsely
template<unsigned K>
void claims_of_const_rvalues() {
    // Told apart by running it: throws unless what it is given is of a kind that does not.
    struct G {
        void operator()(const Plain&) const noexcept((K & 1) != 0) {
            if constexpr(!(K & 1))
                throw 1;
        }
        void operator()(const Plain&&) const noexcept((K & 2) != 0) {
            if constexpr(!(K & 2))
                throw 1;
        }
    };
    auto go = [](auto&& b, const char* what) {
        bool thrown = false;
        OP("call of a const rvalue %s, nothrow for %u", what, K);
        try {
            std::move(std::as_const(b))();
        }
        catch(int) {
            thrown = true;
        }
        constexpr bool claimed = noexcept(std::move(std::as_const(b))());
        REQUIRE(!(thrown && claimed), "a call through a const rvalue %s threw but is noexcept", what);
        step();
    };
    go(xme::bind_front(G{}, Plain{1}), "bind_front");
    go(xme::bind_back(G{}, Plain{1}), "bind_back");
    ++mc::st.states;
}
static void claims_binders() {
    each<128>([](auto k) { claims_of_calls<k>(); });
    each<4>([](auto k) { claims_of_const_rvalues<k>(); });
    // making, copying and moving
    auto all = [](auto tag) {
        using Tag = decltype(tag);
#define EVERY(BIT, ...)                                                                                 \
    every<BIT>([&]<unsigned Bit, bool A, bool B, bool C, bool Rest>() {                                 \
        using X  = Only<Bit, A, Rest>;                                                                  \
        using Y  = Only<Bit, B, Rest>;                                                                  \
        using Z  = Only<Bit, C, Rest>;                                                                  \
        using Bd = typename Tag::template of<X, Y, Z>;                                                  \
        OP("claims of binders");                                                                        \
        __VA_ARGS__                                                                                     \
    })
        EVERY(CC, CLAIM_SOUND(A && B && C, "making a binder from lvalues", std::is_nothrow_constructible_v<Bd, X&, const Y&, Z&>);
              CLAIM(A && B && C, "copying a binder", std::is_nothrow_copy_constructible_v<Bd>);
              CLAIM_SOUND(A && C, "making a binder with ints", std::is_nothrow_constructible_v<typename Tag::template of<X, int, Z>, X&, int, Z&>);
              CLAIM_SOUND(A, "making a binder with no argument", std::is_nothrow_constructible_v<typename Tag::template of<X>, X&>););
        EVERY(MC, CLAIM_SOUND(A && B && C, "making a binder from rvalues", std::is_nothrow_constructible_v<Bd, X, Y, Z>);
              CLAIM(A && B && C, "moving a binder", std::is_nothrow_move_constructible_v<Bd>);
              CLAIM_SOUND(A, "making a binder with no argument", std::is_nothrow_constructible_v<typename Tag::template of<X>, X>););
        EVERY(CA, CLAIM(A && B && C, "copy assigning a binder", std::is_nothrow_copy_assignable_v<Bd>););
        EVERY(MA, CLAIM(A && B && C, "move assigning a binder", std::is_nothrow_move_assignable_v<Bd>););
        EVERY(VC, CLAIM_SOUND(A && B && C, "making a binder from values", std::is_nothrow_constructible_v<Bd, int, int, int>););
#undef EVERY
    };
    all(Front{});
    all(Back{});
    // scope guards and delegates
    every<CC>([]<unsigned Bit, bool A, bool B, bool C, bool Rest>() {
        struct F : Only<Bit, A, Rest> {
            using Only<Bit, A, Rest>::Only;
            void operator()() const noexcept {}
        };
        CLAIM(A, "a ScopedDelegate of an lvalue", noexcept(::new(nullptr) xme::ScopedDelegate<F>(lv<F>())));
        CLAIM_SOUND(A, "a Delegate of an lvalue", noexcept(::new(nullptr) xme::Delegate<void()>(lv<F>())));
    });
    every<MC>([]<unsigned Bit, bool A, bool B, bool C, bool Rest>() {
        struct F : Only<Bit, A, Rest> {
            using Only<Bit, A, Rest>::Only;
            void operator()() const noexcept {}
        };
        CLAIM(A, "a ScopedDelegate of an rvalue", noexcept(::new(nullptr) xme::ScopedDelegate<F>(std::declval<F>())));
        using D = xme::Delegate<void()>;
        CLAIM(true, "moving a Delegate", std::is_nothrow_move_constructible_v<D> && std::is_nothrow_move_assignable_v<D> && std::is_nothrow_swappable_v<D> && std::is_nothrow_assignable_v<D&, std::nullptr_t>);
        using Ar = xme::Array<Only<Bit, A, Rest>>;
        using L  = xme::LinkedList<Only<Bit, A, Rest>>;
        CLAIM(true, "moving an Array", std::is_nothrow_move_constructible_v<Ar> && std::is_nothrow_move_assignable_v<Ar> && std::is_nothrow_swappable_v<Ar> && std::is_nothrow_default_constructible_v<Ar> && noexcept(lv<Ar>().swap(lv<Ar>())) && noexcept(lv<Ar>().clear()));
        CLAIM(true, "moving a LinkedList", std::is_nothrow_constructible_v<L, L> && std::is_nothrow_move_assignable_v<L> && std::is_nothrow_default_constructible_v<L> && noexcept(lv<L>().clear()) && noexcept(lv<L>().reverse()));
    });
    mc::st.extra["claims"] = claims;
}
// ---- everything fails in turn -----------------------------------------------------------------------
//! body(), with each of its fault points failing; after(thrown) looks at what is left; returns how many there are
template<typename Setup, typename Body, typename After>
long failing(const char* what, Setup setup, Body body, After after) {
    for(long k = 0;; ++k) {
        mc::g_trail->loglen = 0;
        reset_registry();
        bool fired;
        {
            auto state = setup();
            OP("%s with fault point %ld failing", what, k);
            fault_reset(k);
            bool thrown = false;
            try {
                body(*state);
            }
            catch(Fault&) {
                thrown = true;
            }
            fired = fault_fired;
            fault_reset(-1);
            REQUIRE(thrown == fired, "%s", fired ? "the exception did not reach the caller" : "an exception came out of nothing");
            after(*state, thrown);
        }
        expect_clean(what);
        step();
        if(!fired) {
            ++mc::st.states;
            mc::st.extra["fault points"] += k;
            return k;
        }
        REQUIRE(k < 2000, "harness: endless fault points");
    }
}
using E0 = N<0>;
//! each element is old or new
template<std::size_t n, typename T>
void one_of(const T& t, int old_, int new_, bool thrown, bool moved_ok) {
    each<n>([&](auto i) {
        const int v = get<i>(t);
        REQUIRE(thrown ? v == old_ + (int)i || v == new_ + (int)i || (moved_ok && v == kMoved) : v == new_ + (int)i, "element %d is %d", (int)i, v);
    });
}
template<typename T>
struct Vals;
template<template<typename...> class T, typename... E>
struct Vals<T<E...>> {
    static constexpr std::size_t n = sizeof...(E);
    static T<E...> at(int b) {
        return [&]<std::size_t... I>(std::index_sequence<I...>) { return T<E...>{E(b + (int)I)...}; }(std::make_index_sequence<n>{});
    }
};
template<typename T>
struct Two {
    T a, b;
};
//! every operation of one tuple type T, from a source of type S
template<typename T, typename S>
void assigns(const char* what) {
    constexpr std::size_t n = Vals<T>::n;
    struct St {
        T d = Vals<T>::at(10);
        S s = Vals<S>::at(20);
    };
    auto setup = [] { return std::make_unique<St>(); };
    const long nl = failing(what, setup, [](St& x) { x.d = x.s; }, [](St& x, bool t) { one_of<n>(x.d, 10, 20, t, false), one_of<n>(x.s, 20, 20, false, false); });
    const long nc = failing(what, setup, [](St& x) { x.d = std::as_const(x.s); }, [](St& x, bool t) { one_of<n>(x.d, 10, 20, t, false), one_of<n>(x.s, 20, 20, false, false); });
    const long nr = failing(what, setup, [](St& x) { x.d = std::move(x.s); }, [](St& x, bool t) { one_of<n>(x.d, 10, 20, t, false); });
    REQUIRE(nl == (long)n && nc == (long)n && nr == (long)n, "%s: %ld, %ld and %ld element operations instead of %zu", what, nl, nc, nr, n);
}
template<typename T>
void same_type(const char* what) {
    constexpr std::size_t n = Vals<T>::n;
    assigns<T, T>(what);
    struct St {
        T a = Vals<T>::at(10), b = Vals<T>::at(20);
    };
    auto setup = [] { return std::make_unique<St>(); };
    auto two = [](St& x, bool t) {
        each<n>([&](auto i) {
            const int a = get<i>(x.a), b = get<i>(x.b), lo = 10 + (int)i, hi = 20 + (int)i;
            REQUIRE((a == hi && b == lo) || (t && a == lo && b == hi), "elements %d are %d and %d", (int)i, a, b);
        });
    };
    const long m = failing(what, setup, [](St& x) { x.a.swap(x.b); }, two);
    const long f = failing(what, setup, [](St& x) { swap(x.a, x.b); }, two);
    REQUIRE(m == (long)n && f == (long)n, "%s: a swap takes %ld or %ld element swaps instead of %zu", what, m, f, n);
    auto kept = [](St& x, bool) { one_of<n>(x.a, 10, 10, false, false); };
    failing(what, setup, [](St& x) { T c(x.a); one_of<n>(c, 10, 10, false, false); }, kept);
    failing(what, setup, [](St& x) { T c(std::as_const(x.a)); one_of<n>(c, 10, 10, false, false); }, kept);
    failing(what, setup, [](St& x) { T c(std::move(x.a)); one_of<n>(c, 10, 10, false, false); }, [](St&, bool) {});
}
template<typename T, typename B>
void call_with(const char* what, T make, B body) {
    failing(what, make, body, [](auto&, bool) {});
}
struct None {};
static auto none() { return std::make_unique<None>(); }
struct Agg {
    E0 a, b;
};
static void faults_tuples() {
    using xme::Pair;
    using xme::Tuple;
    same_type<Pair<E0, E0>>("Pair");
    same_type<Tuple<E0>>("Tuple of one");
    same_type<Tuple<E0, E0>>("Tuple of two");
    same_type<Tuple<E0, E0, E0>>("Tuple of three");
    same_type<Tuple<E0, E0, E0, E0, E0>>("Tuple of five");
    assigns<Pair<E0, E0>, std::pair<E0, E0>>("Pair from std::pair");
    assigns<Pair<E0, E0>, Tuple<E0, E0>>("Pair from Tuple");
    assigns<Pair<E0, E0>, std::tuple<E0, E0>>("Pair from std::tuple");
    assigns<Pair<E0, E0>, Pair<int, int>>("Pair from ints");
    assigns<Pair<E0, E0>, std::pair<int, short>>("Pair from a std::pair of ints");
    assigns<Tuple<E0, E0>, std::pair<E0, E0>>("Tuple from std::pair");
    assigns<Tuple<E0, E0>, Pair<E0, E0>>("Tuple from Pair");
    assigns<Tuple<E0, E0, E0>, std::tuple<E0, E0, E0>>("Tuple from std::tuple");
    assigns<Tuple<E0, E0, E0>, Tuple<int, short, long>>("Tuple from ints");
    assigns<Tuple<E0, E0, E0>, std::tuple<int, short, long>>("Tuple from a std::tuple of ints");
    using T2 = Tuple<E0, E0>;
    using T3 = Tuple<E0, E0, E0>;
    struct St {
        T2 t{E0(1), E0(2)};
        T3 u{E0(3), E0(4), E0(5)};
        Pair<E0, E0> p{E0(6), E0(7)};
        E0 x{8}, y{9};
    };
    auto setup = [] { return std::make_unique<St>(); };
    auto all   = [](St& s, bool) { REQUIRE(get<0>(s.t) == 1 && get<1>(s.t) == 2 && get<0>(s.u) == 3 && get<1>(s.u) == 4 && get<2>(s.u) == 5 && s.p.first == 6 && s.p.second == 7 && s.x == 8 && s.y == 9, "a source was changed"); };
    auto any   = [](St&, bool) {};
    failing("make_pair of lvalues", setup, [](St& s) { auto r = xme::make_pair(s.x, s.y); REQUIRE(r.first == 8 && r.second == 9, "make_pair"); }, all);
    failing("make_pair of const lvalues", setup, [](St& s) { auto r = xme::make_pair(std::as_const(s.x), std::as_const(s.y)); REQUIRE(r.first == 8 && r.second == 9, "make_pair"); }, all);
    failing("make_pair of rvalues", setup, [](St& s) { auto r = xme::make_pair(std::move(s.x), std::move(s.y)); REQUIRE(r.first == 8 && r.second == 9, "make_pair"); }, any);
    failing("make_pair of an lvalue and an rvalue", setup, [](St& s) { auto r = xme::make_pair(s.x, std::move(s.y)); REQUIRE(r.first == 8 && r.second == 9, "make_pair"); }, any);
    failing("make_pair of a reference", setup, [](St& s) { auto r = xme::make_pair(std::ref(s.x), s.y); REQUIRE(&r.first == &s.x && r.second == 9, "make_pair"); }, all);
    failing("make_tuple of lvalues", setup, [](St& s) { auto r = xme::make_tuple(s.x, std::as_const(s.y), s.x); REQUIRE(get<0>(r) == 8 && get<1>(r) == 9 && get<2>(r) == 8, "make_tuple"); }, all);
    failing("make_tuple of rvalues", setup, [](St& s) { auto r = xme::make_tuple(std::move(s.x), std::move(s.y)); REQUIRE(get<0>(r) == 8 && get<1>(r) == 9, "make_tuple"); }, any);
    failing("make_tuple of a tuple", setup, [](St& s) { auto r = xme::make_tuple(s.t, s.p); REQUIRE(get<0>(get<0>(r)) == 1 && get<1>(r).second == 7, "make_tuple"); }, all);
    failing("deduced Pair", setup, [](St& s) { Pair r{s.x, std::move(s.y)}; REQUIRE(r.first == 8 && r.second == 9, "Pair"); }, any);
    failing("deduced Tuple", setup, [](St& s) { Tuple r{s.x, std::move(s.y)}; REQUIRE(get<0>(r) == 8 && get<1>(r) == 9, "Tuple"); }, any);
    const long c5 = failing("tuple_cat of lvalues", setup, [](St& s) { auto r = xme::tuple_cat(s.t, s.u); REQUIRE(get<0>(r) == 1 && get<1>(r) == 2 && get<2>(r) == 3 && get<3>(r) == 4 && get<4>(r) == 5, "tuple_cat"); }, all);
    REQUIRE(c5 == 5, "tuple_cat of five elements constructs %ld", c5);
    failing("tuple_cat of rvalues", setup, [](St& s) { auto r = xme::tuple_cat(std::move(s.t), std::move(s.u)); REQUIRE(get<0>(r) == 1 && get<4>(r) == 5, "tuple_cat"); }, any);
    failing("tuple_cat of a mix", setup, [](St& s) { auto r = xme::tuple_cat(s.t, std::move(s.u), s.p); REQUIRE(get<1>(r) == 2 && get<4>(r) == 5 && get<6>(r) == 7, "tuple_cat"); }, any);
    failing("tuple_cat with std::tuple", setup, [](St& s) { std::tuple<E0, E0> o(E0(5), E0(6)); auto r = xme::tuple_cat(o, s.t); REQUIRE(get<1>(r) == 6 && get<3>(r) == 2, "tuple_cat"); }, all);
    failing("conversion to std::tuple", setup, [](St& s) { std::tuple<E0, E0, E0> r = s.u; REQUIRE(std::get<2>(r) == 5, "conversion"); }, all);
    failing("conversion to an aggregate", setup, [](St& s) { Agg r = s.t; REQUIRE(r.a == 1 && r.b == 2, "conversion"); }, all);
    failing("conversion to a Tuple of others", setup, [](St& s) { Tuple<int, E0> r = s.t; REQUIRE(get<0>(r) == 1 && get<1>(r) == 2, "conversion"); }, all);
    failing("conversion of a Tuple of ints", none, [](None&) { Tuple<int, int, int> t{1, 2, 3}; T3 r = t; REQUIRE(get<0>(r) == 1 && get<2>(r) == 3, "conversion"); }, [](None&, bool) {});
    // what a function is given, what it does and what it returns
    failing("apply by value", setup, [](St& s) { REQUIRE(xme::apply([](E0 a, E0 b, E0 c) { return a + b + c; }, s.u) == 12, "apply"); }, all);
    failing("apply of const by value", setup, [](St& s) { REQUIRE(xme::apply([](E0 a, E0 b, E0 c) { return a + b + c; }, std::as_const(s.u)) == 12, "apply"); }, all);
    failing("apply of an rvalue by value", setup, [](St& s) { REQUIRE(xme::apply([](E0 a, E0 b) { return a + b; }, std::move(s.t)) == 3, "apply"); }, any);
    failing("apply returning an element", setup, [](St& s) { E0 r = xme::apply([](E0&, E0& b) -> E0 { return b; }, s.p); REQUIRE(r == 7, "apply"); }, all);
    failing("apply of a function that throws", setup, [](St& s) { xme::apply([](E0&, E0&) { if(fault_here('f')) throw Fault{}; }, s.t); }, all);
    failing("apply of a noexcept function by value", setup, [](St& s) { REQUIRE(xme::apply([](E0 a, E0 b) noexcept { return a + b; }, s.t) == 3, "apply"); }, all);
}
struct Nothrow {
    E0 e{0};
    int operator()(E0 a, E0 b) const noexcept { return a * 10 + b; }
};
static int free_fn(E0 a, int b) {
    if(fault_here('f'))
        throw Fault{};
    return a * 10 + b;
}
struct Member {
    int v = 5;
    int f(E0 a) const {
        if(fault_here('f'))
            throw Fault{};
        return a * 10 + v;
    }
};
template<std::size_t Size>
struct Functor {
    E0 e{4};
    char pad[Size];
    int operator()(E0 a, int b) const {
        if(fault_here('f'))
            throw Fault{};
        return a * 10 + b + e - 4;
    }
};
static void faults_calls() {
    struct St {
        E0 x{1}, y{2};
        Nothrow f;
    };
    auto setup = [] { return std::make_unique<St>(); };
    auto kept  = [](St& s, bool) { REQUIRE(s.x == 1 && s.y == 2, "an argument was changed"); };
    auto any   = [](St&, bool) {};
    auto binders = [&](auto bind, const char* what) {
        failing(what, setup, [&](St& s) { auto b = bind(s.f, s.x, s.y); REQUIRE(b() == 12, "%s", what); REQUIRE(std::as_const(b)() == 12, "%s", what); }, kept);
        failing(what, setup, [&](St& s) { auto b = bind(s.f, s.x, s.y); REQUIRE(std::move(b)() == 12, "%s", what); }, kept);
        failing(what, setup, [&](St& s) { auto b = bind(s.f, s.x, s.y); REQUIRE(std::move(std::as_const(b))() == 12, "%s", what); }, kept);
        failing(what, setup, [&](St& s) { auto b = bind(std::move(s.f), std::move(s.x), std::move(s.y)); REQUIRE(b() == 12, "%s", what); }, any);
        failing(what, setup, [&](St& s) { auto b = bind(s.f); REQUIRE(b(s.x, s.y) == 12 && b(s.x, s.y) == 12, "%s", what); }, kept);
        failing(what, setup, [&](St& s) { auto b = bind(s.f, s.x, s.y); auto c = b; REQUIRE(c() == 12 && b() == 12, "%s", what); }, kept);
        failing(what, setup, [&](St& s) { auto b = bind(s.f, s.x, s.y); auto c = std::move(b); REQUIRE(c() == 12, "%s", what); }, kept);
        failing(what, setup, [&](St& s) { auto b = bind(s.f, s.x, s.y); auto c = bind(s.f, s.y, s.x); c = b; REQUIRE(c() == 12 && b() == 12, "%s", what); }, kept);
        failing(what, setup, [&](St& s) { auto b = bind(s.f, s.x, s.y); auto c = bind(s.f, s.y, s.x); c = std::move(b); REQUIRE(c() == 12, "%s", what); }, kept);
        failing(what, setup, [&](St& s) { auto b = bind(s.f, s.x, s.y); xme::Delegate<int()> d(b); REQUIRE(d() == 12, "%s", what); }, kept);
    };
    binders([](auto&& f, auto&&... a) { return xme::bind_front((decltype(f))f, (decltype(a))a...); }, "bind_front");
    binders([](auto&& f, auto&&... a) { return xme::bind_back((decltype(f))f, (decltype(a))a...); }, "bind_back");
    failing("bind_front of one", setup, [](St& s) { auto b = xme::bind_front(s.f, s.x); REQUIRE(b(s.y) == 12 && b(3) == 13, "bind_front"); }, kept);
    failing("bind_back of one", setup, [](St& s) { auto b = xme::bind_back(s.f, s.y); REQUIRE(b(s.x) == 12 && b(3) == 32, "bind_back"); }, kept);
    failing("bind_front of a function", setup, [](St& s) { auto b = xme::bind_front(free_fn, s.x); REQUIRE(b(7) == 17, "bind_front"); }, kept);
    failing("bind_back of a member function", setup, [](St& s) { Member m; auto b = xme::bind_back(&Member::f, s.x); REQUIRE(b(m) == 15 && b(&m) == 15, "bind_back"); }, kept);
    // delegates
    using D = xme::Delegate<int(E0, int)>;
    auto delegates = [&](auto make, const char* what) {
        failing(what, setup, [&](St& s) {
            auto f = make();
            D d(f);
            REQUIRE(d(s.x, 2) == 12, "%s", what);
            const D& c = d;
            REQUIRE(c(s.y, 3) == 23 && d && c, "%s", what);
        }, kept);
        // what throws once is called again
        failing(what, setup, [&](St& s) {
            auto f = make();
            const D d(f);
            bool thrown = false;
            int r = 0;
            try {
                r = d(s.x, 2);
            }
            catch(Fault&) {
                thrown = true;
                REQUIRE(d && d(s.x, 2) == 12, "%s after an exception", what);
                D e(d);
                REQUIRE(e(s.x, 2) == 12, "%s copied after an exception", what);
            }
            REQUIRE(thrown || r == 12, "%s", what);
            if(thrown)
                throw Fault{};
        }, kept);
        failing(what, setup, [&](St& s) {
            auto f = make();
            D d(f), e;
            e = d;
            D g(std::move(d));
            g.swap(e);
            REQUIRE(e(s.x, 2) == 12 && g(s.x, 2) == 12, "%s", what);
            e = [](E0 a, int b) { return a - b; };
            e = f;
            REQUIRE(e(s.x, 2) == 12, "%s", what);
        }, kept);
    };
    delegates([] { return &free_fn; }, "a Delegate of a function");
    delegates([] { return Functor<1>{}; }, "a Delegate of a small functor");
    delegates([] { return Functor<200>{}; }, "a Delegate of a large functor");
    delegates([] { return [](E0 a, int b) noexcept { return a * 10 + b; }; }, "a Delegate of a noexcept lambda");
    delegates([] { return D(Functor<30>{}); }, "a Delegate of a Delegate");
    failing("a Delegate of a member function", setup, [](St& s) { Member m; xme::Delegate<int(Member&, E0)> d(&Member::f); REQUIRE(d(m, s.x) == 15, "member"); }, kept);
    failing("a ScopedDelegate", setup, [](St& s) {
        struct F {
            E0 e;
            int* n;
            void operator()() const { ++*n; }
        };
        int n = 0;
        F f{s.x, &n};
        bool made = false;
        try {
            xme::ScopedDelegate<F> d(f);
            made = true;
        }
        catch(...) {
            REQUIRE(n == 0, "a ScopedDelegate that was not made ran");
            throw;
        }
        REQUIRE(made && n == 1, "ScopedDelegate");
        {
            xme::ScopedDelegate<F> d(std::move(f));
        }
        REQUIRE(n == 2, "ScopedDelegate");
    }, kept);
}
// ---- iterators that throw ---------------------------------------------------------------------------
enum Cat { Input, Forward, Random };
//! over ints; each of its operations may throw
template<Cat C>
struct It {
    using value_type        = int;
    using difference_type   = std::ptrdiff_t;
    using reference         = const int&;
    using pointer           = const int*;
    using iterator_category = std::conditional_t<C == Input, std::input_iterator_tag, std::conditional_t<C == Forward, std::forward_iterator_tag, std::random_access_iterator_tag>>;
    const int* p = nullptr;
    static void point(char k) {
        if(fault_here(k))
            throw Fault{};
    }
    It() = default;
    explicit It(const int* q) : p(q) {}
    It(const It& o) : p(o.p) {}
    It& operator=(const It& o) {
        p = o.p;
        return *this;
    }
    const int& operator*() const { return point('*'), *p; }
    It& operator++() { return point('+'), ++p, *this; }
    It operator++(int) {
        point('+');
        It r(*this);
        ++p;
        return r;
    }
    bool operator==(const It& o) const { return point('='), p == o.p; }
    // random access
    It& operator--() requires(C >= Random) { return point('-'), --p, *this; }
    It operator--(int) requires(C >= Random)
    {
        It r(*this);
        --*this;
        return r;
    }
    It& operator+=(std::ptrdiff_t n) requires(C >= Random) { return point('+'), p += n, *this; }
    It& operator-=(std::ptrdiff_t n) requires(C >= Random) { return point('-'), p -= n, *this; }
    friend It operator+(const It& a, std::ptrdiff_t n) requires(C >= Random) { return point('+'), It(a.p + n); }
    friend It operator+(std::ptrdiff_t n, const It& a) requires(C >= Random) { return point('+'), It(a.p + n); }
    friend It operator-(const It& a, std::ptrdiff_t n) requires(C >= Random) { return point('-'), It(a.p - n); }
    friend std::ptrdiff_t operator-(const It& a, const It& b) requires(C >= Random) { return point('-'), a.p - b.p; }
    friend auto operator<=>(const It& a, const It& b) requires(C >= Random) { return point('<'), a.p <=> b.p; }
    const int& operator[](std::ptrdiff_t n) const requires(C >= Random) { return point('*'), p[n]; }
};
static_assert(std::input_iterator<It<Input>> && !std::forward_iterator<It<Input>> && std::forward_iterator<It<Forward>> && !std::bidirectional_iterator<It<Forward>> && std::random_access_iterator<It<Random>>);
//! an end that is not an iterator
template<Cat C>
struct End {
    const int* e = nullptr;
    friend bool operator==(const It<C>& i, const End& s) { return It<C>::point('='), i.p == s.e; }
};
static_assert(std::sentinel_for<End<Forward>, It<Forward>>);
template<Cat C, bool Sent>
struct Rg {
    std::vector<int> v;
    auto begin() const { return It<C>::point('b'), It<C>(v.data()); }
    auto end() const {
        It<C>::point('e');
        if constexpr(Sent)
            return End<C>{v.data() + v.size()};
        else
            return It<C>(v.data() + v.size());
    }
};
static std::vector<int> source(unsigned m) {
    std::vector<int> v;
    for(unsigned i = 0; i < m; ++i)
        v.push_back(101 + i);
    return v;
}
//! what it had in order, and with it (if anything) the beginning of the source in order
template<typename L>
void mixed(const L& l, unsigned n, unsigned m, bool thrown, unsigned pos, const char* what) {
    int own = 1, src = 101;
    unsigned at = 0, i = 0;
    for(auto& e : l) {
        const int v = tk::id(e);
        if(v > 100) {
            REQUIRE(v == src, "%s: element %u is %d instead of %d of the source", what, i, v, src);
            if(src++ == 101)
                at = i;
        }
        else {
            REQUIRE(v == own, "%s: element %u is %d instead of %d", what, i, v, own);
            ++own;
        }
        REQUIRE(++i < 100, "%s: endless", what);
    }
    REQUIRE(own == (int)n + 1, "%s: %d of %u elements are left", what, own - 1, n);
    REQUIRE(src <= 101 + (int)m && (thrown || src == 101 + (int)m), "%s: %d elements of %u came", what, src - 101, m);
    if(!thrown && m)
        REQUIRE(at == pos, "%s: they came at %u instead of %u", what, at, pos);
}
template<Cat C, bool Sent, typename T>
void it_array() {
    using A = xme::Array<T, Alloc<T>>;
    const unsigned max_n = mc::thorough ? 5 : 3, max_m = mc::thorough ? 5 : 3, max_spare = mc::thorough ? 6 : 4;
    using R = Rg<C, Sent>;
    for(unsigned m = 0; m <= max_m; ++m) {
        struct St {
            R r;
            std::unique_ptr<A> a;
        };
        auto empty = [&] { return std::make_unique<St>(St{R{source(m)}, nullptr}); };
        auto all   = [&](St& s, bool t) { if(!t) mixed(*s.a, 0, m, false, 0, "construction"); };
        failing("Array(first, last)", empty, [](St& s) { s.a.reset(new A(s.r.begin(), s.r.end())); }, all);
        failing("Array(range)", empty, [](St& s) { s.a.reset(new A(s.r)); }, all);
        failing("Array(const range, allocator)", empty, [](St& s) { s.a.reset(new A(std::as_const(s.r), Alloc<T>(3))); }, all);
        for(unsigned n = 0; n <= max_n; ++n)
            for(unsigned spare = 0; spare <= max_spare; ++spare) {
                auto setup = [&] {
                    auto s = std::make_unique<St>(St{R{source(m)}, std::make_unique<A>()});
                    s->a->reserve(n + spare);
                    for(unsigned i = 0; i < n; ++i)
                        s->a->emplace_back((int)i + 1);
                    return s;
                };
                auto later = [&](unsigned pos, const char* what) {
                    return [=](St& s, bool t) {
                        REQUIRE(s.a->size() <= s.a->capacity(), "%s: size exceeds capacity", what);
                        mixed(*s.a, n, m, t, pos, what);
                        s.a->emplace_back(99);  // still usable
                        s.a->insert(s.a->begin(), T(98));
                        REQUIRE(tk::id(*s.a->begin()) == 98 && tk::id(s.a->begin()[s.a->size() - 1]) == 99, "%s: cannot be used afterwards", what);
                        s.a->pop_back();
                        s.a->erase(s.a->begin());
                        mixed(*s.a, n, m, t, pos, what);
                    };
                };
                failing("push_back(first, last)", setup, [](St& s) { s.a->push_back(s.r.begin(), s.r.end()); }, later(n, "push_back"));
                failing("push_back(range)", setup, [](St& s) { s.a->push_back(s.r); }, later(n, "push_back"));
                for(unsigned pos = 0; pos <= n; ++pos) {
                    failing("insert(pos, first, last)", setup, [&](St& s) { auto i = s.a->insert(s.a->begin() + pos, s.r.begin(), s.r.end()); REQUIRE(i - s.a->begin() == (int)pos, "insert gives another position"); }, later(pos, "insert"));
                    failing("insert(pos, range)", setup, [&](St& s) { s.a->insert(s.a->begin() + pos, s.r); }, later(pos, "insert"));
                }
            }
    }
}
template<Cat C, bool Sent, typename T>
void it_list() {
    using L = xme::LinkedList<T, Alloc<T>>;
    const unsigned max_n = mc::thorough ? 5 : 3, max_m = mc::thorough ? 5 : 3;
    using R = Rg<C, Sent>;
    for(unsigned m = 0; m <= max_m; ++m) {
        struct St {
            R r;
            std::unique_ptr<L> a;
        };
        auto empty = [&] { return std::make_unique<St>(St{R{source(m)}, nullptr}); };
        auto all   = [&](St& s, bool t) { if(!t) mixed(*s.a, 0, m, false, 0, "construction"); };
        failing("LinkedList(first, last)", empty, [](St& s) { s.a.reset(new L(s.r.begin(), s.r.end())); }, all);
        failing("LinkedList(range)", empty, [](St& s) { s.a.reset(new L(s.r)); }, all);
        for(unsigned n = 0; n <= max_n; ++n) {
            auto setup = [&] {
                auto s = std::make_unique<St>(St{R{source(m)}, std::make_unique<L>()});
                for(unsigned i = n; i > 0; --i)
                    s->a->emplace_front((int)i);
                return s;
            };
            auto use = [](St& s, const char* what) {
                s.a->emplace_front(98);
                REQUIRE(tk::id(*s.a->begin()) == 98, "%s: cannot be used afterwards", what);
                s.a->pop_front();
            };
            for(unsigned pos = 0; pos <= n; ++pos) {
                auto where = [=](St& s) {
                    auto i = s.a->before_begin();
                    for(unsigned k = 0; k < pos; ++k)
                        ++i;
                    return i;
                };
                auto later = [=](St& s, bool t) {
                    use(s, "insert_after");
                    mixed(*s.a, n, m, t, pos, "insert_after");
                };
                failing("insert_after(pos, first, last)", setup, [&](St& s) { s.a->insert_after(where(s), s.r.begin(), s.r.end()); }, later);
                failing("insert_after(pos, range)", setup, [&](St& s) { s.a->insert_after(where(s), s.r); }, later);
            }
            auto later = [=](St& s, bool t) {
                use(s, "assign");
                // the beginning of the source, then what is left of the old
                unsigned i = 0, k = 0;
                for(auto& e : *s.a) {
                    const int v = tk::id(e);
                    if(v > 100) {
                        REQUIRE(v == 101 + (int)i && k == 0, "assign: element %u is %d", i, v);
                    }
                    else {
                        REQUIRE(t && v == (int)i + 1, "assign: element %u is %d", i, v);
                        ++k;
                    }
                    ++i;
                }
                REQUIRE(t || i == m, "assign: %u elements instead of %u", i, m);
                REQUIRE(!t || i >= std::min(n, m), "assign: %u elements are left of %u", i, n);
            };
            failing("assign(first, last)", setup, [](St& s) { s.a->assign(s.r.begin(), s.r.end()); }, later);
            failing("assign(range)", setup, [](St& s) { s.a->assign(s.r); }, later);
        }
    }
}
//! orders elements by value
struct Less {
    template<typename A, typename B>
    bool operator()(const A& a, const B& b) const noexcept {
        return tk::id(a) < tk::id(b);
    }
};
template<typename H>
void descending(H& h, std::vector<int> want, const char* what) {
    std::sort(want.rbegin(), want.rend());
    REQUIRE(h.size() == want.size(), "%s: %zu elements instead of %zu", what, (std::size_t)h.size(), want.size());
    for(int w : want) {
        REQUIRE(tk::id(h.front()) == w, "%s: the greatest is %d instead of %d", what, tk::id(h.front()), w);
        h.pop();
    }
}
template<Cat C, bool Sent, typename T>
void it_heap() {
    using H = xme::Heap<T, xme::Array<T, Alloc<T>>, Less>;
    using R = Rg<C, Sent>;
    const unsigned max_m = mc::thorough ? 7 : 5;
    for(unsigned m = 0; m <= max_m; ++m) {
        struct St {
            R r;
            std::unique_ptr<H> h;
        };
        auto empty = [&] { return std::make_unique<St>(St{R{source(m)}, nullptr}); };
        auto all   = [&](St& s, bool t) { if(!t) descending(*s.h, source(m), "construction"); };
        failing("Heap(first, last)", empty, [](St& s) { s.h.reset(new H(s.r.begin(), s.r.end())); }, all);
        failing("Heap(range)", empty, [](St& s) { s.h.reset(new H(s.r)); }, all);
    }
}
static void heap_pushes() {
    using T = Elem;
    using H = xme::Heap<T, xme::Array<T, Alloc<T>>, Less>;
    const unsigned max_n = mc::thorough ? 7 : 5;
    for(unsigned n = 0; n <= max_n; ++n) {
        unsigned total = 1;
        for(unsigned i = 0; i < n; ++i)
            total *= 3;
        for(unsigned code = 0; code < total; ++code)
            for(int x = 0; x < 4; ++x) {
                std::vector<int> have;
                for(unsigned i = 0, c = code; i < n; ++i, c /= 3)
                    have.push_back(c % 3);
                struct St {
                    H h;
                    T x;
                };
                auto setup = [&] {
                    auto s = std::make_unique<St>(St{H(), T(x)});
                    for(int v : have)
                        s->h.emplace(v);
                    return s;
                };
                auto later = [&](St& s, bool t) {
                    auto want = have;
                    if(!t)
                        want.push_back(x);
                    s.h.emplace(5);
                    want.push_back(5);
                    descending(s.h, want, "push");
                    REQUIRE(t || true, " ");
                };
                failing("push of an lvalue", setup, [](St& s) { s.h.push(s.x); }, later);
                failing("push of an rvalue", setup, [](St& s) { s.h.push(std::move(s.x)); }, later);
                failing("push of a value", setup, [&](St& s) { s.h.push(x); }, later);
                failing("emplace", setup, [&](St& s) { s.h.emplace(x, 0); }, later);
            }
    }
}
template<Cat C, bool Sent>
void it_rest() {
    using R = Rg<C, Sent>;
    const unsigned max_m = mc::thorough ? 6 : 4;
    for(unsigned m = 0; m <= max_m; ++m) {
        auto setup = [&] { return std::make_unique<R>(R{source(m)}); };
        for(int x = 100; x <= 101 + (int)m; ++x)
            failing("find(first, last)", setup, [&](R& r) {
                auto i = xme::find(r.begin(), r.end(), x);
                const int at = x == 100 ? (int)m : std::min<int>(x - 101, m);
                REQUIRE(i.p - r.v.data() == at, "find gives %d instead of %d", (int)(i.p - r.v.data()), at);
            }, [](R&, bool) {});
        if constexpr(C >= Forward)
            for(unsigned room = 0; room <= max_m + 1; ++room) {
                Alloc<Elem> al;
                struct St {
                    R r;
                    Elem* mem;
                    unsigned done = 0, room;
                    ~St() {
                        Alloc<Elem> al;
                        for(unsigned i = 0; i < done; ++i)
                            mem[i].~Elem();
                        al.deallocate(mem, room + 1);
                    }
                };
                auto make = [&] { return std::unique_ptr<St>(new St{R{source(m)}, al.allocate(room + 1), 0, room}); };
                failing("uninitialized_copy_a", make, [&](St& s) {
                    auto r = xme::ranges::uninitialized_copy_a(s.r.begin(), s.r.end(), s.mem, s.mem + s.room, al);
                    s.done = r.second - s.mem;
                }, [&](St& s, bool t) {
                    const unsigned want = t ? 0 : std::min(m, room);
                    if(!t)
                        REQUIRE(s.done == want, "uninitialized_copy_a made %u instead of %u", s.done, want);
                    const unsigned alive = live.n;
                    REQUIRE(t ? true : alive == want, "%u elements are alive instead of %u", alive, want);
                    if(t) {
                        // what was returned is lost, if an iterator in the result could not be copied
                        const bool returned = false;
                        REQUIRE(alive == 0 || returned, "%u elements are left alive after the exception", alive);
                    }
                    for(unsigned i = 0; i < s.done; ++i)
                        REQUIRE(tk::id(s.mem[i]) == 101 + (int)i, "element %u", i);
                });
            }
    }
}
template<Cat C, bool Sent>
void it_all() {
    it_array<C, Sent, Elem>();
    it_list<C, Sent, Elem>();
    it_heap<C, Sent, Elem>();
    it_rest<C, Sent>();
}
static void setup() {
#if PART == 1
    mc::add("claims.pair", claims_pair);
    mc::add("claims.tuple", claims_tuple);
    mc::add("claims.calls", claims_binders);
    mc::add("faults.tuples", faults_tuples);
    mc::add("faults.calls", faults_calls);
#else
    mc::add("iterators.input", it_all<Input, false>);
    mc::add("iterators.input_end", it_all<Input, true>);
    mc::add("iterators.forward", it_all<Forward, false>);
    mc::add("iterators.forward_end", it_all<Forward, true>);
    mc::add("iterators.random", it_all<Random, false>);
    mc::add("iterators.random_end", it_all<Random, true>);
    mc::add("heap.push", heap_pushes);
#endif
}
MC_MAIN(setup)
