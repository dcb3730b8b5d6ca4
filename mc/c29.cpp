// C29: type utilities and concepts over tables of types, and complete 8- and 16-bit domains.
#include "mc.hpp"
#include <array>
#include <bit>
#include <complex>
#include <deque>
#include <forward_list>
#include <initializer_list>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <memory_resource>
#include <ranges>
#include <set>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <xme/container/concepts.hpp>
#include <xme/container/pair.hpp>
#include <xme/container/tuple.hpp>
#include <xme/core/bit/has_single_bit.hpp>
#include <xme/core/concepts/arithmetic.hpp>
#include <xme/core/concepts/constant_iterator.hpp>
#include <xme/core/concepts/different_from.hpp>
#include <xme/core/type_traits/is_initializer_list.hpp>
#include <xme/core/type_traits/is_scoped_enum.hpp>
#include <xme/core/utility/forward_like.hpp>
#include <xme/core/utility/to_unsigned.hpp>

template<typename... T>
struct List {};
template<typename F, typename... T>
void each(List<T...>, F&& f) {
    (f.template operator()<T>(), ...);
}
template<typename T>
const char* name() {
    return __PRETTY_FUNCTION__;
}
//! got(T) must be want(T)
#define AGREE(what, got, want)                                                    \
    do {                                                                          \
        REQUIRE((got) == (want), "%s is %d for %s", what, int(got), name<T>());   \
        mc::evaluated_once();                                                     \
    } while(0)
#define CASES(...) mc::begin_case(), mc::log(__VA_ARGS__)

// ---- forward_like -----------------------------------------------------------------------------------
struct Thing {
    int v = 3;
};
struct Other {};
template<typename Like, typename V>  // V: the type of the value's expression, V& or V&&
void one_forward(int& n) {
    using U = std::remove_reference_t<V>;
    static std::remove_const_t<U> object{};
    using Konst  = std::conditional_t<std::is_const_v<std::remove_reference_t<Like>>, const U, U>;
    using Expect = std::conditional_t<std::is_lvalue_reference_v<Like>, Konst&, Konst&&>;
    decltype(auto) r = xme::forward_like<Like>(static_cast<V>(object));
    using Got        = decltype(xme::forward_like<Like>(static_cast<V>(object)));
    REQUIRE((std::is_same_v<Got, Expect>), "forward_like<Like>(V) has another type for %s and %s", name<Like>(), name<V>());
    REQUIRE((const volatile void*)std::addressof(r) == (const volatile void*)std::addressof(object), "forward_like gives another object");
    static_assert(noexcept(xme::forward_like<Like>(static_cast<V>(object))));
    mc::evaluated_once();
}
template<typename L>
using Likes = List<L, const L, volatile L, const volatile L, L&, const L&, volatile L&, const volatile L&, L&&, const L&&, volatile L&&, const volatile L&&>;
template<typename U>
using Values = List<U&, const U&, volatile U&, const volatile U&, U&&, const U&&, volatile U&&, const volatile U&&>;
static void forwards() {
    CASES("forward_like of every qualification of both types");
    int n        = 0;
    auto against = [&]<typename Like>() {
        each(Values<Thing>{}, [&]<typename V>() { one_forward<Like, V>(n); });
        each(Values<int>{}, [&]<typename V>() { one_forward<Like, V>(n); });
        each(Values<int*>{}, [&]<typename V>() { one_forward<Like, V>(n); });
        each(Values<std::unique_ptr<int>>{}, [&]<typename V>() { one_forward<Like, V>(n); });
        REQUIRE((std::is_same_v<decltype(xme::forward_like<Like>(Thing{})), decltype(xme::forward_like<Like>(std::declval<Thing&&>()))>), "a prvalue is forwarded otherwise");
    };
    each(Likes<Other>{}, against), each(Likes<int>{}, against), each(Likes<Thing>{}, against), each(Likes<int*>{}, against), each(Likes<const int*>{}, against);
    constexpr int c = [] {
        Thing t{5};
        return xme::forward_like<const Other&>(t).v + xme::forward_like<Other>(t).v;
    }();
    static_assert(c == 10);
    mc::sample(mc::g_trail->log);
}

// ---- to_unsigned, has_single_bit --------------------------------------------------------------------
template<typename T>
struct unsigned_of {
    using type = std::make_unsigned_t<T>;
};
template<> struct unsigned_of<__int128> { using type = unsigned __int128; };
template<> struct unsigned_of<unsigned __int128> { using type = unsigned __int128; };
template<typename T>
void one_unsigned(T v) {
    const auto u = xme::to_unsigned(v);
    static_assert(std::is_same_v<decltype(xme::to_unsigned(v)), typename unsigned_of<T>::type> && sizeof u == sizeof v);
    REQUIRE(std::memcmp(&u, &v, sizeof v) == 0, "to_unsigned changes the bits of %lld of %s", (long long)v, name<T>());
    mc::evaluated_once();
}
template<typename T>
int bits(T v) {
    int n = 0;
    for(std::size_t i = 0; i < sizeof(T) * 8; ++i)
        n += int(v >> i & 1);
    return n;
}
template<typename T>
void one_single(T v) {
    REQUIRE(xme::has_single_bit(v) == (bits(v) == 1), "has_single_bit(%llu) of %s is %d", (unsigned long long)v, name<T>(), xme::has_single_bit(v));
    static_assert(noexcept(xme::has_single_bit(v)) && std::is_same_v<decltype(xme::has_single_bit(v)), bool>);
    mc::evaluated_once(v != 0);
}
template<typename T, typename F>
void values(F&& f) {  // all of a small type; all pairs of bits, their neighbours and complements of a wide one
    using U = typename unsigned_of<T>::type;
    if constexpr(sizeof(T) <= 2)
        for(unsigned i = 0; i < 1u << (8 * sizeof(T)); ++i)
            f(T(U(i)));
    else
        for(unsigned i = 0; i < 8 * sizeof(T); ++i)
            for(unsigned j = 0; j <= i; ++j)
                for(int d = -2; d <= 2; ++d) {
                    const U v = U((U(1) << i) | (U(1) << j)) + U(d);
                    f(T(v)), f(T(U(~v)));
                }
    f(T(0)), f(T(U(~U(0))));
}
static void unsigneds() {
    CASES("to_unsigned");
    each(List<signed char, char, unsigned char, short, unsigned short, char8_t, char16_t, char32_t, wchar_t, int, unsigned, long, unsigned long, long long, unsigned long long,
              __int128, unsigned __int128>{},
         []<typename T>() { values<T>([](T v) { one_unsigned<T>(v); }); });
    static_assert(xme::to_unsigned(-1) == ~0u && xme::to_unsigned(short(-2)) == 65534);
    mc::sample(mc::g_trail->log);
}
static void single_bits() {
    CASES("has_single_bit");
    each(List<unsigned char, unsigned short, char8_t, char16_t, char32_t, unsigned, unsigned long, unsigned long long
#if !defined(__STRICT_ANSI__)
              , unsigned __int128
#endif
              >{}, []<typename T>() { values<T>([](T v) { one_single<T>(v); }); });
    one_single(false), one_single(true);
    static_assert(xme::has_single_bit(64u) && !xme::has_single_bit(0u) && !xme::has_single_bit(65ul));
    if(mc::thorough)
        for(std::uint64_t v = 0; v < 1ull << 32; v += 1) {
            const std::uint32_t w = std::uint32_t(v);
            if(xme::has_single_bit(w) != (__builtin_popcount(w) == 1))
                one_single(w);
            mc::evaluated_once(w != 0);
        }
    mc::sample(mc::g_trail->log);
}

// ---- traits and concepts ----------------------------------------------------------------------------
enum Plain { p0 };
enum PlainChar : unsigned char { c0 };
enum PlainBool : bool { b0 };
enum PlainLong : long long { l0 };
enum class Scoped { s0 };
enum class ScopedChar : char { s0 };
enum class ScopedBool : bool {};
enum class ScopedLong : unsigned long long { s0 };
struct Convertible {
    operator int() const { return 0; }
};
struct Incomplete;
union Uni {
    int a;
};
struct Inner {
    enum E {};
    enum class S : short {};
};
template<typename T> using Scopeds_ = List<T, const T, volatile T, const volatile T>;
template<typename T> struct is_list : std::false_type {};
template<typename T> struct is_list<std::initializer_list<T>> : std::true_type {};
using Types = List<Plain, PlainChar, PlainBool, PlainLong, Scoped, ScopedChar, ScopedBool, ScopedLong, Inner::E, Inner::S, std::byte, std::memory_order, bool, char, signed char, unsigned char,
                   char8_t, char16_t, char32_t, wchar_t, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, float, double, long double, Thing,
                   Convertible, Uni, int*, void*, std::nullptr_t, int[3], int (*)(int), int Thing::*, std::complex<float>, std::string, std::vector<int>, std::unique_ptr<int>>;
template<typename T> constexpr bool scoped = std::is_enum_v<T> && !std::is_convertible_v<T, long long>;
template<typename T> constexpr bool floating = std::is_same_v<T, float> || std::is_same_v<T, double> || std::is_same_v<T, long double>;
template<typename T>
constexpr bool integral = std::is_same_v<T, bool> || std::is_same_v<T, char> || std::is_same_v<T, signed char> || std::is_same_v<T, unsigned char> || std::is_same_v<T, char8_t>
                       || std::is_same_v<T, char16_t> || std::is_same_v<T, char32_t> || std::is_same_v<T, wchar_t> || std::is_same_v<T, short> || std::is_same_v<T, unsigned short>
                       || std::is_same_v<T, int> || std::is_same_v<T, unsigned> || std::is_same_v<T, long> || std::is_same_v<T, unsigned long> || std::is_same_v<T, long long>
                       || std::is_same_v<T, unsigned long long>;
template<typename T> constexpr bool negative() {
    if constexpr(integral<T>)
        return T(-1) < T(0);
    return false;
}
template<typename T>
void one_type() {
    auto qualified = []<typename Q>() {
        using U = T;
        AGREE("is_scoped_enum", xme::is_scoped_enum<Q>, scoped<U>);
        AGREE("CFloatingPoint", xme::CFloatingPoint<Q>, floating<U>);
        AGREE("CIntegral", xme::CIntegral<Q>, integral<U>);
        AGREE("CSignedIntegral", xme::CSignedIntegral<Q>, integral<U> && negative<U>());
        AGREE("CUnsignedIntegral", xme::CUnsignedIntegral<Q>, integral<U> && !negative<U>());
        AGREE("CArithmetic", xme::CArithmetic<Q>, integral<U> || floating<U>);
        AGREE("is_initializer_list", xme::is_initializer_list<Q>, false);
    };
    each(List<T, const T, volatile T, const volatile T>{}, qualified);
    auto referred = []<typename Q>() {
        const bool any = xme::is_scoped_enum<Q> || xme::CFloatingPoint<Q> || xme::CIntegral<Q> || xme::CArithmetic<Q> || xme::CSignedIntegral<Q> || xme::CUnsignedIntegral<Q> || xme::is_initializer_list<Q>;
        AGREE("one of the arithmetic concepts", any, false);
    };
    each(List<T&, const T&, T&&, const T&&>{}, referred);
    using L = std::initializer_list<std::remove_extent_t<T>>;
    AGREE("is_initializer_list", xme::is_initializer_list<L>, true);
    AGREE("is_initializer_list of a list of constants", xme::is_initializer_list<std::initializer_list<const std::remove_extent_t<T>>>, true);
    AGREE("is_initializer_list of a pointer to a list", xme::is_initializer_list<L*>, false);
    AGREE("is_initializer_list of a vector", xme::is_initializer_list<std::vector<std::remove_extent_t<T>>>, false);
}
static void types() {
    CASES("traits and arithmetic concepts of every type and qualification");
    each(Types{}, []<typename T>() { one_type<T>(); });
    using T = Incomplete;
    AGREE("CArithmetic", (xme::CArithmetic<void> || xme::CArithmetic<Incomplete> || xme::CArithmetic<int()>), false);
    AGREE("is_scoped_enum", (xme::is_scoped_enum<void> || xme::is_scoped_enum<Incomplete> || xme::is_scoped_enum<int()> || xme::is_scoped_enum<int[]>), false);
    mc::sample(mc::g_trail->log);
}
template<typename A, typename B>
constexpr bool equal = false;
template<typename A>
constexpr bool equal<A, A> = true;
template<typename A, typename B>
void one_difference() {
    REQUIRE((xme::CDifferentFrom<A, B>) == (!equal<A, B>), "CDifferentFrom is wrong for %s and %s", name<A>(), name<B>());
    REQUIRE((xme::CDifferentFromSelf<A, B>) == (!equal<std::remove_cv_t<std::remove_reference_t<A>>, B>), "CDifferentFromSelf is wrong for %s and %s", name<A>(), name<B>());
    mc::evaluated_once();
}
static void differences() {
    CASES("CDifferentFrom and CDifferentFromSelf of every two types");
    using All = List<int, const int, volatile int, const volatile int, int&, const int&, int&&, const int&&, volatile int&, long, unsigned, Thing, const Thing, Thing&, const Thing&, Thing&&, const Thing&&, Other,
                     const Other&, int*, const int*, int* const, void, int[2], const int[2]>;
    each(All{}, []<typename A>() { each(All{}, []<typename B>() { one_difference<A, B>(); }); });
    mc::sample(mc::g_trail->log);
}

// iterators whose reference is already const
template<typename T, bool Want>
void one_iterator() {
    AGREE("CConstantIterator", xme::CConstantIterator<T>, Want);
}
struct Proxied {  // dereferences to a value
    using value_type      = int;
    using difference_type = std::ptrdiff_t;
    int operator*() const { return 1; }
    Proxied& operator++() { return *this; }
    void operator++(int) {}
};
struct Output {  // not readable
    using difference_type = std::ptrdiff_t;
    Output& operator*() { return *this; }
    Output& operator=(int) { return *this; }
    Output& operator++() { return *this; }
    Output operator++(int) { return *this; }
};
template<typename C, bool Mutable>
void one_container() {
    one_iterator<typename C::iterator, !Mutable>();
    one_iterator<typename C::const_iterator, true>();
    if constexpr(requires { typename C::reverse_iterator; }) {
        one_iterator<typename C::reverse_iterator, !Mutable>();
        one_iterator<typename C::const_reverse_iterator, true>();
    }
}
static void iterators() {
    CASES("CConstantIterator");
    one_iterator<int*, false>(), one_iterator<const int*, true>();
    one_iterator<Thing*, false>(), one_iterator<const Thing*, true>(), one_iterator<int**, false>(), one_iterator<int* const*, true>(), one_iterator<const int**, false>();
    one_iterator<int, false>(), one_iterator<void*, false>(), one_iterator<Thing, false>(), one_iterator<Proxied, true>(), one_iterator<Output, false>();
    one_container<std::vector<int>, true>(), one_container<std::vector<std::string>, true>(), one_container<std::list<int>, true>(), one_container<std::forward_list<int>, true>(),
      one_container<std::deque<int>, true>(), one_container<std::array<int, 2>, true>(), one_container<std::map<int, int>, true>(), one_container<std::string, true>();
    one_container<std::set<int>, false>(), one_container<std::array<const int, 2>, false>(), one_container<std::string_view, false>();
    one_iterator<std::move_iterator<int*>, false>(), one_iterator<std::move_iterator<const int*>, true>(), one_iterator<std::back_insert_iterator<std::vector<int>>, false>();
    one_iterator<std::ranges::iterator_t<std::ranges::iota_view<int, int>>, true>();
    mc::sample(mc::g_trail->log);
}

// tuple-like and pair-like
namespace user {
struct Yes {
    int a;
    double b;
};
template<std::size_t I> auto& get(Yes& y) {
    if constexpr(I == 0)
        return y.a;
    else
        return y.b;
}
template<std::size_t I> const auto& get(const Yes& y) { return get<I>(const_cast<Yes&>(y)); }
struct NoGet {};
struct NoSize {};
template<std::size_t> int get(const NoSize&);
struct WrongGet {};
template<std::size_t> Other get(const WrongGet&);
struct HalfGet {
    int a;
};
template<std::size_t I>
    requires(I == 0)
int get(const HalfGet& h) {
    return h.a;
}
}  // namespace user
template<> struct std::tuple_size<user::Yes> : std::integral_constant<std::size_t, 2> {};
template<> struct std::tuple_element<0, user::Yes> { using type = int; };
template<> struct std::tuple_element<1, user::Yes> { using type = double; };
template<> struct std::tuple_size<user::NoGet> : std::integral_constant<std::size_t, 2> {};
template<std::size_t I> struct std::tuple_element<I, user::NoGet> { using type = int; };
template<> struct std::tuple_size<user::WrongGet> : std::integral_constant<std::size_t, 2> {};
template<std::size_t I> struct std::tuple_element<I, user::WrongGet> { using type = int; };
template<> struct std::tuple_size<user::HalfGet> : std::integral_constant<std::size_t, 2> {};
template<std::size_t I> struct std::tuple_element<I, user::HalfGet> { using type = int; };

template<typename U, bool Like, bool Pair>
void one_tuple() {
    auto q = []<typename T>() {
        AGREE("CTupleLike", xme::CTupleLike<T>, Like);
        AGREE("CPairLike", xme::CPairLike<T>, Pair);
    };
    each(List<U, const U, U&, const U&, U&&, const U&&>{}, q);
}
static void tuples() {
    CASES("CTupleLike and CPairLike");
    one_tuple<std::tuple<>, true, false>(), one_tuple<std::tuple<int>, true, false>(), one_tuple<std::tuple<int, double>, true, true>(), one_tuple<std::tuple<int, int, int>, true, false>();
    one_tuple<std::tuple<int&, const Thing&>, true, true>(), one_tuple<std::tuple<const int, std::string>, true, true>(), one_tuple<std::tuple<std::unique_ptr<int>, std::unique_ptr<int>>, true, true>();
    one_tuple<std::pair<int, std::string>, true, true>(), one_tuple<std::pair<int&, int&>, true, true>(), one_tuple<std::pair<const int, std::unique_ptr<int>>, true, true>();
    one_tuple<std::array<int, 1>, true, false>(), one_tuple<std::array<int, 2>, true, true>(), one_tuple<std::array<Thing, 5>, true, false>(), one_tuple<std::array<std::string, 2>, true, true>();
    one_tuple<xme::Pair<int, double>, true, true>(), one_tuple<xme::Pair<int&, const Thing&>, true, true>(), one_tuple<xme::Pair<std::unique_ptr<int>, int>, true, true>();
    one_tuple<xme::Tuple<int>, true, false>(), one_tuple<xme::Tuple<int, double>, true, true>(), one_tuple<xme::Tuple<int, double, Thing>, true, false>(), one_tuple<xme::Tuple<int&, std::string>, true, true>();
    one_tuple<std::ranges::subrange<int*>, true, true>(), one_tuple<user::Yes, true, true>();
    one_tuple<int, false, false>(), one_tuple<int*, false, false>(), one_tuple<Thing, false, false>(), one_tuple<std::vector<int>, false, false>(), one_tuple<std::string, false, false>(),
      one_tuple<int[2], false, false>(), one_tuple<std::complex<double>, false, false>(), one_tuple<user::NoGet, false, false>(), one_tuple<user::NoSize, false, false>(),
      one_tuple<user::WrongGet, false, false>(), one_tuple<user::HalfGet, false, false>(), one_tuple<std::initializer_list<int>, false, false>(), one_tuple<Scoped, false, false>();
    mc::sample(mc::g_trail->log);
}

// allocators
template<typename V>
struct Alloc {
    using value_type      = V;
    using size_type       = std::size_t;
    using difference_type = std::ptrdiff_t;
    V* allocate(std::size_t);
    void deallocate(V*, std::size_t);
};
template<typename V> struct NoAllocate {
    using value_type      = V;
    using size_type       = std::size_t;
    using difference_type = std::ptrdiff_t;
    void deallocate(V*, std::size_t);
};
template<typename V> struct NoDeallocate {
    using value_type      = V;
    using size_type       = std::size_t;
    using difference_type = std::ptrdiff_t;
    V* allocate(std::size_t);
};
template<typename V> struct NoValue {
    V* allocate(std::size_t);
    void deallocate(V*, std::size_t);
};
template<typename V> struct WrongPointer : Alloc<V> {
    void* allocate(std::size_t);
};
template<typename V> struct OneArgument : Alloc<V> {
    void deallocate(V*);
};
template<typename U, bool Want>
void one_allocator() {
    using T = U;
    AGREE("CAllocator", xme::CAllocator<T>, Want);
}
static void allocators() {
    CASES("CAllocator");
    auto all = []<typename V>() {
        one_allocator<std::allocator<V>, true>(), one_allocator<Alloc<V>, true>();
        one_allocator<NoAllocate<V>, false>(), one_allocator<NoDeallocate<V>, false>(), one_allocator<NoValue<V>, false>(), one_allocator<WrongPointer<V>, false>(), one_allocator<OneArgument<V>, false>();
        one_allocator<V, false>(), one_allocator<V*, false>(), one_allocator<std::vector<V>, false>();
    };
    each(List<int, char, Thing, std::string, int*, std::unique_ptr<int>>{}, all);
    one_allocator<void, false>();
    mc::sample(mc::g_trail->log);
}
static void setup() {
    mc::add("forward_like", forwards);
    mc::add("to_unsigned", unsigneds);
    mc::add("has_single_bit", single_bits);
    mc::add("types", types);
    mc::add("differences", differences);
    mc::add("iterators", iterators);
    mc::add("tuples", tuples);
    mc::add("allocators", allocators);
}
MC_MAIN(setup)
