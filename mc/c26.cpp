// C26: AlignedData over all sizes, alignments and placements in the bound.
#include "mc.hpp"
#include <array>
#include <memory>
#include <new>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <xme/container/aligned_data.hpp>
using xme::AlignedData;

template<std::size_t Size, std::size_t Natural>
struct alignas(Natural) Obj {
    unsigned char b[Size];
};
static bool multiple(const volatile void* p, std::size_t a) { return reinterpret_cast<std::uintptr_t>(p) % a == 0; }

template<typename T, std::size_t A, typename D>
void inspect(D& d, const void* lo, const void* hi, const char* where, int salt) {
    const D& c = d;
    REQUIRE(multiple(d.address(), A) && multiple(d.data(), A), "%s: the object is at %p", where, d.address());
    REQUIRE(d.address() == (void*)d.data() && c.address() == d.address() && c.data() == d.data(), "%s: address and data disagree", where);
    static_assert(std::is_same_v<decltype(d.data()), T*> && std::is_same_v<decltype(c.data()), const T*> && std::is_same_v<decltype(d.address()), void*>
                  && std::is_same_v<decltype(c.address()), const void*>);
    const char* p = reinterpret_cast<const char*>(d.data());
    REQUIRE(p >= lo && p + sizeof(T) <= hi, "%s: the object lies outside its AlignedData", where);
    auto* o = reinterpret_cast<unsigned char*>(d.data());
    for(std::size_t i = 0; i < sizeof(T); ++i)
        o[i] = (unsigned char)(salt + i * 7);
    mc::evaluated_once();
}
template<typename T, typename D>
void reread(D& d, const char* where, int salt) {
    const auto* o = reinterpret_cast<const unsigned char*>(std::as_const(d).address());
    for(std::size_t i = 0; i < sizeof(T); ++i)
        REQUIRE(o[i] == (unsigned char)(salt + i * 7), "%s: byte %zu was overwritten", where, i);
}
template<typename T, std::size_t A>
void placements() {
    using D = AlignedData<T, A>;
    mc::g_trail->loglen = 0;
    mc::log("AlignedData<an object of %zu bytes aligned to %zu, %zu>", sizeof(T), alignof(T), A);
    static_assert(alignof(D) >= A && sizeof(D) >= sizeof(T) && alignof(D) % A == 0);
    static_assert(std::is_same_v<typename D::value_type, T> && std::is_same_v<typename D::pointer, T*> && std::is_same_v<typename D::const_pointer, const T*>
                  && std::is_same_v<typename D::reference, T&> && std::is_same_v<typename D::const_reference, const T&>);
    static_assert(std::is_nothrow_default_constructible_v<D>);
    auto each = [](D* p, int n, const char* where) {
        for(int i = 0; i < n; ++i)
            inspect<T, A>(p[i], p + i, p + i + 1, where, i * 31 + 1);
        for(int i = 0; i < n; ++i)
            reread<T>(p[i], where, i * 31 + 1);
    };
    {
        char before[3];
        D d;
        each(&d, 1, "a variable");
    }
    D a[5];
    each(a, 5, "an array");
    std::array<D, 2> sa;
    each(sa.data(), 2, "a std::array");
    struct {
        char c;
        D d;
        short s;
        D e[2];
        char f;
        D g;
    } s{};
    std::memset((void*)&s.c, 1, 1), s.s = 0x5a5a, s.f = 3;
    each(&s.d, 1, "a member"), each(s.e, 2, "a member array"), each(&s.g, 1, "a last member");
    reread<T>(s.d, "a member", 1), reread<T>(s.e[0], "a member", 1), reread<T>(s.e[1], "a member", 32);
    REQUIRE(s.c == 1 && s.s == 0x5a5a && s.f == 3, "another member was overwritten");
    struct Derived : D {
        char x = 9;
    } der;
    each(&der, 1, "a base");
    REQUIRE(der.x == 9, "a base overwrote a member");
    for(int n = 1; n <= 3; ++n) {
        std::unique_ptr<D[]> h(new D[n]);
        each(h.get(), n, "the heap");
        std::vector<D> v(n);
        each(v.data(), n, "a vector");
    }
    // constructed in place: from an object, and from nothing
    alignas(A > alignof(T) ? A : alignof(T)) unsigned char raw[3 * sizeof(D)];
    T from;
    std::memset(&from, 0x3c, sizeof from);
    std::memset(raw, 0xa5, sizeof raw);
    D* p = new(raw + sizeof(D)) D(std::as_const(from));
    inspect<T, A>(*p, p, p + 1, "in place", 0);
    std::memset(raw, 0xa5, sizeof raw);
    p = new(raw + sizeof(D)) D(std::as_const(from));
    REQUIRE(std::memcmp(p->data(), &from, sizeof from) == 0, "constructing from an object gives another");
    for(std::size_t i = 0; i < sizeof(D); ++i)
        REQUIRE(raw[i] == 0xa5 && raw[2 * sizeof(D) + i] == 0xa5, "construction writes outside the AlignedData");
    mc::evaluated_once();
}
template<std::size_t Natural, std::size_t From = 0, std::size_t... Units>
void sizes(std::index_sequence<Units...>) {
    auto one = []<std::size_t U>() {
        using T = Obj<(From + U + 1) * Natural, Natural>;
        [&]<std::size_t... Shift>(std::index_sequence<Shift...>) { (placements<T, Natural << Shift>(), ...); }(std::make_index_sequence<6>{});
        static_assert(std::is_same_v<AlignedData<T>, AlignedData<T, alignof(T)>>);
    };
    (one.template operator()<Units>(), ...);
    mc::sample(mc::g_trail->log);
}

// ---- construction from arguments ---------------------------------------------------------------
static int alive, made;
static std::string got;
struct Arg {
    int v;
};
struct Made {
    void* self = this;
    int sum    = 0;
    static char cat(Arg&) { return 'l'; }
    static char cat(const Arg&) { return 'c'; }
    static char cat(Arg&&) { return 'r'; }
    static char cat(const Arg&&) { return 'k'; }
    template<typename... U>
    explicit Made(int tag, U&&... u) noexcept {
        got.clear();
        ((got += cat(std::forward<U>(u))), ...);
        ((sum = sum * 10 + u.v), ...);
        sum = sum * 10 + tag;
        ++alive, ++made;
    }
    Made(std::initializer_list<int>) { got = "list", ++alive, ++made; }
    ~Made() { --alive; }
};
template<std::size_t A>
void arguments() {
    using D = AlignedData<Made, A>;
    mc::g_trail->loglen = 0;
    mc::log("constructing AlignedData<.., %zu> from arguments", A);
    Arg l{1};
    const Arg c{2};
    auto run = [&](const std::string& cats, int sum, auto&&... u) {
        alive = made = 0;
        D d(7, std::forward<decltype(u)>(u)...);
        REQUIRE(made == 1 && alive == 1, "%d objects made, %d alive", made, alive);
        REQUIRE(got == cats && d.data()->sum == sum * 10 + 7, "arguments '%s' arrive as '%s', giving %d", cats.c_str(), got.c_str(), d.data()->sum);
        REQUIRE(d.data()->self == d.address() && multiple(d.address(), A), "the object is made at %p, not at %p", d.data()->self, d.address());
        std::destroy_at(d.data());
        REQUIRE(alive == 0, "%d objects alive", alive);
        mc::evaluated_once();
    };
    auto two = [&](const std::string& cats, int sum, auto&&... u) {
        run(cats, sum, std::forward<decltype(u)>(u)...);
        run(cats + "l", sum * 10 + 1, std::forward<decltype(u)>(u)..., l);
        run(cats + "c", sum * 10 + 2, std::forward<decltype(u)>(u)..., c);
        run(cats + "r", sum * 10 + 3, std::forward<decltype(u)>(u)..., Arg{3});
        run(cats + "k", sum * 10 + 2, std::forward<decltype(u)>(u)..., std::move(c));
    };
    auto three = [&](const std::string& cats, int sum, auto&&... u) {
        two(cats + "l", sum * 10 + 1, std::forward<decltype(u)>(u)..., l);
        two(cats + "c", sum * 10 + 2, std::forward<decltype(u)>(u)..., c);
        two(cats + "r", sum * 10 + 3, std::forward<decltype(u)>(u)..., Arg{3});
        two(cats + "k", sum * 10 + 2, std::forward<decltype(u)>(u)..., std::move(c));
    };
    two("", 0);
    three("", 0);
    three("l", 1, l), three("c", 2, c), three("r", 3, Arg{3}), three("k", 2, std::move(c));
    alive = made = 0;
    {
        D d;
        REQUIRE(made == 0, "an AlignedData without arguments makes an object");
    }
    REQUIRE(made == 0 && alive == 0, "destroying the AlignedData touches an object");
    // one argument that is also an integer, a pointer, a reference to something movable only
    AlignedData<int, A> i(41);
    AlignedData<int*, A> ip(i.data());
    AlignedData<std::unique_ptr<int>, A> up(std::make_unique<int>(5));
    AlignedData<std::pair<int, double>, A> pr(3, 2.5);
    AlignedData<std::string, A> st(3, 'x');
    REQUIRE(*i.data() == 41 && *ip.data() == i.data() && **up.data() == 5 && *pr.data() == std::pair(3, 2.5) && *st.data() == "xxx", "objects of other types");
    std::destroy_at(up.data()), std::destroy_at(st.data());
    mc::evaluated_once();
    mc::sample(mc::g_trail->log);
}
static void setup() {
#if PART == 1
    mc::add("natural-1", [] { sizes<1>(std::make_index_sequence<14>{}); });
#elif PART == 2
    mc::add("natural-1-large", [] { sizes<1, 14>(std::make_index_sequence<13>{}); });
#elif PART == 3
    mc::add("natural-1-larger", [] { sizes<1, 27>(std::make_index_sequence<13>{}); });
#elif PART == 4
    mc::add("natural-2", [] { sizes<2>(std::make_index_sequence<12>{}); });
#elif PART == 5
    mc::add("natural-4", [] { sizes<4>(std::make_index_sequence<8>{}); });
    mc::add("natural-8", [] { sizes<8>(std::make_index_sequence<6>{}); });
#else
    mc::add("natural-16", [] { sizes<16>(std::make_index_sequence<4>{}); });
    mc::add("natural-32", [] { sizes<32>(std::make_index_sequence<3>{}); });
    mc::add("natural-64", [] { sizes<64>(std::make_index_sequence<2>{}); });
    mc::add("arguments", [] { arguments<8>(), arguments<16>(), arguments<64>(), arguments<256>(); });
#endif
}
MC_MAIN(setup)
