// C20: vectors of every size and element type on complete grids of components, against arrays.
#include "mc.hpp"
#include <array>
#include <cmath>
#include <compare>
#include <limits>
#include <string>
#include <type_traits>
#include <utility>
#include <xme/math/glsl_mapping.hpp>
#include <xme/math/vector.hpp>

using xme::math::Vector;
template<typename T> constexpr const char* type_name =
    std::is_same_v<T, bool> ? "bool" : std::is_same_v<T, signed char> ? "signed char" : std::is_same_v<T, unsigned char> ? "unsigned char"
    : std::is_same_v<T, short> ? "short" : std::is_same_v<T, unsigned short> ? "unsigned short" : std::is_same_v<T, int> ? "int"
    : std::is_same_v<T, unsigned> ? "unsigned" : std::is_same_v<T, long> ? "long" : std::is_same_v<T, unsigned long> ? "unsigned long"
    : std::is_same_v<T, float> ? "float" : std::is_same_v<T, double> ? "double" : "long double";

//! the values components take; divisors take those that are not zero
template<typename T, typename As = T>
constexpr auto values() {
    if constexpr(std::is_same_v<T, bool>)
        return std::array{false, true};
    else if constexpr(std::is_floating_point_v<T> && std::is_unsigned_v<As>)
        return std::array<T, 4>{T(1.25), T(0), T(3.75), T(5)};
    else if constexpr(std::is_floating_point_v<T>)
        return std::array<T, 4>{T(1.25), T(-2.5), T(0), T(3.75)};
    else if constexpr(std::is_unsigned_v<T> || std::is_unsigned_v<As>)
        return std::array<T, 4>{T(2), T(0), T(3), T(7)};
    else
        return std::array<T, 4>{T(2), T(-3), T(0), T(5)};
}
template<typename T, std::size_t N>
struct Arr {
    std::array<T, N> a{};
    T& operator[](std::size_t i) { return a[i]; }
    const T& operator[](std::size_t i) const { return a[i]; }
    bool operator==(const Arr&) const = default;
};
template<typename T, std::size_t N>
std::string show(const T& v) {
    std::string s = "(";
    for(std::size_t i = 0; i < N; ++i)
        s += (i ? ", " : "") + std::to_string(v[i]);
    return s + ")";
}
template<typename T, std::size_t N>
Vector<T, N> make(const Arr<T, N>& a) {
    Vector<T, N> v;
    for(std::size_t i = 0; i < N; ++i)
        v[i] = a[i];
    return v;
}
template<typename V, typename T, std::size_t N>
bool same(const V& v, const Arr<T, N>& a) {
    static_assert(std::is_same_v<V, Vector<T, N>>, "the result has another type");
    for(std::size_t i = 0; i < N; ++i)
        if(!(v[i] == a[i]))
            return false;
    return true;
}
//! all arrays of N values
template<typename T, std::size_t N, typename As, std::size_t Few = 99, typename F>
void grid(F f) {
    constexpr auto vs = values<T, As>();
    constexpr std::size_t K = vs.size() < Few ? vs.size() : Few;
    std::array<std::size_t, N> i{};
    if constexpr(N > 6) {  // long vectors: all components alike but for one, and all different
        Arr<T, N> a;
        for(std::size_t r = 0; r < 2; ++r)
            for(std::size_t k = 0; k < N; ++k) {
                a.a.fill(vs[r % K]);
                a[k] = vs[(r + 1) % vs.size()];
                f(a);
            }
        for(std::size_t r = 0; r < 2; ++r) {
            for(std::size_t k = 0; k < N; ++k)
                a[k] = static_cast<T>(r ? k + 1 : 2 * N + 1 - k);
            f(a);
        }
        return;
    }
    for(;;) {
        Arr<T, N> a;
        for(std::size_t k = 0; k < N; ++k)
            a[k] = vs[vs.size() - 1 - i[k]];
        f(a);
        std::size_t k = 0;
        while(k < N && ++i[k] == K)
            i[k++] = 0;
        if(k == N)
            return;
    }
}
#define CHECK(got, want, what)                                                                                             \
    do {                                                                                                                   \
        auto&& got_ = got;                                                                                                 \
        if(!same(got_, want))                                                                                              \
            mc::fail("Vector<%s, %zu> %s with %s %s gives %s, expected %s", type_name<T>, N, what, show<decltype(x), N>(x).c_str(), \
                     ctx().c_str(), show<decltype(got_), N>(got_).c_str(), show<decltype(want), N>(want).c_str());         \
        mc::evaluated_once(N > 1);                                                                                         \
    } while(0)

//! +, -, *, / of Vector<T, N> with Vector<U, N> and U
template<typename T, typename U, std::size_t N>
void arithmetic() {
    mc::g_trail->loglen = 0;
    mc::log("Vector<%s, %zu> with %s", type_name<T>, N, type_name<U>);
    constexpr std::size_t few = N >= 6 ? 2 : N >= 4 ? 3 : 99;
    grid<T, N, T, few>([&](const Arr<T, N>& x) {
        const Vector<T, N> v = make(x);
        auto ctx             = [] { return std::string(); };
        {  // unary, equality with itself, copies
            Arr<T, N> neg;
            for(std::size_t i = 0; i < N; ++i)
                neg[i] = static_cast<T>(-x[i]);
            CHECK(-v, neg, "unary -");
            Vector<T, N> c = v, d;
            d              = c;
            CHECK(d, x, "assignment");
            REQUIRE(d == v && !(d != v), "a copy is not equal");
        }
        constexpr auto us = values<U, T>();
        for(U s : us) {
            auto ctx = [&] { return std::to_string(s); };
            Arr<T, N> add, sub, mul, div;
            for(std::size_t i = 0; i < N; ++i) {
                add[i] = static_cast<T>(x[i] + static_cast<T>(s));
                sub[i] = static_cast<T>(x[i] - static_cast<T>(s));
                mul[i] = static_cast<T>(x[i] * static_cast<T>(s));
                if(static_cast<T>(s) != T(0))
                    div[i] = static_cast<T>(x[i] / static_cast<T>(s));
            }
            CHECK(v + s, add, "+ scalar");
            CHECK(v - s, sub, "- scalar");
            CHECK(v * s, mul, "* scalar");
            Vector<T, N> a = v, b = v, c = v, d = v;
            REQUIRE(&(a += s) == &a && &(b -= s) == &b && &(c *= s) == &c, "an assigning operator does not return its left side");
            CHECK(a, add, "+= scalar");
            CHECK(b, sub, "-= scalar");
            CHECK(c, mul, "*= scalar");
            if(static_cast<T>(s) != T(0)) {
                CHECK(v / s, div, "/ scalar");
                REQUIRE(&(d /= s) == &d, "/= does not return its left side");
                CHECK(d, div, "/= scalar");
            }
            CHECK(v, x, "the operand of a scalar operation");
        }
        grid<U, N, T, few>([&](const Arr<U, N>& y) {
            const Vector<U, N> w = make(y);
            auto ctx             = [&] { return show<Arr<U, N>, N>(y); };
            Arr<T, N> add, sub, mul, div, conv;
            bool divides = true;
            for(std::size_t i = 0; i < N; ++i) {
                conv[i] = static_cast<T>(y[i]);
                add[i]  = static_cast<T>(x[i] + conv[i]);
                sub[i]  = static_cast<T>(x[i] - conv[i]);
                mul[i]  = static_cast<T>(x[i] * conv[i]);
                divides &= conv[i] != T(0);
                div[i] = conv[i] != T(0) ? static_cast<T>(x[i] / conv[i]) : T(0);
            }
            CHECK(v + w, add, "+ vector");
            CHECK(v - w, sub, "- vector");
            CHECK(v * w, mul, "* vector");
            Vector<T, N> a = v, b = v, c = v, d = v, e = v;
            REQUIRE(&(a += w) == &a && &(b -= w) == &b && &(c *= w) == &c, "an assigning operator does not return its left side");
            CHECK(a, add, "+= vector");
            CHECK(b, sub, "-= vector");
            CHECK(c, mul, "*= vector");
            if(divides) {
                CHECK(v / w, div, "/ vector");
                REQUIRE(&(d /= w) == &d, "/= does not return its left side");
                CHECK(d, div, "/= vector");
            }
            REQUIRE(&(e = w) == &e, "= does not return its left side");
            CHECK(e, conv, "converting assignment");
            CHECK((Vector<T, N>(w)), conv, "converting construction");
            if(!same(w, y))
                mc::fail("Vector<%s, %zu>: the right operand was changed", type_name<T>, N);
            if(!same(v, x))
                mc::fail("Vector<%s, %zu>: the left operand was changed", type_name<T>, N);
            if constexpr(std::is_same_v<T, U>) {
                const bool eq = x == y;
                auto cmp      = std::lexicographical_compare_three_way(x.a.begin(), x.a.end(), y.a.begin(), y.a.end());
                REQUIRE((v == w) == eq && (v != w) == !eq, "%s == %s", show<Arr<T, N>, N>(x).c_str(), ctx().c_str());
                REQUIRE((v <=> w) == cmp && (v < w) == (cmp < 0) && (v > w) == (cmp > 0) && (v <= w) == (cmp <= 0) && (v >= w) == (cmp >= 0),
                        "%s <=> %s", show<Arr<T, N>, N>(x).c_str(), ctx().c_str());
                mc::evaluated_once();
            }
        });
    });
    if(mc::st.samples.size() < 2)
        mc::sample(mc::g_trail->log);
}

//! construction, indexing, names
template<typename T, typename U, std::size_t N>
void construct() {
    mc::g_trail->loglen = 0;
    mc::log("construction of Vector<%s, %zu> from %s", type_name<T>, N, type_name<U>);
    auto ctx = [] { return std::string(); };
    static_assert(Vector<T, N>::size == N && sizeof(Vector<T, N>) == N * sizeof(T) && std::is_trivially_copyable_v<Vector<T, N>>);
    {
        Arr<T, N> x{};
        Vector<T, N> zero{};
        CHECK(zero, x, "default");
    }
    constexpr auto us = values<U, T>();
    for(U s : us) {
        Arr<T, N> x;
        x.a.fill(static_cast<T>(s));
        CHECK((Vector<T, N>(s)), x, "construction from a scalar");
    }
    grid<U, N, T>([&](const Arr<U, N>& y) {
        Arr<T, N> x;
        for(std::size_t i = 0; i < N; ++i)
            x[i] = static_cast<T>(y[i]);
        auto from = [&]<std::size_t... I>(std::index_sequence<I...>) { return Vector<T, N>(y[I]...); }(std::make_index_sequence<N>{});
        CHECK(from, x, "construction from components");
        const auto& cv = from;
        for(std::size_t i = 0; i < N; ++i) {
            REQUIRE(&from[i] == reinterpret_cast<T*>(&from) + i && &cv[i] == &from[i], "component %zu is elsewhere", i);
            static_assert(std::is_same_v<decltype(from[i]), T&> && std::is_same_v<decltype(cv[i]), const T&>);
        }
        if constexpr(N >= 2 && N <= 4) {
            bool ok = &from.x == &from[0] && &from.y == &from[1];
            if constexpr(N >= 3)
                ok = ok && &from.z == &from[2];
            if constexpr(N >= 4)
                ok = ok && &from.w == &from[3];
            REQUIRE(ok, "the named components are not the indexed ones");
        }
        using V2 = Vector<U, 2>;
        using V3 = Vector<U, 3>;
        if constexpr(N == 3) {
            const T tx = static_cast<T>(y[0]), tz = static_cast<T>(y[2]);
            CHECK((Vector<T, 3>(y[0], V2(y[1], y[2]))), x, "(s, v2)");
            CHECK((Vector<T, 3>(V2(y[0], y[1]), y[2])), x, "(v2, s)");
            CHECK((Vector<T, 3>(tx, V2(y[1], y[2]))), x, "(T, v2)");
            CHECK((Vector<T, 3>(V2(y[0], y[1]), tz)), x, "(v2, T)");
        }
        if constexpr(N == 4) {
            const T tx = static_cast<T>(y[0]), tw = static_cast<T>(y[3]);
            CHECK((Vector<T, 4>(y[0], y[1], V2(y[2], y[3]))), x, "(s, s, v2)");
            CHECK((Vector<T, 4>(y[0], V2(y[1], y[2]), y[3])), x, "(s, v2, s)");
            CHECK((Vector<T, 4>(V2(y[0], y[1]), y[2], y[3])), x, "(v2, s, s)");
            CHECK((Vector<T, 4>(V2(y[0], y[1]), V2(y[2], y[3]))), x, "(v2, v2)");
            CHECK((Vector<T, 4>(V2(y[0], y[1]), Vector<T, 2>(V2(y[2], y[3])))), x, "(v2, v2 of T)");
            CHECK((Vector<T, 4>(y[0], V3(y[1], y[2], y[3]))), x, "(s, v3)");
            CHECK((Vector<T, 4>(V3(y[0], y[1], y[2]), y[3])), x, "(v3, s)");
            CHECK((Vector<T, 4>(tx, V2(y[1], y[2]), tw)), x, "(T, v2, T)");
            CHECK((Vector<T, 4>(V3(y[0], y[1], y[2]), tw)), x, "(v3, T)");
            CHECK((Vector<T, 4>(tx, V3(y[1], y[2], y[3]))), x, "(T, v3)");
        }
        if constexpr(N >= 5 && std::is_same_v<T, U>) {  // missing components are zero
            Arr<T, N> part{};
            for(std::size_t i = 0; i < N - 1; ++i)
                part[i] = x[i];
            auto less = [&]<std::size_t... I>(std::index_sequence<I...>) { return Vector<T, N>(y[I]...); }(std::make_index_sequence<N - 1>{});
            CHECK(less, part, "construction from fewer components");
        }
        // writing one component changes no other
        for(std::size_t i = 0; i < N; ++i) {
            auto w     = from;
            auto e     = x;
            const T nv = static_cast<T>(!(x[i] == static_cast<T>(1)));
            w[i]       = nv;
            e[i]       = nv;
            CHECK(w, e, "writing a component");
        }
    });
#ifndef NDEBUG
    Vector<T, N> v{};
    for(std::size_t i : {N, N + 1, N + 7, std::size_t(-1), std::size_t(-1) / sizeof(T), std::size_t(1) << 63, std::size_t(1) << 32}) {
        REQUIRE(mc::rejects([&] { (void)v[i]; }), "index %zu of %zu is accepted", i, N);
        REQUIRE(mc::rejects([&] { (void)std::as_const(v)[i]; }), "index %zu of %zu is accepted", i, N);
        mc::evaluated_once();
    }
#endif
}

// ---- histories: aliasing operands ------------------------------------------------------------------
template<typename T, std::size_t N>
struct Sys {
    Vector<T, N> v[2];
    Arr<T, N> m[2];
    static std::string ctx() { return ""; }
    Sys() {
        for(std::size_t i = 0; i < N; ++i) {
            m[0][i] = static_cast<T>(i + 1);
            m[1][i] = static_cast<T>(2 * i + 3);
        }
        v[0] = make(m[0]);
        v[1] = make(m[1]);
    }
    static constexpr int operands = 2 + 2 * N + 1;  // both vectors, every component of both, a constant
    std::uint32_t ops() const { return 2 * operands * 4 + 4; }
    bool apply(std::uint32_t op) {
        auto f = [](int o, T a, T b) { return static_cast<T>(o == 0 ? a + b : o == 1 ? a - b : o == 2 ? a * b : a / b); };
        if(op >= 2 * operands * 4) {
            op -= 2 * operands * 4;
            const int i = op % 2;
            OP(op / 2 ? "v%d = -v%d" : "v%d = v%d", i, op / 2 ? i : !i);
            if(op / 2) {
                v[i] = -v[i];
                for(auto& x : m[i].a)
                    x = static_cast<T>(-x);
            }
            else
                v[i] = v[!i], m[i] = m[!i];
        }
        else {
            const int i = op % 2, o = op / 2 % 4, k = op / 8;
            OP("v%d %c= operand %d", i, "+-*/"[o], k);
            auto run = [&](auto&& b) {
                switch(o) {
                    case 0: v[i] += b; break;
                    case 1: v[i] -= b; break;
                    case 2: v[i] *= b; break;
                    case 3: v[i] /= b; break;
                }
            };
            Arr<T, N> b;
            if(k < 2)
                b = m[k];
            else if(k < operands - 1)
                b.a.fill(m[(k - 2) / N][(k - 2) % N]);
            else
                b.a.fill(T(2));
            for(std::size_t c = 0; c < N; ++c) {
                if(o == 3 && b[c] == T(0))
                    return false;
                if(o == 3 && std::is_integral_v<T> && b[c] == T(-1) && m[i][c] == std::numeric_limits<T>::min())
                    return false;
                if(std::is_signed_v<T>) {
                    const double r = o == 0 ? double(m[i][c]) + b[c] : o == 1 ? double(m[i][c]) - b[c] : o == 2 ? double(m[i][c]) * b[c] : 0;
                    if(std::abs(r) > 1e6)
                        return false;
                }
            }
            if(k < 2)
                run(v[k]);
            else if(k < operands - 1)
                run(v[(k - 2) / N][(k - 2) % N]);  // a component of a vector, perhaps the one being changed
            else
                run(T(2));
            for(std::size_t c = 0; c < N; ++c)
                m[i][c] = f(o, m[i][c], b[c]);
        }
        for(int i = 0; i < 2; ++i)
            if(!same(v[i], m[i]))
                mc::fail("v%d is %s, expected %s", i, show<Vector<T, N>, N>(v[i]).c_str(), show<Arr<T, N>, N>(m[i]).c_str());
        return true;
    }
    std::string key() { return show<Arr<T, N>, N>(m[0]) + show<Arr<T, N>, N>(m[1]); }
    void finish() {}
};

// ---- geometry ---------------------------------------------------------------------------------------
template<typename T>
bool close(T got, long double want, long double scale) {
    return std::abs((long double)got - want) <= 8 * std::numeric_limits<T>::epsilon() * scale || (std::isnan(got) && std::isnan(want));
}
template<typename T, std::size_t N>
void geometry() {
    mc::g_trail->loglen = 0;
    mc::log("geometry of Vector<%s, %zu>", type_name<T>, N);
    constexpr bool fp = std::is_floating_point_v<T>;
    grid<T, N, T>([&](const Arr<T, N>& x) {
        const Vector<T, N> v = make(x);
        auto ctx             = [] { return std::string(); };
        long double sq       = 0;
        for(T c : x.a)
            sq += (long double)c * c;
        const long double len = std::sqrt(sq);
        if constexpr(fp) {
            REQUIRE(close(v.length(), len, len) && close(length(v), len, len), "the length of %s is %Lg, %Lg; not %Lg", show<Arr<T, N>, N>(x).c_str(), (long double)v.length(),
                    (long double)length(v), len);
            static_assert(std::is_same_v<decltype(v.length()), T> && std::is_same_v<decltype(length(v)), T>);
            if(sq > 0) {
                const auto n = v.normalize(), n2 = normalize(v);
                static_assert(std::is_same_v<decltype(n), const Vector<T, N>> && std::is_same_v<decltype(n2), const Vector<T, N>>);
                for(std::size_t i = 0; i < N; ++i)
                    REQUIRE(close(n[i], x[i] / len, 1) && close(n2[i], x[i] / len, 1), "component %zu of %s normalized is %Lg, %Lg; not %Lg", i, show<Arr<T, N>, N>(x).c_str(),
                            (long double)n[i], (long double)n2[i], x[i] / len);
            }
        }
        if constexpr(std::is_signed_v<T>) {
            Arr<T, N> s;
            for(std::size_t i = 0; i < N; ++i)
                s[i] = T(x[i] < 0 ? -1 : x[i] > 0 ? 1 : 0);
            CHECK(sign(v), s, "sign");
        }
        mc::evaluated_once(N > 1);
        grid<T, N, T, (N > 5 ? 2 : N > 3 ? 3 : 99)>([&](const Arr<T, N>& y) {
            const Vector<T, N> w = make(y);
            auto ctx             = [&] { return show<Arr<T, N>, N>(y); };
            T d                  = 0;
            long double dist     = 0;
            for(std::size_t i = 0; i < N; ++i) {
                d = static_cast<T>(d + x[i] * y[i]);
                dist += ((long double)x[i] - y[i]) * ((long double)x[i] - y[i]);
            }
            static_assert(std::is_same_v<decltype(dot(v, w)), T>);
            REQUIRE(dot(v, w) == d && dot(w, v) == d, "dot(%s, %s)", show<Arr<T, N>, N>(x).c_str(), ctx().c_str());
            if constexpr(fp) {
                dist = std::sqrt(dist);
                REQUIRE(close(distance(v, w), dist, dist), "distance(%s, %s) is %Lg, not %Lg", show<Arr<T, N>, N>(x).c_str(), ctx().c_str(), (long double)distance(v, w), dist);
            }
            Arr<T, N> r;
            for(std::size_t i = 0; i < N; ++i)
                r[i] = static_cast<T>(x[i] - static_cast<T>(static_cast<T>(y[i] * d) * T(2)));
            CHECK(reflect(v, w), r, "reflect");
            if constexpr(N == 3) {
                Arr<T, 3> c;
                for(int i = 0; i < 3; ++i)
                    c[i] = static_cast<T>(x[(i + 1) % 3] * y[(i + 2) % 3] - x[(i + 2) % 3] * y[(i + 1) % 3]);
                CHECK(cross(v, w), c, "cross");
            }
            if constexpr(std::is_signed_v<T>) {
                if(d != T(0)) {
                    Arr<T, N> f, g, n;
                    for(std::size_t i = 0; i < N; ++i) {
                        f[i] = static_cast<T>(i + 1);
                        n[i] = static_cast<T>(-f[i]);
                    }
                    g = d < T(0) ? f : n;
                    CHECK(faceforward(make(f), v, w), g, "faceforward");
                }
            }
            if(!same(w, y) || !same(v, x))
                mc::fail("an operand was changed");
            mc::evaluated_once(N > 1);
        });
    });
    mc::sample(mc::g_trail->log);
}
template<typename T, typename U, std::size_t N>
void interpolate() {
    using xme::math::lerp;
    using xme::math::mix;
    mc::g_trail->loglen = 0;
    mc::log("lerp of Vector<%s, %zu> by %s", type_name<T>, N, type_name<U>);
    constexpr auto ps = [] {
        if constexpr(std::is_same_v<U, bool>)
            return std::array{false, true};
        else if constexpr(std::is_floating_point_v<U>)
            return std::array<U, 6>{U(0), U(0.25), U(0.5), U(1), U(2), U(-1)};
        else
            return std::array<U, 3>{U(0), U(1), U(2)};
    }();
    auto blend = [](T a, T b, U p) { return std::is_same_v<U, bool> ? (p ? b : a) : static_cast<T>(b * static_cast<T>(p) + a * (1 - static_cast<T>(p))); };
    grid<T, N, T, (N > 3 ? 2 : 99)>([&](const Arr<T, N>& x) {
        const Vector<T, N> v = make(x);
        grid<T, N, T, (N > 2 ? 2 : 99)>([&](const Arr<T, N>& y) {
            const Vector<T, N> w = make(y);
            auto expect          = [&](auto&& ctx, auto&& got, const Arr<T, N>& want, const char* what) { CHECK(got, want, what); };
            for(U p : ps) {
                auto ctx = [&] { return show<Arr<T, N>, N>(y) + " by " + std::to_string(p); };
                Arr<T, N> e;
                for(std::size_t i = 0; i < N; ++i)
                    e[i] = blend(x[i], y[i], p);
                expect(ctx, lerp(v, w, p), e, "lerp");
                expect(ctx, mix(v, w, p), e, "mix");
            }
            // a percentage per component: each takes each value, the others another
            for(std::size_t k = 0; k < N; ++k)
                for(U p : ps)
                    for(U q : ps) {
                        Arr<U, N> by;
                        by.a.fill(q);
                        by[k]    = p;
                        auto ctx = [&] { return show<Arr<T, N>, N>(y) + " by " + show<Arr<U, N>, N>(by); };
                        Arr<T, N> e;
                        for(std::size_t i = 0; i < N; ++i)
                            e[i] = blend(x[i], y[i], by[i]);
                        expect(ctx, lerp(v, w, make(by)), e, "lerp by component");
                        expect(ctx, mix(v, w, make(by)), e, "mix by component");
                    }
        });
    });
    mc::sample(mc::g_trail->log);
}

// ---- values that use the whole precision of their type ----------------------------------------------
template<typename T>
constexpr auto fine_values() {
    if constexpr(std::is_floating_point_v<T>)
        return std::array<T, 4>{T(1) / T(3), T(1) + std::numeric_limits<T>::epsilon(), -T(1) / T(7), T(22.5L + 1.L / 11)};
    else if constexpr(sizeof(T) == 8)
        return std::array<T, 4>{(T(1) << 53) + 1, T(3), T(0) - ((T(1) << 54) + 3), T(5)};
    else if constexpr(sizeof(T) == 4)
        return std::array<T, 4>{(T(1) << 24) + 1, T(3), T(0) - ((T(1) << 25) + 3), T(5)};
    else
        return std::array<T, 4>{std::numeric_limits<T>::max(), T(3), std::numeric_limits<T>::min(), T(1) << (8 * sizeof(T) - 3) | 1};
}
template<typename T, std::size_t N>
void fine() {
    mc::g_trail->loglen = 0;
    mc::log("Vector<%s, %zu> of values of full precision", type_name<T>, N);
    constexpr bool fp = std::is_floating_point_v<T>;
    constexpr auto vs = fine_values<T>();
    auto ok           = [](T got, T want, T scale) {
        if constexpr(fp)
            return close(got, want, std::abs(scale));
        else
            return got == want;
    };
    auto check = [&](const auto& got, const Arr<T, N>& want, const Arr<T, N>& scale, const char* what) {
        static_assert(std::is_same_v<std::remove_cvref_t<decltype(got)>, Vector<T, N>>);
        for(std::size_t i = 0; i < N; ++i)
            REQUIRE(ok(got[i], want[i], scale[i]), "component %zu of %s is %s, not %s", i, what, std::to_string(got[i]).c_str(), std::to_string(want[i]).c_str());
        mc::evaluated_once(N > 1);
    };
    // every pair of values meets in every component
    for(std::size_t a = 0; a < vs.size(); ++a)
        for(std::size_t b = 0; b < vs.size(); ++b) {
            Arr<T, N> x, y, mag;
            for(std::size_t i = 0; i < N; ++i) {
                x[i]   = vs[(a + i) % vs.size()];
                y[i]   = vs[(b + i * 3) % vs.size()];
                if constexpr(fp)
                    mag[i] = std::abs(x[i]) + std::abs(y[i]);
            }
            const Vector<T, N> v = make(x), w = make(y);
            auto all             = [&](auto f, auto&& apply) {  // the results, unless one of them overflows
                Arr<T, N> r;
                for(std::size_t i = 0; i < N; ++i)
                    if(!f(x[i], y[i], r[i]))
                        return;
                apply(r);
            };
            auto plus = [](T p, T q, T& r) {
                if constexpr(std::is_signed_v<T> && !fp)
                    return !__builtin_add_overflow(p, q, &r);
                else
                    return r = static_cast<T>(p + q), true;
            };
            auto minus = [](T p, T q, T& r) {
                if constexpr(std::is_signed_v<T> && !fp)
                    return !__builtin_sub_overflow(p, q, &r);
                else
                    return r = static_cast<T>(p - q), true;
            };
            auto times = [](T p, T q, T& r) {
                if constexpr(std::is_signed_v<T> && !fp)
                    return !__builtin_mul_overflow(p, q, &r);
                else {
                    if constexpr(sizeof(T) < sizeof(int))
                        return r = static_cast<T>(unsigned(p) * unsigned(q)), true;
                    else
                        return r = static_cast<T>(p * q), true;
                }
            };
            auto over = [](T p, T q, T& r) {
                if(q == T(0) || (std::is_signed_v<T> && !fp && q == T(-1)))
                    return false;
                return r = static_cast<T>(p / q), true;
            };
            all(plus, [&](auto& r) {
                check(v + w, r, mag, "v + w");
                auto c = v;
                check(c += w, r, mag, "v += w");
            });
            all(minus, [&](auto& r) {
                check(v - w, r, mag, "v - w");
                auto c = v;
                check(c -= w, r, mag, "v -= w");
            });
            all(times, [&](auto& r) {
                check(v * w, r, r, "v * w");
                auto c = v;
                check(c *= w, r, r, "v *= w");
            });
            all(over, [&](auto& r) {
                check(v / w, r, r, "v / w");
                auto c = v;
                check(c /= w, r, r, "v /= w");
            });
            const T s  = vs[b];
            auto with  = [&](auto f) { return [&, f](T p, T, T& r) { return f(p, s, r); }; };
            Arr<T, N> smag;
            if constexpr(fp)
                for(std::size_t i = 0; i < N; ++i)
                    smag[i] = std::abs(x[i]) + std::abs(s);
            all(with(plus), [&](auto& r) {
                check(v + s, r, smag, "v + s");
                auto c = v;
                check(c += s, r, smag, "v += s");
            });
            all(with(minus), [&](auto& r) {
                check(v - s, r, smag, "v - s");
                auto c = v;
                check(c -= s, r, smag, "v -= s");
            });
            all(with(times), [&](auto& r) {
                check(v * s, r, r, "v * s");
                auto c = v;
                check(c *= s, r, r, "v *= s");
            });
            all(with(over), [&](auto& r) {
                check(v / s, r, r, "v / s");
                auto c = v;
                check(c /= s, r, r, "v /= s");
            });
            // values no other type of number holds are kept, compared and negated as they are
            check(v, x, Arr<T, N>{}, "a copy");
            check((Vector<T, N>(s)), [&] { Arr<T, N> r; r.a.fill(s); return r; }(), Arr<T, N>{}, "construction from a scalar");
            check([&]<std::size_t... I>(std::index_sequence<I...>) { return Vector<T, N>(x[I]...); }(std::make_index_sequence<N>{}), x, Arr<T, N>{}, "construction from components");
            check((Vector<T, N>(v)), x, Arr<T, N>{}, "a copy");
            REQUIRE((v == w) == (x == y) && (v != w) == (x != y), "v == w");
            auto cmp = std::lexicographical_compare_three_way(x.a.begin(), x.a.end(), y.a.begin(), y.a.end());
            REQUIRE((v <=> w) == cmp && (v < w) == (cmp < 0) && (v >= w) == (cmp >= 0), "v <=> w");
            {
                auto less = x;  // differs by as little as can be
                if constexpr(fp)
                    less[N - 1] = std::nextafter(less[N - 1], -std::numeric_limits<T>::infinity());
                else
                    less[N - 1] = static_cast<T>(less[N - 1] - (less[N - 1] == std::numeric_limits<T>::min() ? -1 : 1));
                const auto l = make(less);
                REQUIRE(!(l == v) && l != v && (l < v) == (less[N - 1] < x[N - 1]) && (v < l) == (x[N - 1] < less[N - 1]), "vectors that are almost the same are confused");
            }
            if constexpr(std::is_signed_v<T>) {
                auto n = x;
                bool can = true;
                for(auto& c : n.a)
                    can = can && (fp || c != std::numeric_limits<T>::min()), c = can ? static_cast<T>(-c) : c;
                if(can)
                    check(-v, n, Arr<T, N>{}, "-v");
            }
            {
                T d = 0, dmag = 0;
                bool can = true;
                for(std::size_t i = 0; i < N && can; ++i) {
                    T t{};
                    can = times(x[i], y[i], t) && plus(d, t, d);
                    if constexpr(fp)
                        dmag += std::abs(t);
                }
                if(can)
                    REQUIRE(ok(dot(v, w), d, dmag) && ok(dot(w, v), d, dmag), "dot is %s, not %s", std::to_string(dot(v, w)).c_str(), std::to_string(d).c_str());
            }
            if constexpr(fp) {
                T d = 0, dist = 0, big = 0;
                for(std::size_t i = 0; i < N; ++i) {
                    d += x[i] * y[i];
                    dist += (x[i] - y[i]) * (x[i] - y[i]);
                    big += std::abs(x[i] * y[i]);
                }
                dist = std::sqrt(dist);
                REQUIRE(ok(distance(v, w), dist, 32), "distance");
                Arr<T, N> r, scale, blend, bymask;
                const T by = T(1) / T(9);
                auto per   = make(y) * T(0.25L);
                for(std::size_t i = 0; i < N; ++i) {
                    r[i]      = x[i] - y[i] * d * T(2);
                    scale[i]  = std::abs(x[i]) + std::abs(y[i]) * big * 2;
                    blend[i]  = y[i] * by + x[i] * (T(1) - by);
                    bymask[i] = y[i] * (y[i] * T(0.25L)) + x[i] * (T(1) - y[i] * T(0.25L));
                }
                check(reflect(v, w), r, scale, "reflect");
                check(xme::math::lerp(v, w, by), blend, mag, "lerp");
                check(xme::math::mix(v, w, by), blend, mag, "mix");
                Arr<T, N> much;
                for(std::size_t i = 0; i < N; ++i)
                    much[i] = 8 * mag[i];
                check(xme::math::lerp(v, w, per), bymask, much, "lerp by component");
                check(xme::math::mix(v, w, per), bymask, much, "mix by component");
                if constexpr(N == 3) {
                    Arr<T, 3> c, cs;
                    for(int i = 0; i < 3; ++i) {
                        c[i]  = x[(i + 1) % 3] * y[(i + 2) % 3] - x[(i + 2) % 3] * y[(i + 1) % 3];
                        cs[i] = std::abs(x[(i + 1) % 3] * y[(i + 2) % 3]) + std::abs(x[(i + 2) % 3] * y[(i + 1) % 3]);
                    }
                    check(cross(v, w), c, cs, "cross");
                }
                if(d != T(0)) {
                    auto keep = x, turn = x;
                    for(auto& c : turn.a)
                        c = -c;
                    check(faceforward(v, v, w), d < T(0) ? keep : turn, Arr<T, N>{}, "faceforward");
                }
            }
        }
    mc::sample(mc::g_trail->log);
}

namespace m = xme::math;
template<typename A, typename B>
constexpr bool is = std::is_same_v<A, B>;
static_assert(is<m::bvec2, Vector<bool, 2>> && is<m::bvec3, Vector<bool, 3>> && is<m::bvec4, Vector<bool, 4>>);
static_assert(is<m::ivec2, Vector<std::int32_t, 2>> && is<m::ivec3, Vector<std::int32_t, 3>> && is<m::ivec4, Vector<std::int32_t, 4>>);
static_assert(is<m::uvec2, Vector<std::uint32_t, 2>> && is<m::uvec3, Vector<std::uint32_t, 3>> && is<m::uvec4, Vector<std::uint32_t, 4>>);
static_assert(is<m::vec2, Vector<float, 2>> && is<m::vec3, Vector<float, 3>> && is<m::vec4, Vector<float, 4>>);
static_assert(is<m::dvec2, Vector<double, 2>> && is<m::dvec3, Vector<double, 3>> && is<m::dvec4, Vector<double, 4>>);
static_assert(is<decltype(Vector{1, 2.f}), Vector<float, 2>> && is<decltype(Vector{1, 2, 3}), Vector<int, 3>> && is<decltype(Vector{1.0, 2, 3.f, 4}), Vector<double, 4>>
              && is<decltype(Vector{1, 2, 3, 4, 5L}), Vector<long, 5>>);
static_assert((Vector<int, 3>(1, 2, 3) + Vector<int, 3>(4, 5, 6)).z == 9);

template<std::size_t N, typename T, typename... U>
void size(const std::string& n) {
    const std::string k = "-" + std::to_string(N);
    mc::add(n + "-arithmetic" + k, [] { (arithmetic<T, U, N>(), ...); });
    mc::add(n + "-construct" + k, [] { (construct<T, U, N>(), ...); });
    mc::add(n + "-geometry" + k, [] { geometry<T, N>(); });
    mc::add(n + "-history" + k, [] {
        mc::bfs<Sys<T, N>>({mc::thorough ? 4 : 3});
        mc::st.distinct_extra += mc::st.states;
        mc::st.evals += mc::st.execs;
    });
    mc::add(n + "-fine" + k, [] { fine<T, N>(); });
    if constexpr(std::is_floating_point_v<T>)
        mc::add(n + "-lerp" + k, [] { (interpolate<T, U, N>(), ...), interpolate<T, bool, N>(); });
}
//! vectors longer than the ones whose grids are complete
template<std::size_t N, typename T, typename... U>
void long_size() {
    mc::add("long-" + std::to_string(N), [] {
        (arithmetic<T, U, N>(), ...), (construct<T, U, N>(), ...), geometry<T, N>();
        if constexpr(std::is_floating_point_v<T>)
            (interpolate<T, U, N>(), ...), interpolate<T, bool, N>();
    });
}
template<typename T, typename... U>
void types() {
    std::string n = type_name<T>;
    for(char& c : n)
        c = c == ' ' ? '_' : c;
    size<1, T, U...>(n), size<2, T, U...>(n), size<3, T, U...>(n), size<4, T, U...>(n), size<5, T, U...>(n), size<6, T, U...>(n);
    long_size<7, T, U...>(), long_size<8, T, U...>(), long_size<9, T, U...>(), long_size<16, T, U...>();
}
static void setup() {
#if PART == 1
    types<int, int, float>();
#elif PART == 2
    types<float, float, int>();
#elif PART == 3
    types<double, double, float, short>();
#elif PART == 4
    types<unsigned char, unsigned char, int>();
#elif PART == 5
    types<short, short, double>();
#elif PART == 6
    types<unsigned, unsigned, int>();
#elif PART == 7
    types<long, long, int>();
    mc::add("bool", [] {
        construct<bool, bool, 2>(), construct<bool, bool, 3>(), construct<bool, bool, 4>(), construct<bool, bool, 5>();
    });
#else
    types<long double, long double, unsigned>();
#endif
}
MC_MAIN(setup)
