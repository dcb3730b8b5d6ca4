// C23: quaternions over complete grids of components, against the multiplication table of the basis.
#include "mc.hpp"
#include <array>
#include <compare>
#include <limits>
#include <string>
#include <type_traits>
#include <utility>
#include <xme/math/quaternion.hpp>

using xme::math::Quaternion;
template<typename T>
using Arr = std::array<T, 4>;
template<typename T> constexpr const char* type_name = std::is_same_v<T, float> ? "float" : std::is_same_v<T, double> ? "double" : "long double";

//! basis[i] * basis[j] = sign * basis[index], for 1, i, j, k
constexpr struct {
    int sign, index;
} table[4][4] = {{{1, 0}, {1, 1}, {1, 2}, {1, 3}}, {{1, 1}, {-1, 0}, {1, 3}, {-1, 2}}, {{1, 2}, {-1, 3}, {-1, 0}, {1, 1}}, {{1, 3}, {1, 2}, {-1, 1}, {-1, 0}}};
template<typename T>
Arr<T> hamilton(const Arr<T>& a, const Arr<T>& b) {
    Arr<T> r{};
    for(int i = 0; i < 4; ++i)
        for(int j = 0; j < 4; ++j)
            r[table[i][j].index] += table[i][j].sign * (a[i] * b[j]);
    return r;
}
template<typename T>
std::string show(const Arr<T>& a) {
    char b[128];
    std::snprintf(b, sizeof b, "(%Lg %Lg %Lg %Lg)", (long double)a[0], (long double)a[1], (long double)a[2], (long double)a[3]);
    return b;
}
template<typename T>
Arr<T> read(const Quaternion<T>& q) {
    return {q.w, q.x, q.y, q.z};
}
template<typename T>
Quaternion<T> make(const Arr<T>& a) {
    return Quaternion<T>(a[0], a[1], a[2], a[3]);
}
template<typename Q, typename T>
void check(const Q& q, const Arr<T>& want, const char* what, const Arr<T>& a, const auto& b) {
    static_assert(std::is_same_v<Q, Quaternion<T>>, "the result has another type");
    mc::evaluated_once();
    if(read(q) != want)
        mc::fail("%s %s %s gives %s, expected %s", show(a).c_str(), what, show(b).c_str(), show(read(q)).c_str(), show(want).c_str());
}
//! values < 0: values that need the whole precision of T
template<typename T, typename F>
void grid(int values, F f) {
    const T fine = 1 + 1 / T(1LL << (std::numeric_limits<T>::digits - 4) / 2);  // sums of four products are exact
    const T vs_[] = {0, 1, -2, T(0.5), -1, 3, 5}, whole[] = {0, fine, -1, -fine, -fine / 2};
    const T* vs   = values < 0 ? whole : vs_;
    values        = values < 0 ? -values : values;
    for(int code = 0; code < values * values * values * values; ++code)
        f(Arr<T>{vs[code % values], vs[code / values % values], vs[code / values / values % values], vs[code / values / values / values]});
}

//! every pair of quaternions
template<typename T, typename U>
void pairs(int values) {
    mc::g_trail->loglen = 0;
    mc::log("Quaternion<%s> and Quaternion<%s>", type_name<T>, type_name<U>);
    grid<T>(values, [&](const Arr<T>& a) {
        const Quaternion<T> p = make(a);
        grid<U>(values, [&](const Arr<U>& b) {
            const Quaternion<U> q = make(b);
            const Arr<T> bt{T(b[0]), T(b[1]), T(b[2]), T(b[3])};
            Arr<T> add, sub;
            for(int i = 0; i < 4; ++i)
                add[i] = a[i] + bt[i], sub[i] = a[i] - bt[i];
            check(p * q, hamilton(a, bt), "*", a, b);
            check(p + q, add, "+", a, b);
            check(p - q, sub, "-", a, b);
            if(read(p) != a || read(q) != b)
                mc::fail("an operand was changed: %s, %s", show(a).c_str(), show(b).c_str());
            if constexpr(std::is_same_v<T, U>) {
                auto cmp = std::lexicographical_compare_three_way(a.begin(), a.end(), b.begin(), b.end());
                REQUIRE((p == q) == (a == b) && (p != q) == (a != b), "%s == %s", show(a).c_str(), show(b).c_str());
                REQUIRE((p <=> q) == cmp && (p < q) == (cmp < 0) && (p > q) == (cmp > 0) && (p <= q) == (cmp <= 0) && (p >= q) == (cmp >= 0), "%s <=> %s", show(a).c_str(),
                        show(b).c_str());
                if(values > 0) {
                auto norm = [](const Arr<T>& x) { return x[0] * x[0] + x[1] * x[1] + x[2] * x[2] + x[3] * x[3]; };
                REQUIRE(norm(read(p * q)) == norm(a) * norm(b), "the norm of %s * %s is not the product of the norms", show(a).c_str(), show(b).c_str());
                }
                Quaternion<T> x = p;
                x               = x * q;
                check(x, hamilton(a, b), "x = x *", a, b);
                x = q;
                x = p * x;
                check(x, hamilton(a, b), "x = * x", a, b);
                x = p;
                x = x * x;
                check(x, hamilton(a, a), "x = x * x", a, a);
                mc::evaluated_once();
            }
        });
    });
    mc::sample(mc::g_trail->log);
}
template<typename T>
void triples(int values) {
    mc::g_trail->loglen = 0;
    mc::log("three of Quaternion<%s>", type_name<T>);
    grid<T>(values, [&](const Arr<T>& a) {
        grid<T>(values, [&](const Arr<T>& b) {
            grid<T>(values, [&](const Arr<T>& c) {
                const auto p = make(a), q = make(b), r = make(c);
                REQUIRE((p * q) * r == p * (q * r), "%s %s %s: * is not associative", show(a).c_str(), show(b).c_str(), show(c).c_str());
                REQUIRE(p * (q + r) == p * q + p * r && (p - q) * r == p * r - q * r, "%s %s %s: * is not distributive", show(a).c_str(), show(b).c_str(), show(c).c_str());
                mc::evaluated_once();
            });
        });
    });
    mc::sample(mc::g_trail->log);
}
template<typename T>
void access() {
    mc::g_trail->loglen = 0;
    mc::log("components of Quaternion<%s>", type_name<T>);
    static_assert(sizeof(Quaternion<T>) == 4 * sizeof(T) && std::is_trivially_copyable_v<Quaternion<T>>);
    for(int kind : {7, -5})
    grid<T>(kind, [&](const Arr<T>& a) {
        Quaternion<T> q = make(a);
        const auto& c   = q;
        REQUIRE(read(q) == a, "(%s): the components are %s", show(a).c_str(), show(read(q)).c_str());
        for(int i = 0; i < 4; ++i)
            REQUIRE(q[i] == a[i] && &c[i] == &q[i], "component %d of %s", i, show(a).c_str());
        REQUIRE(&q[0] == &q.w && &q[1] == &q.x && &q[2] == &q.y && &q[3] == &q.z, "the named components are not the indexed ones");
        static_assert(std::is_same_v<decltype(q[0]), T&> && std::is_same_v<decltype(c[0]), const T&>);
        for(int i = 0; i < 4; ++i) {
            Quaternion<T> x = q;
            Arr<T> e        = a;
            x[i] = e[i] = T(-77);
            REQUIRE(read(x) == e && read(q) == a, "writing component %d", i);
        }
        Quaternion<T> copy = q, other{};
        other              = q;
        REQUIRE(copy == q && other == q && read(copy) == a && read(other) == a, "a copy differs");
        mc::evaluated_once();
    });
    const Quaternion<T> zero{};
    REQUIRE(read(zero) == Arr<T>{}, "Quaternion{} is %s", show(read(zero)).c_str());
    const Quaternion<T> mixed(1, 2.5, 3u, short(-4)), fl(1.f, 2.f, 3.f, 4.f);
    REQUIRE(read(mixed) == (Arr<T>{1, T(2.5), 3, -4}) && read(fl) == (Arr<T>{1, 2, 3, 4}), "components of other types");
    if constexpr(std::numeric_limits<T>::has_quiet_NaN) {
        const T nan = std::numeric_limits<T>::quiet_NaN();
        for(int i = 0; i < 4; ++i) {
            Quaternion<T> p(1, 2, 3, 4), q = p;
            p[i]                           = nan;
            REQUIRE(!(p == q) && (p <=> q) == std::partial_ordering::unordered && !(p < q) && !(p == p), "an unordered component");
            if(i > 0) {
                q[0] = 5;
                REQUIRE((p <=> q) == std::partial_ordering::less, "a component after the first difference counts");
            }
            mc::evaluated_once();
        }
    }
    mc::sample(mc::g_trail->log);
}
template<typename A, typename B>
constexpr bool is = std::is_same_v<A, B>;
static_assert(is<decltype(Quaternion(1, 2, 3, 4)), Quaternion<float>> && is<decltype(Quaternion(1.f, 2.f, 3.f, 4.f)), Quaternion<float>>
              && is<decltype(Quaternion(1.0, 2.f, 3, 4)), Quaternion<double>> && is<decltype(Quaternion(1, 2, 3, 4.0)), Quaternion<double>>);
constexpr Quaternion<double> ci(0, 1, 0, 0), cj(0, 0, 1, 0), ck(0, 0, 0, 1);
static_assert(ci * cj == ck && cj * ck == ci && ck * ci == cj && cj * ci == ck * Quaternion<double>(-1, 0, 0, 0) && ci * ci == Quaternion<double>(-1, 0, 0, 0));

static void setup() {
    mc::add("pairs-float", [] { pairs<float, float>(mc::thorough ? 7 : 5); });
    mc::add("pairs-double", [] { pairs<double, double>(mc::thorough ? 7 : 5); });
    mc::add("pairs-long-double", [] { pairs<long double, long double>(mc::thorough ? 6 : 4); });
    mc::add("pairs-mixed", [] { pairs<float, double>(4), pairs<double, float>(4), pairs<long double, float>(4), pairs<float, long double>(4); });
    mc::add("pairs-fine", [] { const int n = mc::thorough ? -5 : -4; pairs<float, float>(n), pairs<double, double>(n), pairs<long double, long double>(n); });
    mc::add("triples-float", [] { triples<float>(mc::thorough ? 4 : 3); });
    mc::add("triples-double", [] { triples<double>(mc::thorough ? 4 : 3); });
    mc::add("access", [] { access<float>(), access<double>(), access<long double>(); });
}
MC_MAIN(setup)
